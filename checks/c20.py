"""C20: damaged archives cause errors or shorter data, never wrong data, a crash, or a hang."""

import contextlib
import io
import os
import pickle
import resource
import select
import signal
import stat
import time
import traceback

from rv import core, gen, indexwork, targen, tarwork, view, zoo

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = (
    'A case truncates or corrupts an archive of one of 35 formats (cuts at every kind of boundary, bit flips, overwritten, removed, '
    'inserted, repeated, and zeroed ranges, sizes replaced by huge numbers) and opens, lists, and reads everything in a forked '
    'child with watched memory and bounded CPU time, by path, from memory, or nested in an intact archive; monitors: exit of the child, '
    'ordinary exceptions, all served data compared with the original content (prefix of the right file for cut archives, all '
    'members of cut TARs and AR archives which are complete, all members not hit by a changed byte); distinct: (format, damage, '
    'position, outcome).'
)
MINIMUM = {'children': 1500, 'refused': 250, 'served': 500, 'prefixes': 1500, 'complete_members': 1500, 'untouched_members': 800, 'nested': 60}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.automount', 'libarchive', 'rapidgzip', 'indexed_gzip']
WALL_LIMIT = 900
CPU_LIMIT = 900

CPU_SECONDS = 60  # of a child; ordinary ones need less than a tenth of a second
WALL_SECONDS = 240
MEMORY = 3 << 30


def plan(tier):
    k = 1 if tier == 'quick' else 20
    n = len(zoo.FORMATS)
    return [('cut', 6 * n * k, 6), ('corrupt', 8 * n * k, 6), ('tar', 120 * k, 6), ('ar', 60 * k, 6), ('touched', 60 * k, 6), ('nested', 60 * k, 5),
            ('forged', 3 * n * k, 6)]


class Child:
    """What became of the function in a forked child with bounded CPU time and memory."""

    def __init__(self, ctx, function):
        log = os.path.join(ctx.root, 'stderr')
        read, write = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(read)
                descriptor = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(descriptor, 2)
                os.dup2(descriptor, 1)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS + 5))
                try:
                    payload = pickle.dumps(('value', function()))
                except BaseException as exception:  # noqa
                    payload = pickle.dumps(('error', (type(exception).__name__, str(exception)[:300], traceback.format_exc()[-3000:])))
                with os.fdopen(write, 'wb') as file:
                    file.write(payload)
            finally:
                os._exit(0)
        os.close(write)
        end = time.monotonic() + WALL_SECONDS
        data, self.hung, self.exhausted = b'', False, False
        while True:
            ready, _, _ = select.select([read], [], [], 0.1)
            if not ready:
                # No limit on the address space because the allocator of rapidgzip crashes with it.
                self.exhausted = core.resident(pid) > MEMORY
                self.hung = time.monotonic() > end
                if self.hung or self.exhausted:
                    break
                continue
            chunk = os.read(read, 1 << 20)
            if not chunk:
                break
            data += chunk
        os.close(read)
        if self.hung or self.exhausted:
            os.kill(pid, signal.SIGKILL)
        _, self.status = os.waitpid(pid, 0)
        self.kind, self.value = pickle.loads(data) if data else ('', None)
        self.signal = os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else 0
        with open(log, errors='replace') as file:
            self.stderr = file.read()[-1500:]


def isolated(ctx, function, family):
    """Runs the function; counts a child which was killed or came to no end. Returns its value or None."""
    child = Child(ctx, function)
    if child.signal == signal.SIGXCPU or child.hung:
        child = Child(ctx, function)
        if child.signal == signal.SIGXCPU or child.hung:
            ctx.fail(f"endless:{family}", f"no end after {'%d s' % WALL_SECONDS if child.hung else '%d s of CPU time' % CPU_SECONDS}",
                     stderr=child.stderr)
            return None
    ctx.count('children')
    if child.exhausted:
        ctx.fail(f"exhausted:{family}", f"more than {MEMORY} bytes of memory", stderr=child.stderr)
        return None
    if child.signal:
        mechanism = 'terminate' if 'terminate called' in child.stderr else signal.Signals(child.signal).name
        ctx.fail(f"killed:{mechanism}:{family}", f"the process was killed by {signal.Signals(child.signal).name}", stderr=child.stderr)
        return None
    if child.kind == 'error':
        name, text, trace = child.value
        ctx.fail(f"child:{name}:{family}", f"{name}: {text}", trace=trace)
        return None
    if child.kind != 'value':
        ctx.fail(f"killed:exit:{family}", f"the process ended itself with status {child.status}", stderr=child.stderr)
        return None
    return child.value


def view_of(path, options, asObject=False, nested=False, mayLie=False, limit=3000):
    """('refused', type, text) or ('served', {path: (kind, size, content or None, error)}, problems)."""
    from ratarmountcore.mountsource.factory import open_mount_source

    problems = []
    opened = None
    try:
        if asObject:
            with open(path, 'rb') as file:
                opened = io.BytesIO(file.read())
        ms = open_mount_source(opened if asObject else path, **options)
        if nested:
            from ratarmountcore.mountsource.compositing.automount import AutoMountLayer

            ms = AutoMountLayer(ms, recursive=True, **options)
    except (MemoryError, RecursionError) as exception:
        return ('exhausted', type(exception).__name__, traceback.format_exc()[-2500:])
    except Exception as exception:
        return ('refused', type(exception).__name__, str(exception)[:200])
    entries = {}
    queue = ['/']
    while queue and len(entries) < limit:
        parent = queue.pop()
        try:
            names = ms.list(parent)
            names = [] if names is None else list(names)
        except (MemoryError, RecursionError) as exception:
            problems.append((parent, type(exception).__name__, traceback.format_exc()[-2500:]))
            continue
        except Exception as exception:
            entries[parent] = ('error', 0, None, f"{type(exception).__name__}: {exception}")
            continue
        for name in names:
            full = parent.rstrip('/') + '/' + name
            if full in entries:
                continue
            try:
                info = ms.lookup(full)
                if info is None:
                    entries[full] = ('missing', 0, None, '')
                    continue
                kind = view.kind_of(info.mode)
                if kind == 'dir':
                    entries[full] = ('dir', 0, None, '')
                    if full.count('/') < 100:
                        queue.append(full)
                    continue
                content, error = None, ''
                if kind == 'file':
                    if info.size > 1 << 28:
                        # Do not read terabytes of holes but look into it.
                        with ms.open(info) as file:
                            content = file.read(1 << 20)
                            file.seek(info.size - 10)
                            file.read(100)
                    else:
                        with ms.open(info) as file:
                            content = file.read()
                            more = file.read(1)
                            if more:
                                problems.append((full, 'more', 'data after the end'))
                        if len(content) > info.size and not mayLie:
                            problems.append((full, 'larger', f"{len(content)} bytes in a file of size {info.size}"))
                entries[full] = (kind, info.size, content, error)
            except (MemoryError, RecursionError) as exception:
                problems.append((full, type(exception).__name__, traceback.format_exc()[-2500:]))
            except Exception as exception:
                entries[full] = ('error', 0, None, f"{type(exception).__name__}: {exception}")
    with contextlib.suppress(Exception):
        ms.__exit__(None, None, None)
    return ('served', entries, problems)


def looked_at(ctx, rng, path, options, family, asObject=None, nested=False, mayLie=False):
    """Returns the entries, False if opening was refused, or None if something worse happened."""
    asObject = rng.random() < 0.3 if asObject is None else asObject
    result = isolated(ctx, lambda: view_of(path, options, asObject, nested, mayLie), family)
    if result is None:
        return None
    if result[0] == 'exhausted':
        ctx.fail(f"exhausted:{result[1]}:{family}", result[2])
        return None
    if result[0] == 'refused':
        ctx.count('refused')
        ctx.distinct(family, result[1], result[2][:20])
        return False
    ctx.count('served')
    for where, name, text in result[2]:
        ctx.fail(f"{'exhausted' if name.endswith('Error') else 'data'}:{name}:{family}", f"{where!r}: {text}")
    return result[1]


def a_cut(rng, data, boundaries=()):
    n = len(data)
    return min(n - 1, max(0, rng.choice([
        lambda: rng.randrange(n), lambda: rng.randrange(n), lambda: n - 1 - rng.randrange(min(n, 40)), lambda: rng.randrange(min(n, 600)),
        lambda: rng.randrange(n) // 512 * 512, lambda: (rng.choice(boundaries) + rng.choice([-1, 0, 1])) if boundaries else n // 2,
    ])()))


def corrupt(rng, data):
    """(description, damaged data)"""
    data = bytearray(data)
    n = len(data)
    kind = rng.choice(['bit', 'bit', 'bits', 'byte', 'range', 'zero', 'ones', 'remove', 'insert', 'repeat', 'swap', 'number', 'head', 'tail'])
    at = rng.choice([rng.randrange(n), rng.randrange(min(n, 64)), rng.randrange(min(n, 600)), n - 1 - rng.randrange(min(n, 100))])
    length = min(rng.choice([1, 2, 4, 8, 16, 100, 512]), n - at)
    if kind == 'bit':
        data[at] ^= 1 << rng.randrange(8)
    elif kind == 'bits':
        for _ in range(rng.choice([2, 10, 50])):
            data[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif kind == 'byte':
        data[at] = rng.randrange(256)
    elif kind == 'range':
        data[at:at + length] = rng.randbytes(length)
    elif kind == 'zero':
        data[at:at + length] = bytes(length)
    elif kind == 'ones':
        data[at:at + length] = b'\xff' * length
    elif kind == 'remove':
        del data[at:at + length]
    elif kind == 'insert':
        data[at:at] = rng.randbytes(length)
    elif kind == 'repeat':
        data[at:at] = data[at:at + length] * rng.choice([1, 5])
    elif kind == 'swap':
        other = rng.randrange(n - length + 1)
        data[at:at + length], data[other:other + length] = data[other:other + length], data[at:at + length]
    elif kind == 'number':
        value = rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**40, 2**62, 2**63 - 1, 2**64 - 1])
        raw = rng.choice([value.to_bytes(8, 'little'), value.to_bytes(8, 'big'), (value % 2**32).to_bytes(4, 'little'),
                          (value % 2**32).to_bytes(4, 'big'), b'%d' % value, b'%o' % value])
        data[at:at + len(raw)] = raw
    elif kind == 'head':
        data[:length] = rng.randbytes(length)
    else:
        data[-length:] = rng.randbytes(length)
    return f"{kind}@{at}+{length}", bytes(data)


def some_source(ctx, rng, i):
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    if fmt in ('folder', 'git'):
        fmt = rng.choice(['tar', 'zip', 'ar', 'cpio', 'squashfs', 'tar.gz', 'single.gz'])
    source = zoo.make(fmt, rng, ctx.mkdir(), large=rng.random() < 0.05 and fmt not in ('tar.lzo', 'single.lzo'))
    with open(source.path, 'rb') as file:
        return fmt, source, file.read()


def damaged(ctx, source, data):
    """A new folder for each, so that no index is found."""
    return gen.write(os.path.join(ctx.mkdir(), os.path.basename(source.path)), data)


def cut_case(ctx, i, rng):
    fmt, source, data = some_source(ctx, rng, i)
    options = {**source.options, 'indexFilePath': ':memory:'}
    originals = {path: node.data for path, node in source.tree.items() if node.kind == 'file'}
    with indexwork.open_source(source.path, **options) as ms:
        for path in originals:
            ctx.check_that(ms.lookup(path) is not None, f"intact:{fmt}", f"{path!r} is missing in the intact archive")
    everything = [*originals.values(), data, *([source.raw] if source.raw else [])]
    for _ in range(5):
        at = a_cut(rng, data)
        ctx.about = f"{source.fmt} of {len(data)} bytes cut at {at} {options}"
        entries = looked_at(ctx, rng, damaged(ctx, source, data[:at]), options, fmt)
        if not isinstance(entries, dict):
            continue
        ctx.distinct(fmt, at, len(entries))
        for path, (kind, size, content, error) in entries.items():
            if kind == 'missing':
                ctx.fail(f"missing:{fmt}", f"{path!r} is listed but missing")
            if content is None:
                continue
            ctx.count('prefixes')
            candidates = [originals[path]] if path in originals else everything
            ctx.check_that(any(candidate.startswith(content) for candidate in candidates), f"wrong-data:{fmt}", lambda: (
                f"{path!r} of size {size}: {len(content)} bytes which are not the beginning of " + (
                    f"its {len(originals[path])} bytes, differing at {first_difference(content, originals[path])}" if path in originals else 'anything')))


def first_difference(a, b):
    return next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


def corrupt_case(ctx, i, rng):
    fmt, source, data = some_source(ctx, rng, i)
    options = {**source.options, 'indexFilePath': ':memory:'}
    for _ in range(6):
        what, broken = corrupt(rng, data)
        if rng.random() < 0.2:
            more, broken = corrupt(rng, broken or b'x')
            what += ' ' + more
        ctx.about = f"{source.fmt} of {len(data)} bytes {what} {options}"
        entries = looked_at(ctx, rng, damaged(ctx, source, broken), options, fmt, mayLie=True)
        ctx.distinct(fmt, what, len(entries) if entries else entries)


def forged_case(ctx, i, rng):
    """Beginnings of all formats followed by anything."""
    fmt, source, data = some_source(ctx, rng, i)
    for _ in range(4):
        head = data[:rng.choice([4, 8, 16, 32, 100, 512, 600])]
        rest = rng.choice([
            lambda: rng.randbytes(rng.choice([10, 1000, 20000])), lambda: bytes(rng.choice([100, 10000])), lambda: b'\xff' * rng.choice([100, 10000]),
            lambda: head * rng.choice([3, 50]), lambda: data[len(head) + rng.randrange(1, 100):],
        ])()
        ctx.about = f"{source.fmt}: {len(head)} bytes of it and {len(rest)} others"
        entries = looked_at(ctx, rng, damaged(ctx, source, head + rest), {**source.options, 'indexFilePath': ':memory:'}, fmt, mayLie=True)
        ctx.distinct(fmt, len(head), len(entries) if entries else entries)


def complete_tar(rng):
    members = [m for m in tarwork.random_members(rng, rng.randrange(2, 14), special=0.15) if m.kind != 'hard']
    members.append(targen.Member('file', 'last', data=gen.blob(rng, 700), fmt='gnu'))
    data = targen.build(members)
    starts, position = [], 0
    for member in members:
        starts.append(position)
        position += len(targen.encode(member))
    return members, data, starts + [position]


def tar_case(ctx, i, rng):
    members, data, starts = complete_tar(rng)
    for _ in range(5):
        at = max(1, min(a_cut(rng, data, starts), starts[-1]))
        complete = [m for m, end in zip(members, starts[1:]) if end <= at]
        partial = [m for m, end in zip(members, starts[1:]) if end > at][:1]
        ctx.about = f"TAR of {len(data)} bytes cut at {at} with {len(complete)} complete members"
        path = gen.write(os.path.join(ctx.mkdir(), 'a.tar'), data[:at])
        entries = looked_at(ctx, rng, path, {'indexFilePath': ':memory:'}, 'tar')
        if entries is None:
            continue
        if entries is False:
            ctx.check_that(not complete, 'refused-with-members:tar', f"refused although {len(complete)} members are complete")
            continue
        want = tarwork.expected_tree(complete)
        either = tarwork.expected_tree(complete + partial)
        for name, (kind, size, content, error) in entries.items():
            # Less than a block may be, e.g., a deflate stream.
            ctx.check_that(name in either or at < 512, 'made-up:tar', f"{name!r} is not in the archive")
        for name, (how, member) in want.items():
            if either.get(name) != (how, member):
                continue
            got = entries.get(name)
            if got is None:
                ctx.fail('complete-missing:tar', f"{name!r} is complete but missing")
                continue
            ctx.count('complete_members')
            if member is None:
                ctx.equal(got[0], 'dir', 'complete-kind:tar', name)
                continue
            ctx.equal(got[0], targen.kind_visible(member), 'complete-kind:tar', name)
            if member.kind == 'file':
                ctx.check_that(got[2] == member.data, 'complete-content:tar', lambda: f"{name!r}: {got[3] or 'wrong content'}")
        for name, (how, member) in either.items():
            if name in want or member is None or member.kind != 'file' or name not in entries:
                continue
            content = entries[name][2]
            if content is not None:
                ctx.count('prefixes')
                ctx.check_that(member.data.startswith(content), 'wrong-data:tar', f"{name!r}: {len(content)} bytes")


def ar_case(ctx, i, rng):
    files = [(f"f{k}.o", gen.blob(rng, rng.choice([0, 1, 2, 99, 100, 5000]))) for k in range(rng.randrange(1, 10))]
    data, ends, starts = b'!<arch>\n', [], []
    for name, content in files:
        starts.append(len(data))
        data += b'%-16s%-12d%-6d%-6d%-8o%-10d`\n' % (name.encode() + b'/', 5, 0, 0, 0o100644, len(content)) + content
        ends.append(len(data))
        data += b'\n' * (len(content) % 2)
    for _ in range(5):
        at = max(8, a_cut(rng, data, starts + ends))
        ctx.about = f"AR of {len(data)} bytes cut at {at}, ends {ends}"
        entries = looked_at(ctx, rng, gen.write(os.path.join(ctx.mkdir(), 'a.ar'), data[:at]), {'indexFilePath': ':memory:'}, 'ar')
        complete = [(name, content) for (name, content), end in zip(files, ends) if end <= at]
        if entries is None:
            continue
        if entries is False:
            continue  # The last header is incomplete.
        for name, content in complete:
            ctx.count('complete_members')
            got = entries.get('/' + name)
            ctx.check_that(got is not None and got[2] == content, 'complete-content:ar', f"{name!r}: {got and (got[0], got[1], got[3])}")
        for name, (kind, size, content, error) in entries.items():
            if ctx.check_that(name[1:] in dict(files), 'made-up:ar', name) and content is not None:
                ctx.count('prefixes')
                ctx.check_that(dict(files)[name[1:]].startswith(content), 'wrong-data:ar', f"{name!r}: {len(content)} bytes of {size}")


def touched_case(ctx, i, rng):
    """Changed bytes inside the content of one member change only that."""
    members, data, starts = complete_tar(rng)
    tree = tarwork.expected_tree(members)
    candidates = [k for k, m in enumerate(members) if m.kind == 'file' and m.sparse is None and len(m.data) > 0
                  and tree.get(targen.normalize(m.name)) == ('member', m)]
    for _ in range(3):
        k = rng.choice(candidates)
        member = members[k]
        begin = starts[k + 1] - (len(member.data) + 511) // 512 * 512
        broken = bytearray(data)
        positions = [begin + rng.randrange(len(member.data)) for _ in range(rng.choice([1, 5]))]
        if rng.random() < 0.2:
            positions = list(range(begin, begin + len(member.data)))
        for position in positions:
            broken[position] ^= 1 << rng.randrange(8)
        ctx.about = f"TAR with {len(members)} members with changes at {positions[:5]} in the content of {member.name!r}"
        path = gen.write(os.path.join(ctx.mkdir(), 'a.tar'), bytes(broken))
        entries = looked_at(ctx, rng, path, {'indexFilePath': ':memory:'}, 'tar')
        if not entries:
            ctx.fail('touched-refused:tar', 'refused because of changed content')
            continue
        ctx.equal(sorted(entries), sorted(tree), 'touched-paths:tar', 'paths')
        for name, (how, other) in tree.items():
            if other is None or other.kind != 'file' or name not in entries:
                continue
            content = bytes(broken[begin:begin + len(member.data)]) if other is member else other.data
            ctx.count('untouched_members')
            ctx.check_that(entries[name][2] == content, 'touched-content:tar', lambda: f"{name!r}: {entries[name][3] or 'wrong content'}")


def nested_case(ctx, i, rng):
    """A damaged archive inside an intact one does not affect anything else."""
    fmt, source, data = some_source(ctx, rng, i * 7 + rng.randrange(7))
    others = {f"other{k}": gen.blob(rng, rng.choice([0, 10, 3000])) for k in range(3)}
    for _ in range(3):
        if rng.random() < 0.5:
            at = a_cut(rng, data)
            what, broken = f"cut@{at}", data[:at]
        else:
            what, broken = corrupt(rng, data)
        name = 'n-' + os.path.basename(source.path)
        members = [targen.Member('file', key, data=value, fmt='gnu') for key, value in others.items()]
        members.insert(rng.randrange(4), targen.Member('file', name, data=broken, fmt='gnu'))
        ctx.about = f"{source.fmt} of {len(data)} bytes {what} inside a TAR"
        path = gen.write(os.path.join(ctx.mkdir(), 'a.tar'), targen.build(members))
        entries = looked_at(ctx, rng, path, {'indexFilePath': ':memory:', **({'passwords': source.options['passwords']} if 'passwords' in source.options else {})},
                            fmt, nested=True, mayLie=True)
        ctx.count('nested')
        if entries is False:
            ctx.fail(f"nested-refused:{fmt}", 'the intact archive was refused')
        if not entries:
            continue
        for key, value in others.items():
            got = entries.get('/' + key)
            ctx.check_that(got is not None and got[2] == value, f"nested-other:{fmt}", f"{key}: {got and (got[0], got[1], got[3])}")
        got = entries.get('/' + name)
        if ctx.check_that(got is not None, f"nested-missing:{fmt}", f"{name!r} disappeared") and got[0] == 'file':
            ctx.check_that(got[2] == broken, f"nested-content:{fmt}", f"{name!r} {got[3]}")


def case(ctx, scenario, i, rng):
    {'cut': cut_case, 'corrupt': corrupt_case, 'tar': tar_case, 'ar': ar_case, 'touched': touched_case, 'nested': nested_case,
     'forged': forged_case}[scenario](ctx, i, rng)
