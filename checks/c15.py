"""C15: joined, stenciled and split files against io.BytesIO over the concatenation."""

import io
import os
import sqlite3
import string
import threading

from rv import compare, gen, view, zoo

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = (
    'A case is a random layout of ranges over in-memory or real files (or a split archive on disk or inside another '
    'archive, with decoy files) and a random program of file operations on several views at once, each result compared '
    'with io.BytesIO over the concatenation; distinct: (class, layout class, operation, position class).'
)
MINIMUM = {'operations': 10000, 'bytes_compared': 5_000_000, 'splits_opened': 60, 'empty_ranges': 100, 'decoys': 50}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.SQLiteBlobFile']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('stencil', 200 * k, 25), ('joined', 160 * k, 20), ('blobs', 40 * k, 10), ('lambda', 40 * k, 20),
            ('split', 120 * k, 10), ('gaps', 60 * k, 10), ('nested', 40 * k, 5), ('links', 12, 4),
            ('threads', 12 * k, 2)]


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario](ctx, i, rng)


class Pair:
    """A file under test next to its reference. raw: reads may be short but never empty before the end."""

    def __init__(self, ctx, file, data, tag, raw, clamps=False):
        self.ctx, self.file, self.data, self.tag, self.raw, self.clamps = ctx, file, data, tag, raw, clamps
        self.position = 0
        self.log = []

    def note(self, op, n=0):
        ctx = self.ctx
        ctx.count('operations')
        ctx.count('oracle_checks')
        ctx.count('bytes_compared', n)
        ctx.distinct(self.tag, op, 'end' if self.position >= len(self.data) else 'start' if not self.position else 'in')
        self.log.append((op, self.position))

    def bad(self, op, text):
        self.ctx.fail(f"{self.tag}:{op}", f"{text}; {len(self.data)} bytes, position {self.position}, after {self.log[-8:]}")
        self.file.seek(0)
        self.position = 0

    def read(self, op, got, size):
        want = self.data[self.position:] if size is None or size < 0 else self.data[self.position:self.position + size]
        self.note(op, len(want))
        if not isinstance(got, (bytes, bytearray)):
            return self.bad(op, f"returned {type(got)}")
        got = bytes(got)
        whole = size is None or size < 0
        if got != want and not (self.raw and not whole and got and want.startswith(got)):
            return self.bad(op, f"got {len(got)} bytes instead of {len(want)}")
        self.position += len(got)

    def step(self, rng):
        n = len(self.data)
        size = rng.choice([0, 1, 2, 3, 17, 4095, 8192, 8193, n, n + 1, rng.randrange(n + 2), rng.randrange(n // 9 + 2)])
        what = rng.randrange(12)
        if what <= 3:
            target = rng.choice([0, n, max(0, n - 1), rng.randrange(n + 1), rng.randrange(n + 1), n + rng.randrange(1, 999)])
            whence = rng.choice([0, 0, 0, 1, 2])
            offset = target - {0: 0, 1: self.position, 2: n}[whence]
            got = self.file.seek(offset, whence)
            self.note('seek')
            self.position = target
            if got != target:
                self.bad('seek', f"seek({offset}, {whence}) returned {got} instead of {target}")
        elif what == 4:
            self.note('tell')
            if self.file.tell() != self.position:
                self.bad('tell', f"tell() returned {self.file.tell()}")
        elif what == 5:
            buffer = bytearray(b'\xee' * size)
            got = self.file.readinto(buffer)
            if any(b != 0xee for b in buffer[got:]):
                return self.bad('readinto', 'changed the buffer after the returned length')
            self.read('readinto', buffer[:got], size)
        elif what == 6:
            self.read('read-all', self.file.read(), -1)
        elif what == 7:
            self.read('read-minus', self.file.read(-1), -1)
        elif what == 8:  # Impossible seeks fail or are clamped and do not derail the file.
            self.note('bad-seek')
            whence = rng.choice([0, 1, 2])
            offset = -{0: 0, 1: self.position, 2: n}[whence] - rng.randrange(1, 100)
            try:
                self.position = self.file.seek(offset, whence)
            except (ValueError, OSError):
                pass
            if self.file.tell() != self.position or self.position < 0:
                self.bad('bad-seek', f"position is {self.file.tell()} after seek({offset}, {whence})")
        elif what == 9:
            self.note('attributes')
            if not self.file.readable() or not self.file.seekable() or self.file.writable() or self.file.closed:
                self.bad('attributes', 'not a seekable readable file')
        else:
            self.read('read', self.file.read(size), size)


def run(ctx, rng, pairs, steps):
    for _ in range(steps):
        rng.choice(pairs).step(rng)


def layout(rng, files, allowed=(0, 0, 1, 2, 5, 100, 4096)):
    ranges = []
    for _ in range(rng.choice([0, 1, 2, 3, 8, 30])):
        index = rng.randrange(len(files))
        n = len(files[index][1])
        offset = rng.randrange(n + 1)
        size = rng.choice([*allowed, n - offset])
        size = min(size, n - offset)
        ranges.append((index, offset, size))
    return ranges


def source_files(ctx, rng):
    files = []
    for k in range(rng.randrange(1, 4)):
        data = rng.randbytes(rng.choice([0, 1, 10, 1000, 9000, 70000]))
        if rng.random() < 0.5:
            files.append((io.BytesIO(data), data))
        else:
            path = gen.write(os.path.join(ctx.mkdir('raw'), 'file'), data)
            files.append((open(path, 'rb', buffering=rng.choice([0, -1])), data))
    return files


def case_stencil(ctx, i, rng):
    from ratarmountcore.StenciledFile import RawStenciledFile, StenciledFile

    files = source_files(ctx, rng)
    pairs = []
    for _ in range(rng.randrange(1, 4)):
        ranges = layout(rng, files)
        ctx.count('empty_ranges', sum(1 for r in ranges if not r[2]))
        data = b''.join(files[k][1][o:o + s] for k, o, s in ranges)
        stencils = [(files[k][0], o, s) for k, o, s in ranges]
        lock = threading.Lock() if rng.random() < 0.5 else None
        raw = rng.random() < 0.4
        file = RawStenciledFile(stencils, lock) if raw else StenciledFile(
            stencils, lock, **({'bufferSize': rng.choice([1, 7, 512, 1 << 20])} if rng.random() < 0.5 else {}))
        pairs.append(Pair(ctx, file, data, 'raw-stenciled' if raw else 'stenciled', raw))
    run(ctx, rng, pairs, 120)


def case_joined(ctx, i, rng):
    from ratarmountcore.StenciledFile import JoinedFile, JoinedFileFromFactory, RawJoinedFileFromFactory

    parts = [rng.randbytes(rng.choice([0, 0, 1, 5, 100, 8191, 20000])) for _ in range(rng.choice([0, 1, 2, 3, 9]))]
    ctx.count('empty_ranges', sum(1 for p in parts if not p))
    data = b''.join(parts)
    folder = ctx.mkdir('parts')
    paths = [gen.write(os.path.join(folder, str(k)), p) for k, p in enumerate(parts)]
    pairs = []
    opened = []
    for _ in range(rng.randrange(1, 3)):
        what = rng.randrange(3)
        if what == 0:
            pairs.append(Pair(ctx, JoinedFile([open(p, 'rb') for p in paths]), data, 'joined', False))
        else:
            def factory(path):
                opened.append(open(path, 'rb'))
                return opened[-1]

            factories = [lambda p=p: factory(p) for p in paths]
            if what == 1:
                pairs.append(Pair(ctx, JoinedFileFromFactory(factories), data, 'joined-factory', False))
            else:
                pairs.append(Pair(ctx, RawJoinedFileFromFactory(factories), data, 'raw-joined-factory', True))
    run(ctx, rng, pairs, 120)
    for pair in pairs:
        pair.file.close()
    ctx.check_that(all(f.closed for f in opened), 'joined-factory:open-after-close',
                   f"{sum(not f.closed for f in opened)} files stay open after close")


def case_blobs(ctx, i, rng):
    """Stored seek points are kept as a list of blobs that are written and read through these classes."""
    from ratarmountcore.SQLiteBlobFile import SQLiteBlobFile, SQLiteBlobsFile, WriteSQLiteBlobs

    connection = sqlite3.connect(':memory:')
    connection.execute('CREATE TABLE t (data BLOB)')
    data = rng.randbytes(rng.choice([0, 1, 10, 4096, 70000]))
    with WriteSQLiteBlobs(connection, 't', blob_size=rng.choice([1000, 4096, 1 << 20])) as file:
        position = 0
        while position < len(data):
            n = rng.choice([1, 50, 1000, 9000, 100000])
            written = file.write(data[position:position + n])
            ctx.equal(written, len(data[position:position + n]), 'blobs:written', 'bytes written')
            position += n
            ctx.equal(file.tell(), min(position, len(data)), 'blobs:tell', 'position of the writer')
    pairs = [Pair(ctx, SQLiteBlobsFile(connection, 't', 'data'), data, 'blobs', False)]
    single = rng.randbytes(rng.randrange(1, 5000))
    connection.execute('CREATE TABLE s (data BLOB)')
    connection.execute('INSERT INTO s VALUES (?)', (single,))
    pairs.append(Pair(ctx, SQLiteBlobFile(connection, 'SELECT {}data{} FROM s'), single, 'blob', True))
    run(ctx, rng, pairs, 80)


def case_lambda(ctx, i, rng):
    from ratarmountcore.StenciledFile import LambdaReaderFile, ZeroFile

    data = rng.randbytes(rng.choice([0, 1, 100, 9000]))
    n = rng.choice([0, 1, 513, 100000])
    run(ctx, rng, [Pair(ctx, LambdaReaderFile(lambda o, s: data[o:o + s], len(data)), data, 'lambda', False),
                   Pair(ctx, ZeroFile(n), bytes(n), 'zero', False)], 100)


def suffixes(rng, count):
    """Names of parts as created by split and other tools."""
    kind = rng.choice(['digits', 'digits', 'alpha', 'hex'])
    base = {'digits': string.digits, 'alpha': string.ascii_lowercase, 'hex': '0123456789abcdef'}[kind]
    start = 0 if kind == 'alpha' else rng.choice([0, 1])
    width = rng.choice([1, 2, 3, 4])
    while len(base) ** width < count + start:
        width += 1

    def number(value):
        text = ''
        for _ in range(width):
            value, digit = divmod(value, len(base))
            text = base[digit] + text
        return text

    if kind == 'hex' and width == 1 and start == 1 and count == 1:
        width = 2
    return kind, width, [number(k + start) for k in range(count)], number(count + start), number(count + start + 1)


def cut(rng, data, count):
    points = sorted(rng.randrange(len(data) + 1) for _ in range(count - 1))
    if rng.random() < 0.6:
        points = [len(data) * (k + 1) // count for k in range(count - 1)]
    return [data[a:b] for a, b in zip([0, *points], [*points, len(data)])]


SPLITTABLE = ['tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'ar', 'cpio', '7z', 'squashfs', 'asar', 'iso']


def make_split(ctx, rng):
    fmt = rng.choice(SPLITTABLE)
    source = zoo.make(fmt, rng, ctx.mkdir('whole'))
    with open(source.path, 'rb') as file:
        data = file.read()
    count = rng.choice([2, 2, 3, 5, 12, 30, 120 if len(data) > 1000 else 4])
    return fmt, source, data, count


def case_split(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    folder = ctx.mkdir('split')
    plain = rng.random() < 0.25
    if plain:
        data = b'\x00\x01' + rng.randbytes(rng.randrange(2, 60000))
        count = rng.choice([2, 3, 11])
        fmt = 'plain'
    else:
        fmt, source, data, count = make_split(ctx, rng)
    kind, width, names, _, _ = suffixes(rng, count)
    stem = rng.choice(['archive', 'ar.chive', 'a b', '.hidden', 'archive.tar']) + rng.choice(['', '.tar', '.bin'])
    for name, part in zip(names, cut(rng, data, count)):
        gen.write(os.path.join(folder, f"{stem}.{name}"), part)
    for decoy in rng.sample([f"{stem}", f"{stem}.txt", f"x{stem}.{names[0]}", f"{stem}x.{names[0]}", f"{stem}.{names[0]}.bak",
                             f"{stem}.{names[0]}{'0' if kind == 'alpha' else 'g'}", 'README'], rng.randrange(0, 5)):
        gen.write(os.path.join(folder, decoy), rng.randbytes(50))
        ctx.count('decoys')
    path = os.path.join(folder, f"{stem}.{names[0]}")
    if rng.random() < 0.3:
        os.chdir(folder)
        path = os.path.basename(path)
    ctx.count('splits_opened')
    ctx.distinct('split', fmt, kind, width, min(count, 13))
    ctx.sample({'format': fmt, 'parts': count, 'first': names[0], 'last': names[-1]})
    with open_mount_source(path) as ms:
        if plain:
            names_seen = list(ms.list('/'))
            ctx.equal(names_seen, [stem], 'split:plain-name', 'the joined file')
            info = ms.lookup('/' + stem)
            ctx.require(info is not None, 'split:plain-lookup', stem)
            ctx.equal(info.size, len(data), 'split:plain-size', stem)
            ctx.check_that(view.read_all(ms, info) == data, 'split:plain-content', f"{count} parts")
            with ms.open(info) as file:
                run(ctx, rng, [Pair(ctx, file, data, 'split-plain', False)], 40)
        else:
            compare.check_tree(ctx, ms, source, f"split-{kind}", without=["owner"] if fmt == "tar.zst" else [])


def case_gaps(ctx, i, rng):
    """After a gap nothing is joined, and a part after the gap does not open the parts before it."""
    from ratarmountcore.mountsource.factory import open_mount_source

    folder = ctx.mkdir('gaps')
    count = rng.choice([2, 3, 6])
    data = b'\x00\x01' + rng.randbytes(3000)
    kind, width, names, gap, after = suffixes(rng, count)
    if len(after) != len(names[0]) or int(after, 36) <= int(names[0], 36):
        return
    for name, part in zip(names, cut(rng, data, count)):
        gen.write(os.path.join(folder, f"file.{name}"), part)
    foreign = b'\x02foreign' + rng.randbytes(100)
    gen.write(os.path.join(folder, f"file.{after}"), foreign)
    ctx.count('decoys')
    with open_mount_source(os.path.join(folder, f"file.{names[0]}")) as ms:
        info = ms.lookup('/file')
        ctx.require(info is not None, 'gaps:lookup', f"{names} and {after}")
        ctx.check_that(view.read_all(ms, info) == data, 'gaps:swallowed', f"{names} joined with {after} after a gap")
    # Something else than what was asked for must not be shown for the part after the gap.
    try:
        ms = open_mount_source(os.path.join(folder, f"file.{after}"))
    except Exception:
        ctx.count('refused')
        ctx.count('splits_opened')
        return
    with ms:
        shown = [view.read_all(ms, info) for _, info in view.walk(ms, '/') if view.kind_of(info.mode) == 'file']
    ctx.check_that(shown in ([], [foreign]), 'gaps:wrong-file', f"file.{after} shows the join of {names}")
    # A lone part is no split.
    lone = os.path.join(ctx.mkdir('lone'), 'x.001')
    gen.write(lone, foreign)
    try:
        with open_mount_source(lone) as ms:
            shown = [view.read_all(ms, info) for _, info in view.walk(ms, '/') if view.kind_of(info.mode) == 'file']
            ctx.equal(shown, [foreign], 'gaps:lone', 'single part')
    except Exception:
        ctx.count('refused')


def case_nested(ctx, i, rng):
    """Split files inside an archive or folder are joined by the recursive layer."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    folder = ctx.mkdir('nested')
    fmt, source, data, count = make_split(ctx, rng)
    count = min(count, 30)
    kind, width, names, gap, after = suffixes(rng, count)
    if kind == 'hex':
        kind, width, names, gap, after = 'digits', 3, [f"{k + 1:03}" for k in range(count)], '', ''
    ext = '.' + fmt
    stem = 'inner' + ext
    for name, part in zip(names, cut(rng, data, count)):
        gen.write(os.path.join(folder, 'd', f"{stem}.{name}"), part)
    gen.write(os.path.join(folder, 'd', 'other.txt'), b'hello')
    container = folder
    if rng.random() < 0.7:
        container = os.path.join(ctx.mkdir('c'), 'outer.tar')
        gen.run(['tar', '-C', folder, '-cf', container, 'd'])
    lazy = rng.random() < 0.5
    ctx.count('splits_opened')
    ctx.distinct('nested', fmt, kind, container == folder, lazy)
    with AutoMountLayer(open_mount_source(container), recursive=True, lazyMounting=lazy) as ms:
        seen = dict(view.walk(ms, '/'))
        base = f"/d/{stem}.{names[0]}"
        inner = {p[len(base):]: info for p, info in seen.items() if p.startswith(base + '/')}
        ctx.check_that(inner, 'nested:not-mounted', lambda: f"{base} is no folder in {sorted(seen)[:8]}")
        if not inner:
            return
        joined = f"/{names[0]}"
        ctx.check_that('/d/other.txt' in seen, 'nested:other', 'unrelated file vanished')
        files = [p for p, info in inner.items() if view.kind_of(info.mode) == 'file']
        first = min(inner, key=len)
        info = inner[first]
        if view.kind_of(info.mode) == 'file' and len(inner) == 1:
            ctx.check_that(view.read_all(ms, info) == data, 'nested:joined-content', f"{first} of {base}")
            ctx.count('bytes_compared', len(data))
        else:
            compare.check_tree(ctx, ms, source, "nested", prefix=base + first, without=["owner"] if fmt == "tar.zst" else [])


def case_links(ctx, i, rng):
    """Symbolic links to split parts."""
    from ratarmountcore.mountsource.factory import open_mount_source

    folder = ctx.mkdir('real')
    source = zoo.make('tar', rng, ctx.mkdir('whole'))
    with open(source.path, 'rb') as file:
        data = file.read()
    names = ['001', '002', '003']
    for name, part in zip(names, cut(rng, data, 3)):
        gen.write(os.path.join(folder, f"data.tar.{name}"), part)
    links = folder if i % 2 else ctx.mkdir('links')
    what = i % 3
    if what == 0:
        for name in names:
            os.symlink(os.path.join(folder, f"data.tar.{name}"), os.path.join(links, f"link.{name}"))
        path = os.path.join(links, 'link.001')
    elif what == 1:
        os.symlink(folder, os.path.join(links, 'folder.link'))
        path = os.path.join(links, 'folder.link', 'data.tar.001')
    else:
        # A link to a complete archive whose target name looks like a part.
        gen.write(os.path.join(folder, 'whole.001'), data)
        gen.write(os.path.join(links, 'whole.002'), b'unrelated')
        os.symlink(os.path.join(folder, 'whole.001'), os.path.join(links, 'link'))
        path = os.path.join(links, 'link')
    ctx.count('splits_opened')
    ctx.distinct('links', what, links == folder)
    with open_mount_source(path) as ms:
        compare.check_tree(ctx, ms, source, f"links{what}")


def case_threads(ctx, i, rng):
    """Several stenciled views of one file object with a common lock, read from several threads."""
    from ratarmountcore.StenciledFile import RawStenciledFile, StenciledFile

    files = [(io.BytesIO(d), d) for d in (rng.randbytes(200000), rng.randbytes(5000))]
    lock = threading.Lock()
    errors = []

    def work(seed):
        import random
        local = random.Random(seed)
        ranges = layout(local, files) or [(0, 0, 1000)]
        data = b''.join(files[k][1][o:o + s] for k, o, s in ranges)
        cls = local.choice([StenciledFile, RawStenciledFile])
        file = cls([(files[k][0], o, s) for k, o, s in ranges], lock)
        for _ in range(150):
            position = local.randrange(len(data) + 1)
            size = local.randrange(1, 3000)
            file.seek(position)
            got = file.read(size)
            want = data[position:position + size]
            if got != want and not (cls is RawStenciledFile and got and want.startswith(got)):
                errors.append((position, size, len(got)))
            counts[0] += 1

    counts = [0]
    import sys
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(rng.random(),)) for _ in range(6)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    ctx.count('operations', counts[0])
    ctx.check_that(not errors, 'threads:wrong-data', lambda: f"{len(errors)} wrong reads, e.g. {errors[:3]}")
