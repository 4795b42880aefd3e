"""C03: threads using one mounted source at the same time against what each of them would get alone."""

import contextlib
import hashlib
import io
import os
import random
import stat
import sys
import threading
import time
import traceback

from checks import c02, c10
from rv import gen, indexwork, view, zoo

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = (
    'A case opens one source (33 formats by path, file object, or an object that yields inside every seek and read; layered; '
    'archives in archives mounted lazily or eagerly; large compressed files with parallel decoders), records all results of a '
    'single thread with another instance, and then lets 2 to 8 threads look up, list, ask for versions and attributes, open, '
    'seek, and read at random with a switch interval between 1 us and the default; each result is compared with that of the '
    'single thread and each exception is a violation; distinct: (format, opening, operation, operations of other threads that '
    'began and ended inside it).'
)
MINIMUM = {'operations': 40000, 'overlapping': 15000, 'reads': 6000, 'threads': 900, 'lazy': 15, 'yields': 20000}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.automount',
           'ratarmountcore.mountsource.compositing.versioning', 'libarchive', 'rapidgzip', 'indexed_gzip', 'indexed_zstd']
WALL_LIMIT = 90
CPU_LIMIT = 400
# LZO does not allow several readers at all; see C02.
FORMATS = [f for f in zoo.FORMATS if not f.endswith('.lzo')]
LARGE = ['single.gz', 'tar.gz', 'single.bz2', 'tar.bz2', 'single.xz', 'tar.xz', 'tar.zst', 'single.zst', 'tar', 'zip', '7z', 'rar', 'squashfs', 'iso']


def plan(tier):
    k = 1 if tier == 'quick' else 25
    return [('format', 5 * len(FORMATS) * k, 5), ('large', 2 * len(LARGE) * k, 2), ('nested', 40 * k, 4)]


class Yielding(io.BytesIO):
    """Lets other threads run between any two accesses."""

    count = 0
    rng = random.Random(0)

    def _yield(self):
        Yielding.count += 1
        time.sleep(0 if Yielding.rng.random() < 0.8 else 1e-4)

    def seek(self, *arguments):
        result = super().seek(*arguments)
        self._yield()
        return result

    def read(self, *arguments):
        self._yield()
        return super().read(*arguments)

    def readinto(self, buffer):
        self._yield()
        return super().readinto(buffer)

    def tell(self):
        result = super().tell()
        self._yield()
        return result


def facts(info):
    if info is None:
        return None
    mtime = 'now' if indexwork.STARTED - 1 <= info.mtime <= time.time() + 1 else info.mtime
    return (info.mode, info.size, mtime, info.uid, info.gid, info.linkname or '')


def listing(names):
    return None if names is None else sorted(names)


def modes(result):
    if result is None:
        return None
    return sorted(result.items()) if isinstance(result, dict) else sorted(result)


class Reference:
    """All answers a single thread gets."""

    def __init__(self, ms):
        self.lookups, self.lists, self.modes, self.versions, self.xattrs, self.contents = {}, {}, {}, {}, {}, {}
        missing = ['/missing', '/missing/too']
        paths = ['/'] + [path for path, _ in view.walk(ms)]
        for path in paths + missing + [path.rstrip('/') + '/nothing' for path in paths[:20]]:
            info = ms.lookup(path)
            self.lookups[path] = facts(info)
            self.versions[path] = ms.versions(path)
            if path in paths:
                self.xattrs[path] = sorted((key, ms.get_xattr(info, key)) for key in ms.list_xattr(info))
            if info is None or stat.S_ISDIR(info.mode):
                self.lists[path] = listing(ms.list(path))
                self.modes[path] = modes(ms.list_mode(path))
            elif stat.S_ISREG(info.mode):
                self.contents[path] = view.read_all(ms, info)
        self.paths = list(self.lookups)
        self.folders = list(self.lists)
        self.files = list(self.contents)
        self.filled = [path for path in self.files if self.contents[path]]


class Team:
    def __init__(self, ctx, ms, reference, tag, lazy=False):
        self.lazy = lazy
        self.ctx, self.ms, self.reference, self.tag = ctx, ms, reference, tag
        self.problems = []
        self.started = self.ended = 0  # of operations of all threads; approximate, only to measure overlaps
        self.kinds = set()
        self.overlaps = 0
        self.operations = 0
        self.reads = 0

    def run(self, rng, count, each, barrier=True):

        gate = threading.Barrier(count)
        threads = [threading.Thread(target=self.work, args=(random.Random(rng.random()), each, gate), daemon=True) for _ in range(count)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        self.ctx.count('threads', count)
        self.ctx.count('operations', self.operations)
        self.ctx.count('oracle_checks', self.operations)
        self.ctx.count('overlapping', self.overlaps)
        self.ctx.count('reads', self.reads)
        for kind in self.kinds:
            self.ctx.distinct(self.tag, *kind)
        for name, text in self.problems[:3]:
            self.ctx.fail(f"{self.tag.split('+')[0]}:{name}", text)

    def work(self, rng, each, gate):
        gate.wait()
        for _ in range(each):
            if self.problems:
                return
            name = rng.choice(['lookup', 'list', 'list_mode', 'versions', 'xattrs', 'version', 'all', 'read', 'read', 'handle'])
            ended, started = self.ended, self.started
            self.started += 1
            try:
                problem = getattr(self, 'do_' + name)(rng)
            except Exception as exception:
                problem = f"{exception!r}\n{traceback.format_exc()[-1500:]}"
                name += ':' + type(exception).__name__
            inside = self.ended - ended
            running = started - ended
            self.ended += 1
            self.operations += 1
            self.overlaps += inside > 0 or running > 0
            self.kinds.add((name, min(inside, 3), min(running, 8)))
            if problem:
                self.problems.append((name, problem))

    def do_lookup(self, rng):
        path = rng.choice(self.reference.paths)
        got = facts(self.ms.lookup(path))
        if got != self.reference.lookups[path]:
            return f"lookup({path!r}) = {got} instead of {self.reference.lookups[path]}"

    def do_list(self, rng):
        path = rng.choice(self.reference.folders)
        got = listing(self.ms.list(path))
        if got != self.reference.lists[path]:
            return f"list({path!r}) = {str(got)[:200]} instead of {str(self.reference.lists[path])[:200]}"

    def do_list_mode(self, rng):
        path = rng.choice(self.reference.folders)
        got = modes(self.ms.list_mode(path))
        if self.lazy:  # Archives in archives are shown as files until something in them was accessed.
            got, want = ([item[0] if isinstance(item, tuple) else item for item in items or []] for items in (got, self.reference.modes[path]))
            return None if got == want else f"list_mode({path!r}) = {got} instead of {want}"
        if got != self.reference.modes[path]:
            return f"list_mode({path!r}) = {str(got)[:200]} instead of {str(self.reference.modes[path])[:200]}"

    def do_versions(self, rng):
        path = rng.choice(self.reference.paths)
        got = self.ms.versions(path)
        if got != self.reference.versions[path]:
            return f"versions({path!r}) = {got} instead of {self.reference.versions[path]}"

    def do_version(self, rng):
        path = rng.choice(self.reference.paths)
        if self.reference.versions[path] == 1 and self.ms.exists(path) != (self.reference.lookups[path] is not None):
            return f"exists({path!r}) is wrong"

    def do_xattrs(self, rng):
        path = rng.choice(list(self.reference.xattrs))
        info = self.ms.lookup(path)
        if info is None:
            return f"lookup({path!r}) = None"
        got = sorted((key, self.ms.get_xattr(info, key)) for key in self.ms.list_xattr(info))
        if got != self.reference.xattrs[path]:
            return f"attributes of {path!r}: {str(got)[:200]} instead of {str(self.reference.xattrs[path])[:200]}"

    def opened(self, path, buffering=-1):
        info = self.ms.lookup(path)
        return self.ms.open(info, buffering=buffering)

    def do_all(self, rng):
        if not self.reference.files:
            return None
        path = rng.choice(self.reference.files)
        with self.opened(path) as file:
            got = file.read()
        self.reads += 1
        return self.same(path, 0, got, self.reference.contents[path])

    def same(self, path, at, got, want):
        if got != want:
            first = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return f"{path!r} at {at}: {len(got)} bytes instead of {len(want)}, first difference at {first}"

    def do_read(self, rng):
        if not self.reference.filled:
            return None
        path = rng.choice(self.reference.filled)
        data = self.reference.contents[path]
        with self.opened(path, rng.choice([-1, 0])) as file:
            for _ in range(rng.choice([1, 3, 10])):
                at = rng.randrange(len(data))
                size = rng.choice([1, 100, 512, 5000, 131072])
                file.seek(at)
                got = file.read(size)
                self.reads += 1
                # Unbuffered reads may be short as for any raw file.
                want = data[at:at + max(1, len(got))] if len(got) < size else data[at:at + size]
                problem = self.same(path, at, got, want)
                if problem:
                    return problem

    def do_handle(self, rng):
        """Many handles of one thread at once."""
        if not self.reference.filled:
            return None
        with contextlib.ExitStack() as stack:
            handles = []
            for _ in range(rng.choice([2, 3])):
                path = rng.choice(self.reference.filled)
                handles.append((path, stack.enter_context(self.opened(path))))
            positions = {}
            for _ in range(8):
                k = rng.randrange(len(handles))
                path, file = handles[k]
                data = self.reference.contents[path]
                size = rng.choice([1, 300, 4096])
                at = positions.get(k, 0)
                got = file.read(size)
                self.reads += 1
                positions[k] = at + len(got)
                problem = self.same(path, at, got, data[at:at + size])
                if problem:
                    return problem


def with_interval(rng, function):
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-6, 1e-5, 1e-4, 0.005]))
    try:
        return function()
    finally:
        sys.setswitchinterval(old)


def opened(rng, source, options):
    from ratarmountcore.mountsource.factory import open_mount_source

    needsPath = not os.path.isfile(source.path) or source.fmt.endswith('zst')
    how = 'path' if needsPath else rng.choice(['path', 'path', 'file', 'yielding', 'yielding'])
    if how == 'path':
        return how, lambda: open_mount_source(source.path, **options)
    if how == 'file':
        return how, lambda: open_mount_source(open(source.path, 'rb'), **options)
    with open(source.path, 'rb') as file:
        data = file.read()
    return how, lambda: open_mount_source(Yielding(data), **options)


def use(ctx, rng, make, tag, each, single, lazy=False):
    """The two instances must not share anything."""

    Yielding.rng = random.Random(rng.random())
    with single as ms:
        reference = Reference(ms)
    before = Yielding.count
    with make() as ms:
        team = Team(ctx, ms, reference, tag, lazy)
        with_interval(rng, lambda: team.run(rng, rng.choice([2, 4, 4, 8]), each))
        # What threads did leaves no traces.
        if not team.problems:
            solo = Team(ctx, ms, reference, tag + '+after', lazy)
            solo.run(rng, 1, 20)
    ctx.count('yields', Yielding.count - before)


def format_case(ctx, i, rng, formats=FORMATS, large=False):
    fmt = formats[i % len(formats)]
    source = zoo.make(fmt, rng, ctx.mkdir(), large=large)
    options = dict(source.options)
    if rng.random() < 0.4:
        options['parallelizations'] = {'': rng.choice([1, 2, 3, 0])}
    if large or fmt.endswith('gz'):
        options['gzipSeekPointSpacing'] = rng.choice([64 * 1024, 1 << 20, 16 << 20])
    how, make = opened(rng, source, options)
    stored = how == 'path' and rng.random() < 0.4
    if stored:
        options.update(writeIndex=True, indexMinimumFileCount=0, indexFilePath=os.path.join(ctx.mkdir(), 'index'))
        with make():
            pass
    ctx.about = f"{source.fmt} by {how} {options}"
    layers = None
    if rng.random() < 0.4:
        state = rng.getstate()
        layers = state

    def layered():
        ms = make()
        if layers is None:
            return ms

        own = random.Random(0)
        own.setstate(layers)
        return c02.layer(ctx, own, ms)[0]

    use(ctx, rng, layered, f"{fmt}+{how}{'+stored' if stored else ''}", 25 if large else 40, layered())


def nested_case(ctx, i, rng):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    maker = c10.Maker(ctx, rng)
    archive = maker.pack(rng.choice(['tar', 'tar', 'zip', 'tar.gz', '7z', 'squashfs', 'tar.bz2']), maker.tree(rng.choice([1, 2])))
    path = gen.write(os.path.join(ctx.mkdir(), 'outer' + archive.suffix if hasattr(archive, 'suffix') else 'outer'), archive.data)
    lazy = rng.random() < 0.6
    options = {'recursive': True, 'lazyMounting': lazy, 'indexFilePath': ':memory:'}
    ctx.about = f"nested {getattr(archive, 'fmt', '')} {options}"

    def make():
        return FileVersionLayer(AutoMountLayer(open_mount_source(path, **options), **options))

    if lazy:
        ctx.count('lazy')
    use(ctx, rng, make, 'nested', 40, make(), lazy)


def case(ctx, scenario, i, rng):
    if scenario == 'nested':
        nested_case(ctx, i, rng)
    else:
        format_case(ctx, i, rng, *((LARGE, True) if scenario == 'large' else ()))
