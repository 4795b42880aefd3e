"""C25: closing releases descriptors, threads, child processes, and temporary files, also after failed opens."""

import contextlib
import gc
import io
import os
import random
import shutil
import threading
import zlib

from checks import c10, c12, c22
from rv import fusework, gen, view, zoo
from rv.core import HarnessError

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = (
    'A case opens, uses, and closes one source several times (33 formats by path, file object, or part of one, with stored or '
    'created indexes; layered and overlaid mounts; opens that fail because of damaged data, unusable index files, or file '
    'objects raising errors at the n-th access), and compares after each round the open descriptors with their targets, the '
    'threads, the child processes, and the files in the temporary, home, and archive folders with those before; closing is '
    'repeated, and file objects of the caller are used afterwards; distinct: (format, opening, operations, fault).'
)
MINIMUM = {'rounds': 900, 'closed_twice': 300, 'failed_opens': 120, 'caller_objects': 100, 'files_opened': 600, 'mounts': 60, 'nested': 40, 'closed_alive': 100}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmount.FuseMount', 'ratarmount.cli']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    n = len(zoo.FORMATS)
    return [('use', 5 * n * k, 6), ('failed', 6 * n * k, 6), ('mount', 60 * k, 4), ('nested', 40 * k, 4), ('cli', 20 * k, 4)]


class Resources:
    """What this process holds right now."""

    def __init__(self, *folders):
        self.fds = {}
        for name in os.listdir('/proc/self/fd'):
            with contextlib.suppress(OSError):
                target = os.readlink('/proc/self/fd/' + name)
                if not target.endswith('/fd') and 'urandom' not in target:
                    self.fds[name] = target
        self.threads = len(os.listdir('/proc/self/task'))
        self.children = set()
        for task in os.listdir('/proc/self/task'):
            with contextlib.suppress(OSError), open(f"/proc/self/task/{task}/children") as file:
                self.children |= set(file.read().split())
        self.files = set()
        for folder in folders:
            for parent, names, files in os.walk(folder):
                self.files |= {os.path.join(parent, name) for name in names + files}

    def leaked_since(self, before):
        result = {}
        fds = [f"{name} -> {target}" for name, target in self.fds.items() if before.fds.get(name) != target]
        if fds:
            result['descriptors'] = fds
        if self.threads > before.threads:
            result['threads'] = [self.threads - before.threads] + [t.name for t in threading.enumerate()][:4]
        if self.children - before.children:
            result['children'] = sorted(self.children - before.children)
        if self.files - before.files:
            result['files'] = sorted(self.files - before.files)[:6]
        return result


def folders_of(ctx):
    import tempfile

    return [tempfile.gettempdir(), os.path.expanduser('~'), ctx.root]


def settled(ctx, before, folders, allowed=lambda path: False, given=()):
    """What remained; threads that are about to end get a moment."""
    import time

    for attempt in range(40):
        now = Resources(*folders)
        leaked = now.leaked_since(before)
        if 'descriptors' in leaked:
            leaked['descriptors'] = [fd for fd in leaked['descriptors'] if fd.split(' -> ', 1)[1] not in given]
            if not leaked['descriptors']:
                del leaked['descriptors']
        if 'files' in leaked:
            leaked['files'] = [path for path in sorted(now.files - before.files) if not allowed(path)]
            if not leaked['files']:
                del leaked['files']
        if set(leaked) - {'threads', 'children'} or not leaked:
            return leaked
        time.sleep(0.05)
    return leaked


def check(ctx, before, folders, tag, allowed=lambda path: False, given=()):
    leaked = settled(ctx, before, folders, allowed, given)
    for kind, what in leaked.items():
        ctx.fail(f"leak:{tag}:{kind}", f"{ctx.about}: {what}")
    return not leaked


def use(ctx, rng, ms, source):
    """Some operations; returns the files that are still open."""
    opened = []
    paths = [(path, info) for path, info in view.walk(ms)]
    files = [(path, info) for path, info in paths if view.kind_of(info.mode) == 'file']
    for path, info in rng.sample(files, min(len(files), rng.randrange(0, 4))):
        if source and source.fmt == 'tar.lzo' and opened:
            break  # See the known finding of C02.
        buffering = rng.choice([-1, 0, -1])
        file = ms.open(info, buffering=buffering)
        ctx.count('files_opened')
        if rng.random() < 0.8:
            file.read(rng.choice([1, 100, 100_000]))
        opened.append(file)
        if rng.random() < 0.6:
            file.close()
    for path, info in rng.sample(paths, min(len(paths), 3)):
        ms.list_xattr(info)
        ms.versions(path)
        ms.list(path)
    if hasattr(ms, 'join_threads') and rng.random() < 0.2:
        ms.join_threads()
    return opened


def close_all(ctx, rng, ms, opened, tag):
    """Closes files and mount source in a random order, maybe twice."""
    order = rng.choice(['files-first', 'source-first', 'only-source'])
    twice = rng.random() < 0.7
    if order == 'files-first':
        for file in opened:
            file.close()
            if twice:
                with ctx.guard(f"{tag}:close-file-twice", ctx.about):
                    file.close()
    with ctx.guard(f"{tag}:close", ctx.about):
        ms.__exit__(None, None, None)
    if twice:
        with ctx.guard(f"{tag}:close-twice", ctx.about):
            ms.__exit__(None, None, None)
        ctx.count('closed_twice')
    if order == 'source-first':
        for file in opened:
            with ctx.guard(f"{tag}:close-file-after-source", ctx.about):
                file.close()
    return order


def open_it(ctx, rng, source, how, options):
    """Returns (mount source, file object of the caller or None)."""
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.StenciledFile import StenciledFile

    if how == 'path':
        return open_mount_source(source.path, **options), None
    if how == 'file':
        fileobj = open(source.path, 'rb')
    else:
        with open(source.path, 'rb') as file:
            data = file.read()
        fileobj = io.BytesIO(data)
        if how == 'part':
            fileobj = StenciledFile([(io.BytesIO(b'before' + data + b'after'), 6, len(data))])
    return open_mount_source(fileobj, **options), fileobj


def case_use(ctx, i, rng):
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir('source'))
    kinds = ['path', 'path', 'file', 'memory', 'part']
    if fmt in ('folder', 'git'):
        kinds = ['path']
    elif fmt.endswith('zst'):
        kinds = ['path', 'file']
    how = rng.choice(kinds)
    options = dict(source.options or {})
    index = rng.choice(['memory', 'stored', 'default'])
    if index == 'memory':
        options['indexFilePath'] = ':memory:'
    elif index == 'stored':
        options.update(writeIndex=True, indexFilePath=os.path.join(ctx.mkdir('index'), 'x.index.sqlite'), indexMinimumFileCount=0)
    else:
        options.update(writeIndex=True, indexMinimumFileCount=0)
    if fmt == 'folder' and rng.random() < 0.5:
        options['forceFolderIndex'] = True
    folders = folders_of(ctx)
    ctx.about = f"{fmt} {how} {index}"
    ctx.distinct(fmt, how, index)
    allowed = lambda path: path.endswith('.index.sqlite') or '/.cache' in path or path.endswith('.ratarmount')
    seed = rng.random()
    for attempt in range(3):
        again = random.Random(seed)
        gc.collect()
        before = Resources(*folders)
        with contextlib.redirect_stdout(io.StringIO()):
            ms, fileobj = open_it(ctx, again, source, how, options)
            opened = use(ctx, again, ms, source)
            order = close_all(ctx, again, ms, opened, f"use:{fmt}")
        if order == 'files-first':
            # Nothing may depend on the garbage collector.
            opened.clear()
            ctx.count('closed_alive')
            given = () if fileobj is None else (source.path,)
            if not check(ctx, before, folders, f"{fmt}:alive", allowed, given) and attempt:
                return
        if fileobj is not None:
            ctx.count('caller_objects')
            if not ctx.check_that(not fileobj.closed, f"caller:{fmt}:closed", f"{ctx.about}: the file object of the caller was closed"):
                return
            # Libraries given its descriptor move the position, which Python's buffer does not notice without this.
            fileobj.seek(0, io.SEEK_END)
            fileobj.seek(0)
            with open(source.path, 'rb') as file:
                ctx.check_that(fileobj.read() == file.read(), f"caller:{fmt}:content", ctx.about)
            fileobj.close()
        del opened, ms, fileobj
        gc.collect()
        ctx.count('rounds')
        # Libraries may start something once and for all, therefore the first round only counts for files.
        tag = f"{fmt}:{how if fmt in () else ''}{order if order == 'only-source' else 'closed'}"
        if not check(ctx, before, folders, tag, allowed) and attempt:
            return


class Failing(io.RawIOBase):
    """A file object that raises an error at the n-th access."""

    def __init__(self, data, at):
        self.file, self.at, self.n = io.BytesIO(data), at, 0

    def _step(self):
        self.n += 1
        if self.n >= self.at:
            raise OSError(5, 'Input/output error')

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, size=-1):
        self._step()
        return self.file.read(size)

    def readinto(self, buffer):
        self._step()
        return self.file.readinto(buffer)

    def seek(self, offset, whence=0):
        return self.file.seek(offset, whence)

    def tell(self):
        return self.file.tell()


def case_failed(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    fmt = c22.FORMATS[i % len(c22.FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir('source'))
    with open(source.path, 'rb') as file:
        data = file.read()
    fault = rng.choice(['cut', 'cut', 'damaged', 'junk', 'error', 'index-folder', 'index-garbage', 'missing'])
    if fault == 'error' and fmt.endswith('zst'):
        fault = 'cut'
    if fmt.endswith('zlib') and fault in ('cut', 'damaged', 'error'):
        fault = 'missing'  # Rapidgzip aborts the process, see the known findings of C20.
    options = dict(source.options or {})
    options['indexFilePath'] = ':memory:'
    path = os.path.join(ctx.mkdir('bad'), os.path.basename(source.path))
    target = path
    if fault == 'cut':
        data = data[: rng.randrange(len(data))]
    elif fault == 'damaged':
        data = bytearray(data)
        for _ in range(rng.randrange(1, 30)):
            data[rng.randrange(min(len(data), rng.choice([40, 600, len(data)])))] ^= rng.randrange(1, 256)
        data = bytes(data)
    elif fault == 'junk':
        data = c22.junk(rng)[1]
        with contextlib.suppress(zlib.error):
            zlib.decompressobj(-15).decompress(data)
            data = b'\xff' + data  # not the beginning of a headerless deflate stream, for which the same is true
    elif fault == 'index-folder':
        options.update(writeIndex=True, indexFilePath=ctx.mkdir('index.sqlite'), indexMinimumFileCount=0)
    elif fault == 'index-garbage':
        options.update(writeIndex=True, indexFilePath=gen.write(os.path.join(ctx.root, 'i.sqlite'), rng.randbytes(5000)), indexMinimumFileCount=0)
    if fault != 'missing':
        gen.write(path, data)
    elif rng.random() < 0.5:
        path = target = os.path.join(path, 'x')
    ctx.about = f"{fmt} with {fault} of {len(data)} B"
    ctx.distinct(fmt, fault)
    folders = folders_of(ctx)
    at = rng.choice([1, 2, 3, 5, 10, 30])
    for attempt in range(3):
        gc.collect()
        before = Resources(*folders)
        failed = False
        fileobj = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if fault == 'error':
                    fileobj = Failing(data, at)
                    ms = open_mount_source(fileobj, **options)
                else:
                    ms = open_mount_source(target, **options)
            except Exception:
                failed = True
                ctx.count('failed_opens')
            else:
                with contextlib.suppress(Exception):
                    list(view.walk(ms))
                with ctx.guard(f"failed:{fmt}:close", ctx.about):
                    ms.__exit__(None, None, None)
                del ms
        fileobj = None
        gc.collect()
        ctx.count('rounds')
        allowed = lambda path: '/index.sqlite' in path or 'i.sqlite' in path
        if not check(ctx, before, folders, f"{fmt}:{'failed-open' if failed else 'damaged'}", allowed) and attempt:
            return


def case_mount(ctx, i, rng):
    """Whole mounts as the command line tool makes them."""
    folders = folders_of(ctx)
    for attempt in range(2):
        gc.collect()
        before = Resources(*[])
        files = Resources(*folders)
        options = {}
        if rng.random() < 0.5:
            options.update(recursionDepth=rng.choice([-1, 1, 3]), recursive=True)
        if rng.random() < 0.3:
            options['lazyMounting'] = True
        root, ctx.root = ctx.root, ctx.mkdir(f'mount{attempt}')
        ops, sources, overlay, again, kind = c12.setup_mount(ctx, rng, **options)
        ctx.root = root
        ctx.about = f"mount of {kind} with {options}"
        ctx.distinct(kind, sorted(options.items()))
        handles = []
        names = sorted(fusework.tree(ops)) if rng.random() < 0.8 else []
        for path in rng.sample(names, min(len(names), 4)):
            with contextlib.suppress(Exception):
                fh = ops.open(path, os.O_RDONLY)
                ops.read(path, 10, 0, fh)
                handles.append((path, fh))
                ctx.count('files_opened')
        for path, fh in handles:
            if rng.random() < 0.5:
                ops.release(path, fh)
        ctx.count('mounts')
        with ctx.guard('mount:close', ctx.about):
            fusework.unmount(ops)
        if rng.random() < 0.6:
            with ctx.guard('mount:close-twice', ctx.about):
                fusework.unmount(ops)
            ctx.count('closed_twice')
        del ops, handles, again
        gc.collect()
        ctx.count('rounds')
        if not check(ctx, before, [], 'mount'):
            return
        # The sources, the overlay folder, and indexes remain.
        left = [path for path in Resources(*folders).files - files.files
                if not path.startswith(ctx.root) and '.index.sqlite' not in path and '/.cache' not in path and '.ratarmount' not in path]
        ctx.check_that(not left, 'leak:mount:files', f"{ctx.about}: {left}")


def case_nested(ctx, i, rng):
    """Archives inside archives; everything must be released even though the closed mount source still exists."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    maker = c10.Maker(ctx, rng)
    fmt = rng.choice(['tar', 'zip', 'folder', '7z', 'tar.gz'])
    tree = maker.tree(rng.randrange(1, 4))
    path = os.path.join(ctx.mkdir('outer'), 'outer')
    if fmt == 'folder':
        os.mkdir(path)
        zoo.write_tree(tree, path)
    else:
        path = gen.write(path + '.' + fmt, maker.pack(fmt, tree).data)
    options = {'recursive': True, 'recursionDepth': rng.choice([-1, 2, 5]), 'lazyMounting': rng.random() < 0.3}
    if rng.random() < 0.5:
        options['indexFilePath'] = ':memory:'
    else:
        options['indexFolders'] = [ctx.mkdir('indexes')]
        options['writeIndex'] = True
    folders = folders_of(ctx)
    ctx.about = f"{fmt} with nested archives, {options}"
    ctx.distinct('nested', fmt, options['lazyMounting'], options['recursionDepth'], len(tree))
    seed = rng.random()
    for attempt in range(2):
        again = random.Random(seed)
        gc.collect()
        before = Resources(*folders)
        with contextlib.redirect_stdout(io.StringIO()):
            ms = AutoMountLayer(open_mount_source(path, **options), **options)
            opened = use(ctx, again, ms, None)
            first = again.random() < 0.6
            for file in opened if first else ():
                file.close()
            with ctx.guard('nested:close', ctx.about):
                ms.__exit__(None, None, None)
            for file in () if first else opened:
                with ctx.guard('nested:close-file-after-source', ctx.about):
                    file.close()
        opened.clear()
        ctx.count('rounds')
        ctx.count('nested')
        allowed = lambda path: '/indexes' in path or '/.cache' in path or '.ratarmount' in path
        good = check(ctx, before, folders, 'nested:closed', allowed)
        del ms, opened
        gc.collect()
        if not good or not check(ctx, before, folders, 'nested:freed', allowed):
            return


def case_cli(ctx, i, rng):
    """The command line tool, which only creates indexes here."""
    from ratarmount.cli import cli

    fmt = rng.choice(['tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'zip', 'rar', 'sqlar', 'squashfs', 'asar'])
    source = zoo.make(fmt, rng, ctx.mkdir('source'))
    folders = folders_of(ctx)
    missing = rng.random() < 0.3
    arguments = ['--no-mount', source.path + ('x' if missing else ''), os.path.join(ctx.root, 'mnt')]
    ctx.about = f"{arguments}"
    ctx.distinct('cli', fmt, missing)
    for attempt in range(2):
        gc.collect()
        before = Resources(*folders)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                cli(list(arguments))
            except (Exception, SystemExit):
                ctx.count('failed_opens')
        gc.collect()
        ctx.count('rounds')
        allowed = lambda path: '.index.sqlite' in path or '/.cache' in path or path.endswith('.ratarmount')
        if not check(ctx, before, folders, 'cli', allowed) and attempt:
            return


def case(ctx, scenario, i, rng):
    {'use': case_use, 'failed': case_failed, 'mount': case_mount, 'nested': case_nested, 'cli': case_cli}[scenario](ctx, i, rng)
