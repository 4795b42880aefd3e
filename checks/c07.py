"""C07: nothing but index files and temporary files is ever written by read-only use."""

import contextlib
import errno
import gc
import hashlib
import io
import os
import stat
import sys
import tempfile

from checks import c02, c10, c12, c17
from rv import cliwork, faults, fusework, gen, indexwork, targen, view, zoo
from rv.zoo import Node

SHIM = True
PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = (
    'A case builds a small world (sources, home, cache, working, index and temporary folders with bystander files), uses sources '
    'of all formats, folders with nested archives, and archives with hostile names and links through the library, a mount, or the '
    'command line with random index, recursion, and log options, reads everything, and also tries every modifying request. A '
    'preloaded library records each creating, truncating, renaming, or deleting call of the process anywhere; a complete '
    'snapshot (contents, modes, times, inodes, attributes) is compared before and after. Allowed are the index locations that '
    'follow from the options, temporary files gone after closing, the log file, and the mount point. '
    'distinct: (way, format, index option, other options).'
)
ASSUMPTIONS = [
    'Changes by mapped memory or by child processes are only seen by the snapshots.',
    'A missing index folder below the home, cache, or configured folder may be created.',
]
MINIMUM = {'worlds': 250, 'changing_calls': 1500, 'files_compared': 6000, 'indexes_written': 50, 'modifications_tried': 900, 'hostile': 25}
PRELOAD = ['ratarmount.FuseMount', 'ratarmountcore.mountsource.factory', 'libarchive', 'rapidgzip', 'indexed_gzip', 'indexed_zstd']
WALL_LIMIT = 120


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('library', 6 * len(zoo.FORMATS) * k, 6), ('mount', 240 * k, 5), ('command', 120 * k, 5), ('hostile', 60 * k, 5)]


def snapshot(top):
    result = {}
    stack = [top]
    while stack:
        path = stack.pop()
        st = os.lstat(path)
        facts = [st.st_mode, st.st_uid, st.st_gid, st.st_ino, st.st_nlink if not stat.S_ISDIR(st.st_mode) else 0]
        if stat.S_ISDIR(st.st_mode):
            stack += [os.path.join(path, name) for name in os.listdir(path)]
            facts.append(st.st_mtime_ns)
        elif stat.S_ISLNK(st.st_mode):
            facts.append(os.readlink(path))
        else:
            facts += [st.st_mtime_ns, st.st_size]
            if stat.S_ISREG(st.st_mode):
                with open(path, 'rb') as file:
                    facts.append(hashlib.sha1(file.read()).hexdigest())
        facts.append([(key, os.getxattr(path, key, follow_symlinks=False)) for key in os.listxattr(path, follow_symlinks=False)])
        result[path] = facts
    return result


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.top = ctx.mkdir('world')
        self.home, self.cwd, self.data, self.index, self.tmp, self.mnt = (
            os.path.join(self.top, name) for name in ('home', 'cwd', 'data', 'index', 'tmp', 'mnt'))
        for folder in (self.home, self.cwd, self.data, self.index, self.tmp):
            os.mkdir(folder)
        self.environment = {'HOME': self.home, 'TMPDIR': self.tmp}
        if rng.random() < 0.5:
            os.makedirs(os.path.join(self.home, '.cache'))
        if rng.random() < 0.2:
            self.environment['XDG_CACHE_HOME'] = os.path.join(self.home, 'elsewhere')
            os.mkdir(self.environment['XDG_CACHE_HOME'])
        if rng.random() < 0.3:
            os.mkdir(os.path.join(self.home, '.ratarmount'))
        if rng.random() < 0.5:
            os.mkdir(self.mnt)
        for folder, dirs, _ in list(os.walk(self.top)):
            for name in rng.sample(['notes', 'x.index.sqlite', 'y.tar.index.sqlite.gz', 'z.index.sqlite-journal', '.ratarmount-control',
                                    'archive.tar.index.sqlite.bak', '_tmp_x.index.sqlite', '.ratarmount.overlay.sqlite'], rng.randrange(0, 4)):
                if not folder.startswith(self.mnt):
                    gen.write(os.path.join(folder, name), rng.choice([b'', b'text', b'SQLite format 3\0' + bytes(100)]))
        self.log = os.path.join(ctx.root, 'events')
        self.logFile = None
        self.writable = set()  # index locations
        self.parents = set()
        self.named = []  # index folders with the possible ends of names in them, because archives may be found through links

    def index_options(self, archives, default=True):
        """Random options and, from the documentation, the places where an index may then appear."""
        rng = self.rng
        options = {}
        how = rng.choice(['default', 'default', 'memory', 'file', 'folder', 'folders', 'beside', 'missing-folder', 'url', 'read-only'])
        folders = ['', os.path.join(self.home, '.ratarmount')]
        cache = self.environment.get('XDG_CACHE_HOME') or os.path.join(self.home, '.cache')
        folders.append(os.path.join(cache, 'ratarmount'))
        files = []
        if how == 'memory':
            options['indexFilePath'] = ':memory:'
        elif how in ('file', 'url'):
            path = os.path.join(self.index, rng.choice(['my.index', 'ü #1?.sqlite', 'a b']))
            files = [path]
            options['indexFilePath'] = path if how == 'file' else 'file://' + path
        elif how == 'folder':
            folders = [self.index]
            options['indexFolders'] = rng.choice([[self.index], self.index])
        elif how == 'folders':
            folders = [os.path.join(self.home, 'deep', 'index'), '']
            options['indexFolders'] = ['~/deep/index', '']
        elif how == 'missing-folder':
            folders = [os.path.join(self.index, 'new', 'er')]
            options['indexFolders'] = list(folders)
        elif how == 'beside':
            folders = ['']
            options['indexFolders'] = ['']
        elif how == 'read-only':
            options['readOnlyIndex'] = True
            folders = []
        if rng.random() < 0.2 and how != 'read-only':
            options['clearIndexCache'] = True
        if rng.random() < 0.5:
            options['indexMinimumFileCount'] = rng.choice([0, 0, 3])
        for path in files:
            self.writable.add(path)
        for folder in folders:
            for archive in archives:
                name = archive + '.index.sqlite'
                path = os.path.join(folder, name.replace('/', '_')) if folder else name
                self.writable.add(path)
            if folder:
                self.named.append((folder, tuple('_' + os.path.basename(archive) + '.index.sqlite' for archive in archives)))
            while len(folder) > len(self.home) and folder.startswith(self.top):
                self.parents.add(folder)
                folder = os.path.dirname(folder)
        self.how = how
        return options

    def is_index(self, path):
        return path in self.writable or any(
            os.path.dirname(path) == folder and os.path.basename(path).endswith(ends) for folder, ends in self.named)

    def permitted(self, path):
        path = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        for suffix in ('-journal', '-wal', '-shm', ''):
            if path.endswith(suffix) and self.is_index(path.removesuffix(suffix)):
                return True
        if path.startswith(self.tmp + '/') or path in (self.logFile, self.mnt) or path in self.parents:
            return True
        return False

    @contextlib.contextmanager
    def watched(self):
        ctx = self.ctx
        before = snapshot(self.top)
        saved, oldCwd, oldTmp = dict(os.environ), os.getcwd(), tempfile.tempdir
        for name in ('XDG_CACHE_HOME', 'RATARMOUNT_INDEX_TMPDIR'):
            os.environ.pop(name, None)
        os.environ.update(self.environment)
        tempfile.tempdir = None
        os.chdir(self.cwd)
        oldBytecode, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        own = {os.path.realpath(f'/proc/self/fd/{fd}') for fd in (1, 2)} | {self.log}
        faults.arm('/', faults.LOG, log=self.log)
        try:
            yield
        finally:
            gc.collect()
            faults.disarm()
            sys.dont_write_bytecode = oldBytecode
            os.chdir(oldCwd)
            tempfile.tempdir = oldTmp
            os.environ.clear()
            os.environ.update(saved)
        after = snapshot(self.top)
        calls = [(operation, path) for _, operation, path in faults.read_log(self.log)
                 if not path.startswith(('/dev/', '/proc/')) and path not in own]
        ctx.count('changing_calls', len(calls))
        ctx.count('oracle_checks', len(calls) + len(after))
        ctx.count('files_compared', len(before))
        ctx.count('worlds')
        for operation, path in calls:
            if operation == 'mkdir' and (path in before or os.path.realpath(path) in before):
                continue  # refused because it exists
            if not self.permitted(path.removesuffix(' (deleted)')):
                ctx.fail(f"call:{operation}", f"{operation} of {path.replace(self.top, 'WORLD')}")
                break
        changed = {path for path in set(before) | set(after) if before.get(path) != after.get(path)}
        touched = {os.path.dirname(path) for path in changed if self.is_index(path) or path in self.parents | {self.logFile, self.mnt}}
        for path in sorted(changed):
            if self.is_index(path) or path in self.parents or path == self.logFile:
                if self.is_index(path):
                    ctx.count('indexes_written')
                continue
            a, b = before.get(path), after.get(path)
            if a and b and stat.S_ISDIR(a[0]) and a[:5] == b[:5] and a[6:] == b[6:]:
                # Only the time stamp of a folder. Candidates may have been tried out inside it.
                if path in (self.tmp, self.top) or path in touched or any(os.path.dirname(place) == path for place in self.writable | self.parents):
                    continue
            what = 'created' if a is None else 'deleted' if b is None else 'changed'
            ctx.fail(f"{what}:{self.area(path)}", f"{path.replace(self.top, 'WORLD')} was {what}: {str(a)[:200]} -> {str(b)[:200]}")
            break

    def area(self, path):
        return os.path.relpath(path, self.top).split('/')[0]


@contextlib.contextmanager
def refusing(world, always=False):
    """Without an index, some archives cannot be opened."""
    from ratarmountcore.utils import CompressionError, InvalidIndexError, MismatchingIndexError

    try:
        yield
    except (InvalidIndexError, MismatchingIndexError):
        world.ctx.require(world.how in ('file', 'url', 'read-only'), 'refused-index', 'no fitting index can have existed')
        world.ctx.count('refused')
    except CompressionError:
        world.ctx.require(always or world.how == 'read-only', 'refused', 'the archive could not be opened')
        world.ctx.count('refused')


def use(ctx, rng, ms, limit=60):
    """Reads about everything."""
    seen = 0
    for path, info in view.walk(ms):
        seen += 1
        if seen > limit:
            break
        with contextlib.suppress(NotImplementedError):
            ms.list_xattr(info)
        ms.versions(path)
        if stat.S_ISREG(info.mode):
            with contextlib.suppress(OSError, RuntimeError, ValueError):
                with ms.open(info, buffering=rng.choice([-1, 0])) as file:
                    file.read(rng.choice([1, 1000, -1]))
                    with contextlib.suppress(Exception):
                        file.write(b'must not be possible')
                    with contextlib.suppress(Exception):
                        file.truncate(0)
    ms.statfs()
    ctx.count('oracle_checks', seen)


def modify(ctx, rng, ops, paths):
    """Everything that would change something."""
    for path in rng.sample(paths, min(len(paths), 6)) + ['/new']:
        attempts = [
            lambda: ops.create(path, 0o100644, os.O_WRONLY | os.O_CREAT), lambda: ops.mkdir(path, 0o755), lambda: ops.rmdir(path),
            lambda: ops.unlink(path), lambda: ops.rename(path, '/renamed'), lambda: ops.symlink(path, 'target'),
            lambda: ops.link('/hard', path), lambda: ops.chmod(path, 0o100600), lambda: ops.chown(path, 1, 1),
            lambda: ops.truncate(path, 0), lambda: ops.utimens(path, (1, 1)), lambda: ops.mknod(path, 0o100644, 0),
            lambda: ops.setxattr(path, 'user.x', b'1', 0), lambda: ops.removexattr(path, 'user.x'),
        ]
        for attempt in rng.sample(attempts, 5):
            ctx.count('modifications_tried')
            with contextlib.suppress(Exception):
                attempt()
        for flags in (os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_TRUNC, os.O_RDWR | os.O_CREAT, os.O_WRONLY | os.O_APPEND):
            ctx.count('modifications_tried')
            with contextlib.suppress(Exception):
                fh = ops.open(path, flags)
                with contextlib.suppress(Exception):
                    ops.write(path, b'intruder', 0, fh)
                with contextlib.suppress(Exception):
                    ops.truncate(path, 3, fh)
                with contextlib.suppress(Exception):
                    ops.flush(path, fh)
                ops.release(path, fh)


def browse(ctx, rng, ops, mutate=True):
    tree, stack = {}, ['/']
    while stack and len(tree) < 150:
        folder = stack.pop()
        for name, kind in fusework.entries(ops, folder).items():
            path = folder.rstrip('/') + '/' + name
            attributes = ops.getattr(path)
            tree[path] = {'kind': {stat.S_IFLNK: 'link'}.get(stat.S_IFMT(attributes['st_mode']), 'other')}
            if stat.S_ISDIR(attributes['st_mode']):
                stack.append(path)
            elif stat.S_ISREG(attributes['st_mode']) and not folder.startswith('/.ratarmount-control'):
                with contextlib.suppress(OSError, RuntimeError, ValueError):
                    fusework.read_file(ops, path)
    paths = sorted(tree)
    for path in rng.sample(paths, min(len(paths), 10)):
        with contextlib.suppress(OSError):
            ops.listxattr(path)
        if tree[path].get('kind') == 'link':
            ops.readlink(path)
    with contextlib.suppress(OSError):
        ops.statfs('/')
    if mutate:
        modify(ctx, rng, ops, [path for path in paths if not path.startswith('/.ratarmount-control')] or ['/'])
    return len(paths)


def library(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    world = World(ctx, rng)
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    source = zoo.make(fmt, rng, world.data)
    path = source.path
    options = dict(source.options)
    archives = [path] if '://' not in path else []
    options.update(world.index_options(archives))
    if rng.random() < 0.6:
        options['writeIndex'] = True
    if rng.random() < 0.2:
        options['hashes'] = ['crc32']
    if fmt == 'folder' and rng.random() < 0.5:
        options['forceFolderIndex'] = True
    kind = rng.choice(['path', 'path', 'path', 'file']) if os.path.isfile(path) and fmt not in ('tar.zst', 'single.zst') else 'path'
    ctx.about = f"{fmt} by {kind}, {world.how} {options}"
    ctx.distinct('library', fmt, kind, world.how, bool(options.get('writeIndex')))
    with world.watched(), refusing(world):
        for _ in range(rng.choice([1, 1, 2])):  # with the index of the first time
            with contextlib.ExitStack() as stack:
                what = path if kind == 'path' else stack.enter_context(open(path, 'rb+', buffering=0))
                ms = stack.enter_context(open_mount_source(what, **options))
                use(ctx, rng, ms)
            del ms


def folder_with_archives(ctx, rng, world):
    """A folder of files, links to the outside, and archives."""
    top = os.path.join(world.data, 'folder')
    zoo.write_tree(zoo.random_tree(rng, count=rng.randrange(1, 8))[0], top)
    maker = c10.Maker(ctx, rng)
    for k in range(rng.randrange(0, 3)):
        archive = maker.pack(rng.choice(['tar', 'zip', 'tar.gz', 'tar.bz2', 'tar.xz', '7z']), maker.tree(rng.choice([1, 1, 2])))
        gen.write(os.path.join(top, f"archive{k}{archive.suffix}"), archive.data)
    with contextlib.suppress(FileExistsError):
        os.symlink(rng.choice([world.home, '../../home', os.path.join(world.home, 'notes'), '../..']), os.path.join(top, 'outside'))
    return top


def sources_of(ctx, rng, world):
    paths = []
    for k in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['folder', 'tar', 'zoo', 'nested', 'compressed'])
        if kind == 'folder':
            paths.append(folder_with_archives(ctx, rng, world) if not any(path.endswith('/folder') for path in paths) else world.data)
        elif kind == 'tar':
            paths.append(indexwork.tar_archive(rng, world.data, count=rng.randrange(0, 10), name=f"tar{k}")[0])
        elif kind == 'compressed':
            paths.append(gen.write(os.path.join(world.data, f"file{k}.txt.gz"), gen.compress('gz', gen.blob(rng, 5000), rng)))
        elif kind == 'nested':
            maker = c10.Maker(ctx, rng)
            archive = maker.pack('tar', maker.tree(2))
            paths.append(gen.write(os.path.join(world.data, f"nested{k}.tar"), archive.data))
        else:
            fmt = rng.choice([fmt for fmt in zoo.FORMATS if fmt not in ('git', 'html', 'folder', 'tar.lzo')])
            os.makedirs(os.path.join(world.data, str(k)))
            paths.append(zoo.make(fmt, rng, os.path.join(world.data, str(k))).path)
    return paths


def files_of(*tops):
    result = []
    for top in tops:
        if os.path.isdir(top):
            for folder, dirs, names in os.walk(top, followlinks=False):
                result += [os.path.join(folder, name) for name in names + dirs] + [folder]
        else:
            result.append(top)
    return result


def mount(ctx, i, rng):
    world = World(ctx, rng)
    paths = sources_of(ctx, rng, world)
    options = world.index_options(files_of(*paths, world.data))
    for name, values in {
        'recursive': [True], 'lazyMounting': [True, False], 'stripRecursiveTarExtension': [True], 'disableUnionMount': [True],
        'enableFileVersions': [False], 'recursionDepth': [0, 1, 2], 'forceFolderIndex': [True], 'hashes': [['md5']],
        'controlInterface': [True], 'verifyModificationTime': [True],
    }.items():
        if rng.random() < 0.35:
            options[name] = rng.choice(values)
    if rng.random() < 0.2:
        world.logFile = os.path.join(world.cwd, 'the.log')
        options['logFile'] = world.logFile
    point = world.mnt
    if os.path.isdir(paths[0]) and rng.random() < 0.5:
        point = paths[0]  # over itself
    ctx.about = f"mount of {[os.path.basename(path) for path in paths]} {options}"
    ctx.distinct('mount', len(paths), world.how, tuple(sorted(options)))
    existed = os.path.exists(world.mnt)
    with world.watched(), refusing(world):
        ops = fusework.mount(paths, point, **options)
        try:
            ctx.count('oracle_checks', browse(ctx, rng, ops))
        finally:
            fusework.unmount(ops)
        del ops
    ctx.check_that(os.path.exists(world.mnt) == existed, 'mount-point-left', 'the created mount point was not removed or an existing one was')


def command(ctx, i, rng):
    """The command line, also without mounting."""
    world = World(ctx, rng)
    paths = sources_of(ctx, rng, world)
    options = world.index_options(files_of(*paths, world.data))
    arguments = []
    if 'indexFilePath' in options:
        arguments += ['--index-file', options['indexFilePath']]
    if 'indexFolders' in options:
        folders = options['indexFolders']
        arguments += ['--index-folders', folders if isinstance(folders, str) else rng.choice(['[' + ', '.join(f'"{f}"' for f in folders) + ']', ','.join(folders) or '[""]'])]
        if arguments[-1] == '':
            arguments[-1] = '[""]'
    if options.get('readOnlyIndex'):
        arguments.append('--no-recreate-index')
    if options.get('clearIndexCache'):
        arguments.append('-c')
    if 'indexMinimumFileCount' in options:
        arguments += ['--index-minimum-file-count', str(options['indexMinimumFileCount'])]
    for option in (['-r'], ['-l'], ['-s'], ['--recursion-depth', '1'], ['--disable-union-mount'], ['--no-file-versions'], ['--force-folder-index'],
                   ['--verify-mtime'], ['--hashes', 'crc32'], ['-P', '2'], ['--no-color'], ['-d', '0']):
        if rng.random() < 0.25:
            arguments += option
    noMount = rng.random() < 0.35
    if noMount:
        arguments += ['--no-mount']
        positional = list(paths)
    else:
        positional = paths + [world.mnt]
        if rng.random() < 0.2:
            world.logFile = os.path.join(world.cwd, 'the.log')
            arguments += ['--log-file', 'the.log']
    unique = list(dict.fromkeys(positional))
    ctx.about = f"ratarmount {arguments} {[os.path.basename(path) for path in unique]}"
    ctx.distinct('command', noMount, world.how, tuple(sorted(a for a in arguments if a.startswith('-'))))
    environment = dict(world.environment)
    with world.watched():
        result = cliwork.run(arguments + unique, None if noMount else (lambda ops: browse(ctx, rng, ops)), environment=environment)
    if result.error or result.code != 0:
        ctx.count('refused')
        ctx.sample(f"refused {arguments}: {result}"[:600])


def hostile(ctx, i, rng):
    """Names and links that lead to the outside."""
    world = World(ctx, rng)
    fmt = rng.choice(['tar', 'tar', 'zip', 'rar', 'cpio'])
    if fmt == 'tar' and rng.random() < 0.7:
        members = []
        for target in (world.home, '../../home', world.home + '/notes', '/etc', '..', '../../../../../..' + world.home):
            name = f"link{len(members)}"
            members.append(targen.Member('sym', name, linkname=target))
            members.append(targen.Member('file', f"{name}/written", data=b'through a link'))
            members.append(targen.Member('hard', f"hard{len(members)}", linkname=target))
        for name in (world.home + '/absolute', '../' * 12 + world.home[1:] + '/climbed', './../x', '..', '/'):
            members.append(targen.Member('file', name, data=b'escaped'))
        rng.shuffle(members)
        data = targen.build(members)
    else:
        data, _ = c17.encode(rng, fmt, c17.hostile_members(rng))
    path = gen.write(os.path.join(world.data, 'hostile.' + fmt), data)
    options = world.index_options([path])
    if rng.random() < 0.5:
        options['recursive'] = True
    if rng.random() < 0.5:
        options['hashes'] = ['crc32']
    ctx.about = f"hostile {fmt} {options}"
    ctx.distinct('hostile', fmt, world.how)
    ctx.count('hostile')
    with world.watched(), refusing(world, always=True):
        ops = fusework.mount([path], world.mnt, **options)
        try:
            for name in fusework.entries(ops, '/'):
                with contextlib.suppress(OSError, view.ViewProblem):
                    ops.getattr('/' + name)
            with contextlib.suppress(OSError, view.ViewProblem):
                browse(ctx, rng, ops)
            modify(ctx, rng, ops, ['/', '/..', '/link0/written', '/../home/notes'])
        finally:
            fusework.unmount(ops)
        del ops


def case(ctx, scenario, i, rng):
    {'library': library, 'mount': mount, 'command': command, 'hostile': hostile}[scenario](ctx, i, rng)
