"""C19: the read-only file system contract of the FUSE operations."""

import errno
import gc
import os
import stat

from checks.c13 import fingerprint
from rv import fusework, gen, targen, tarwork, view, zoo

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = (
    'A case mounts one or several sources (35 formats, TARs with versions, sparse files, attributes; union or subfolders) '
    'without overlay and runs a random program of operations on paths and interleaved handles, each judged with the tree the '
    'sources were made from and the metadata of the separately opened source, mixed with every changing operation, which '
    'must be refused and change neither view nor sources; distinct: (operation, situation, outcome).'
)
MINIMUM = {'operations': 20000, 'reads_compared': 4000, 'refused': 3000, 'missing': 1500, 'attributes': 100, 'cycles': 3000}
PRELOAD = ['ratarmount.FuseMount', 'ratarmountcore.mountsource.factory']


def plan(tier):
    k = 2 if tier == 'quick' else 20
    return [('zoo', 2 * len(zoo.FORMATS) * k, 5), ('tar', 60 * k, 5), ('several', 40 * k, 5), ('leak', 16, 2)]


def expect_error(ctx, what, function, *arguments, codes=None, key=None):
    """The call must raise an OSError and nothing else."""
    try:
        result = function(*arguments)
    except OSError as exception:
        if codes and exception.errno not in codes:
            ctx.fail(f"{key or what}:errno", f"{what}{arguments!r:.200}: {exception!r}")
        ctx.distinct(what, exception.errno)
        return
    except Exception as exception:
        ctx.fail(f"{key or what}:exception", f"{what}{arguments!r:.200}: {exception!r}")
        return
    ctx.fail(f"{key or what}:accepted", f"{what}{arguments!r:.200} returned {result!r:.100}")


class Program:
    def __init__(self, ctx, rng, ops, tree, sources, infos):
        """tree: path -> Node; infos: path -> FileInfo of the source opened on its own"""
        self.ctx, self.rng, self.ops, self.tree, self.sources, self.infos = ctx, rng, ops, tree, sources, infos
        self.handles = []  # (path, fh, data)
        self.released = []
        self.kinds = {}
        for kind in ('file', 'dir', 'sym'):
            self.kinds[kind] = sorted(p for p, n in tree.items() if n.kind == kind)
        self.kinds['dir'].append('/')

    def any_path(self):
        return self.rng.choice(sorted(self.tree) + ['/'])

    def missing_path(self):
        rng = self.rng
        for _ in range(20):
            base = self.any_path().rstrip('/')
            path = rng.choice([base + rng.choice(['x', '/missing', '.x', '~']), '/' + rng.choice(['missing', 'a/b/c', '%', '*']), base.upper() or '/X'])
            if path not in self.tree and path != '/' and not path.endswith('.versions'):
                return path
        return '/missing-for-sure'

    def step_getattr(self):
        path = self.any_path()
        st = self.ops.getattr(path)
        if path == '/':
            self.ctx.check_that(stat.S_ISDIR(st['st_mode']), 'getattr:root', str(st))
            return
        node, info = self.tree[path], self.infos.get(path)
        self.ctx.equal(view.kind_of(st['st_mode']), node.kind, 'getattr:kind', path)
        if node.kind == 'file':
            self.ctx.equal(st['st_size'], len(node.data), 'getattr:size', path)
            self.ctx.check_that(st['st_blocks'] * 512 >= st['st_size'] > (st['st_blocks'] - 1) * 512, 'getattr:blocks', str(st))
        self.ctx.check_that(all(isinstance(v, int) for v in st.values()) and st['st_nlink'] >= 1, 'getattr:types', str(st))
        if info is not None:
            got = (stat.S_IMODE(st['st_mode']), st['st_uid'], st['st_gid'])
            self.ctx.equal(got, (stat.S_IMODE(info.mode), info.uid, info.gid), 'getattr:metadata', path)
            self.ctx.check_that(abs(st['st_mtime'] / 1e9 - info.mtime) < 1e-3 or (node.kind == 'dir' and info.mtime > 1_700_000_000),
                                'getattr:mtime', lambda: f"{path!r}: {st['st_mtime']} {info.mtime}")
            self.ctx.distinct('getattr', node.kind)

    def step_readdir(self):
        path = self.rng.choice(self.kinds['dir'])
        want = {}
        for other, node in self.tree.items():
            if other.rsplit('/', 1)[0] == path.rstrip('/'):
                want[other.rsplit('/', 1)[1]] = node.kind
        fh = self.ops.opendir(path)
        got = {name: None if kind is None else view.kind_of(kind) for name, kind in fusework.entries(self.ops, path, fh).items()}
        self.ops.releasedir(path, fh)
        self.ctx.equal(sorted(got), sorted(want), 'readdir:names', path)
        for name, kind in got.items():
            if kind is not None and name in want:
                self.ctx.equal(kind, want[name], 'readdir:kind', fusework.join(path, name))

    def step_readlink(self):
        if self.kinds['sym']:
            path = self.rng.choice(self.kinds['sym'])
            self.ctx.equal(self.ops.readlink(path), self.tree[path].link, 'readlink', path)

    def step_missing(self):
        path = self.missing_path()
        self.ctx.count('missing')
        for what in self.rng.sample(['getattr', 'readlink', 'open', 'listxattr', 'getxattr'], 2):
            arguments = {'open': (path, os.O_RDONLY), 'getxattr': (path, 'user.x')}.get(what, (path,))
            expect_error(self.ctx, what, getattr(self.ops, what), *arguments, codes={errno.ENOENT}, key=f"{what}:missing")

    def step_open(self):
        if not self.kinds['file'] or len(self.handles) > 7:
            return self.step_release()
        path = self.rng.choice(self.kinds['file'])
        flags = self.rng.choice([os.O_RDONLY, os.O_RDONLY, os.O_RDONLY | os.O_NOATIME, os.O_RDONLY | os.O_CLOEXEC, os.O_RDONLY | os.O_NONBLOCK])
        fh = self.ops.open(path, flags)
        self.ctx.check_that(fh not in [h for _, h, _ in self.handles], 'open:handle-in-use', f"{path!r}: {fh}")
        self.released = [r for r in self.released if r[1] != fh]
        self.handles.append((path, fh, self.tree[path].data))

    def step_read(self):
        if not self.handles:
            return self.step_open()
        path, fh, data = self.rng.choice(self.handles)
        n = len(data)
        for _ in range(self.rng.choice([1, 1, 3])):
            offset = self.rng.choice([0, 0, n, max(0, n - 1), n // 2, self.rng.randrange(n + 1), n + 1, n + 5000])
            size = self.rng.choice([0, 1, 4096, 131072, n, n + 1, self.rng.randrange(n + 2)])
            got = self.ops.read(path, size, offset, fh)
            self.ctx.count('reads_compared')
            want = data[offset : offset + size]
            if got != want:
                kind = 'short' if want.startswith(got) else 'long' if got.startswith(want) else 'wrong'
                self.ctx.fail(f"read:{kind}", f"{path!r} ({n} bytes) read({size}, {offset}): {len(got)} bytes instead of {len(want)}")
            self.ctx.distinct('read', offset < n, offset + size > n, len(self.handles))

    def step_release(self):
        if self.handles:
            path, fh, data = self.handles.pop(self.rng.randrange(len(self.handles)))
            self.ops.flush(path, fh)
            self.ops.release(path, fh)
            self.released.append((path, fh, data))

    def step_stale(self):
        """A released handle must not become that of something else; reading it may fail or be done by path."""
        if self.released:
            path, fh, data = self.rng.choice(self.released)
            try:
                got = self.ops.read(path, 1000, 0, fh)
                self.ctx.check_that(got == data[:1000], 'stale-handle', f"{path!r}: {got[:50]!r}")
            except Exception:
                self.ctx.count('stale_refused')
            expect_error(self.ctx, 'release', self.ops.release, path, fh, key='release:twice')

    def step_attributes(self):
        path = self.any_path()
        names = self.ops.listxattr(path)
        self.ctx.check_that(len(set(names)) == len(names), 'listxattr:twice', f"{path!r}: {names}")
        for name in names:
            self.ctx.check_that(isinstance(self.ops.getxattr(path, name), bytes), 'getxattr:type', f"{path!r} {name}")
            self.ctx.count('attributes')
        wanted = getattr(self.tree.get(path), 'xattrs', None)
        if wanted is not None:
            self.ctx.equal({name: self.ops.getxattr(path, name) for name in names}, wanted, 'xattrs', path)
        for name in ('user.missing', 'security.selinux', 'user.ü'):
            if name not in names:
                expect_error(self.ctx, 'getxattr', self.ops.getxattr, path, name, codes={errno.ENODATA}, key='getxattr:missing')

    def step_statfs(self):
        for key, value in self.ops.statfs(self.any_path()).items():
            self.ctx.check_that(key.startswith('f_') and isinstance(value, int) and 0 <= value < 1 << 64, 'statfs', f"{key}: {value!r}")

    def step_change(self):
        """Any operation that would change something."""
        rng, ops = self.rng, self.ops
        path, other = rng.choice([self.any_path(), self.any_path(), self.missing_path()]), rng.choice([self.any_path(), self.missing_path()])
        calls = {
            'chmod': (path, rng.choice([0, 0o777, 0o100644])), 'chown': (path, rng.choice([0, 1000, -1]), 0), 'create': (path, 0o100644, os.O_WRONLY),
            'link': (path, other), 'symlink': (path, 'target'), 'mkdir': (path, 0o755), 'mknod': (path, 0o100644, 0), 'rename': (path, other),
            'rmdir': (path,), 'unlink': (path,), 'truncate': (path, rng.choice([0, 5])), 'utimens': (path, (0, 0)), 'setxattr': (path, 'user.a', b'1', 0),
            'removexattr': (path, 'user.a'),
        }
        what = rng.choice([*calls, 'write', 'write', 'ftruncate', 'open-trunc'])
        self.ctx.count('refused')
        if what in calls:
            if getattr(getattr(ops, what), 'libfuse_ignore', False):
                return None  # It is not even registered, so that libfuse refuses it.
            return expect_error(self.ctx, what, getattr(ops, what), *calls[what], key=f"change:{what}")
        if not self.kinds['file']:
            return None
        path = rng.choice(self.kinds['file'])
        try:
            fh = ops.open(path, rng.choice([os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_TRUNC]))
        except OSError:
            return None  # may already be refused here
        if what == 'write':
            expect_error(self.ctx, what, ops.write, path, b'changed', rng.choice([0, 3]), fh, key='change:write')
        elif what == 'ftruncate':
            expect_error(self.ctx, what, ops.truncate, path, 0, fh, key='change:ftruncate')
        self.ctx.check_that(ops.read(path, 100, 0, fh) == self.tree[path].data[:100], 'change:visible', path)
        ops.fsync(path, 0, fh)
        ops.release(path, fh)
        return None

    def run(self, steps):
        weights = {'getattr': 10, 'readdir': 5, 'readlink': 3, 'missing': 8, 'open': 8, 'read': 25, 'release': 5, 'stale': 3,
                   'attributes': 3, 'statfs': 1, 'change': 14}
        before = fingerprint(self.sources)
        for what in self.rng.choices(list(weights), list(weights.values()), k=steps):
            self.ctx.count('operations')
            getattr(self, 'step_' + what)()
        while self.handles:
            self.step_release()
        got = fusework.tree(self.ops)
        self.ctx.equal(sorted(got), sorted(self.tree), 'end:paths', '')
        for path, facts in got.items():
            node = self.tree.get(path)
            if node is not None:
                self.ctx.equal(facts['kind'], node.kind, 'end:kind', path)
                if node.kind == 'file':
                    self.ctx.check_that(facts.get('data') == node.data, 'end:content', path)
        self.ctx.check_that(fingerprint(self.sources) == before, 'change:sources', 'the sources were changed')


def infos_of(path, options, prefix=''):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    with FileVersionLayer(open_mount_source(path, **options)) as ms:
        return {prefix + p: info for p, info in view.walk(ms)}


def run(ctx, rng, paths, tree, infos, options, files=None, steps=150):
    ops = fusework.mount(paths, ctx.mkdir('mnt'), **options)
    try:
        Program(ctx, rng, ops, tree, files or [p for p in paths if '://' not in p], infos).run(steps)
    finally:
        fusework.unmount(ops)


def case_zoo(ctx, i, rng):
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir())
    ctx.about = fmt
    infos = infos_of(source.path, dict(source.options)) if fmt not in ('git',) else {}
    files = [] if fmt == 'git' else [source.path]
    run(ctx, rng, [source.path], source.tree, infos, dict(source.options), files)


def case_tar(ctx, i, rng):
    if i % 3 == 0:
        return case_simple_tar(ctx, rng)
    members = [m for m in tarwork.random_members(rng, 40) if m.kind != 'hard']  # Hard links are judged by C01.
    path = gen.write(os.path.join(ctx.mkdir(), 'a.tar'), targen.build(members))
    tree = {}
    for p, (state, m) in tarwork.expected_tree(members).items():
        if state == 'implied':
            tree[p] = zoo.Node('dir')
        else:
            tree[p] = zoo.Node(targen.kind_visible(m), data=m.data, link=m.linkname)
    run(ctx, rng, [path], tree, infos_of(path, {}), {})


def case_simple_tar(ctx, rng):
    members, tree = [], {}
    for k in range(rng.randrange(5, 30)):
        name = 'f%d' % k
        xattrs = {'user.a%d' % n: rng.randbytes(rng.randrange(30)).replace(b'\0', b'1') for n in range(rng.randrange(3))}
        xattrs = {key: b'v' + value.hex().encode() for key, value in xattrs.items()}
        kind = rng.choice(['file', 'file', 'dir', 'sym'])
        members.append(targen.Member(kind, name, data=rng.randbytes(rng.choice([0, 1, 512, 70000])) if kind == 'file' else b'',
                                     linkname='target' if kind == 'sym' else '', xattrs=xattrs, fmt='pax'))
        tree['/' + name] = zoo.Node(kind, data=members[-1].data, link=members[-1].linkname)
        tree['/' + name].xattrs = xattrs
    path = gen.write(os.path.join(ctx.mkdir(), 'a.tar'), targen.build(members))
    ctx.about = 'simple'
    run(ctx, rng, [path], tree, infos_of(path, {}), {})


def case_several(ctx, i, rng):
    """Several sources as subfolders."""
    sources, tree, infos = [], {}, {}
    for k in range(rng.randrange(2, 5)):
        fmt = rng.choice([f for f in zoo.FORMATS if f != 'git'])
        source = zoo.make(fmt, rng, ctx.mkdir())
        if os.path.basename(source.path) in [os.path.basename(s.path) for s in sources] or source.options:
            continue
        sources.append(source)
        prefix = '/' + os.path.basename(source.path)
        tree[prefix] = zoo.Node('dir')
        tree.update({prefix + p: n for p, n in source.tree.items()})
        infos.update(infos_of(source.path, {}, prefix))
    if len(sources) < 2:
        ctx.note('too few sources')
        return
    ctx.about = ' '.join(s.fmt for s in sources)
    run(ctx, rng, [s.path for s in sources], tree, infos, {'disableUnionMount': True}, steps=200)


def case_leak(ctx, i, rng):
    """Opening and releasing again and again must not pile up anything."""
    fmt = ['tar', 'zip', 'tar.gz', 'folder', 'squashfs', 'asar', 'sqlar', 'ar', 'rar', 'cpio', 'tar.xz', 'tar.lz4', 'git', 'html', 'pdf', 'iso'][i % 16]
    source = zoo.make(fmt, rng, ctx.mkdir())
    files = [p for p, n in source.tree.items() if n.kind == 'file']
    if not files:
        return
    ctx.about = fmt
    ops = fusework.mount([source.path], ctx.mkdir('mnt'), **source.options)
    try:
        def cycles(count):
            for k in range(count):
                path = files[k % len(files)]
                fh = ops.open(path, os.O_RDONLY)
                ops.read(path, 10, 0, fh)
                ops.release(path, fh)
            ctx.count('cycles', count)
            gc.collect()
            return len(gc.get_objects()), len(os.listdir('/proc/self/fd'))

        cycles(100)
        before, after = cycles(50), cycles(500)
        ctx.check_that(after[0] - before[0] < 250, f"leak:objects:{fmt}", f"{fmt}: {after[0] - before[0]} more objects after 500 times open, read, release")
        ctx.check_that(after[1] <= before[1] + 2, 'leak:descriptors', f"{fmt}: {before[1]} -> {after[1]} file descriptors")
    finally:
        fusework.unmount(ops)


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario](ctx, i, rng)
