"""C12: mounts with a write overlay against a real directory that gets the same operations."""

import os
import stat

from rv import fusework, gen, indexwork, targen, zoo

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = (
    'A case mounts a source (TAR, compressed TAR, ZIP, SquashFS, folder, union of two) with an empty overlay folder, copies '
    'the shown tree into a real directory, then applies random sequences of system calls, as the kernel and libfuse 2 or 3 '
    'translate them, to the FUSE operations object and to the directory. Results and the whole trees (names, types, '
    'permissions, owners, times, contents, links) are compared after every operation. distinct: (operation, result).'
)
MINIMUM = {'operations': 2500, 'trees_compared': 2000, 'reads': 60, 'refused': 5, 'failing_operations': 40}
PRELOAD = ['ratarmount.FuseMount', 'ratarmountcore.mountsource.factory']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('random', 64 * k, 4), ('nested', 16 * k, 4), ('known', 3, 1)]


KINDS = ['tar', 'tar', 'tar.gz', 'zip', 'squashfs', 'folder', 'union', 'tar.lz4']


def make_tree(rng, count):
    """Few names so that operations meet existing and deleted entries again."""
    tree = {}
    folders = ['']
    for _ in range(count):
        folder = rng.choice(folders)
        path = folder + '/' + rng.choice(fusework.NAMES)
        if path in tree:
            continue
        what = rng.random()
        when = 1_000_000_000 + 2 * rng.randrange(10**8)
        if what < 0.3 and folder.count('/') < 3:
            tree[path] = zoo.Node('dir', mode=rng.choice([0o755, 0o700, 0o555]), mtime=when)
            folders.append(path)
        elif what < 0.42:
            target = rng.choice(['a', 'nowhere', '/abs/x', 'x y/b'])
            tree[path] = zoo.Node('sym', link=target, mode=0o777, mtime=when)
        else:
            tree[path] = zoo.Node('file', data=gen.blob(rng, rng.choice([0, 1, 10, 1000, 9000])),
                                  mode=rng.choice([0o644, 0o600, 0o755, 0o444]), mtime=when)
    if not any(n.kind == 'file' and n.data for n in tree.values()):
        tree['/first'] = zoo.Node('file', data=b'first file', mtime=1_000_000_000)
    return tree


def write_source(rng, folder, kind, tree):
    os.makedirs(folder, exist_ok=True)
    if kind == 'folder':
        root = os.path.join(folder, 'in')
        zoo.write_tree(tree, root)
        return root
    if kind in ('tar', 'tar.gz', 'tar.lz4'):
        members = [targen.Member(n.kind, p[1:], data=n.data, mode=n.mode, mtime=int(n.mtime), uid=rng.choice([0, 5, 1000]),
                                 gid=rng.choice([0, 7]), linkname=n.link) for p, n in sorted(tree.items())]
        data = targen.build(members)
        if kind != 'tar':
            data = gen.compress(kind[4:], data, rng)
        return gen.write(os.path.join(folder, 'archive.' + kind), data)
    if kind == 'nested':
        inner = write_source(rng, os.path.join(folder, 'inner'), rng.choice(['zip', 'tar', 'tar.gz']), make_tree(rng, 4))
        with open(inner, 'rb') as file:
            node = zoo.Node('file', data=file.read(), mode=0o644, mtime=1_100_000_000)
        name = rng.choice(['/', '/c/']) + 'in' + os.path.basename(inner)[len('archive'):]
        return write_source(rng, folder, 'tar', dict({p: n for p, n in tree.items() if p != '/c' and p[:3] != '/c/'}, **{name: node}))
    if kind == 'zip':
        import time
        import zipfile

        path = os.path.join(folder, 'archive.zip')
        with zipfile.ZipFile(path, 'w') as file:
            for name, node in sorted(tree.items()):
                info = zipfile.ZipInfo(name[1:] + ('/' if node.kind == 'dir' else ''), time.gmtime(node.mtime)[:6])
                info.create_system = 3
                info.external_attr = (node.mode | {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node.kind]) << 16
                file.writestr(info, node.link.encode() if node.kind == 'sym' else node.data)
        return path
    if kind == 'squashfs':
        root = os.path.join(folder, 'in')
        zoo.write_tree(tree, root)
        path = os.path.join(folder, 'archive.squashfs')
        gen.run(['mksquashfs', root, path, '-no-progress', '-quiet', '-processors', '1', '-all-root'])
        return path
    raise AssertionError(kind)


def setup_mount(ctx, rng, kind=None, **options):
    """Returns (ops, sources, overlay folder, function that mounts again)."""
    kind = kind or rng.choice(KINDS)
    sources = []
    if kind == 'union':
        for number in range(rng.choice([2, 3])):
            one = rng.choice(['tar', 'zip', 'folder'])
            sources.append(write_source(rng, os.path.join(ctx.root, f"source{number}"), one, make_tree(rng, rng.randrange(2, 10))))
    else:
        sources.append(write_source(rng, os.path.join(ctx.root, 'source'), kind, make_tree(rng, rng.randrange(2, 18))))
    overlay = os.path.join(ctx.root, 'overlay')
    point = ctx.mkdir('mnt')
    options = dict({'indexFilePath': ':memory:', 'lazyMounting': rng.random() < 0.2, 'enableFileVersions': rng.random() < 0.9}, **options)

    def again():
        return fusework.mount(list(sources), point, writeOverlay=overlay, **options)

    ctx.about = kind
    return again(), sources, overlay, again, kind


def case(ctx, scenario, i, rng):
    if scenario == 'known':
        known(ctx, i)
        return
    options = {'recursive': True, 'recursionDepth': 1, 'lazyMounting': False} if scenario == 'nested' else {}
    ops, sources, overlay, _, kind = setup_mount(ctx, rng, kind='nested' if options else None, **options)
    try:
        start = fusework.tree(ops)
        root = ctx.mkdir('reference')
        fusework.populate(root, start)
        mirror = fusework.Mirror(ctx, ops, root, truncateAtOpen=rng.random() < 0.5)
        mirror.archives = [p for p, f in start.items() if f['kind'] == 'dir' and os.path.basename(p).startswith('in.')]
        ctx.distinct('source', kind)
        if not mirror.compare('start'):
            return
        for _ in range(rng.choice([20, 40, 80])):
            what = fusework.step(mirror, rng)
            if what != 'none' and what not in ('read', 'flush', 'fsync'):
                if not mirror.compare(what + (':refused' if mirror.refused else '')):
                    return
                mirror.refused = False
        mirror.close_all()
        mirror.compare('close')
    finally:
        fusework.unmount(ops)


def known(ctx, i):
    """See known_findings.txt."""
    path = gen.write(os.path.join(ctx.root, 'a.tar'), targen.build([targen.Member('file', 'a', data=b'a')]))
    ops = fusework.mount([path], ctx.mkdir('mnt'), writeOverlay=os.path.join(ctx.root, 'overlay'), indexFilePath=':memory:')
    vfs = fusework.Vfs(ops)
    try:
        if i == 0:
            ops.release('/h', vfs.create('/h', 0o644))
            vfs.link('/h', '/g')
            vfs.chmod('/h', 0o600)
            ctx.equal(oct(ops.getattr('/g')['st_mode']), oct(0o100600), 'hardlink-metadata', 'mode of a hard link after chmod of the other')
        elif i == 1:
            outcome = 'done'
            try:
                vfs.mkdir('/\udce4', 0o755)
            except Exception as exception:
                outcome = type(exception).__name__
            ctx.equal(outcome, 'done', 'not-utf8', 'mkdir with a name that is not UTF-8')
        else:
            vfs.symlink('../a.tar', '/up')
            ctx.equal(oct(stat.S_IFMT(ops.getattr('/up')['st_mode'])), oct(stat.S_IFLNK), 'link-upwards', 'a link that leaves the mount point')
    finally:
        fusework.unmount(ops)
