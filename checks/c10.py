"""C10: recursive mounting of randomly nested archives against the trees that went into each of them."""

import copy
import io
import os
import re
import stat
import time
import zipfile

from rv import fusework, gen, targen, view, zoo
from rv.zoo import Node

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = (
    'A case nests archives of random formats into archives of random formats (TARs of all compressions, ZIP, 7z, SquashFS, '
    'AR, folders, single compressed files, split files, and leaves of every other format; also broken archives and archives '
    'without archive extension), mounts the result eagerly and lazily with random depth, strip, transform, and extension '
    'options, and compares the whole view with the trees that were packed; distinct: (nesting of formats, options).'
)
ASSUMPTIONS = ['The view that each format gives of its members is judged by C01 and C26.']
MINIMUM = {'hard_links': 20, 'entries_checked': 6000, 'mount_points': 500, 'beyond_depth': 60, 'lazy_views': 60, 'eager_views': 60, 'deep3': 20,
           'broken': 20, 'stripped': 40, 'transformed': 30, 'bytes_compared': 500_000}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.automount', 'ratarmount.FuseMount']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('nested', 260 * k, 5), ('leaves', 60 * k, 5), ('fuse', 40 * k, 5), ('full-path', 1, 1), ('layers', 1, 1)]


ALL = frozenset({'mode', 'mtime', 'owner', 'link'})
PACKERS = {  # suffix and recorded metadata
    'tar': ('.tar', ALL), 'tar.gz': ('.tar.gz', ALL), 'tgz': ('.tgz', ALL), 'tar.bz2': ('.tar.bz2', ALL),
    'tar.xz': ('.tar.xz', ALL), 'tar.zst': ('.tar.zst', ALL - {'owner'}), 'zip': ('.zip', ALL - {'owner'}),
    '7z': ('.7z', frozenset()), 'squashfs': ('.squashfs', frozenset({'mtime', 'link', 'mode'})), 'ar': ('.ar', frozenset()),
    'folder': ('', frozenset({'mode', 'mtime'})),
}
COMPRESSED_TARS = {'tar.gz': 'gz', 'tgz': 'gz', 'tar.bz2': 'bz2', 'tar.xz': 'xz', 'tar.zst': 'zst'}
SINGLES = {'gz': '.gz', 'bz2': '.bz2', 'xz': '.xz', 'zst': '.zst'}
LEAVES = [f for f in zoo.FORMATS if f not in ('folder', 'git', 'tar.zlib', 'single.zlib', 'html', 'pdf', 'ogg', '7z-py7zr',
                                              'tar.lzo', 'single.lzo')]
LEAF_SUFFIX = {'squashfs': '.squashfs', 'single.gz': '.gz'}
# Suffixes of the documented categories in use here; a list of our own.
KNOWN = ('.tar.gz .tar.bz2 .tar.xz .tar.zst .tar.lz4 .tar.lzma .tgz .tar .zip .7z .ar .rar .asar .sqlar .squashfs .iso '
         '.xar .cpio .cab .gz .bz2 .xz .zst .lz4 .lzma').split()


class Archive:
    """A nested archive: what a mount of it shows, and its bytes."""

    def __init__(self, fmt, suffix, fields, tree, data, loose=frozenset(), rawName=None, raw=None):
        self.fmt, self.suffix, self.fields, self.tree, self.data, self.loose = fmt, suffix, fields, tree, data, loose
        self.raw = raw  # the uncompressed TAR of a compressed one

    def what(self):
        inner = sorted({node.archive.what() for node in self.tree.values() if getattr(node, 'archive', None)})
        return self.fmt + ('[' + ','.join(inner) + ']' if inner else '')


class Maker:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.number = ctx, rng, 0
        self.hardLinks = False

    def stem(self):
        self.number += 1
        return self.rng.choice(['inner', 'x y', 'Ä', 'arch.v1', 'm', 'deep_', 'a+b', '[g]']) + str(self.number)

    def name(self, suffix):
        if self.rng.random() < 0.1:
            suffix = suffix.upper()
        return self.stem() + suffix

    def tree(self, level, plain=False):
        """A tree with nested archives; plain: only files directly in the root (AR)."""
        rng = self.rng
        tree, folders = {}, ['']
        when = lambda: 1_000_000_000 + 2 * rng.randrange(10**8)
        meta = lambda modes=(0o644, 0o600, 0o755, 0o640): {'mtime': when(), 'mode': rng.choice(modes)}
        for k in range(rng.randrange(1, 7)):
            folder = '' if plain else rng.choice(folders)
            kind = rng.random()
            if kind < 0.2 and not plain:
                path = f"{folder}/d{k}" + rng.choice(['', '.dir', '.zip' if rng.random() < 0.3 else ''])
                tree[path] = Node('dir', **meta((0o755, 0o700)))
                folders.append(path)
            elif kind < 0.3 and not plain:
                tree[f"{folder}/l{k}"] = Node('sym', link=rng.choice(['nowhere', '../x', 'f0', 'f0.tar']), **meta((0o777,)))
            else:
                tree[f"{folder}/f{k}" + rng.choice(['', '.txt', '.dat'])] = Node('file', gen.blob(rng, rng.choice([0, 1, 100, 4000])), **meta())
        count = rng.choice([1, 1, 2, 2, 3]) if level > 0 else 0
        for _ in range(count):
            folder = '' if plain else rng.choice(folders)
            what = rng.random()
            if what < 0.1:
                suffix = rng.choice(['.zip', '.tar', '.tar.gz', '.7z', '.gz', '.rar', '.iso', '.squashfs', '.tar.xz'])
                data = rng.choice([b'not an archive' * rng.choice([1, 1000]), b''])  # Random bytes may be headerless deflate.
                if suffix == '.zip' and rng.random() < 0.5:
                    data = b'PK\x03\x04' + gen.blob(rng, 200)
                tree[f"{folder}/{self.name(suffix)}"] = node = Node('file', data, **meta())
                node.broken = True
                continue
            archive = self.archive(level - 1)
            if what < 0.2:  # An archive that must not be mounted because of its name
                tree[f"{folder}/{self.stem()}" + rng.choice(['.bin', '', archive.suffix + '.bak', archive.suffix + 'x'])] = Node('file', archive.data, **meta())
                continue
            if what < 0.28 and len(archive.data) > 10 and archive.fmt != 'ar':
                base, parts = self.stem() + archive.suffix, rng.choice([2, 3])
                cuts = sorted(rng.sample(range(1, len(archive.data)), parts - 1))
                for k, (a, b) in enumerate(zip([0, *cuts], [*cuts, len(archive.data)])):
                    tree[f"{folder}/{base}.{k + 1:03}"] = node = Node('file', archive.data[a:b], **meta())
                    if k == 0:  # The joined file by itself is a folder with the joined file in it.
                        inner = Node('file', archive.data)
                        inner.archive = archive
                        node.archive = Archive('split', '.001', frozenset(), {'/': inner}, b'')
                continue
            tree[f"{folder}/{self.name(archive.suffix)}"] = node = Node('file', archive.data, **meta())
            node.archive = archive
        return tree

    def leaf(self, fmt=None):
        rng = self.rng
        fmt = fmt or rng.choice(LEAVES)
        for _ in range(20):
            source = zoo.make(fmt, rng, self.ctx.mkdir())
            if not source.options and os.path.isfile(source.path):
                break
        suffix = os.path.basename(source.path)
        suffix = suffix[suffix.index('.'):] if not fmt.startswith('single') else '.' + fmt.split('.', 1)[1]
        with open(source.path, 'rb') as file:
            data = file.read()
        tree = {'/': Node('file', node.data) for node in source.tree.values()} if fmt.startswith('single') else source.tree
        if suffix == '.a':  # belongs to the extensions of binary files, which are not mounted by default
            suffix = '.ar'
        fields = source.fields
        if fmt in ('tar.zst', 'tar.lzma', 'tar.lz4'):
            fields -= {'owner'}  # not known to the libarchive backend, which opens nested ones
        archive = Archive(source.fmt, suffix, fields, tree, data, source.loose, raw=source.raw)
        if fmt in ('tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst'):
            archive.fmt = fmt
        return archive

    def archive(self, level, fmt=None):
        rng = self.rng
        if level <= 0 and rng.random() < 0.5 and not fmt:
            return self.leaf()
        if not fmt:
            fmt = rng.choice(['tar', 'tar', 'tar.gz', 'tgz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip', '7z', 'squashfs', 'ar', 'single'])
        if fmt == 'single':
            kind = rng.choice(list(SINGLES))
            inner = self.archive(level - 1) if level > 0 and kind != 'zst' else None  # see the layers scenario
            node = Node('file', inner.data if inner else b'x' + gen.blob(rng, 100))
            if inner and inner.fmt != 'tar':
                node.archive = inner
            elif inner:  # A compressed TAR is mounted in one go.
                return Archive('tar.' + kind, '.tar.' + kind, inner.fields, inner.tree, gen.compress(kind, inner.data, rng), inner.loose, raw=inner.data)
            suffix = (inner.suffix if inner else '.txt')
            data = gen.compress(kind, node.data, rng)
            return Archive('single', suffix + SINGLES[kind], frozenset(), {'/': node}, data, raw=suffix)
        suffix, fields = PACKERS[fmt]
        tree = self.tree(level, plain=fmt == 'ar')
        return self.pack(fmt, tree)

    def pack(self, fmt, tree):
        rng = self.rng
        suffix, fields = PACKERS[fmt]
        raw = None
        if fmt.startswith('t'):
            for node in tree.values():
                node.uid, node.gid = rng.randrange(70000), rng.randrange(70000)
            links = {}
            files = sorted(path for path, node in tree.items() if node.kind == 'file' and not getattr(node, 'archive', None))
            if self.hardLinks and files:  # These are resolved by the version layer.
                folders = ['', *sorted({path.rsplit('/', 1)[0] for path in files})]
                links = {f"{rng.choice(folders)}/zz-link{k}": rng.choice(files) for k in range(rng.randrange(3))}
                self.ctx.count('hard_links', len(links))
            members = [targen.Member(node.kind, path[1:], data=node.data, mode=node.mode, mtime=node.mtime, uid=node.uid,
                                     gid=node.gid, linkname=node.link, fmt=rng.choice(['gnu', 'pax']))
                       for path, node in sorted(tree.items())]
            for path, target in links.items():
                members.append(targen.Member('hard', path[1:], linkname=rng.choice(['', './']) + target[1:], mtime=1, fmt='gnu'))
                tree[path] = copy.copy(tree[target])
                tree[path].broken = False
            data = raw = targen.build(members)
            if fmt in COMPRESSED_TARS:
                data = gen.compress(COMPRESSED_TARS[fmt], raw, rng)
        elif fmt == 'zip':
            buffer = io.BytesIO()
            with zipfile.ZipFile(buffer, 'w') as file:
                for path, node in sorted(tree.items()):
                    info = zipfile.ZipInfo(path[1:] + ('/' if node.kind == 'dir' else ''), time.gmtime(node.mtime)[:6])
                    info.external_attr = (node.mode | {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node.kind]) << 16
                    info.create_system = 3
                    info.compress_type = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]) if node.kind == 'file' else 0
                    file.writestr(info, node.link.encode() if node.kind == 'sym' else node.data)
            data = buffer.getvalue()
        elif fmt == 'ar':
            data = b'!<arch>\n'
            for path, node in sorted(tree.items()):
                name = path[1:].encode()
                if len(name) > 15 or b' ' in name:  # BSD style
                    content = name + node.data
                    head = b'#1/%d' % len(name)
                else:
                    head, content = name + b'/', node.data
                data += b'%-16s%-12d%-6d%-6d%-8o%-10d`\n' % (head, node.mtime, 0, 0, node.mode | 0o100000, len(content))
                data += content + b'\n' * (len(content) % 2)
        else:
            folder = self.ctx.mkdir()
            root, path = os.path.join(folder, 'in'), os.path.join(folder, 'out' + suffix)
            os.makedirs(root)
            zoo.write_tree(tree, root)
            if fmt == '7z':
                gen.run(['7z', 'a', '-snl', '-y', '-bd', path, '.'], cwd=root)
            else:
                gen.run(['mksquashfs', root, path, '-noappend', '-quiet', '-no-progress', '-comp', rng.choice(['gzip', 'xz'])])
            with open(path, 'rb') as file:
                data = file.read()
        return Archive(fmt, suffix, fields, tree, data, raw=raw)


def strip(name, extensions):
    """Longest known suffix removed, None if there is none."""
    lower = name.lower()
    matching = [e for e in extensions if lower.endswith(e) and len(lower) > len(e)]
    if matching:
        return name[: -len(max(matching, key=len))]
    return name[:-4] if lower.endswith('.001') and '.001' in extensions else None


class Expectation:
    """The whole view: path -> (kind, node, fields of the archive it came from, is mount point)."""

    def __init__(self, limit, explicit, stripping, transform, extensions):
        self.limit, self.explicit, self.stripping, self.transform, self.extensions = limit, explicit, stripping, transform, extensions
        self.entries, self.archives, self.beyond, self.broken = {}, [], 0, 0
        self.deepest = 0
        self.relative = False
        self.older = []  # mount points whose older version is the archive itself

    def add(self, archive, prefix, level, name, byPath=True):
        """Adds the members of an archive mounted at prefix; level counts the archives around its members."""
        if archive.fmt in ('tar.gz', 'tgz', 'tar.bz2', 'tar.xz') + ('tar.zst',) * byPath and self.explicit:
            # With an explicit depth, undoing the compression is one level and opening the TAR is another.
            if level > self.limit:
                inner = name if name.lower().endswith('.tgz') else name.rsplit('.', 1)[0]
                self.entries[f"{prefix}/{inner}"] = (Node('file', archive.raw), frozenset(), False)
                return
            level += 1
        for path, node in archive.tree.items():
            if path == '/':
                path = '/' + (name if archive.fmt == 'split' else name.rsplit('.', 1)[0])
            full = prefix + path
            parts = path.split('/')
            for k in range(2, len(parts)):
                self.entries.setdefault(prefix + '/'.join(parts[:k]), (Node('dir'), frozenset(), False))
            fields = archive.fields if path not in archive.loose else frozenset()
            self.entries[full] = (node, fields, False)
            if getattr(node, 'broken', False):
                self.broken += 1
            inner = getattr(node, 'archive', None)
            if not inner or strip(parts[-1], self.extensions) is None or (
                    parts[-1].endswith('.001') and inner.fmt != 'split'):  # A joined file that kept its name
                continue
            if level > self.limit:
                self.beyond += 1
                continue
            point = full
            if self.stripping:
                point = full[: -len(parts[-1])] + strip(parts[-1], self.extensions)
            if self.transform:
                point = '/' + re.sub(self.transform[0], self.transform[1], point).lstrip('/')
            base = Node('dir', mode=node.mode, mtime=node.mtime, uid=node.uid, gid=node.gid)
            if inner.fmt == 'tar' and archive.fmt.startswith('t') and prefix and self.transform and self.transform[0][0] == '^':
                self.relative = True  # A known finding, see the full-path scenario.
            if level == 1 and point == full:
                self.older.append((point, node))
            self.entries[point] = (base, frozenset(), True)
            self.archives.append((point, full))
            self.deepest = max(self.deepest, level)
            self.add(inner, point, level + 1, byPath=archive.fmt == 'folder', name=os.path.basename(point) if inner.fmt == 'split' else parts[-1])


def check(ctx, ms, want, tag):
    got = dict(view.walk(ms))
    ctx.check_that(set(got) == set(want), f"{tag}:paths",
                   lambda: f"missing {sorted(set(want) - set(got))[:5]}, extra {sorted(set(got) - set(want))[:5]}")
    for path, (node, fields, mounted) in want.items():
        info = got.get(path)
        if info is None:
            ctx.fail(f"{tag}:lookup", f"{path!r} is not listed or not found")
            continue
        ctx.count('entries_checked')
        if not ctx.equal(view.kind_of(info.mode), node.kind, f"{tag}:kind", f"type of {path!r}, mode {oct(info.mode)}"):
            continue
        modes = ms.list_mode(path.rsplit('/', 1)[0] or '/')
        name = path.rsplit('/', 1)[1]
        if isinstance(modes, dict) and isinstance(modes.get(name), int):
            ctx.equal(view.kind_of(modes[name]), node.kind, f"{tag}:list-mode-kind", path)
        if mounted:
            ctx.count('mount_points')
        if 'mode' in fields and node.kind != 'sym':
            ctx.equal(oct(stat.S_IMODE(info.mode)), oct(node.mode), f"{tag}:permissions", path)
        if 'mtime' in fields:
            ctx.equal(info.mtime, node.mtime, f"{tag}:mtime", path)
        if 'owner' in fields:
            ctx.equal((info.uid, info.gid), (node.uid, node.gid), f"{tag}:owner", path)
        if node.kind == 'sym' and 'link' in fields:
            ctx.equal(info.linkname, node.link, f"{tag}:link", path)
        if node.kind == 'file':
            ctx.equal(info.size, len(node.data), f"{tag}:size", path)
            data = view.read_all(ms, info)
            ctx.count('bytes_compared', len(data))
            ctx.check_that(data == node.data, f"{tag}:content", lambda: (
                f"{path!r}: {len(data)} bytes instead of {len(node.data)}"))
        if node.kind == 'file' and mounted is False:
            ctx.check_that(ms.list(path) is None, f"{tag}:file-is-no-folder", path)


def run(ctx, rng, archive, outerPath, kind=''):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    options = {'indexFolders': [ctx.mkdir('indexes')]}  # Nested archives inside folders write their indexes, too.
    limit = rng.choice([None, None, None, 0, 1, 2, 3, 4, 5])
    if limit is None:
        options['recursive'] = True
    else:
        options['recursionDepth'] = limit
        if rng.random() < 0.3:
            options['recursive'] = rng.choice([True, False])
    extensions = [*KNOWN, '.001']
    if rng.random() < 0.15:
        # SQLiteIndexedTar mounts contained TARs no matter whether their extension is in this list, see C27.
        chosen = rng.choice([['.zip', 'tar'], ['zip', 'TAR', 'tar.gz', 'gz']])
        options['recursiveExtensions'] = chosen
        extensions = ['.' + extension.strip('.').lower() for extension in chosen]
    stripping, transform = rng.random() < 0.3, None
    if rng.random() < 0.2:
        transform = rng.choice([('([^/]+)$', r'mnt-\1'), ('([^/]+)$', r'\1.mounted'), ('^.*/([^/]+)$', r'/all-\1')])
        options['transformRecursiveMountPoint'] = transform
        ctx.count('transformed')
    if stripping:
        options['stripRecursiveTarExtension'] = True
        ctx.count('stripped')
    ctx.about = f"{archive.what()} {options}"
    ctx.distinct(archive.what(), repr(sorted((k, v) for k, v in options.items() if k != 'indexFolders')))
    while True:
        want = Expectation(2**30 if limit is None else limit, limit is not None, stripping, transform, extensions)
        want.add(archive, '', 1, os.path.basename(outerPath))
        if not want.relative:
            break
        options['transformRecursiveMountPoint'] = transform = ('([^/]+)$', r'mnt-\1')
    return options, want


def touch(rng, ms, want):
    """The first access to every entry in an arbitrary order."""
    paths = [*want.entries, *(path for _, path in want.archives)]
    rng.shuffle(paths)
    # Paths below mount points at other places only exist after accesses to the archives mounted there.
    for path in paths * (want.deepest + 1):
        action = rng.randrange(4)
        if action == 0:
            ms.lookup(path)
        elif action == 1:
            ms.list(path)
        elif action == 2:
            ms.list_mode(path)
        else:
            ms.lookup(path + '/nothing-here')


def drive(ctx, rng, archive, path):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    options, want = run(ctx, rng, archive, path)
    ctx.count('beyond_depth', want.beyond)
    ctx.count('broken', want.broken)
    ctx.count('deep3', want.deepest >= 3)
    for variant in rng.sample(['eager', 'lazy', 'again'], 2):
        both = dict(options)
        if variant == 'lazy':
            both['lazyMounting'] = True
        if variant == 'again':
            both.update(writeIndex=True, indexMinimumFileCount=0)
        for _ in range(2 if variant == 'again' else 1):
            base = open_mount_source(path, **both)
            with AutoMountLayer(base, **both) as ms:
                if variant == 'lazy':
                    touch(rng, ms, want)
                    ctx.count('lazy_views')
                else:
                    ctx.count('eager_views')
                check(ctx, ms, want.entries, variant)
                for point, node in want.older:
                    ctx.count('older_versions')
                    ctx.equal(ms.versions(point), 2, f"{variant}:versions", f"versions of {point!r}")
                    info = ms.lookup(point, fileVersion=1)
                    if info is None or view.kind_of(info.mode) != 'file':
                        ctx.fail(f"{variant}:version-kind", f"the older version of {point!r} is {info}")
                        continue
                    ctx.check_that(view.read_all(ms, info) == node.data, f"{variant}:version-content", point)


def write_outer(ctx, rng, maker, archive):
    folder = ctx.mkdir()
    if archive.fmt == 'folder':
        zoo.write_tree(archive.tree, os.path.join(folder, 'outer'))
        return os.path.join(folder, 'outer')
    return gen.write(os.path.join(folder, 'outer' + archive.suffix), archive.data)


def outer(ctx, rng, maker, tree):
    fmt = rng.choice(['tar', 'tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip', '7z', 'squashfs', 'folder', 'folder'])
    if fmt == 'folder':
        return Archive(fmt, '', PACKERS[fmt][1], tree, b'')
    return maker.pack(fmt, tree)


def case_fuse(ctx, rng, maker):
    maker.hardLinks = True
    archive = outer(ctx, rng, maker, maker.tree(rng.choice([1, 2, 3])))
    path = write_outer(ctx, rng, maker, archive)
    options, want = run(ctx, rng, archive, path)
    lazy = rng.random() < 0.4
    ops = fusework.mount([path], ctx.mkdir(), lazyMounting=lazy, **options)
    try:
        if lazy:
            # A walk only reaches what is listed as a folder, therefore access archives first.
            paths = [full for _, full in want.archives] * (want.deepest + 1)
            for full in paths:
                try:
                    ops.getattr(full)
                except FileNotFoundError:
                    pass
        got = fusework.tree(ops)
        ctx.check_that(set(got) == set(want.entries), 'fuse:paths',
                       lambda: f"missing {sorted(set(want.entries) - set(got))[:5]}, extra {sorted(set(got) - set(want.entries))[:5]}")
        for path, (node, fields, mounted) in want.entries.items():
            if path not in got:
                ctx.fail('fuse:lookup', f"{path!r} is not listed or not found")
                continue
            facts = got[path]
            ctx.count('fuse_entries')
            ctx.equal(facts['kind'], node.kind, 'fuse:kind', path)
            if node.kind == 'file':
                ctx.equal(facts.get('size'), len(node.data), 'fuse:size', path)
                ctx.check_that(facts.get('data') == node.data, 'fuse:content', path)
            if mounted:
                ctx.count('mount_points')
    finally:
        fusework.unmount(ops)


def case_full_path(ctx, rng, maker):
    """The transform is documented to be applied to the full path, also for TARs inside nested TARs."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    inner = maker.pack('tar', {'/file': Node('file', b'x', mtime=1)})
    node = Node('file', inner.data, mtime=1)
    middle = maker.pack('tar.gz', {'/inner.tar': node})
    path = gen.write(os.path.join(ctx.mkdir(), 'outer.zip'), maker.pack('zip', {
        '/middle.tar.gz': Node('file', middle.data, mtime=1_000_000_000)}).data)
    options = {'recursive': True, 'transformRecursiveMountPoint': ('^.*/([^/]+)$', r'/all-\1')}
    with AutoMountLayer(open_mount_source(path, **options), **options) as ms:
        ctx.check_that(ms.exists('/all-inner.tar/file'), 'transform-full-path', 'the nested TAR is not at /all-inner.tar')


def case_layers(ctx, rng, maker):
    """A nested file compressed twice shows the inner compressed file when its compression is undone once."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    once = gen.compress('xz', b'data' * 1000, rng)
    path = gen.write(os.path.join(ctx.mkdir(), 'outer.zip'), maker.pack('zip', {
        '/file.xz.zst': Node('file', gen.compress('zst', once, rng), mtime=1_000_000_000)}).data)
    options = {'recursionDepth': 1}
    with AutoMountLayer(open_mount_source(path, **options), **options) as ms:
        info = ms.lookup('/file.xz.zst/file.xz')
        ctx.check_that(info is not None and view.read_all(ms, info) == once, 'nested-twice-compressed',
                       'file.xz inside file.xz.zst is not the XZ file')


def case(ctx, scenario, i, rng):
    maker = Maker(ctx, rng)
    if scenario == 'fuse':
        case_fuse(ctx, rng, maker)
    elif scenario == 'full-path':
        case_full_path(ctx, rng, maker)
    elif scenario == 'layers':
        case_layers(ctx, rng, maker)
    if scenario == 'nested':
        archive = outer(ctx, rng, maker, maker.tree(rng.choice([1, 2, 2, 3, 3])))
        drive(ctx, rng, archive, write_outer(ctx, rng, maker, archive))
    elif scenario == 'leaves':
        tree = maker.tree(0)
        for k in range(3):
            leaf = maker.leaf(LEAVES[(3 * i + k) % len(LEAVES)])
            tree['/' + maker.name(leaf.suffix)] = node = Node('file', leaf.data, mode=0o644, mtime=1_000_000_000)
            node.archive = leaf
        archive = outer(ctx, rng, maker, tree)
        drive(ctx, rng, archive, write_outer(ctx, rng, maker, archive))
