"""C26: the view of every non-TAR format against the tree it was written from."""

import bz2
import os
import stat
import struct

from rv import compare, core, gen, zoo

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = (
    'A case is one archive of one format written by our own encoder or an independent tool from a random tree, opened '
    'through the factory (by path or file object, with or without index file) and compared completely: names, kinds, '
    'permissions, times, link targets, sizes, contents; distinct: (format variant, opening variant, kinds present).'
)
MINIMUM = {'entries_checked': 1500, 'bytes_compared': 1_000_000, 'symlinks': 50, 'formats': 17, 'layered': 50, 'fixtures': 30}
PRELOAD = ['ratarmountcore.mountsource.factory']
FORMATS = [f for f in zoo.FORMATS if not f.startswith(('tar', 'single', 'folder'))]
NEEDS_PATH = {'git', 'folder'}


# Archives of the repository which no tool here can write. Their trees are taken from other extractors.
FIXTURES = '''ar-GCC-main.a denormal-paths.rar file-in-non-existing-folder.7z file-in-non-existing-folder.rar
file-in-non-existing-folder.zip folder-symlink.7z folder-symlink.gzip.squashfs folder-symlink.lzma.squashfs
folder-symlink.lzo.squashfs folder-symlink.no-compression.squashfs folder-symlink.rar folder-symlink.xz.squashfs
folder-symlink.zip nested-tar-10M.ext4.bz2 nested-tar-1M.ext4.bz2 nested-with-symlink.7z nested-with-symlink.rar
nested-with-symlink.zip nested-without-execution-flag.zip rar.zip rar-misrecognized-as-zip.rar single-file.ar
single-file.bin.cpio single-file.cab single-file.crc.cpio single-file.hpbin.cpio single-file.hpodc.cpio
single-file.iso.bz2 single-file.newc.cpio single-file.odc.cpio single-file.xar zip.7z zip.rar
two-large-files-32Ki-lines-each-1023B.7z'''.split()


def plan(tier):
    k = 1 if tier == 'quick' else 20
    n = len(FORMATS)
    return [('zoo', 20 * n * k, 12), ('large', 3 * n * k, 3), ('thin', 6 * k, 3), ('zipdetails', 24 * k, 6),
            ('nonames', 6 * k, 3),
            ('fixtures', len(FIXTURES), 4), ('warc-boundary', 1, 1)]


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario.replace('-', '_')](ctx, i, rng)


def open_variant(ctx, rng, source, **options):
    from ratarmountcore.mountsource.factory import open_mount_source

    variant = rng.choice(['path', 'path', 'index', 'fileobj', 'relative'])
    if source.fmt.split('-')[0] in NEEDS_PATH or not os.path.isfile(source.path):
        variant = 'path'
    if variant == 'index':
        options.update(writeIndex=True, indexFilePath=os.path.join(ctx.mkdir('index'), 'index.sqlite'),
                       indexMinimumFileCount=0)
    if variant == 'fileobj':
        file = open(source.path, 'rb')
        return open_mount_source(file, **options), variant, file
    if variant == 'relative':
        os.chdir(os.path.dirname(source.path))
        return open_mount_source(os.path.basename(source.path), **options), variant, None
    return open_mount_source(source.path, **options), variant, None


def check_source(ctx, rng, source, tag, **options):
    ms, variant, file = open_variant(ctx, rng, source, **{**options, **(source.options or {})})
    with ms:
        compare.check_tree(ctx, ms, source, f"{source.fmt.split('-')[0]}")
        if rng.random() < 0.4:  # The mount tool puts this layer on top by default.
            from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

            compare.check_tree(ctx, FileVersionLayer(ms), source, f"{source.fmt.split('-')[0]}:layered")
            ctx.count('layered')
    if file is not None:
        file.close()
    ctx.count('format_' + source.fmt)
    ctx.distinct(source.fmt, variant, tag, sorted({n.kind for n in source.tree.values()}))
    ctx.sample({'format': source.fmt, 'variant': variant, 'entries': [
        f"{n.kind} {p} {len(n.data)}" for p, n in list(source.tree.items())[:6]]})


def case_zoo(ctx, i, rng):
    if i < len(FORMATS):
        ctx.count('formats')
    source = zoo.make(FORMATS[i % len(FORMATS)], rng, ctx.mkdir('zoo'))
    check_source(ctx, rng, source, 'zoo')


def case_large(ctx, i, rng):
    source = zoo.make(FORMATS[i % len(FORMATS)], rng, ctx.mkdir('zoo'), large=True)
    check_source(ctx, rng, source, 'large')


def case_thin(ctx, i, rng):
    """Thin AR archives only reference their members and show them as links."""
    from ratarmountcore.mountsource.factory import open_mount_source

    folder = ctx.mkdir('thin')
    names = []
    for k in range(rng.randrange(1, 6)):
        name = rng.choice(['short', 'a-very-long-file-name-with-many-characters', 'ünicode']) + str(k)
        gen.write(os.path.join(folder, name), gen.blob(rng, gen.size(rng)))
        names.append(name)
    gen.run(['ar', 'rcT', 'archive.a', *names], cwd=folder)
    with open_mount_source(os.path.join(folder, 'archive.a')) as ms:
        links = {}
        for name in ms.list('/'):
            info = ms.lookup('/' + name)
            ctx.check_that(info is not None and stat.S_ISLNK(info.mode), 'ar-thin:kind', f"{name}: {info}")
            if info is not None:
                links[info.linkname] = info
                ctx.count('symlinks')
        ctx.equal(sorted(links), sorted(names), 'ar-thin:targets', 'link targets of the thin archive')
        ctx.count('entries_checked', len(links))
    ctx.distinct('thin', len(names))


def case_zipdetails(ctx, i, rng):
    """ZIP features the random trees do not have: data descriptors, prefix data, comments, zip64 fields, DOS entries."""
    import io
    import zipfile

    tree = {}
    buffer = io.BytesIO()
    what = i % 6
    unseekable = what == 0

    class Unseekable(io.RawIOBase):
        def writable(self):
            return True

        def write(self, data):
            return buffer.write(data)

    prefix = rng.randbytes(rng.randrange(1, 3000)) if what == 1 else b''
    if what == 1:
        buffer.write(b'#!/bin/sh\n' + prefix)
    with zipfile.ZipFile(Unseekable() if unseekable else buffer, 'a' if what == 1 else 'w') as archive:
        if what == 2:
            archive.comment = rng.randbytes(rng.randrange(1, 60000)).replace(b'PK', b'pk')
        for k in range(rng.randrange(1, 8)):
            name = f"{rng.choice(['', 'd/', 'd/e/'])}{gen.name(rng, 0)}{k}"
            data = gen.blob(rng, gen.size(rng))
            info = zipfile.ZipInfo(name, (rng.choice([1980, 2000, 2107]), 12, 31, 23, 59, 58))
            info.compress_type = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])
            if what == 3:
                info.create_system = 0
                info.external_attr = 0x20
            else:
                info.create_system = 3
                info.external_attr = (stat.S_IFREG | 0o640) << 16
            if what == 4:
                info.extra = struct.pack('<HHI', 0xCAFE, 4, rng.getrandbits(32))
                info.comment = b'comment of member'
            with archive.open(info, 'w', force_zip64=what == 5) as file:
                file.write(data)
            tree['/' + name] = zoo.Node('file', data, mode=0o640)
    path = os.path.join(ctx.mkdir('zip'), 'archive.zip')
    gen.write(path, buffer.getvalue())
    for p in list(tree):
        while '/' in p.strip('/'):
            p = p.rsplit('/', 1)[0]
            if p:
                tree.setdefault(p, zoo.Node('dir'))
    loose = frozenset(p for p, n in tree.items() if n.kind == 'dir')
    source = zoo.Source('zip-details', path, tree, frozenset({'mode'} if what != 3 else set()), loose=loose)
    check_source(ctx, rng, source, f"zip{what}")


def case_nonames(ctx, i, rng):
    """Member names that leave the archive or are oddly spelled are shown normalized and inside the root."""
    import io
    import zipfile

    from ratarmountcore.mountsource.factory import open_mount_source

    buffer = io.BytesIO()
    names = {'../../escape1': '/escape1', '/abs/escape2': '/abs/escape2', './dot': '/dot', 'a/./b': '/a/b',
             'a/../c': '/c', 'x//y': '/x/y'}
    chosen = rng.sample(sorted(names), rng.randrange(1, 6))
    with zipfile.ZipFile(buffer, 'w') as archive:
        for name in chosen:
            archive.writestr(zipfile.ZipInfo(name), name.encode())
    path = gen.write(os.path.join(ctx.mkdir('zip'), 'archive.zip'), buffer.getvalue())
    with open_mount_source(path) as ms:
        for name in chosen:
            info = ms.lookup(names[name])
            ctx.require(info is not None, 'zip:normalized-name', f"{name!r} is not at {names[name]!r}")
            with ms.open(info) as file:
                ctx.equal(file.read(), name.encode(), 'zip:normalized-content', name)
            ctx.count('entries_checked')
    ctx.distinct('nonames', sorted(chosen))


def case_fixtures(ctx, i, rng):
    name = FIXTURES[i]
    original = os.path.join(os.environ.get('RV_REPO', '/repo'), 'tests', name)
    folder = ctx.mkdir('fixture')
    path = os.path.join(folder, name.removesuffix('.bz2'))
    if not os.path.isfile(original):
        ctx.count('fixtures_missing')
        return
    with open(original, 'rb') as file:
        data = file.read()
    gen.write(path, bz2.decompress(data) if name.endswith('.bz2') else data)
    target = ctx.mkdir('extracted')
    if path.endswith('.rar'):
        gen.run(['unrar', 'x', '-y', '-inul', path, target + '/'])
    else:
        gen.run(['7z', 'x', '-snl', '-y', '-o' + target, path])
    tree = {}
    for base, folders, files in os.walk(target):
        for entry in folders + files:
            full = os.path.join(base, entry)
            relative = '/' + os.path.relpath(full, target)
            if name.startswith('ar-') and relative == '/1.txt' or relative == '/2.txt' or '[TOC]' in relative or '[SYS]' in relative:
                continue
            if os.path.islink(full):
                tree[relative] = zoo.Node('sym', link=os.readlink(full))
            elif os.path.isdir(full):
                tree[relative] = zoo.Node('dir')
            else:
                with open(full, 'rb') as file:
                    tree[relative] = zoo.Node('file', file.read())
    if not tree:
        raise core.HarnessError(f"nothing extracted from {name}")
    fields = set() if '.ext4' in name or name.startswith('folder-symlink.rar') else {'link'}
    source = zoo.Source('fixture-' + name, path, tree, frozenset(fields), loose=frozenset())
    check_source(ctx, rng, source, 'fixture')
    ctx.count('fixtures')


def case_warc_boundary(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    out = b''
    for k in range(40):
        out += b''.join(zoo.warc_record(f"/f{k}", b'%03d' % k * 100, k, 10**9))
    path = gen.write(os.path.join(ctx.mkdir('warc'), 'archive.warc'), out)
    ctx.count('entries_checked')
    try:
        with open_mount_source(path) as ms:
            names = sorted(ms.list('/'))
    except Exception as exception:
        ctx.fail('warc:header-crosses-block', f"valid WARC file of 40 records refused: {exception!r}")
        return
    ctx.equal(names, sorted(f"f{k}" for k in range(40)), 'warc:names', 'records')
