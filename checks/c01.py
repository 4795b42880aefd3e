"""C01: the view of a mounted TAR against the model its header blocks were written from."""

import io
import os
import stat

from rv import gen, targen, tarwork, view
from rv.core import HarnessError

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = (
    'A case is one TAR written by our own encoder (v7/ustar/GNU/PAX headers, long names, sparse formats, hard links, '
    'repeated and oddly spelled paths, compressed or not) or by GNU tar, mounted and walked completely; non-trivial and '
    'distinct: the tuple of (header format, kind, special feature) combinations and opening variant of the case.'
)
ASSUMPTIONS = ['A path that was a folder is not replaced by a non-folder later (documented ambiguity, excluded).']
MINIMUM = {'entries_checked': 300, 'bytes_compared': 100000, 'hardlinks_resolved': 5, 'sparse_files': 5}
PRELOAD = ['ratarmountcore.mountsource.factory']


def plan(tier):
    k = 1 if tier == 'quick' else 25
    return [('model', 240 * k, 15), ('gnutar', 24 * k, 3), ('incremental', 6 * k, 1), ('encoding', 16 * k, 4),
            ('large', 6 * k, 1), ('edge', 12, 3), ('global', 12 * k, 3)]


COMPRESSIONS = ['', '', '', 'gz', 'bz2', 'xz', 'zst', 'zlib']


def open_variant(ctx, rng, data, **options):
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.formats.tar import SQLiteIndexedTar

    compression = rng.choice(COMPRESSIONS)
    packed = gen.compress(compression, data, rng, parts=rng.choice([1, 1, 2, 3])) if compression else data
    variant = rng.choice(['path', 'path', 'path-index', 'fileobj', 'class', 'class-fileobj'])
    options = dict(options, gzipSeekPointSpacing=rng.choice([64 * 1024, 1024 * 1024, 16 * 1024 * 1024]),
                   parallelizations={'': rng.choice([0, 1, 2])})
    if compression == 'zst' and 'fileobj' in variant:
        variant = 'path'  # indexed_zstd needs a real file descriptor; other backends take over (see C16, C22)
    ctx.count('opened_' + (compression or 'plain'))
    suffix = {'': 'tar', 'gz': 'tar.gz', 'bz2': 'tar.bz2', 'xz': 'tar.xz', 'zst': 'tar.zst', 'zlib': 'tar.zz'}[compression]
    if variant in ('fileobj', 'class-fileobj'):
        file = io.BytesIO(packed)
        if variant == 'fileobj':
            return open_mount_source(file, **options), f"{variant}/{compression}"
        return SQLiteIndexedTar(fileObject=file, **options), f"{variant}/{compression}"
    path = gen.write(os.path.join(ctx.mkdir(), rng.choice(['archive.', 'no-extension-', 'ä b.']) + suffix), packed)
    if variant == 'class':
        return SQLiteIndexedTar(path, **options), f"{variant}/{compression}"
    if variant == 'path-index':
        options.update(writeIndex=True, indexFilePath=path + '.idx')
    return open_mount_source(path, **options), f"{variant}/{compression}"


def features(m):
    out = [m.fmt, m.kind]
    if m.sparse is not None:
        out.append('sparse' + m.sparseFormat + ('+size' if m.paxSize else ''))
    if len(m.name) > 100:
        out.append('longname')
    if len(m.linkname) > 100:
        out.append('longlink')
    if targen.normalize(m.name) != '/' + m.name:
        out.append('spelled')
    if m.xattrs:
        out.append('xattr')
    return '-'.join(out)


def check_meta(ctx, path, info, m, prefix, checkLink=True):
    key = f"{prefix}:{m.fmt}:{m.kind}"
    ctx.count('entries_checked')
    wantKind = targen.kind_visible(m)
    if m.kind == 'hard':
        ctx.check_that(not stat.S_ISLNK(info.mode) and not stat.S_ISDIR(info.mode), key + ':type',
                       f"hard link {path!r} shown as {oct(info.mode)}")
    else:
        ctx.equal(view.kind_of(info.mode), wantKind, key + ':type', f"type of {path!r} (mode {oct(info.mode)})")
    ctx.equal(stat.S_IMODE(info.mode), m.mode & 0o7777, key + ':perm', f"permissions of {path!r}")
    ctx.equal(info.mtime, m.mtime, key + ':mtime', f"mtime of {path!r}")
    ctx.equal((info.uid, info.gid), (m.uid, m.gid), key + ':owner', f"uid, gid of {path!r}")
    if wantKind == 'file':
        ctx.equal(info.size, len(m.data), key + ':size', f"size of {path!r}")
    if m.kind in ('sym', 'hard') and checkLink:
        ctx.equal(info.linkname, m.linkname, key + ':linkname', f"link target of {path!r}")
    elif m.kind not in ('sym', 'hard'):
        ctx.equal(info.linkname or '', '', key + ':linkname', f"link target of {path!r}")


def check_view(ctx, ms, members, tag):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    tree = tarwork.expected_tree(members)
    layered = FileVersionLayer(ms)
    seen = dict(view.walk(ms))
    ctx.check_that(set(seen) == set(tree), f"{tag}:paths",
                   lambda: f"missing {sorted(set(tree) - set(seen))[:5]}, extra {sorted(set(seen) - set(tree))[:5]}")
    for path, (state, m) in tree.items():
        info = ms.lookup(path)
        if info is None:
            ctx.fail(f"{tag}:lookup-missing", f"{path!r} not found")
            continue
        if state == 'implied':
            ctx.check_that(stat.S_ISDIR(info.mode), f"{tag}:implied-type", f"{path!r} has mode {oct(info.mode)}")
            continue
        check_meta(ctx, path, info, m, tag)
        if targen.kind_visible(m) == 'file':
            data = view.read_all(ms, info)
            ctx.count('bytes_compared', len(data))
            if m.sparse is not None:
                ctx.count('sparse_files')
            ctx.check_that(data == m.data, f"{tag}:{m.fmt}:{m.kind}{':sparse' + m.sparseFormat if m.sparse is not None else ''}:content",
                           lambda: f"content of {path!r}: {len(data)} bytes, expected {len(m.data)}; first difference at "
                           f"{next((i for i, (a, b) in enumerate(zip(data, m.data)) if a != b), 'end')}")
        through = layered.lookup(path)
        if m.kind == 'hard':
            target = tarwork.resolve_hard(tree, m)
            ctx.count('hardlinks_resolved')
            if through is None:
                ctx.fail(f"{tag}:hardlink-missing", f"{path!r} -> {m.linkname!r}")
            else:
                check_meta(ctx, path, through, target, tag + ':hardlink')
                if targen.kind_visible(target) == 'file':
                    data = view.read_all(layered, through)
                    ctx.check_that(data == target.data, f"{tag}:hardlink-content", f"{path!r} -> {m.linkname!r}")
        else:
            ctx.check_that(through is not None and through.mode == info.mode and through.size == info.size,
                           f"{tag}:layer-differs", f"{path!r}: {through} vs {info}")
    for path in list(tree)[:20]:
        for wrong in (path + 'x', path + '/nope', path + '/..x'):
            if targen.normalize(wrong) not in tree:
                ctx.check_that(ms.lookup(wrong) is None, f"{tag}:phantom", f"{wrong!r} exists")


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario](ctx, i, rng)


def case_model(ctx, i, rng):
    members = tarwork.random_members(rng, rng.choice([1, 2, 3, 5, 8, 13, 25, 40]))
    data = targen.build(members, endBlocks=rng.choice([2, 2, 2, 3, 20]), record=rng.choice([0, 10240]))
    ms, variant = open_variant(ctx, rng, data)
    with ms:
        check_view(ctx, ms, members, 'view')
    ctx.distinct(variant, sorted({features(m) for m in members}))
    ctx.sample({'variant': variant, 'members': [f"{features(m)} {m.name} {len(m.data)}" for m in members[:6]]})


def case_edge(ctx, i, rng):
    """Unusual but valid endings and paddings; concatenated archives with ignoreZeros; folder-only archives."""
    members = tarwork.random_members(rng, 6)
    options = {}
    if i % 6 == 0:
        data = targen.build(members, endBlocks=0)  # no end marker at all
    elif i % 6 == 1:
        data = targen.build(members, endBlocks=1)
    elif i % 6 == 2:
        first = targen.build(members)
        second = tarwork.random_members(rng, 4)
        for m in second:
            m.name = 'second/' + targen.normalize(m.name).lstrip('/')
            if m.kind == 'hard':
                m.linkname = 'second/' + m.linkname
            if len(m.name.encode()) > 90 or len(m.linkname.encode()) > 90:
                m.fmt = 'gnu' if m.sparse is None or m.sparseFormat == 'gnu' else m.fmt
                m.xattrs = m.libarchiveXattrs = None
                m.fullMode = False
                if isinstance(m.mtime, float):
                    m.mtime = int(m.mtime)
        data = first + targen.build(second)
        members = members + second
        options['ignoreZeros'] = True
    elif i % 6 == 3:
        members = [targen.Member('dir', 'only', mode=0o755, mtime=5), targen.Member('dir', 'only/folders/', mode=0o700)]
        data = targen.build(members)
    elif i % 6 == 4:
        members = [targen.Member('dir', './', mode=0o755), targen.Member('file', './f', b'data')]
        data = targen.build(members)
    else:
        first = targen.build(members)
        data = first + targen.build([targen.Member('file', 'after-the-end', b'x')])  # must stay invisible
    ms, variant = open_variant(ctx, rng, data, **options)
    with ms:
        check_view(ctx, ms, members, f"edge{i % 6}")
    ctx.distinct('edge', i % 6, variant)


def case_global(ctx, i, rng):
    """PAX global headers before and between members."""
    members = tarwork.random_members(rng, 8, fmts=('pax', 'ustar'))
    cut = rng.randrange(len(members))
    glob = targen.pax_header([('comment', b'0123456789' * 5)], b'g')
    data = (glob if i % 2 else b'') + b''.join(map(targen.encode, members[:cut])) + glob + b''.join(
        map(targen.encode, members[cut:])) + b'\0' * 1024
    ms, variant = open_variant(ctx, rng, data)
    with ms:
        check_view(ctx, ms, members, 'global')
    ctx.distinct('global', cut, variant)


def case_large(ctx, i, rng):
    """Enough entries to pass the batch limit (1000 rows) and file sizes beyond buffer sizes."""
    members = []
    n = 1000 * rng.choice([1, 2]) + rng.choice([-1, 0, 1, 2, 3, 57])
    for k in range(n):
        folder = f"d{rng.randrange(40)}/e{rng.randrange(3)}"
        members.append(targen.Member('file', f"{folder}/{k}", b'%d' % k * rng.randrange(3), mtime=k, fmt='ustar'))
    for k in range(3):
        members.insert(rng.randrange(len(members)),
                       targen.Member('file', f"big{k}", gen.blob(rng, rng.randrange(1, 4) * 1024 * 1024 + 7), fmt='gnu'))
    data = targen.build(members)
    ms, variant = open_variant(ctx, rng, data)
    with ms:
        check_view(ctx, ms, members, 'large')
    ctx.distinct('large', n, variant)


def case_encoding(ctx, i, rng):
    """Names that are not valid UTF-8, read with the right encoding and with the default one."""
    encoding = ['iso-8859-1', 'cp1252', 'utf-8'][i % 3]
    names = ['ümlaut', 'straße/ß', 'x/é.txt', 'plain', 'ÿ']
    members = [targen.Member('file', n, n.encode() + b'%d' % k, fmt=rng.choice(['ustar', 'gnu']), encoding=encoding)
               for k, n in enumerate(names)]
    members.append(targen.Member('sym', 'link', linkname='zielö', encoding=encoding, fmt='gnu'))
    data = targen.build(members)
    if i % 2 == 0 or encoding == 'utf-8':
        ms, variant = open_variant(ctx, rng, data, encoding=encoding)
        with ms:
            check_view(ctx, ms, members, 'encoding')
    else:
        # Undecodable bytes are shown escaped; nothing may be lost and contents must be right.
        ms, variant = open_variant(ctx, rng, data)
        with ms:
            seen = {p: info for p, info in view.walk(ms) if info is None or not stat.S_ISDIR(info.mode)}
            ctx.equal(len(seen), len(members), 'encoding:escaped-count', f"entries {sorted(seen)}")
            contents = sorted(view.read_all(ms, info) for info in seen.values()
                              if info is not None and stat.S_ISREG(info.mode))
            ctx.equal(contents, sorted(m.data for m in members if m.kind == 'file'), 'encoding:escaped-content', 'contents')
            ctx.count('entries_checked', len(seen))
    ctx.distinct('encoding', encoding, i % 2, variant)


def make_real_tree(ctx, rng, sparse=True):
    root = ctx.mkdir('tree')
    files = []
    for k in range(rng.randrange(4, 14)):
        folder = os.path.join(root, *[rng.choice('abc') for _ in range(rng.randrange(3))])
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{gen.name(rng)}{k}")
        what = rng.randrange(8)
        if what == 0:
            os.symlink(rng.choice(['x', '../y', '/nowhere']), path)
        elif what == 1 and files:
            os.link(rng.choice(files), path)
        elif what == 2 and sparse:
            with open(path, 'wb') as file:
                for _ in range(rng.randrange(1, 8)):
                    file.seek(rng.randrange(1, 40) * 65536)
                    file.write(gen.blob(rng, rng.choice([1, 4096, 10000])))
                file.truncate(rng.choice([0, 12345, 40 * 65536 + 11]) or file.tell())
            files.append(path)
        elif what == 3:
            os.mkfifo(path)
        elif what == 4:
            os.makedirs(path)
        else:
            gen.write(path, gen.blob(rng, gen.size(rng)))
            files.append(path)
        os.chmod(path, rng.choice([0o644, 0o755, 0o600]), follow_symlinks=True) if what in (3, 4, 5, 6, 7) else None
        os.utime(path, (1000 + k, 1500000000 + k), follow_symlinks=False)
    return root


def compare_with_directory(ctx, ms, root, tag, checkSize=True):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    layered = FileVersionLayer(ms)
    want = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            full = os.path.join(folder, name)
            want['/' + os.path.relpath(full, root)] = full
    seen = dict(view.walk(ms))
    ctx.check_that(set(seen) == set(want), f"{tag}:paths",
                   lambda: f"missing {sorted(set(want) - set(seen))[:5]}, extra {sorted(set(seen) - set(want))[:5]}")
    for path, full in want.items():
        info = layered.lookup(path)
        if info is None:
            ctx.fail(f"{tag}:missing", path)
            continue
        st = os.lstat(full)
        kind = view.kind_of(st.st_mode)
        ctx.count('entries_checked')
        ctx.equal(view.kind_of(info.mode), kind, f"{tag}:type", path)
        if kind != 'sym':
            ctx.equal(stat.S_IMODE(info.mode), stat.S_IMODE(st.st_mode), f"{tag}:perm", path)
        if kind != 'dir':
            ctx.equal(int(info.mtime), int(st.st_mtime), f"{tag}:mtime", path)
        if kind == 'sym':
            ctx.equal(info.linkname, os.readlink(full), f"{tag}:link", path)
        if kind == 'file':
            with open(full, 'rb') as file:
                data = file.read()
            got = view.read_all(layered, info)
            ctx.count('bytes_compared', len(got))
            if st.st_blocks * 512 < st.st_size:
                ctx.count('sparse_files')
            if st.st_nlink > 1:
                ctx.count('hardlinks_resolved')
            ctx.equal(info.size, st.st_size, f"{tag}:size", path)
            ctx.check_that(got == data, f"{tag}:content", f"{path}: {len(got)} bytes vs {len(data)}")


def case_gnutar(ctx, i, rng):
    root = make_real_tree(ctx, rng)
    fmt = ['v7', 'oldgnu', 'gnu', 'ustar', 'posix'][i % 5]
    out = os.path.join(ctx.mkdir(), 'x.tar')
    args = ['tar', '-c', '-f', out, '--format', fmt, '--sort=name', '-C', root]
    if fmt in ('oldgnu', 'gnu', 'posix') and rng.random() < 0.7:
        args.append('--sparse')
        if fmt == 'posix':
            args.append('--sparse-version=' + rng.choice(['0.0', '0.1', '1.0']))
    if fmt == 'v7':
        for folder, dirs, files in os.walk(root):
            for name in files:
                full = os.path.join(folder, name)
                if stat.S_ISFIFO(os.lstat(full).st_mode):
                    os.unlink(full)
    args.append('.')
    gen.run(args)
    with open(out, 'rb') as file:
        data = file.read()
    ms, variant = open_variant(ctx, rng, data)
    with ms:
        compare_with_directory(ctx, ms, root, f"gnutar:{fmt}")
    ctx.distinct('gnutar', args[4:8], variant, i)


def case_incremental(ctx, i, rng):
    """GNU incremental archives: names must not carry the timestamp prefix; folders are folders."""
    root = make_real_tree(ctx, rng, sparse=False)
    folder = ctx.mkdir()
    out = os.path.join(folder, 'x.tar')
    if i % 2:
        gen.run(['tar', '-c', '-G', '-f', out, '--format=gnu', '-C', os.path.dirname(root), os.path.basename(root)])
    else:
        gen.run(['tar', '-c', '-g', os.path.join(folder, 'snar'), '-f', out, '--format=gnu', '-C', os.path.dirname(root),
                 os.path.basename(root)])
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource  # noqa: F401

    options = {} if i % 3 else {'isGnuIncremental': True}
    with open_mount_source(out, **options) as ms:
        base = '/' + os.path.basename(root)
        seen = dict(view.walk(ms))
        want = {base: root}
        for dirpath, dirs, files in os.walk(root):
            for name in dirs + files:
                full = os.path.join(dirpath, name)
                want[base + '/' + os.path.relpath(full, root)] = full
        ctx.check_that(set(seen) == set(want), 'incremental:paths',
                       lambda: f"missing {sorted(set(want) - set(seen))[:5]}, extra {sorted(set(seen) - set(want))[:5]}")
        for path, full in want.items():
            info = seen.get(path)
            if info is None:
                continue
            st = os.lstat(full)
            kind = view.kind_of(st.st_mode)
            ctx.count('entries_checked')
            if st.st_nlink > 1 and kind == 'file' and view.kind_of(info.mode) == 'none':
                continue
            ctx.equal(view.kind_of(info.mode), kind, 'incremental:type', path)
            if kind == 'file':
                with open(full, 'rb') as file:
                    ctx.check_that(view.read_all(ms, info) == file.read(), 'incremental:content', path)
    ctx.distinct('incremental', i % 2, i % 3, len(want))
