"""Archives, index locations and complete views for the checks about stored indexes."""

import hashlib
import io
import os
import stat
import tarfile
import time

from rv import gen, targen, tarwork, view, zoo

INDEXED_FORMATS = ['zip', 'ar', 'asar', 'html', 'ogg', 'single.gz', 'single.bz2', 'single.xz', 'single.zst', 'single.zlib']
UNSTORED_FORMATS = ['cab', 'iso', 'cpio', 'warc', '7z', 'rar', 'sqlar', 'pdf', 'xar', 'tar.lz4', 'single.lz4']
TAR_COMPRESSIONS = ['', '', '', 'gz', 'gz', 'bz2', 'xz', 'xz-blocks', 'zst', 'zlib']
SUFFIX = {'': 'tar', 'gz': 'tar.gz', 'bz2': 'tar.bz2', 'xz': 'tar.xz', 'xz-blocks': 'tar.xz', 'zst': 'tar.zst', 'zlib': 'tar.zz'}


STARTED = time.time()


def deep(ms, contents=True, limit=50000):
    """Everything visible: all entries with metadata, link, xattrs, contents, and the same for every older version.

    Times generated from the current time, e.g., for implied folders of RAR archives, are all shown as 'now'."""
    result = {}

    def one(path, info):
        kind = view.kind_of(info.mode)
        data = ''
        if contents and stat.S_ISREG(info.mode):
            content = view.read_all(ms, info)
            data = f"{len(content)}:{hashlib.sha1(content).hexdigest()}"
        xattrs = tuple((key, ms.get_xattr(info, key)) for key in sorted(ms.list_xattr(info)))
        mtime = 'now' if STARTED - 1 <= info.mtime <= time.time() + 1 else info.mtime
        return (kind, info.mode, info.size, mtime, info.uid, info.gid, info.linkname or '', data, xattrs)

    for path, info in view.walk(ms, limit=limit):
        if info is None:
            result[path] = 'LISTED BUT MISSING'
            continue
        count = ms.versions(path)
        older = []
        for k in range(1, count + 1) if count > 1 else ():
            version = ms.lookup(path, k)
            older.append(None if version is None else one(path, version))
        result[path] = (one(path, info), count, tuple(older))
    return result


FIELDS = ['kind', 'mode', 'size', 'mtime', 'uid', 'gid', 'link', 'content', 'xattrs']


def explain(got, want):
    """(mechanism, text) for the first differences, or None."""
    if got == want:
        return None
    missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    if missing or extra:
        return ('missing' if missing else 'extra'), f"missing {missing[:5]}, extra {extra[:5]}"
    for path in sorted(want):
        a, b = got[path], want[path]
        if a == b:
            continue
        if isinstance(a, str) or isinstance(b, str):
            return 'lookup', f"{path!r}: {a} instead of {b}"
        if a[0] != b[0]:
            fields = [name for name, x, y in zip(FIELDS, a[0], b[0]) if x != y]
            return '+'.join(fields), f"{path!r}: " + ', '.join(
                f"{name} {a[0][FIELDS.index(name)]!r} instead of {b[0][FIELDS.index(name)]!r}" for name in fields)
        if a[1] != b[1]:
            return 'version-count', f"{path!r}: {a[1]} instead of {b[1]} versions"
        return 'older-version', f"{path!r}: {a[2]} instead of {b[2]}"
    return 'order', 'the same entries'


def nested_tar(rng, depth=1):
    """A member holding a TAR (of TARs)."""
    members = tarwork.random_members(rng, rng.randrange(0, 6), fmts=('gnu', 'pax'), special=0.1)
    members = [m for m in members if not m.name.lower().rstrip('/').endswith('.tar')]
    if depth > 1:
        members.append(nested_tar(rng, depth - 1))
    return targen.Member('file', rng.choice(['n', 'sub/n', 'deep/er/n']) + str(rng.randrange(100)) + rng.choice(['.tar', '.tar', '.TAR']),
                         data=targen.build(members), fmt='gnu', mode=0o644, mtime=77)


def tar_archive(rng, folder, compression=None, large=False, count=None, name=None, nested=None):
    """Returns (path, options, description)."""
    options = {}
    members = tarwork.random_members(rng, count if count is not None else rng.randrange(0, 30))
    description = []
    if nested if nested is not None else rng.random() < 0.25:
        for _ in range(rng.randrange(1, 3)):
            members.insert(rng.randrange(len(members) + 1), nested_tar(rng, rng.choice([1, 1, 2])))
        options['recursive'] = True
        options['recursionDepth'] = rng.choice([1, 2, 3])
        description.append('nested')
        if rng.random() < 0.4:
            options['stripRecursiveTarExtension'] = True
            description.append('strip')
    if large:
        for k in range(rng.randrange(1, 4)):
            members.insert(rng.randrange(len(members) + 1), targen.Member(
                'file', f"large{k}", data=gen.blob(rng, rng.randrange(300_000, 3_000_000)), fmt='gnu', mtime=5))
    data = targen.build(members, endBlocks=rng.choice([2, 2, 2, 3, 20]))
    if not members:  # Nothing but zeros is not recognized as TAR.
        data = targen.build([targen.Member('file', 'only', data=b'x')])
    if rng.random() < 0.1:
        data += targen.build(tarwork.random_members(rng, 5))
        options['ignoreZeros'] = True
        description.append('ignore-zeros')
    if rng.random() < 0.15:
        buffer = io.BytesIO()
        with tarfile.open(fileobj=buffer, mode='w', format=tarfile.GNU_FORMAT, encoding='latin1') as tar:
            for text in ('ümlaut', 'dir/ö', 'plain'):
                info = tarfile.TarInfo(text)
                info.size = len(text)
                tar.addfile(info, io.BytesIO(text.encode('latin1')))
        data = buffer.getvalue()
        options['encoding'] = rng.choice(['latin1', 'utf-8'])
        description.append('encoding')
    if rng.random() < 0.1:
        options['transform'] = rng.choice([('^/?(.*)', r'/pre/\1'), ('a', 'AA'), ('/b', '/x/b')])
        description.append('transform')
    compression = rng.choice(TAR_COMPRESSIONS) if compression is None else compression
    if compression:
        data = gen.compress(compression, data, rng, parts=rng.choice([1, 1, 2, 5]))
    if compression == 'gz':
        options['gzipSeekPointSpacing'] = rng.choice([64 * 1024, 100 * 1000, 256 * 1024, 16 * 1024 * 1024])
    if rng.random() < 0.5:
        options['parallelizations'] = {'': rng.choice([0, 1, 2, 4])}
    path = gen.write(os.path.join(folder, (name or rng.choice(['archive', 'ä b', 'x%20?#y'])) + '.' + SUFFIX[compression]), data)
    return path, options, 'tar.' + (compression or 'plain') + ''.join('+' + d for d in description)


def zoo_archive(rng, folder, fmt, large=False):
    source = zoo.make(fmt, rng, folder, large=large)
    options = dict(source.options)
    if fmt in ('zip', 'ar', 'asar') and rng.random() < 0.2:
        options['transform'] = ('^/?(.*)', r'/pre/\1')
    return source.path, options, fmt


def open_source(path, **options):
    from ratarmountcore.mountsource.factory import open_mount_source

    return open_mount_source(path, **options)


def close(ms):
    ms.__exit__(None, None, None)


def fresh_view(path, options, contents=True):
    """The view without any stored index."""
    ms = open_source(path, **dict(options, indexFilePath=':memory:', writeIndex=False))
    try:
        return deep(ms, contents=contents)
    finally:
        close(ms)


def stored_view(path, options, contents=True):
    ms = open_source(path, **options)
    try:
        return deep(ms, contents=contents)
    finally:
        close(ms)


def files_below(*folders):
    """path -> (size, digest, mtime_ns, inode) of regular files, marker for anything else."""
    result = {}
    for top in folders:
        for folder, dirs, names in os.walk(top):
            for name in dirs:
                path = os.path.join(folder, name)
                result[path] = 'dir' if not os.path.islink(path) else 'link ' + os.readlink(path)
            for name in names:
                path = os.path.join(folder, name)
                try:
                    st = os.lstat(path)
                    if stat.S_ISREG(st.st_mode):
                        with open(path, 'rb') as file:
                            result[path] = (st.st_size, hashlib.sha1(file.read()).hexdigest(), st.st_mtime_ns, st.st_ino, st.st_mode)
                    else:
                        result[path] = ('special', st.st_mode)
                except FileNotFoundError:
                    pass
    return result


def is_index(path):
    try:
        with open(path, 'rb') as file:
            return file.read(16) == b'SQLite format 3\0'
    except OSError:
        return False
