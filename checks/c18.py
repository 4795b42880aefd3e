"""C18: extended attributes and content hashes are exact."""

import base64
import contextlib
import hashlib
import io
import os
import stat
import urllib.parse
import zlib

from rv import fusework, gen, indexwork, targen, view, zoo

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = (
    'A case writes TARs whose members and versions carry random attributes (all bytes, empty and long values, both ways of '
    'encoding, global headers), or an archive of one of 35 formats opened with random hash algorithms, and compares the names '
    'and values of all attributes of every entry and version with those written, or the hashes with those of hashlib for the '
    'content written, through the mount source and its layers and the FUSE operations, after creating, reloading, and extending '
    'the index; absent names must be reported as missing; distinct: (names, values, algorithms, format, way of opening).'
)
MINIMUM = {'attributes': 3000, 'absent': 4000, 'entries_without': 1000, 'older_versions': 500, 'hashes': 2500, 'reloaded': 150, 'appended': 20,
           'fuse': 500, 'nested': 40}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmount.FuseMount']

NAMES = ['f0', 'f1', 'd/f', 'd/g', 'd/e/h', 'ü', 'long/' + 'n' * 120, 'x.tar.bin', 'd', 'empty']

LIVE = ['folder', 'git', 'rar', 'sqlar', '7z-py7zr']  # not indexed


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('xattrs', 160 * k, 5), ('many', 4 * k, 1), ('hashes', 5 * len(zoo.FORMATS) * k, 6), ('tar-hashes', 60 * k, 4)]


def random_key(rng):
    kind = rng.randrange(8)
    if kind < 4:
        return rng.choice(['user.', 'security.', 'trusted.', 'system.', '', 'user.hash.']) + rng.choice(['a', 'A', 'b', 'ab', 'a.b', 'crc32', 'x' * 200])
    if kind == 4:
        return 'user.' + rng.choice(['ü', '日本', 'a b', '%41', 'a%', "q'\"", ':', '\n', '\U0001f600', 'a/b', '*', '_'])
    return 'user.' + ''.join(rng.choice('abcXYZ019._-+ ') for _ in range(rng.randrange(1, 12)))


def random_value(rng):
    return rng.choice([
        lambda: b'', lambda: b'0', lambda: b'\0', lambda: rng.randbytes(rng.choice([1, 2, 3, 4, 30, 300])), lambda: bytes(range(256)),
        lambda: rng.randbytes(rng.choice([510, 511, 512, 513, 70000])), lambda: b'a=b\n 12 path=x\n', lambda: 'ä'.encode(), lambda: b'\xe4\xff\n',
        lambda: b'text', lambda: b'9' * rng.choice([1, 80, 90, 95, 990]), lambda: b'\xed\xa0\x80', lambda: b'\xed\xb3\xa4',
        lambda: b'\xef\xbb\xbf', lambda: b'true', lambda: b'12.5', lambda: b'\r\n \t', lambda: b'=',
    ])()


def random_attributes(rng):
    if rng.random() < 0.3:
        return {}
    return {random_key(rng): random_value(rng) for _ in range(rng.choice([1, 1, 2, 3, 8]))}


def pax_records(rng, attributes):
    """Both encodings in use: GNU tar and star write SCHILY, bsdtar writes LIBARCHIVE or both."""
    records = []
    for key, value in attributes.items():
        how = rng.choice(['schily', 'libarchive', 'both'])
        if how != 'libarchive':
            records.append((b'SCHILY.xattr.' + key.encode(), value))
        if how != 'schily':
            encoded = base64.b64encode(value)
            if rng.random() < 0.7:
                encoded = encoded.rstrip(b'=')
            records.append((b'LIBARCHIVE.xattr.' + urllib.parse.quote(key, safe=rng.choice(['', ':/ ü'])).encode(), encoded))
    rng.shuffle(records)
    return records


def usable(key):
    return '=' not in key


class Tar:
    """Members with distinct times, by which their attributes are found again."""

    def __init__(self, rng):
        self.rng = rng
        self.attributes = {}  # mtime -> attributes
        self.contents = {}  # mtime -> bytes of regular files
        self.time = 1000
        self.shared = {}
        self.files = []

    def member(self, name=None, kind=None, data=None, attributes=None):
        rng = self.rng
        self.time += 1
        name = name or rng.choice(NAMES)
        if name == 'd':
            kind = 'dir'
        kind = kind or rng.choice(['file', 'file', 'file', 'sym', 'fifo', 'dir' if name == 'empty' else 'file', 'hard'])
        if name == 'empty' and kind != 'dir':
            name = 'f0'
        if kind == 'hard' and not self.files:
            kind = 'file'
        if data is None:
            data = gen.blob(rng, rng.choice([0, 1, 511, 512, 513, 5000, 64 * 1024, 200_000])) if kind == 'file' else b''
        own = random_attributes(rng) if attributes is None else attributes
        own = {k: v for k, v in own.items() if usable(k)}
        self.attributes[self.time] = {**self.shared, **own}
        link = {'sym': 'f0', 'hard': rng.choice(self.files) if self.files else ''}.get(kind, '')
        if kind == 'file':
            self.contents[self.time] = data
            self.files.append(name)
        member = targen.Member(kind, name, data=data, mtime=self.time, linkname=link, fmt='gnu')
        records = pax_records(rng, own)
        return (targen.pax_header(records) if records else b'') + targen.encode(member)

    def share(self):
        """A global header for all members to come."""
        self.shared = {**self.shared, **{k: v for k, v in random_attributes(self.rng).items() if usable(k)}}
        records = [(b'SCHILY.xattr.' + k.encode(), v) for k, v in self.shared.items()]
        return targen.pax_header(records, b'g') if records else b''

    def nested(self, depth=1):
        rng = self.rng
        outer, self.shared, files, self.files = self.shared, {}, self.files, []
        body = b''.join(self.member() for _ in range(rng.randrange(1, 5)))
        if depth > 1:
            body += self.nested(depth - 1)
        self.shared, self.files = outer, files
        name = rng.choice(['n', 'd/n']) + str(rng.randrange(3)) + '.tar'
        return self.member(name, 'file', body + bytes(1024))


def compare_info(ctx, ms, info, want, what, where):
    got = ms.list_xattr(info)
    ctx.equal(sorted(got), sorted(want), f"names:{where}", what)
    for key, value in want.items():
        result = ms.get_xattr(info, key)
        ctx.check_that(isinstance(result, bytes) and result == value, f"value:{where}",
                       f"{what}: attribute {key!r} is {result!r:.200} instead of {value!r:.200}")
        ctx.count('attributes')
    for key in absent(ctx, want):
        result = ms.get_xattr(info, key)
        ctx.check_that(result is None, f"absent:{where}", f"{what}: the absent attribute {key!r} is {result!r:.200}")
        ctx.count('absent')
    if not want:
        ctx.count('entries_without')


def absent(ctx, want):
    candidates = ['user.absent', '', 'user.a ', 'user.A', 'user.%', 'user_a', 'user.hash.md5', 'SCHILY.xattr.user.a', *[k + '.' for k in list(want)[:2]],
                  *[k[:-1] for k in list(want)[:2] if k], *[k.upper() for k in list(want)[:1]]]
    return [k for k in ctx.rng.sample(candidates, min(3, len(candidates))) if k not in want]


def compare_tar(ctx, ms, tar, where, layered=False):
    for path, info in list(view.walk(ms)):
        if info is None:
            ctx.fail(f"missing:{where}", f"{path!r} is listed but missing")
            continue
        count = ms.versions(path)
        for version in range(0, count + 1 if count > 1 and not where.endswith('versions') else 1):
            info = ms.lookup(path, version) if version else info
            if info is None:
                continue
            time = int(info.mtime)
            what = f"{path!r} version {version}"
            isFolder = stat.S_ISDIR(info.mode)
            if isFolder and time in tar.contents:
                continue  # a mounted archive
            want = tar.attributes.get(time, {})
            compare_info(ctx, ms, info, want, what, where)
            ctx.distinct(sorted(want), where)
            if version:
                ctx.count('older_versions')


def compare_fuse(ctx, ops, tar):

    def walk(path):
        yield path
        for name in ops.readdir(path, 0):
            name = name[0] if isinstance(name, tuple) else name
            if name in ('.', '..'):
                continue
            child = path.rstrip('/') + '/' + name
            if stat.S_ISDIR(ops.getattr(child)['st_mode']):
                yield from walk(child)
            else:
                yield child

    for path in walk('/'):
        attributes = ops.getattr(path)
        time = int(attributes['st_mtime'] / (1e9 if attributes['st_mtime'] > 1e12 else 1))
        if stat.S_ISDIR(attributes['st_mode']) and time in tar.contents:
            continue
        want = tar.attributes.get(time, {})
        ctx.equal(sorted(ops.listxattr(path)), sorted(want), 'names:fuse', path)
        for key, value in want.items():
            ctx.equal(ops.getxattr(path, key), value, 'value:fuse', f"{path!r} {key!r}")
        for key in absent(ctx, want):
            try:
                result = ops.getxattr(path, key)
                ctx.fail('absent:fuse', f"{path!r}: the absent attribute {key!r} is {result!r:.200}")
            except OSError as exception:
                ctx.equal(os.strerror(exception.errno), 'No data available', 'absent:fuse', f"{path!r} {key!r}")
        ctx.count('fuse')
    for operation in (lambda: ops.listxattr('/not/there'), lambda: ops.getxattr('/not/there', 'user.a')):
        try:
            operation()
            ctx.fail('missing-path:fuse', "Attributes of a path which does not exist")
        except OSError as exception:
            ctx.equal(os.strerror(exception.errno), 'No such file or directory', 'missing-path:fuse', 'error')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def layer(rng, ms, recursive):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    name = rng.choice(['union', 'subvolumes', 'prefix', 'versions', 'automount'])
    if name == 'union':
        return name, UnionMountSource([ms])
    if name == 'subvolumes':
        return name, SubvolumesMountSource({'sub': ms})
    if name == 'prefix':
        return name, RemovePrefixMountSource('/pre', ms)
    if name == 'automount' and not recursive:
        return name, AutoMountLayer(ms, recursive=True, indexFilePath=':memory:')
    return 'versions', FileVersionLayer(ms)


def case(ctx, scenario, i, rng):
    ctx.rng = rng
    {'xattrs': xattrs_case, 'many': many_case, 'hashes': hashes_case, 'tar-hashes': tar_hashes_case}[scenario](ctx, i, rng)


def many_case(ctx, i, rng):
    tar = Tar(rng)
    parts = []
    for k in range(400):
        attributes = {f"user.{j}.{rng.randrange(5)}": rng.randbytes(rng.randrange(20)) for j in range(rng.randrange(9))}
        parts.append(tar.member(f"f{k % 350}", 'file', b'x', attributes))
    path = gen.write(os.path.join(ctx.mkdir(), 'many.tar'), b''.join(parts) + bytes(1024))
    with quiet():
        ms = indexwork.open_source(path, indexFilePath=':memory:')
    compare_tar(ctx, ms, tar, 'many')
    indexwork.close(ms)


def xattrs_case(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    tar = Tar(rng)
    parts = []
    options = {}
    recursive = rng.random() < 0.35
    for _ in range(rng.choice([1, 3, 10, 20])):
        draw = rng.random()
        if draw < 0.08:
            parts.append(tar.share())
        elif recursive and draw < 0.3:
            parts.append(tar.nested(rng.choice([1, 2])))
            ctx.count('nested')
        else:
            parts.append(tar.member())
    parts.append(tar.member('last', 'file'))
    if recursive:
        options.update(recursive=True, recursionDepth=rng.choice([1, 2, 3]), stripRecursiveTarExtension=rng.random() < 0.3)
    if rng.random() < 0.2:
        options['encoding'] = rng.choice(['latin1', 'koi8-r', 'utf-8'])
    compression = rng.choice(['', '', '', 'gz', 'bz2', 'zst', 'xz'])
    path = os.path.join(ctx.mkdir(), 'a.tar' + ('.' + compression if compression else ''))
    data = b''.join(parts) + bytes(1024)

    def write(data):
        gen.write(path, gen.compress(compression, data, rng) if compression else data)

    write(data)
    stored = rng.random() < 0.6
    if stored:
        options.update(writeIndex=True, indexMinimumFileCount=0, indexFilePath=os.path.join(ctx.mkdir(), 'index'))
    else:
        options.update(indexFilePath=':memory:')
    ctx.about = f"{compression or 'plain'} {options}"
    ctx.distinct(data, str(options))

    def compare(where):
        with quiet():
            ms = open_mount_source(path, **options)
        compare_tar(ctx, ms, tar, where)
        if rng.random() < 0.5:
            name, layered = layer(rng, ms, recursive)
            compare_tar(ctx, layered, tar, 'layer:' + name, layered=True)
        indexwork.close(ms)

    compare('created')
    if stored:
        compare('reloaded')
        ctx.count('reloaded')
    if stored and not compression and not options.get('encoding'):
        for _ in range(rng.randrange(3)):
            tar.shared = {}
            parts = parts + [tar.member() for _ in range(rng.randrange(1, 6))] + [tar.member('last', 'file')]
            if recursive and rng.random() < 0.5:
                parts.append(tar.nested())
            # The attributes of global headers before the appended part need not be known to it.
            if any(b'ustar\x0000' in part and part[156:157] == b'g' for part in parts):
                break
            write(b''.join(parts) + bytes(rng.choice([1024, 10240])))
            compare('appended')
            ctx.count('appended')
            compare('reloaded')
    if rng.random() < 0.5:
        fuseOptions = {k: v for k, v in options.items() if k not in ('recursive', 'recursionDepth', 'writeIndex')}
        if not stored:
            fuseOptions['indexFilePath'] = ':memory:'
        ops = fusework.mount([path], ctx.mkdir('mnt'), enableFileVersions=rng.random() < 0.5, **fuseOptions)
        try:
            compare_fuse(ctx, ops, tar)
        finally:
            fusework.unmount(ops)


def smplayer(data):
    total = len(data)
    for part in (data[:65536], data[max(min(65536, len(data)), len(data) - 65536):]):
        part += bytes(-len(part) % 8)
        total += sum(int.from_bytes(part[k:k + 8], 'little') for k in range(0, len(part), 8))
    return f"{total % 2**64:016x}"


def hash_of(name, data):
    if name == 'crc32':
        return f"{zlib.crc32(data):08x}"
    if name == 'smplayer':
        return smplayer(data)
    algorithm = {'sha3-224': 'sha3_224', 'sha3-256': 'sha3_256', 'sha3-384': 'sha3_384', 'sha3-512': 'sha3_512', 'sha512-224': 'sha512_224',
                 'sha512-256': 'sha512_256', 'md5-sha1': 'md5-sha1'}.get(name, name)
    return hashlib.new(algorithm, data).hexdigest()


def algorithms(rng):
    from ratarmountcore.hashing import HASH_REGISTRY

    usable = []
    for name in sorted(HASH_REGISTRY):
        with contextlib.suppress(ValueError):
            hash_of(name, b'')
            usable.append(name)
    preferred = rng.choice([['crc32'], ['md5', 'sha1'], ['smplayer'], usable])
    return rng.sample(preferred, min(len(preferred), rng.choice([1, 2, 3, len(preferred)])))


def compare_hashes(ctx, ms, requested, contents, where, only=True):
    """contents: function of (path, info, version) giving the bytes."""
    for path, info in list(view.walk(ms)):
        if info is None:
            continue
        count = ms.versions(path)
        for version in range(0, count + 1 if count > 1 else 1):
            info = ms.lookup(path, version) if version else info
            if info is None:
                continue
            data = contents(path, info, version)
            names = [n for n in ms.list_xattr(info) if n.startswith('user.hash.')]
            ctx.equal(len(names), len(set(names)), f"twice:{where}", f"names {names} of {path!r}")
            if data is None or not stat.S_ISREG(info.mode):
                if not stat.S_ISREG(info.mode):
                    ctx.equal(names, [], f"not-regular:{where}", f"{path!r} version {version} ({info.mode:o})")
                continue
            ctx.equal(sorted(names), sorted('user.hash.' + n for n in requested), f"hash-names:{where}", f"{path!r} version {version}")
            for name in requested:
                value = ms.get_xattr(info, 'user.hash.' + name)
                ctx.equal(value, hash_of(name, data).encode(), f"hash:{name if name in ('crc32', 'smplayer') else 'digest'}:{where}",
                          f"{name} of {path!r} version {version} with {len(data)} B")
                ctx.count('hashes')
            ctx.distinct(where, data, sorted(requested))


def hashes_case(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    fmt = list(zoo.FORMATS)[i % len(zoo.FORMATS)]
    if fmt in LIVE:
        fmt = rng.choice(['zip', 'asar', 'single.gz', 'single.bz2', 'single.zst', 'ar', 'html'])
    source = zoo.make(fmt, rng, ctx.mkdir(), large=rng.random() < 0.1 and fmt not in ('tar.lzo', 'single.lzo'))
    options = dict(source.options)
    stored = rng.random() < 0.6
    if stored:
        options.update(writeIndex=True, indexMinimumFileCount=0, indexFilePath=os.path.join(ctx.mkdir(), 'index'))
    else:
        options['indexFilePath'] = ':memory:'
    requested = algorithms(rng)
    ctx.about = f"{fmt} {requested} {options}"

    def content(path, info, version):
        if version:
            return None
        node = source.tree.get(path)
        return node.data if node is not None and node.kind == 'file' else None

    known = set()
    for step in range(1 + (rng.choice([1, 2]) if stored else 0)):
        if step:
            requested = rng.choice([requested, requested, list(dict.fromkeys(requested + algorithms(rng))), []])
        with quiet():
            ms = open_mount_source(source.path, hashes=requested, **options) if requested else open_mount_source(source.path, **options)
        known = (known | set(requested)) if os.path.exists(options['indexFilePath']) else set(requested)
        compare_hashes(ctx, ms, sorted(known), content, 'created' if not step else 'reloaded')
        if step:
            ctx.count('reloaded')
        indexwork.close(ms)


def tar_hashes_case(ctx, i, rng):
    """With versions, attributes, nested archives, and appended members."""
    from ratarmountcore.mountsource.factory import open_mount_source

    tar = Tar(rng)
    recursive = rng.random() < 0.4
    parts = []
    for _ in range(rng.choice([1, 3, 10, 20])):
        parts.append(tar.nested(rng.choice([1, 2])) if recursive and rng.random() < 0.2 else tar.member())
    parts.append(tar.member('last', 'file'))
    for attributes in tar.attributes.values():
        for key in [k for k in attributes if k.startswith('user.hash.')]:
            tar.clash = True
    requested = algorithms(rng)
    if any(k.startswith('user.hash.') for attributes in tar.attributes.values() for k in attributes):
        requested = []  # the archive itself has such attributes
    options = {'indexFilePath': os.path.join(ctx.mkdir(), 'index'), 'writeIndex': True, 'indexMinimumFileCount': 0}
    if recursive:
        options.update(recursive=True, recursionDepth=rng.choice([1, 2, 3]))
    compression = rng.choice(['', '', 'gz', 'bz2', 'zst', 'xz'])
    path = os.path.join(ctx.mkdir(), 'a.tar' + ('.' + compression if compression else ''))
    ctx.about = f"{compression or 'plain'} {requested} {options}"
    if not requested:
        return

    def content(path, info, version):
        return tar.contents.get(int(info.mtime))

    for step in range(rng.choice([2, 3, 4])):
        if step and not compression and rng.random() < 0.6:
            parts += [tar.member(attributes={}) for _ in range(rng.randrange(1, 6))] + [tar.member('last', 'file', attributes={})]
            ctx.count('appended')
        elif step:
            ctx.count('reloaded')
        if step and rng.random() < 0.4:
            requested = list(dict.fromkeys(requested + algorithms(rng)))
        data = b''.join(parts) + bytes(1024)
        if not compression or not step:
            gen.write(path, gen.compress(compression, data, rng) if compression else data)
        with quiet():
            ms = open_mount_source(path, hashes=requested, **options)
        compare_hashes(ctx, ms, requested, content, 'tar-created' if not step else 'tar-later')
        indexwork.close(ms)
