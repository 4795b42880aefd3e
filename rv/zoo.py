"""
Writers for every archive format the sandbox can produce, each returning the tree that the mount must show.
The expectation comes from what was written, never from the code under test.
"""

import base64
import dataclasses
import io
import json
import os
import sqlite3
import stat
import struct
import tarfile
import zipfile
import zlib
from typing import Optional

from rv import gen
from rv.core import HarnessError


@dataclasses.dataclass
class Node:
    kind: str  # file, dir, sym
    data: bytes = b''
    link: str = ''
    mode: int = 0o644
    mtime: float = 0
    uid: int = 0
    gid: int = 0


@dataclasses.dataclass
class Source:
    fmt: str
    path: str
    tree: dict  # '/path' -> Node; parents included
    fields: frozenset  # metadata the format records and ratarmount shows: mode, mtime, owner, link
    options: dict = dataclasses.field(default_factory=dict)
    raw: Optional[bytes] = None
    loose: frozenset = frozenset()  # paths of implied folders without metadata

    def files(self):
        return {p: n for p, n in self.tree.items() if n.kind == 'file'}


PLAIN = ['a', 'b', 'foo', 'bar.txt', 'Foo2', 'x y', 'a.b.c', 'under_score', 'long' + 'n' * 60, '0', 'README', '-dash', '~t']
UNICODE = ['ä', 'ünï', '日本', '🙂', 'é']
SPECIAL = ["quo'te", 'semi;colon', 'per%cent', '[glob]', '#hash', '%20', 'back\\slash', 'a&b', '$x', '`t', '!x', 'tab\tname', '...',
           'star*', 'que?', '"dq"', 'new\nline']


LARGE = False  # Makes at least one file of every random tree larger than any buffer size.


def random_tree(rng, count=12, names='plain', dirs=True, symlinks=True, empty=True, depth=3, large=False, implied=False,
                maxSize=None, mtimes=None, modes=None):
    """
    A random tree; with implied=True some folders are not explicit members (returned in the second value).
    """
    pool = {'plain': PLAIN, 'unicode': PLAIN + UNICODE, 'all': PLAIN + UNICODE + SPECIAL}[names]
    modes = modes or [0o644, 0o600, 0o755, 0o444, 0o777]
    tree = {}
    folders = ['']
    loose = set()
    used = set()

    def when():
        return mtimes(rng) if mtimes else 1000000000 + 2 * rng.randrange(3 * 10**8)

    def fresh(folder):
        for _ in range(50):
            name = rng.choice(pool) if rng.random() < 0.5 else rng.choice('cdefg') + str(rng.randrange(100))
            path = folder + '/' + name
            if path.lower() not in used:
                used.add(path.lower())
                return path
        raise HarnessError("no free name")

    for k in range(count):
        what = rng.random()
        folder = rng.choice(folders)
        if dirs and what < 0.25 and folder.count('/') < depth:
            path = fresh(folder)
            tree[path] = Node('dir', mode=rng.choice([0o755, 0o700, 0o775]), mtime=when())
            folders.append(path)
            if implied and rng.random() < 0.5:
                loose.add(path)
        elif symlinks and what < 0.37:
            path = fresh(folder)
            target = rng.choice(['nowhere', '../x', 'a/b/c', '/abs/path', 'ünï' if names != 'plain' else 'uni', 'x y'])
            tree[path] = Node('sym', link=target, mode=0o777, mtime=when())
        else:
            path = fresh(folder)
            size = gen.size(rng, large or LARGE)
            if LARGE and not any(n.kind == 'file' and len(n.data) > 2**20 for n in tree.values()):
                size = rng.randrange(1_100_000, 3_300_000)
            if maxSize is not None:
                size = min(size, maxSize)
            if not empty and size == 0:
                size = 1
            tree[path] = Node('file', data=gen.blob(rng, size), mode=rng.choice(modes), mtime=when())
    # Implied folders only exist through their children.
    for path in sorted(loose):
        if not any(p.startswith(path + '/') and n.kind != 'dir' for p, n in tree.items()):
            loose.discard(path)
    if not any(n.kind == 'file' and n.data for n in tree.values()):
        tree[fresh('')] = Node('file', data=b'at least one file', mode=0o644, mtime=when())
    return tree, frozenset(loose)


def write_tree(tree, root):
    for path, node in tree.items():
        full = root + path
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if node.kind == 'dir':
            os.makedirs(full, exist_ok=True)
        elif node.kind == 'sym':
            os.symlink(node.link, full)
        else:
            with open(full, 'wb') as file:
                file.write(node.data)
    for path in sorted(tree, reverse=True):
        node = tree[path]
        full = root + path
        if node.kind != 'sym':
            os.chmod(full, node.mode)
        os.utime(full, (node.mtime, node.mtime), follow_symlinks=False)


def ordered(tree, loose=()):
    """Parents before children, implied folders left out."""
    return [(p, tree[p]) for p in sorted(tree) if p not in loose]


# -- writers ------------------------------------------------------------------------------------------------------------
def make_tar(rng, folder, compression=''):
    from rv import targen

    tree, loose = random_tree(rng, names='all', implied=True)
    members = []
    for path, node in ordered(tree, loose):
        node.uid, node.gid = rng.randrange(70000), rng.randrange(70000)
        members.append(targen.Member({'file': 'file', 'dir': 'dir', 'sym': 'sym'}[node.kind], path[1:], data=node.data,
                                     mode=node.mode, mtime=int(node.mtime), uid=node.uid, gid=node.gid, linkname=node.link,
                                     fmt=rng.choice(['gnu', 'pax'])))
    raw = targen.build(members)
    packed = gen.compress(compression, raw, rng, parts=rng.choice([1, 2, 3])) if compression else raw
    suffix = {'': 'tar', 'zlib': 'tar.zz'}.get(compression, 'tar.' + compression.replace('xz-blocks', 'xz'))
    path = gen.write(os.path.join(folder, 'archive.' + suffix), packed)
    fields = {'mode', 'mtime', 'owner', 'link'}
    if compression in ('lz4', 'lzo', 'lrz', 'lzma'):  # these go through the libarchive backend
        fields = {'mtime', 'mode', 'link'}
    return Source('tar-' + (compression or 'plain'), path, tree, frozenset(fields), raw=raw, loose=loose)


def make_zip(rng, folder, method=None):
    tree, loose = random_tree(rng, names=rng.choice(['plain', 'unicode']), implied=True)
    path = os.path.join(folder, 'archive.zip')
    methods = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]
    with zipfile.ZipFile(path, 'w') as file:
        for name, node in ordered(tree, loose):
            import time as _time

            info = zipfile.ZipInfo(name[1:] + ('/' if node.kind == 'dir' else ''), _time.gmtime(node.mtime)[:6])
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node.kind]
            info.external_attr = (node.mode | kind) << 16
            info.create_system = 3
            info.compress_type = method if method is not None else rng.choice(methods)
            if node.kind == 'dir':
                info.compress_type = zipfile.ZIP_STORED
            file.writestr(info, node.link.encode() if node.kind == 'sym' else node.data)
    return Source('zip', path, tree, frozenset({'mode', 'mtime', 'link'}), loose=loose)


def make_7z(rng, folder, tool='7z'):
    tree, _ = random_tree(rng, names='unicode', symlinks=tool == '7z', empty=True)
    path = os.path.join(folder, 'archive.7z')
    root = os.path.join(folder, 'in')
    write_tree(tree, root)
    if tool == '7z':
        method = rng.choice(['copy', 'lzma2', 'lzma', 'bzip2', 'deflate', 'ppmd'])
        solid = rng.choice(['on', 'off'])
        gen.run(['7z', 'a', '-snl', '-y', '-bd', f"-m0={method}", f"-ms={solid}", path, '.'], cwd=root)
        fields = {'mode', 'mtime', 'link'}
    else:
        import py7zr

        with py7zr.SevenZipFile(path, 'w') as file:
            for name, node in ordered(tree):
                file.write(root + name, name[1:])
        fields = {'mtime'}
    return Source('7z', path, tree, frozenset(fields))


def vint(n):
    out = bytearray()
    while True:
        byte = n & 0x7F
        n >>= 7
        if n:
            out.append(byte | 0x80)
        else:
            out.append(byte)
            return bytes(out)


def rar5(items):
    """The bytes of a RAR 5 archive with stored members; items: (name as bytes, Node)."""
    def block(kind, flags, fields, extra=b'', data=None):
        flags |= (1 if extra else 0) | (2 if data is not None else 0)
        body = vint(kind) + vint(flags)
        if extra:
            body += vint(len(extra))
        if data is not None:
            body += vint(len(data))
        body += fields + extra
        body = vint(len(body)) + body
        return struct.pack('<I', zlib.crc32(body)) + body + (data or b'')

    out = b'Rar!\x1a\x07\x01\x00' + block(1, 0, vint(0))
    for encoded, node in items:
        kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node.kind]
        fileFlags = 2 | (1 if node.kind == 'dir' else 4)
        fields = vint(fileFlags) + vint(len(node.data)) + vint(node.mode | kind) + struct.pack('<I', int(node.mtime))
        if node.kind != 'dir':
            fields += struct.pack('<I', zlib.crc32(node.data))
        fields += vint(0) + vint(1) + vint(len(encoded)) + encoded
        extra = b''
        if node.kind == 'sym':
            target = node.link.encode()
            record = vint(5) + vint(1) + vint(0) + vint(len(target)) + target
            extra = vint(len(record)) + record
        out += block(2, 0, fields, extra, node.data if node.kind == 'file' else b'')
    return out + block(5, 0, vint(0))


def make_rar5(rng, folder):
    tree, loose = random_tree(rng, names='unicode', implied=True)
    out = rar5([(name[1:].encode(), node) for name, node in ordered(tree, loose)])
    path = gen.write(os.path.join(folder, 'archive.rar'), out)
    return Source('rar', path, tree, frozenset({'mode', 'mtime', 'link'}), loose=loose)


def ar_header(name, node, size):
    return b'%-16s%-12d%-6d%-6d%-8o%-10d`\n' % (name, int(node.mtime), node.uid, node.gid, node.mode | stat.S_IFREG, size)


def make_ar(rng, folder, flavor=None):
    flavor = flavor or rng.choice(['gnu', 'bsd', 'plain', 'tool'])
    tree, _ = random_tree(rng, names='plain' if flavor == 'plain' else 'unicode', dirs=False, symlinks=False)
    if flavor == 'plain':
        tree = {p: n for p, n in tree.items() if len(p) <= 15 and ' ' not in p}
        tree['/only'] = Node('file', data=gen.blob(rng, gen.size(rng)), mtime=7)
    for node in tree.values():
        node.uid, node.gid = rng.randrange(70000), rng.randrange(70000)
    path = os.path.join(folder, 'archive.a')
    if flavor == 'tool':
        root = os.path.join(folder, 'in')
        tree = {p: n for p, n in tree.items() if not p.startswith('/-')}
        if not tree:
            tree['/only'] = Node('file', data=b'x', mtime=7)
        write_tree(tree, root)
        gen.run(['ar', 'rcU', path, *[p[1:] for p in tree]], cwd=root)
        for node in tree.values():
            node.uid, node.gid = os.getuid(), os.getgid()
        return Source('ar-tool', path, tree, frozenset({'mode', 'mtime', 'owner'}))
    out = b'!<arch>\n'
    items = sorted(tree.items())
    rng.shuffle(items)
    if flavor == 'gnu':
        table = b''
        offsets = {}
        for name, node in items:
            encoded = name[1:].encode()
            if len(encoded) > 15 or b' ' in encoded:
                offsets[name] = len(table)
                table += encoded + b'/\n'
        if rng.random() < 0.5:
            symbols = b'\0\0\0\0'
            out += b'%-48s%-10d`\n' % (b'/', len(symbols)) + symbols
        if table:
            table += b'\n' * (len(table) % 2)
            out += b'%-48s%-10d`\n' % (b'//', len(table)) + table
        for name, node in items:
            short = b'/%d' % offsets[name] if name in offsets else name[1:].encode() + b'/'
            out += ar_header(short, node, len(node.data)) + node.data + b'\n' * (len(node.data) % 2)
    elif flavor == 'bsd':
        for name, node in items:
            encoded = name[1:].encode()
            if len(encoded) > 16 or b' ' in encoded or rng.random() < 0.3:
                body = encoded + node.data
                out += ar_header(b'#1/%d' % len(encoded), node, len(body)) + body + b'\n' * (len(body) % 2)
            else:
                out += ar_header(encoded, node, len(node.data)) + node.data + b'\n' * (len(node.data) % 2)
    else:
        for name, node in items:
            out += ar_header(name[1:].encode(), node, len(node.data)) + node.data + b'\n' * (len(node.data) % 2)
    gen.write(path, out)
    return Source('ar-' + flavor, path, tree, frozenset({'mode', 'mtime', 'owner'}))


def make_asar(rng, folder):
    tree, _ = random_tree(rng, names='all', symlinks=False)
    header = {'files': {}}
    content = b''
    items = sorted(tree.items())
    for name, node in items:
        parts = name[1:].split('/')
        where = header
        for part in parts[:-1]:
            where = where['files'][part]
        if node.kind == 'dir':
            where['files'][parts[-1]] = {'files': {}}
        else:
            entry = {'size': len(node.data), 'offset': str(len(content))}
            if rng.random() < 0.3:
                entry['executable'] = True
            where['files'][parts[-1]] = entry
            content += node.data
    text = json.dumps(header, ensure_ascii=rng.random() < 0.5).encode()
    padding = -len(text) % 4
    pickled = struct.pack('<I', len(text)) + text + b'\0' * padding
    out = struct.pack('<III', 4, len(pickled) + 4, len(pickled)) + pickled + content
    return Source('asar', gen.write(os.path.join(folder, 'archive.asar'), out), tree, frozenset())


def write_sqlar(connection, rng, tree, spell=lambda x: x, compress=True):
    connection.execute("CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)")
    kinds = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}
    for name, node in sorted(tree.items()):
        if node.kind == 'dir':
            size, data = 0, None
        elif node.kind == 'sym':
            size, data = -1, node.link
        else:
            size, data = len(node.data), node.data
            packed = zlib.compress(data)
            if compress and len(packed) < size:
                data = packed
        connection.execute("INSERT INTO sqlar VALUES(?,?,?,?,?)",
                           (spell(name[1:]), node.mode | kinds[node.kind], int(node.mtime), size, data))
    connection.commit()
    connection.close()


def make_sqlar(rng, folder):
    tree, _ = random_tree(rng, names='all')
    path = os.path.join(folder, 'archive.sqlar')
    denormal = rng.random() < 0.3
    write_sqlar(sqlite3.connect(path), rng, tree, (lambda x: './' + x) if denormal else (lambda x: x))
    return Source('sqlar' + ('-denormal' if denormal else ''), path, tree, frozenset({'mode', 'mtime', 'link'}))


def make_squashfs(rng, folder, compression=None):
    compression = compression or rng.choice(['gzip', 'lzo', 'lz4', 'xz', 'zstd', 'lzma'])
    tree, _ = random_tree(rng, names='all', large=True)
    root = os.path.join(folder, 'in')
    write_tree(tree, root)
    path = os.path.join(folder, 'archive.squashfs')
    args = ['mksquashfs', root, path, '-comp', compression, '-no-progress', '-quiet', '-processors', '1',
            '-b', rng.choice(['4096', '16384', '131072'])]
    if rng.random() < 0.3:
        args.append('-no-fragments')
    if rng.random() < 0.2:
        args.append('-noD')
    gen.run(args)
    return Source('squashfs-' + compression, path, tree, frozenset({'mode', 'mtime', 'link'}))


def make_libarchive(rng, folder, fmt):
    import libarchive

    names = 'plain' if fmt in ('iso9660',) else 'unicode'
    symlinks = fmt not in ('warc', 'ar_bsd', 'ar_svr4', 'xar-none')
    dirs = fmt not in ('warc', 'ar_bsd', 'ar_svr4')
    tree, _ = random_tree(rng, names=names, symlinks=symlinks, dirs=dirs)
    if fmt in ('cpio', 'cpio_newc', 'iso9660'):
        tree = {p: n for p, n in tree.items()}
    suffix = {'cpio': 'cpio', 'cpio_newc': 'cpio', 'iso9660': 'iso', 'xar': 'xar', 'warc': 'warc', 'ar_bsd': 'a',
              'ar_svr4': 'a', '7zip': '7z', 'zip': 'zip'}[fmt]
    path = os.path.join(folder, 'archive.' + suffix)
    from libarchive import ffi

    import ctypes

    set_symlink = ffi.libarchive.archive_entry_copy_symlink  # The Python binding only knows how to set hard links.
    set_symlink.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
    set_symlink.restype = None
    from libarchive.entry import ArchiveEntry

    with libarchive.file_writer(path, fmt) as archive:
        for name, node in ordered(tree):
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node.kind]
            entry = ArchiveEntry(pathname=name[1:], size=len(node.data), filetype=kind, perm=node.mode,
                                 mtime=int(node.mtime), header_codec=archive.header_codec)
            if node.kind == 'sym':
                set_symlink(entry._entry_p, node.link.encode())
            ffi.write_header(archive._pointer, entry._entry_p)
            if node.data:
                ffi.write_data(archive._pointer, node.data, len(node.data))
            ffi.write_finish_entry(archive._pointer)
    fields = {'cpio': {'mode', 'mtime', 'link'}, 'cpio_newc': {'mode', 'mtime', 'link'}, 'iso9660': {'mtime', 'link'},
              'xar': {'mode', 'mtime', 'link'}, 'warc': set(), '7zip': {'mode', 'mtime', 'link'}}.get(fmt, {'mtime'})
    return Source('la-' + fmt, path, tree, frozenset(fields))


def make_cpio(rng, folder, flavor=None):
    """Own encoder: odc, newc, crc, little and big endian binary."""
    flavor = flavor or rng.choice(['odc', 'newc', 'crc', 'bin', 'hpbin'])
    tree, loose = random_tree(rng, names='all', implied=True)
    out = b''
    inode = 1
    kinds = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}
    items = [(p[1:], n) for p, n in ordered(tree, loose)] + [('TRAILER!!!', None)]
    for name, node in items:
        encoded = name.encode() + b'\0'
        inode += 1
        if node is None:
            mode, mtime, data, nlink, inode = 0, 0, b'', 1, 0
        else:
            mode, mtime = node.mode | kinds[node.kind], int(node.mtime)
            data = node.link.encode() if node.kind == 'sym' else node.data
            nlink = 2 if node.kind == 'dir' else 1
        if flavor == 'odc':
            out += b'070707%06o%06o%06o%06o%06o%06o%06o%011o%06o%011o' % (
                1, inode, mode, 0, 0, nlink, 0, mtime, len(encoded), len(data))
            out += encoded + data
        elif flavor in ('newc', 'crc'):
            check = sum(data) & 0xFFFFFFFF if flavor == 'crc' and node is not None and node.kind == 'file' else 0
            out += (b'070701' if flavor == 'newc' else b'070702') + b'%08X' * 13 % (
                inode, mode, 0, 0, nlink, mtime, len(data), 0, 0, 0, 0, len(encoded), check)
            out += encoded
            out += b'\0' * (-len(out) % 4) + data
            out += b'\0' * (-len(out) % 4)
        else:
            end = '<' if flavor == 'bin' else '>'
            out += struct.pack(end + '13H', 0o070707, 1, inode, mode, 0, 0, nlink, 0, mtime >> 16, mtime & 0xFFFF,
                               len(encoded), len(data) >> 16, len(data) & 0xFFFF)
            out += encoded + b'\0' * (len(encoded) % 2) + data + b'\0' * (len(data) % 2)
    return Source('cpio-' + flavor, gen.write(os.path.join(folder, 'archive.cpio'), out), tree,
                  frozenset({'mode', 'mtime', 'link'}), loose=loose)


def make_cab(rng, folder):
    tree, loose = random_tree(rng, names='unicode', symlinks=False, mtimes=lambda r: 1000000000 + 2 * r.randrange(10**8))
    loose = frozenset(p for p, n in tree.items() if n.kind == 'dir')  # CAB stores no folders
    tree = {p: n for p, n in tree.items() if n.kind == 'file' or any(
        q.startswith(p + '/') and m.kind == 'file' for q, m in tree.items())}
    loose = frozenset(p for p in loose if p in tree)
    import time as _time

    files = ordered(tree, loose)
    compressed = rng.random() < 0.5
    stream = b''.join(n.data for _, n in files)
    blocks = []
    for k in range(0, len(stream), 32768):
        raw = stream[k : k + 32768]
        body = raw
        if compressed:
            packer = zlib.compressobj(6, zlib.DEFLATED, -15)
            body = b'CK' + packer.compress(raw) + packer.flush()
        blocks.append(struct.pack('<IHH', 0, len(body), len(raw)) + body)
    entries = b''
    position = 0
    for name, node in files:
        t = _time.gmtime(node.mtime)
        date = ((t.tm_year - 1980) << 9) + (t.tm_mon << 5) + t.tm_mday
        clock = (t.tm_hour << 11) + (t.tm_min << 5) + t.tm_sec // 2
        encoded = name[1:].replace('/', '\\').encode()
        entries += struct.pack('<IIHHHH', len(node.data), position, 0, date, clock, 0x20 | 0x80) + encoded + b'\0'
        position += len(node.data)
    offsetFiles = 36 + 8
    offsetData = offsetFiles + len(entries)
    total = offsetData + sum(map(len, blocks))
    out = b'MSCF' + struct.pack('<IIIIIBBHHHHH', 0, total, 0, offsetFiles, 0, 3, 1, 1, len(files), 0, 1, 0)
    out += struct.pack('<IHH', offsetData, len(blocks), 1 if compressed else 0) + entries + b''.join(blocks)
    return Source('cab', gen.write(os.path.join(folder, 'archive.cab'), out), tree, frozenset({'mtime'}), loose=loose)


def make_folder(rng, folder):
    tree, _ = random_tree(rng, names='all')
    root = os.path.join(folder, 'source')
    os.makedirs(root)
    write_tree(tree, root)
    return Source('folder', root, tree, frozenset({'mode', 'mtime', 'link'}))


def make_git(rng, folder):
    tree, _ = random_tree(rng, names='all')
    tree = {p: n for p, n in tree.items() if n.kind != 'dir' or any(
        q.startswith(p + '/') and m.kind != 'dir' for q, m in tree.items())}
    root = os.path.join(folder, 'repository')
    os.makedirs(root)
    write_tree(tree, root)
    env = dict(os.environ, GIT_AUTHOR_DATE='@1500000000 +0000', GIT_COMMITTER_DATE='@1500000000 +0000',
               GIT_AUTHOR_NAME='n', GIT_AUTHOR_EMAIL='e@x', GIT_COMMITTER_NAME='n', GIT_COMMITTER_EMAIL='e@x',
               GIT_CONFIG_NOSYSTEM='1')
    gen.run(['git', 'init', '-q', '-b', 'main', '.'], cwd=root, env=env)
    gen.run(['git', 'add', '-A', '.'], cwd=root, env=env)
    gen.run(['git', 'commit', '-q', '-m', 'm'], cwd=root, env=env)
    for node in tree.values():
        node.mtime = 1500000000
    return Source('git', f'git://{root}:', tree, frozenset({'link', 'mtime'}))


MIME = {'text/plain': '.txt', 'image/png': '.png', 'image/svg+xml': '.svg', 'text/css': '.css', 'text/javascript': '.js',
        'application/json': '.json', 'application/x-unknown-thing': ''}


def make_html(rng, folder):
    """Data URLs in attributes and style sheets; names are the content hash plus the MIME extension."""
    import hashlib
    import urllib.parse

    tree = {}
    body = []
    for k in range(rng.randrange(1, 8)):
        mime = rng.choice(sorted(MIME))
        data = gen.blob(rng, rng.choice([1, 2, 3, 100, 1000, 5000])) + b'%d' % k
        how = rng.randrange(4)
        if how == 1:
            data = ('text ünï %d <>"\'&+ ' % rng.randrange(10**9)).encode()
            quoted = urllib.parse.quote(data.decode(), safe='')
            url = f"data:{mime};charset=utf-8,{quoted}"
        else:
            url = f"data:{mime};base64," + base64.b64encode(data).decode()
        if how == 2:
            body.append(f"<style>.x{k} {{ background: url({url}) }}</style>")
        elif how == 3:
            body.append(f"<p title='ünïcode ä{k}'>日本</p><IMG alt='a' src='{url}' width=3>")
        else:
            body.append(f'<a title="ä">x</a>\n<img src="{url}">')
        tree['/' + hashlib.sha256(data).hexdigest() + MIME[mime]] = Node('file', data)
    # Random '%xx' and entity-like text in base64 is impossible, so the decoded bytes are exactly the data.
    text = '<!DOCTYPE html><html><head><title>tïtle</title></head><body>\n' + '\n'.join(body) + '\n</body></html>\n'
    return Source('html', gen.write(os.path.join(folder, 'page.html'), text.encode()), tree, frozenset())


def make_pdf(rng, folder):
    import pypdf

    writer = pypdf.PdfWriter()
    writer.add_blank_page(100, 100)
    tree = {}
    for k in range(rng.randrange(1, 6)):
        name = f"{rng.choice(['a', 'b', 'file', 'x y'])}{k}.bin"
        data = gen.blob(rng, rng.choice([1, 10, 1000, 20000]))
        writer.add_attachment(name, data)
        tree['/' + name] = Node('file', data)
    path = os.path.join(folder, 'doc.pdf')
    with open(path, 'wb') as file:
        writer.write(file)
    return Source('pdf', path, tree, frozenset())


OGG_KINDS = [(b'\x01vorbis', 'audio', '.oga'), (b'OpusHead', 'audio', '.oga'), (b'\x80theora', 'video', '.ogv'),
             (b'\x01text', 'text', '.ogm'), (b'\x01video', 'video', '.ogm'), (b'\x80kate\0\0\0', 'text', '.ogg')]


def make_ogg(rng, folder):
    streams = []
    for k in range(rng.randrange(1, 5)):
        magic, media, extension = rng.choice(OGG_KINDS)
        streams.append([rng.getrandbits(32), magic, media, extension, [], 0])
    if len({s[0] for s in streams}) < len(streams):
        return make_ogg(rng, folder)

    def page(stream, flags, payload):
        segments = [255] * (len(payload) // 255) + [len(payload) % 255]
        segments = segments[:255]
        payload = payload[: sum(segments)]
        number = stream[5]
        stream[5] += 1
        return struct.pack('<4sBBQIIIB', b'OggS', 0, flags, number * 10, stream[0], number, rng.getrandbits(32),
                           len(segments)) + bytes(segments) + payload

    out = b''
    for stream in streams:
        data = page(stream, 2, stream[1] + gen.blob(rng, 50))
        stream[4].append(data)
        out += data
    live = list(streams)
    for _ in range(rng.randrange(0, 60)):
        stream = rng.choice(live)
        data = page(stream, 0, gen.blob(rng, rng.choice([0, 1, 254, 255, 256, 4000, 60000])))
        stream[4].append(data)
        out += data
    for stream in live:
        data = page(stream, 4, gen.blob(rng, 10))
        stream[4].append(data)
        out += data
    tree = {f"/{media}_{serial:08x}{ext}": Node('file', b''.join(pages)) for serial, _, media, ext, pages, _ in streams}
    return Source('ogg', gen.write(os.path.join(folder, 'movie.ogv'), out), tree, frozenset())


def warc_record(name, data, number, mtime):
    import time as _time

    date = _time.strftime('%Y-%m-%dT%H:%M:%SZ', _time.gmtime(mtime)).encode()
    return (b'WARC/1.0\r\nWARC-Type: resource\r\nWARC-Target-URI: file://' + name.encode() + b'\r\nWARC-Date: ' + date
            + b'\r\nWARC-Record-ID: <urn:uuid:00000000-0000-0000-0000-%012d>\r\nContent-Type: x/y\r\nContent-Length: %d'
            b'\r\n\r\n' % (number, len(data)), data + b'\r\n\r\n')


def make_warc(rng, folder):
    tree, _ = random_tree(rng, dirs=False, symlinks=False, empty=False)
    tree = {p: n for p, n in tree.items() if ' ' not in p}  # URIs
    out = b''
    for k, (name, node) in enumerate(ordered(tree)):
        while True:
            header, body = warc_record(name, node.data, k, node.mtime)
            # libarchive refuses headers crossing a block boundary (see the known finding of C26), so avoid that.
            end = len(out) + len(header) + len(body)
            if end % 4096 < 4096 - 500:
                break
            node.data += rng.randbytes(rng.randrange(1, 600))
        out += header + body
    return Source('warc', gen.write(os.path.join(folder, 'archive.warc'), out), tree, frozenset())


def make_single(rng, folder, compression):
    data = gen.blob(rng, rng.choice([1, 100, 5000, 200000]))
    if not data.strip(b'\0'[:1]) or data[:1] == b'\0':
        data = b'x' + data[1:]
    if compression in ('lz4', 'lzo', 'lzma') and data[0] < 225:
        data = b'\xfe' + data[1:]  # libarchive may mistake the decompressed data for LZMA, which has no magic bytes.
    name = rng.choice(['file', 'file.txt', 'x.y.z'])
    suffix = {'zlib': 'zz', 'xz-blocks': 'xz', 'lzma': 'lzma', 'lzo': 'lzo'}.get(compression, compression)
    packed = gen.compress(compression, data, rng, parts=rng.choice([1, 2]) if compression not in ('zlib', 'lzma') else 1)
    path = gen.write(os.path.join(folder, f"{name}.{suffix}"), packed)
    return Source('single-' + compression, path, {'/' + name: Node('file', data)}, frozenset(), raw=data)


MAKERS = {
    'tar': make_tar,
    'tar.gz': lambda r, f: make_tar(r, f, 'gz'),
    'tar.bz2': lambda r, f: make_tar(r, f, 'bz2'),
    'tar.xz': lambda r, f: make_tar(r, f, 'xz'),
    'tar.zst': lambda r, f: make_tar(r, f, 'zst'),
    'tar.zlib': lambda r, f: make_tar(r, f, 'zlib'),
    'tar.lz4': lambda r, f: make_tar(r, f, 'lz4'),
    'tar.lzo': lambda r, f: make_tar(r, f, 'lzo'),
    'tar.lzma': lambda r, f: make_tar(r, f, 'lzma'),
    'zip': make_zip,
    '7z': make_7z,
    '7z-py7zr': lambda r, f: make_7z(r, f, 'py7zr'),
    'rar': make_rar5,
    'ar': make_ar,
    'asar': make_asar,
    'sqlar': make_sqlar,
    'squashfs': make_squashfs,
    'iso': lambda r, f: make_libarchive(r, f, 'iso9660'),
    'xar': lambda r, f: make_libarchive(r, f, 'xar'),
    'cpio': make_cpio,
    'cab': make_cab,
    'warc': make_warc,
    'folder': make_folder,
    'git': make_git,
    'html': make_html,
    'pdf': make_pdf,
    'ogg': make_ogg,
    'single.gz': lambda r, f: make_single(r, f, 'gz'),
    'single.bz2': lambda r, f: make_single(r, f, 'bz2'),
    'single.xz': lambda r, f: make_single(r, f, 'xz'),
    'single.zst': lambda r, f: make_single(r, f, 'zst'),
    'single.zlib': lambda r, f: make_single(r, f, 'zlib'),
    'single.lz4': lambda r, f: make_single(r, f, 'lz4'),
    'single.lzma': lambda r, f: make_single(r, f, 'lzma'),
    'single.lzo': lambda r, f: make_single(r, f, 'lzo'),
}
FORMATS = sorted(MAKERS)


def make(fmt, rng, folder, large=False) -> Source:
    global LARGE
    os.makedirs(folder, exist_ok=True)
    LARGE = large
    try:
        return MAKERS[fmt](rng, folder)
    finally:
        LARGE = False
