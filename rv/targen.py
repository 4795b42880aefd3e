"""A TAR writer of our own, with the tree its headers describe as the reference model. Independent of tarfile."""

import dataclasses
import base64
import urllib.parse
from typing import Optional

BLOCK = 512


@dataclasses.dataclass
class Member:
    kind: str  # file, dir, sym, hard, chr, blk, fifo, contig
    name: str
    data: bytes = b''
    mode: int = 0o644
    mtime: float = 0
    uid: int = 0
    gid: int = 0
    linkname: str = ''
    fmt: str = 'ustar'  # v7, ustar, gnu, pax
    xattrs: Optional[dict] = None  # name -> bytes, stored as SCHILY.xattr
    libarchiveXattrs: Optional[dict] = None
    sparse: Optional[list] = None  # list of (offset, length) data ranges of data; needs fmt gnu or pax
    sparseFormat: str = ''  # gnu, 0.0, 0.1, 1.0
    paxExtra: Optional[dict] = None
    paxSize: bool = False
    rawName: Optional[bytes] = None
    encoding: str = 'utf-8'
    devmajor: int = 0
    devminor: int = 0
    fullMode: bool = False  # store the file type in the mode field as old archivers did
    headerOffset: int = -1


TYPES = {'file': b'0', 'hard': b'1', 'sym': b'2', 'chr': b'3', 'blk': b'4', 'dir': b'5', 'fifo': b'6', 'contig': b'7'}
IFMT = {'file': 0o100000, 'contig': 0o100000, 'hard': 0o100000, 'sym': 0o120000, 'chr': 0o020000, 'blk': 0o060000,
        'dir': 0o040000, 'fifo': 0o010000}


def pad(data: bytes) -> bytes:
    return data + b'\0' * (-len(data) % BLOCK)


def number(value: int, width: int, allowBinary: bool, style=0) -> bytes:
    if 0 <= value < 8 ** (width - 1):
        if style == 1 and value < 8 ** (width - 2):  # "%*o " + NUL as written by old tars
            return b'%*o \0' % (width - 2, value)
        return b'%0*o\0' % (width - 1, value)
    if not allowBinary:
        raise ValueError(f"{value} does not fit")
    if value >= 0:
        return bytes([0x80]) + value.to_bytes(width - 1, 'big')
    return value.to_bytes(width, 'big', signed=True)


def header(name: bytes, mode, uid, gid, size, mtime, typeflag, linkname: bytes, magic, binary, prefix=b'',
           devmajor=0, devminor=0, style=0, extra: Optional[dict] = None) -> bytes:
    block = bytearray(BLOCK)
    block[0 : len(name)] = name[:100]
    block[100:108] = number(mode, 8, binary, style)
    block[108:116] = number(uid, 8, binary, style)
    block[116:124] = number(gid, 8, binary, style)
    block[124:136] = number(size, 12, binary)
    block[136:148] = number(int(mtime), 12, binary)
    block[148:156] = b' ' * 8
    block[156:157] = typeflag
    block[157 : 157 + len(linkname[:100])] = linkname[:100]
    if magic:
        block[257:265] = magic
        block[265:269] = b'root'
        block[297:301] = b'root'
        block[329:337] = number(devmajor, 8, binary)
        block[337:345] = number(devminor, 8, binary)
        block[345 : 345 + len(prefix)] = prefix
    for offset, value in (extra or {}).items():
        block[offset : offset + len(value)] = value
    block[148:156] = b'%06o\0 ' % sum(block)
    return bytes(block)


def pax_record(key: bytes, value: bytes) -> bytes:
    body = b' ' + key + b'=' + value + b'\n'
    length = len(body) + 1
    while len(b'%d' % length) + len(body) != length:
        length = len(b'%d' % length) + len(body)
    return b'%d' % length + body


def pax_header(records, typeflag=b'x') -> bytes:
    body = b''.join(pax_record(k if isinstance(k, bytes) else k.encode(), v) for k, v in records)
    return header(b'././@PaxHeader', 0o644, 0, 0, len(body), 0, typeflag, b'', b'ustar\x0000', False) + pad(body)


def gnu_long(data: bytes, typeflag: bytes) -> bytes:
    data += b'\0'
    return header(b'././@LongLink', 0o644, 0, 0, len(data), 0, typeflag, b'', b'ustar  \0', True) + pad(data)


def split_ustar(name: bytes):
    if len(name) <= 100:
        return b'', name
    for cut in range(min(155, len(name) - 1), 0, -1):
        if name[cut : cut + 1] == b'/' and 0 < len(name) - cut - 1 <= 100:
            return name[:cut], name[cut + 1 :]
    return None


def encode(m: Member) -> bytes:
    name = m.rawName if m.rawName is not None else m.name.encode(m.encoding, 'surrogateescape')
    if m.kind == 'dir' and not name.endswith(b'/'):
        name += b'/'
    link = m.linkname.encode(m.encoding, 'surrogateescape')
    typeflag = TYPES[m.kind]
    mode = m.mode | (IFMT[m.kind] if m.fullMode else 0)
    data = m.data if m.kind in ('file', 'contig') else b''
    payload = data
    out = b''
    records = []
    extra = {}

    if m.fmt == 'v7':
        if m.kind == 'dir':
            typeflag = b'0' if m.paxExtra else b'\0'  # v7 denotes directories by the trailing slash only
        elif m.kind == 'file':
            typeflag = b'\0'
        return header(name, mode, m.uid, m.gid, len(data), m.mtime, typeflag, link, b'', False, style=1) + pad(payload)

    if m.fmt == 'ustar':
        prefix, base = split_ustar(name)
        return (
            header(base, mode, m.uid, m.gid, len(data), m.mtime, typeflag, link, b'ustar\x0000', False, prefix,
                   m.devmajor, m.devminor)
            + pad(payload)
        )

    if m.fmt == 'gnu':
        if len(link) > 100:
            out += gnu_long(link, b'K')
        if len(name) > 100:
            out += gnu_long(name, b'L')
        size = len(data)
        if m.sparse is not None:
            typeflag = b'S'
            payload = b''.join(pad(data[o : o + n]) for o, n in m.sparse)
            entries = list(m.sparse)
            if not entries or entries[-1][0] + entries[-1][1] != len(data):
                entries.append((len(data), 0))
            size = sum(n for _, n in m.sparse)
            stored = b''.join(number(o, 12, True) + number(n, 12, True) for o, n in entries[:4])
            extra[386] = stored
            rest = entries[4:]
            extra[482] = b'\1' if rest else b'\0'
            extra[483] = number(len(data), 12, True)
            blocks = b''
            while rest:
                part, rest = rest[:21], rest[21:]
                block = b''.join(number(o, 12, True) + number(n, 12, True) for o, n in part)
                block = block.ljust(504, b'\0') + (b'\1' if rest else b'\0')
                blocks += pad(block)
            payload = blocks + payload
        return (
            out
            + header(name[:100], mode, m.uid, m.gid, size, m.mtime, typeflag, link, b'ustar  \0', True, b'',
                     m.devmajor, m.devminor, extra=extra)
            + pad(payload)
        )

    assert m.fmt == 'pax'
    size = len(data)
    base = name
    if m.sparse is not None:
        payload = b''.join(pad(data[o : o + n]) if o + n < len(data) else data[o : o + n] for o, n in m.sparse)
        entries = list(m.sparse)
        if not entries or entries[-1][0] + entries[-1][1] != len(data):
            entries.append((len(data), 0))
        if m.sparseFormat == '0.0':
            records += [('GNU.sparse.size', b'%d' % len(data)), ('GNU.sparse.numblocks', b'%d' % len(entries))]
            for o, n in entries:
                records += [('GNU.sparse.offset', b'%d' % o), ('GNU.sparse.numbytes', b'%d' % n)]
        elif m.sparseFormat == '0.1':
            records += [('GNU.sparse.size', b'%d' % len(data)), ('GNU.sparse.numblocks', b'%d' % len(entries)),
                        ('GNU.sparse.name', name),
                        ('GNU.sparse.map', b','.join(b'%d,%d' % e for e in entries))]
            base = b'./GNUSparseFile.1/x'
        else:
            records += [('GNU.sparse.major', b'1'), ('GNU.sparse.minor', b'0'), ('GNU.sparse.name', name),
                        ('GNU.sparse.realsize', b'%d' % len(data))]
            table = b'%d\n' % len(entries) + b''.join(b'%d\n%d\n' % e for e in entries)
            payload = pad(table) + payload
            base = b'./GNUSparseFile.1/x'
        size = len(payload)
    if len(base) > 100 or (m.sparse is None and any(c > 127 for c in base)):
        if m.sparse is None or m.sparseFormat == '0.0':
            records.append(('path', name))
        base = base.decode('latin-1').encode('ascii', 'replace')[-100:].lstrip(b'/') or b'x'
    if len(link) > 100 or any(c > 127 for c in link):
        records.append(('linkpath', link))
        link = link.decode('latin-1').encode('ascii', 'replace')[:100]
    mtime = m.mtime
    if mtime != int(mtime) or mtime < 0 or mtime >= 8**11:
        records.append(('mtime', repr(mtime).encode()))
        mtime = max(0, min(int(mtime), 8**11 - 1))
    uid, gid = m.uid, m.gid
    if uid >= 8**7:
        records.append(('uid', b'%d' % uid))
        uid = 0
    if gid >= 8**7:
        records.append(('gid', b'%d' % gid))
        gid = 0
    if m.paxSize:
        records.append(('size', b'%d' % size))
    for key, value in (m.xattrs or {}).items():
        records.append((b'SCHILY.xattr.' + key.encode(), value))
    for key, value in (m.libarchiveXattrs or {}).items():
        records.append((b'LIBARCHIVE.xattr.' + urllib.parse.quote(key).encode(), base64.b64encode(value).rstrip(b'=')))
    for key, value in (m.paxExtra or {}).items():
        records.append((key, value))
    headerSize = 0 if m.paxSize == 'zero' else size
    if records:
        out += pax_header(records)
    return (
        out
        + header(base[:100], mode, uid, gid, headerSize, mtime, typeflag, link[:100], b'ustar\x0000', False, b'',
                 m.devmajor, m.devminor)
        + pad(payload)
    )


def build(members, endBlocks=2, record=0, start=0) -> bytes:
    out = bytearray()
    for m in members:
        m.headerOffset = start + len(out)
        out += encode(m)
    out += b'\0' * (BLOCK * endBlocks)
    if record:
        out += b'\0' * (-len(out) % record)
    return bytes(out)


# -- the model --------------------------------------------------------------------------------------------------------
def normalize(name: str) -> str:
    parts = []
    for part in name.split('/'):
        if part in ('', '.'):
            continue
        if part == '..':
            if parts:
                parts.pop()
            continue
        parts.append(part)
    return '/' + '/'.join(parts)


def parents(path: str):
    parts = path.strip('/').split('/')
    return ['/' + '/'.join(parts[:i]) for i in range(1, len(parts))]


def kind_visible(m: Member) -> str:
    return 'file' if m.kind in ('file', 'contig') else m.kind


def occurrences(members) -> dict:
    """Normalized path -> members in archive order (oldest first)."""
    result = {}
    for m in members:
        path = normalize(m.name)
        if path != '/':
            result.setdefault(path, []).append(m)
    return result
