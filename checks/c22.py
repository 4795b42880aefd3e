"""C22: format detection depends on the content only, accepts every format, and is harmless."""

import contextlib
import io
import json
import os
import random
import shutil
import sqlite3
import struct
import zipfile
import zlib

from checks import c16
from rv import compare, gen, targen, view, zoo
from rv.core import HarnessError
from rv.zoo import Node

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = (
    'harmless: runs every format check on archives of 33 formats, compressed files, truncated ones, tiny files and other data, at '
    'several positions of plain, in-memory, and partial file objects whose accesses are recorded, and demands the same position, '
    'content, and open state afterwards, and the right format among the detected; name: opens archives under random names with '
    'random backend preferences and compares the tree; embedded: archives that store other archives; reject: data of no '
    'supported format has to be refused with an error; distinct: (format, object kind, name class, preference).'
)
MINIMUM = {'checks_run': 15000, 'opened': 250, 'rejected': 250, 'recognised': 100, 'embedded': 40}
PRELOAD = ['ratarmountcore.mountsource.factory']

EXPECTED = {
    'tar': 'TAR', 'gz': 'GZIP', 'bz2': 'BZIP2', 'xz': 'XZ', 'zst': 'ZSTANDARD', 'zlib': 'ZLIB', 'lz4': 'LZ4', 'lzo': 'LZOP',
    'lzma': 'LZMA', 'zip': 'ZIP', '7z': 'SEVEN_ZIP', '7z-py7zr': 'SEVEN_ZIP', 'rar': 'RAR', 'ar': 'AR', 'asar': 'ASAR',
    'sqlar': 'SQLAR', 'squashfs': 'SQUASHFS', 'iso': 'ISO9660', 'xar': 'XAR', 'cpio': 'CPIO', 'cab': 'CAB', 'warc': 'WARC',
    'html': 'HTML', 'pdf': 'PDF', 'ogg': 'OGG',
}
WALL_LIMIT = 60
FORMATS = [fmt for fmt in zoo.FORMATS if fmt not in ('folder', 'git')]


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('harmless', 4 * len(FORMATS) * k, 6), ('name', 10 * len(FORMATS) * k, 6), ('embedded', 60 * k, 5), ('reject', 300 * k, 10),
            ('zeros', 3, 1)]


def format_id(fmt):
    return EXPECTED[fmt.rsplit('.', 1)[-1]]


class Watched(io.BytesIO):
    """A file object that notices when somebody closes it or tries to change it."""

    def __init__(self, data):
        super().__init__(data)
        self.touched = []

    def close(self):
        self.touched.append('close')

    def write(self, data):
        self.touched.append('write')
        return len(data)

    def truncate(self, size=None):
        self.touched.append('truncate')
        return 0

    def detach(self):
        self.touched.append('detach')


def objects(rng, path, data):
    """Yields (kind, file object, check that returns what is wrong)."""
    from ratarmountcore.StenciledFile import StenciledFile

    watched = Watched(data)
    yield 'memory', watched, lambda: watched.touched or (watched.getvalue() != data and ['changed']) or []

    file = open(path, 'rb')
    yield 'file', file, lambda: ['closed'] if file.closed else []
    with contextlib.suppress(Exception):
        file.close()

    before, after = rng.randbytes(rng.choice([1, 511, 4096])), rng.randbytes(rng.choice([0, 700]))
    outer = Watched(before + data + after)
    part = StenciledFile([(outer, len(before), len(data))])
    yield 'part', part, lambda: outer.touched or (part.closed and ['closed']) or []


def case_harmless(ctx, i, rng):
    from ratarmountcore import compressions, formats

    fmt = FORMATS[i % len(FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir('source'))
    with open(source.path, 'rb') as file:
        data = file.read()
    variant = rng.choice(['whole', 'whole', 'cut', 'damaged', 'tiny', 'other'])
    if i < len(FORMATS):
        variant = 'whole'
    if variant == 'cut':
        data = data[: rng.randrange(len(data) + 1)]
    elif variant == 'damaged':
        data = bytearray(data)
        for _ in range(rng.randrange(1, 20)):
            if data:
                data[rng.randrange(min(len(data), rng.choice([16, 600, len(data)])))] = rng.randrange(256)
        data = bytes(data)
    elif variant == 'tiny':
        data = data[: rng.randrange(0, 40)]
    elif variant == 'other':
        _, data = junk(rng)
    path = gen.write(os.path.join(ctx.root, 'data'), data)
    identifiers = list(formats.FILE_FORMATS)
    for kind, fileobj, problems in objects(rng, path, data):
        ctx.distinct(fmt, variant, kind)
        for position in {0, rng.randrange(len(data) + 1), rng.choice([0, len(data)])}:
            tests = [(f"might_be_format:{fid.name}", lambda fid=fid: formats.might_be_format(fileobj, fid)) for fid in identifiers]
            tests.append(('detect_formats', lambda: formats.detect_formats(fileobj)))
            if position == 0:
                tests.append(('detect_compression', lambda: compressions.detect_compression(fileobj)))
                tests.append(('get_gzip_info', lambda: guarded(compressions.get_gzip_info, fileobj)))
            rng.shuffle(tests)
            for name, test in tests:
                ctx.about = f"{fmt} {variant} {kind} at {position}: {name}"
                fileobj.seek(position)
                result = None
                with ctx.guard(f"harmless:{name.split(':')[0]}:exception", ctx.about):
                    result = test()
                ctx.count('checks_run')
                wrong = problems()
                if not ctx.check_that(not wrong, f"harmless:{name}:{kind}", f"{ctx.about} did {wrong}"):
                    return
                if name != 'get_gzip_info':
                    ctx.equal(fileobj.tell(), position, f"harmless:{name}:position", f"position after {ctx.about}")
                elif result is not None:
                    fileobj.seek(0)
                if position == 0 and variant == 'whole' and (name == 'detect_formats' or name.endswith(':' + format_id(fmt))):
                    found = result if isinstance(result, bool) else any(x.name == format_id(fmt) for x in result or ())
                    ctx.check_that(found, f"recognised:{format_id(fmt)}", f"{ctx.about} gave {result}")
                    ctx.count('recognised')
                if position == 0 and variant == 'whole' and name == 'detect_compression' and fmt.rsplit('.', 1)[-1] in ('gz', 'bz2', 'xz', 'zlib') and '.' in fmt:
                    ctx.check_that(result is not None and result.name == format_id(fmt), 'recognised:compression',
                                   f"{ctx.about} gave {result}")
        fileobj.seek(0)
        ctx.check_that(fileobj.read() == data, f"harmless:content:{kind}", f"content of {fmt} {variant} changed")


def guarded(function, fileobj):
    with contextlib.suppress(Exception):  # It is only ever called for files that were detected as gzip.
        return function(fileobj)


# -- names and preferences ------------------------------------------------------------------------------------------------------
EXTENSIONS = ['.zip', '.tar', '.rar', '.7z', '.gz', '.bz2', '.xz', '.zst', '.pdf', '.html', '.iso', '.img', '.asar', '.sqlar', '.ar', '.txt',
              '.squashfs', '.cpio', '.warc', '.ogv', '.tgz', '.lz4', '.index.sqlite', '.deb', '.docx', '.tar.gz', '.unknown', '.', '']


def random_name(rng, original):
    stem, natural = original.split('.', 1) if '.' in original else (original, '')
    kind = rng.choice(['wrong', 'wrong', 'wrong', 'none', 'upper', 'hidden', 'natural'])
    if kind == 'wrong':
        return kind, stem + rng.choice(EXTENSIONS)
    if kind == 'none':
        return kind, rng.choice(['archive', 'x', 'ä', 'a b', '-rf'])
    if kind == 'upper':
        return kind, f"{stem}.{natural}".upper()
    if kind == 'hidden':
        return kind, '.' + natural
    return kind, original


def random_preference(rng):
    from ratarmountcore.compressions import COMPRESSION_BACKENDS
    from ratarmountcore.mountsource.archives import ARCHIVE_BACKENDS

    if rng.random() < 0.4:
        return None
    names = list(ARCHIVE_BACKENDS) + list(COMPRESSION_BACKENDS)
    return rng.sample(names, rng.choice([1, 1, 3, len(names)]))


def opened(ctx, rng, path, options, kinds=('path', 'path', 'file', 'memory', 'part')):
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.StenciledFile import StenciledFile

    how = rng.choice(kinds)
    if how == 'path':
        return how, open_mount_source(path, **options)
    if how == 'file':
        return how, open_mount_source(open(path, 'rb'), **options)
    with open(path, 'rb') as file:
        data = file.read()
    if how == 'memory':
        return how, open_mount_source(io.BytesIO(data), **options)
    before = rng.randbytes(rng.choice([1, 511, 5000]))
    return how, open_mount_source(StenciledFile([(io.BytesIO(before + data + b'tail'), len(before), len(data))]), **options)


def compare_only_file(ctx, ms, source, tag):
    files = [(path, info) for path, info in view.walk(ms) if view.kind_of(info.mode) == 'file']
    if ctx.check_that(len(files) == 1, f"{tag}:files", f"{[p for p, _ in files][:5]} instead of the one compressed file"):
        ctx.check_that(view.read_all(ms, files[0][1]) == source.raw, f"{tag}:content", 'other content than compressed')


def case_name(ctx, i, rng):
    from ratarmountcore.utils import RatarmountError

    fmt = FORMATS[i % len(FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir('source'))
    kind, name = random_name(rng, os.path.basename(source.path))
    path = os.path.join(ctx.mkdir('renamed'), name)
    shutil.copy(source.path, path)
    options = dict(source.options)
    preference = random_preference(rng)
    if preference is not None:
        options['prioritizedBackends'] = preference
    kinds = ('path', 'path', 'file') if fmt.endswith('zst') else ('path', 'path', 'file', 'memory', 'part')
    ctx.about = f"{fmt} named {name!r} with {preference}"
    try:
        how, ms = opened(ctx, rng, path, options, kinds)
    except Exception as exception:
        ctx.fail(f"name:{fmt}:not-opened", f"{ctx.about}: {exception!r}")
        return
    ctx.distinct(fmt, kind, how, preference and preference[0])
    with ms:
        tag = f"name:{fmt}"
        if fmt.startswith('single'):
            compare_only_file(ctx, ms, source, tag)
        else:
            # Several readers of one LZO file may block each other, see the known finding of C02.
            compare.check_tree(ctx, ms, source, tag, without=source.fields - {'link'}, contents=fmt != 'tar.lzo')
    ctx.count('opened')


# -- archives stored in archives ------------------------------------------------------------------------------------------------
def case_embedded(ctx, i, rng):
    """The outer archive has to be shown, not something that is stored inside of it without compression."""
    inner = zoo.make(rng.choice(['zip', 'squashfs', 'tar', 'iso', 'html', 'pdf', 'cpio', 'ar', 'rar', '7z', 'warc', 'single.gz', 'cab', 'asar']),
                     rng, ctx.mkdir('inner'))
    with open(inner.path, 'rb') as file:
        data = file.read()
    outerFormat = ['tar', 'cpio', 'ar', 'asar', 'zip', 'rar', 'warc', 'iso', '7z', 'squashfs'][i % 10]
    folder = ctx.mkdir('outer')
    tree = {'/first': Node('file', data, mode=0o644, mtime=1_000_000_000)}
    if rng.random() < 0.5:
        tree['/second'] = Node('file', gen.blob(rng, rng.choice([10, 1000])), mode=0o644, mtime=1_000_000_000)
    if rng.random() < 0.3:
        tree = dict(reversed(tree.items()))
    path = os.path.join(folder, 'outer.' + outerFormat)
    encode(outerFormat, tree, path, folder)
    kind, name = random_name(rng, os.path.basename(path))
    if name.lower().endswith(tuple('.' + x for x in (inner.fmt.split('-')[0], 'docx', 'img'))):
        name = 'archive'  # The name says that the inner format is meant.
    renamed = gen.write(os.path.join(ctx.mkdir('renamed'), name), open(path, 'rb').read())
    ctx.about = f"{outerFormat} storing {inner.fmt} ({len(data)} B) named {name!r}"
    ctx.distinct(outerFormat, inner.fmt, kind)
    try:
        how, ms = opened(ctx, rng, renamed, {})
    except Exception as exception:
        ctx.fail(f"embedded:{outerFormat}:not-opened", f"{ctx.about}: {exception!r}")
        return
    with ms:
        found = {p: info for p, info in view.walk(ms) if view.kind_of(info.mode) != 'dir'}
        ctx.count('embedded')
        if outerFormat == 'warc':
            datas = sorted(view.read_all(ms, info) for info in found.values())
            ctx.check_that(datas == sorted(n.data for n in tree.values()), f"embedded:{outerFormat}",
                           f"{ctx.about} ({how}) shows {sorted(found)[:6]}")
            return
        ctx.check_that(set(found) == set(tree), f"embedded:{outerFormat}:{inner.fmt}", f"{ctx.about} ({how}) shows {sorted(found)[:6]}")
        for p, node in tree.items():
            if p in found:
                ctx.check_that(view.read_all(ms, found[p]) == node.data, f"embedded:{outerFormat}:content", f"{ctx.about}: {p}")


def encode(fmt, tree, path, folder):
    import subprocess

    names = [name[1:] for name in tree]
    stage = os.path.join(folder, 'stage')
    os.makedirs(stage, exist_ok=True)
    for name in names:
        gen.write(os.path.join(stage, name), tree['/' + name].data)
    if fmt == 'tar':
        gen.write(path, targen.build([targen.Member('file', n, tree['/' + n].data) for n in names]))
    elif fmt == 'zip':
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED) as archive:
            for name in names:
                archive.writestr(name, tree['/' + name].data)
    elif fmt == 'rar':
        gen.write(path, zoo.rar5([(n.encode(), tree['/' + n]) for n in names]))
    elif fmt == 'ar':
        out = b'!<arch>\n'
        for name in names:
            node = tree['/' + name]
            out += zoo.ar_header(name.encode() + b'/', node, len(node.data)) + node.data + b'\n' * (len(node.data) % 2)
        gen.write(path, out)
    elif fmt == 'cpio':
        out = b''
        for k, name in enumerate(names + ['TRAILER!!!']):
            data = tree['/' + name].data if name != 'TRAILER!!!' else b''
            raw = name.encode() + b'\0'
            out += b'070701' + b''.join(b'%08X' % x for x in (k + 1, 0o100644 if data else 0, 0, 0, 1, 1_000_000_000, len(data), 0, 0, 0, 0, len(raw), 0))
            out += raw + b'\0' * (-(110 + len(raw)) % 4) + data + b'\0' * (-len(data) % 4)
        gen.write(path, out)
    elif fmt == 'asar':
        files, offset = {}, 0
        for name in names:
            files[name] = {'offset': str(offset), 'size': len(tree['/' + name].data)}
            offset += files[name]['size']
        header = json.dumps({'files': files}).encode()
        padded = header + b'\0' * (-len(header) % 4)
        out = struct.pack('<LLLL', 4, len(padded) + 8, len(padded) + 4, len(header)) + padded
        gen.write(path, out + b''.join(tree['/' + n].data for n in names))
    elif fmt == 'warc':
        gen.write(path, b''.join(b''.join(zoo.warc_record('/' + n, tree['/' + n].data, k, 1_000_000_000)) for k, n in enumerate(names)))
    elif fmt in ('iso', '7z', 'squashfs'):
        if fmt == '7z':
            command = ['7z', 'a', '-mx0', '-bd', '-y', path] + names
        elif fmt == 'squashfs':
            command = ['mksquashfs', '.', path, '-noI', '-noD', '-noF', '-noX', '-no-progress', '-quiet']
        else:
            import libarchive
            with gen.cwd(stage), libarchive.file_writer(path, 'iso9660') as archive:
                archive.add_files(*names)
            return
        subprocess.run(command, cwd=stage, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


# -- other data -----------------------------------------------------------------------------------------------------------------
def junk(rng):
    """Returns (kind, data) of no supported format."""
    kind = rng.choice(['text', 'json', 'csv', 'png', 'elf', 'sqlite', 'wav', 'zeros', 'ff', 'tiny', 'magic', 'noise', 'xml', 'python', 'mp3',
                       'bmp', 'index-like', 'late-html', 'almost-tar', 'empty', 'pickled'])
    size = rng.choice([30, 600, 5000, 100_000])
    words = ['alpha', 'beta', 'gamma', 'delta', 'omega', '1234', 'the', 'of', 'and']
    text = ' '.join(rng.choices(words, k=size // 5)).encode()
    if kind == 'text':
        return kind, text + b'\n'
    if kind == 'json':
        return kind, json.dumps({'a': [rng.random() for _ in range(size // 20)], 'files': {}}).encode()
    if kind == 'csv':
        return kind, b''.join(b'%d,%d,%d\n' % (k, k * k, -k) for k in range(size // 10 + 1))
    if kind == 'png':
        raw = zlib.compress(rng.randbytes(100))
        return kind, b'\x89PNG\r\n\x1a\n' + struct.pack('>I', 13) + b'IHDR' + struct.pack('>IIBBBBB', 10, 10, 8, 2, 0, 0, 0) + b'\0\0\0\0' + raw
    if kind == 'elf':
        return kind, b'\x7fELF\x02\x01\x01' + b'\0' * 57 + text
    if kind in ('sqlite', 'index-like'):
        connection = sqlite3.connect(':memory:')
        if kind == 'sqlite':
            connection.execute('CREATE TABLE notes (id INTEGER, text TEXT)')
            connection.execute('INSERT INTO notes VALUES (1, ?)', (text.decode(),))
        else:
            connection.execute('CREATE TABLE files (id INTEGER PRIMARY KEY, title TEXT)')
            connection.execute('INSERT INTO files VALUES (1, ?)', ('x',))
        connection.commit()
        return kind, connection.serialize()
    if kind == 'wav':
        return kind, b'RIFF' + struct.pack('<I', size + 36) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, 1, 8000, 8000, 1, 8) + b'data' + text
    if kind == 'zeros':
        return kind, bytes(size)
    if kind == 'ff':
        return kind, b'\xff' * size
    if kind == 'tiny':
        return kind, bytes(rng.choice(b'abcxyz \n') for _ in range(rng.randrange(1, 20)))
    if kind == 'magic':  # Starts like a format but is nothing else.
        magic = rng.choice([b'\x1f\x8b', b'BZh9', b'\xfd7zXZ\0', b'\x28\xb5\x2f\xfd', b'Rar!\x1a\x07', b'PK\x03\x04', b"7z\xbc\xaf'\x1c", b'!<arch>\n',
                            b'hsqs', b'xar!', b'MSCF', b'070701', b'WARC/1.', b'%PDF-', b'OggS\0', b'\x04\0\0\0', b'SQLite format 3\0',
                            b'\x04\x22\x4d\x18', b'\x89LZO\0\r\n\x1a\n', b'LRZI\0', b']\0\0', b'\x50\x2a\x4d\x18\xff\xff\xff\x7f'])
        return kind + ':' + magic[:4].hex(), magic + rng.choice([b'', bytes(5), b'\xff' * 30, text[:size], b'zz'])
    if kind == 'noise':
        return kind, rng.randbytes(size)
    if kind == 'xml':
        return kind, b'<?xml version="1.0"?>\n<root>' + text + b'</root>\n'
    if kind == 'python':
        return kind, b'#!/usr/bin/env python3\nimport os\n' + b'print(1)\n' * (size // 9)
    if kind == 'mp3':
        return kind, b'ID3\x04\0\0\0\0\0\x0a' + bytes(10) + b'\xff\xfb\x90\x44' + rng.randbytes(size)
    if kind == 'bmp':
        return kind, b'BM' + struct.pack('<IHHI', size, 0, 0, 54) + text
    if kind == 'late-html':
        return kind, (b'x' * 80 + b'\n') * 7 + b'<html><head></head></html>'
    if kind == 'almost-tar':
        block = bytearray(targen.build([targen.Member('file', 'name', b'data')]))
        block[150] ^= 1  # Makes the checksum wrong.
        return kind, bytes(block)
    if kind == 'pickled':
        import pickle
        return kind, pickle.dumps({'a': text})
    return 'empty', b''


def is_deflate(data):
    """Whether the start of the data can be decompressed as headerless deflate, which has no magic bytes and is supported."""
    decoder = zlib.decompressobj(-15)
    try:
        decoder.decompress(data[:400], 100_000)
        return True
    except zlib.error:
        return False


def acceptable(kind, data):
    """Anything that has a right to be recognised."""
    if kind == 'empty':
        return False
    if is_deflate(data) or data[:8] == b'Rar!\x1a\x07\0\0' or data == b'!<arch>\n':
        return True  # Also a RAR archive that was cut after its header, and an AR archive without members.
    if data.startswith(b'OggS\0'):
        return True  # Damaged pages are skipped.
    if len(data) > 2 and data[0] & 15 == 8 and (data[0] * 256 + data[1]) % 31 == 0:
        return True
    return kind in ('zeros',)  # Only zeros are the end marker of an empty TAR.


def case_reject(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.StenciledFile import StenciledFile

    kind, data = junk(rng)
    if acceptable(kind, data):
        ctx.count('skipped_ambiguous')
        return
    _, name = random_name(rng, 'data.bin')
    path = gen.write(os.path.join(ctx.mkdir('data'), name), data)
    options = {}
    preference = random_preference(rng)
    if preference is not None:
        options['prioritizedBackends'] = preference
    how = rng.choice(['path', 'path', 'file', 'memory', 'part'])
    ctx.about = f"{kind} ({len(data)} B) named {name!r} with {preference} ({how})"
    ctx.distinct(kind, how, len(data) > 1000, preference and preference[0])
    fileobj, wrong = path, lambda: []
    if how != 'path':
        # The file object may be closed by a backend which tried it.
        if how == 'file':
            fileobj = open(path, 'rb')
        elif how == 'memory':
            fileobj = io.BytesIO(data)
        else:
            fileobj = StenciledFile([(io.BytesIO(b'before' + data + b'after'), 6, len(data))])
    try:
        ms = open_mount_source(fileobj, **options)
    except Exception as exception:
        ctx.count('rejected')
        ctx.check_that(str(exception), 'reject:silent', f"{ctx.about}: {exception!r} has no message")
        if how == 'path':
            with open(path, 'rb') as file:
                ctx.check_that(file.read() == data, 'reject:changed', ctx.about)
            ctx.check_that(os.listdir(os.path.dirname(path)) == [name], 'reject:litter', f"{ctx.about}: {os.listdir(os.path.dirname(path))}")
        return
    with ms:
        listing = ms.list('/')
        ctx.fail(f"reject:{kind}", f"{ctx.about} was mounted as {type(ms).__name__} with {list(listing or [])[:5]}")


def case_zeros(ctx, i, rng):
    """Compressed files that start with zeros."""
    from ratarmountcore.mountsource.factory import open_mount_source

    kind = ['lz4', 'lzo', 'lzma'][i]
    data = bytes(2000) + b'not zero'
    path = gen.write(os.path.join(ctx.root, 'file.' + kind), gen.compress(kind, data, rng))
    ctx.distinct('zeros', kind)
    try:
        ms = open_mount_source(path)
    except Exception as exception:
        ctx.fail(f"zeros:{kind}", f"{kind}-compressed file of zeros is refused: {exception!r}")
        return
    with ms:
        compare_only_file(ctx, ms, zoo.Source('single', path, {}, frozenset(), raw=data), f"zeros:{kind}")


def case(ctx, scenario, i, rng):
    {'harmless': case_harmless, 'name': case_name, 'embedded': case_embedded, 'reject': case_reject, 'zeros': case_zeros}[scenario](ctx, i, rng)
