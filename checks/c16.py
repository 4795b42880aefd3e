"""C16: seeking in a compressed stream must equal slicing its decompressed data."""

import bz2
import io
import lzma
import os
import struct
import zlib

from checks.c02 import Handle, drive
from rv import gen, targen
from rv.core import HarnessError

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = (
    'A case encodes data with a stream writer of our own (member, block, frame, flush layouts and header fields of gz, bgzf, '
    'zlib, bz2, xz, lzma, zst, lz4, lzo) and compares random seeks and reads on several handles, as single file or as TAR '
    'inside, opened by path, file object, or inside another file, with backends, threads, spacings, and stored seek points; '
    'distinct: (format, layout, opening, options).'
)
MINIMUM = {'operations': 8000, 'bytes_compared': 20_000_000, 'streams': 150, 'reloads': 30, 'block_readers': 15}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.BlockParallelReaders']
KINDS = ['gz', 'gz', 'bgzf', 'zlib', 'bz2', 'xz', 'xz-blocks', 'lzma', 'zst', 'zst', 'lz4', 'lzo']


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('single', 15 * len(KINDS) * k, 6), ('tar', 10 * len(KINDS) * k, 6), ('large', 24 * k, 2), ('blocks', 24 * k, 2), ('empty', 6, 1)]


# -- encoders: each returns (bytes, layout) with the layout as a short description ------------------------------------------
def gzip_member(rng, data, name=None):
    flags, extra = 0, b''
    if rng.random() < 0.3:
        flags |= 4
        field = rng.randbytes(rng.choice([0, 1, 6, 300]))
        extra += struct.pack('<H', len(field)) + field
    if name is not None:
        flags |= 8
        extra += name + b'\0'
    if rng.random() < 0.2:
        flags |= 16
        extra += b'a comment\0'
    if rng.random() < 0.1:
        flags |= 1
    header = struct.pack('<BBBBIBB', 0x1F, 0x8B, 8, flags, rng.choice([0, 1_000_000_000]), 0, rng.choice([0, 3, 255])) + extra
    if flags & 2 or rng.random() < 0.1:
        header = header[:3] + bytes([flags | 2]) + header[4:]
        header += struct.pack('<H', zlib.crc32(header) & 0xFFFF)
    return header + deflate(rng, data, -15) + struct.pack('<II', zlib.crc32(data), len(data) & 0xFFFFFFFF)


def deflate(rng, data, bits):
    strategy = rng.choice([zlib.Z_DEFAULT_STRATEGY] * 3 + [zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED])
    encoder = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, bits, rng.choice([1, 8, 9]), strategy)
    out, position = b'', 0
    flushes = rng.random() < 0.4
    while position < len(data):
        size = rng.choice([len(data), 1, 1000, 32768, 65536, 200_000]) if flushes else len(data)
        out += encoder.compress(data[position : position + size])
        position += size
        if flushes:
            out += encoder.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_BLOCK, zlib.Z_NO_FLUSH]))
        if len(out) > 20 * len(data) + 100_000:
            flushes = False
    return out + encoder.flush()


def pieces(rng, data, most=6):
    if not data or rng.random() < 0.3:
        return [data]
    cuts = sorted(rng.choice([0, 1, len(data) - 1, len(data), rng.randrange(len(data) + 1), rng.randrange(len(data) + 1)])
                  for _ in range(rng.randrange(1, most)))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def encode(rng, kind, data):
    if kind == 'gz':
        parts = pieces(rng, data)
        name = rng.choice([None, None, b'inner name'])
        out = b''.join(gzip_member(rng, p, name if k == 0 else None) for k, p in enumerate(parts))
        return out, f"members{len(parts)}"
    if kind == 'bgzf':  # Many small members with an extra field telling their size and an empty one at the end
        out = b''
        for start in [*range(0, len(data), 60000), None]:
            block = b'' if start is None else data[start : start + 60000]
            encoder = zlib.compressobj(6, zlib.DEFLATED, -15)
            body = encoder.compress(block) + encoder.flush()
            out += struct.pack('<BBBBIBBHBBHH', 31, 139, 8, 4, 0, 0, 255, 6, 66, 67, 2, len(body) + 25) + body
            out += struct.pack('<II', zlib.crc32(block), len(block))
        return out, 'bgzf'
    if kind == 'zlib':
        return deflate(rng, data, 15), 'zlib'
    if kind == 'bz2':
        parts = pieces(rng, data)
        return b''.join(bz2.compress(p, rng.choice([1, 2, 9])) for p in parts), f"streams{len(parts)}"
    if kind == 'xz':
        parts, out = pieces(rng, data), b''
        padding = rng.random() < 0.3
        for p in parts:
            check = rng.choice([lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256])
            filters = [{'id': lzma.FILTER_LZMA2, 'preset': 0}]
            if rng.random() < 0.3:
                filters.insert(0, rng.choice([{'id': lzma.FILTER_DELTA, 'dist': 4}, {'id': lzma.FILTER_X86}]))
            out += lzma.compress(p, check=check, filters=filters)
            out += b'\0' * (rng.choice([0, 4, 8, 400]) if padding else 0)
        return out, f"streams{len(parts)}{'padded' if padding else ''}"
    if kind == 'xz-blocks':
        parts = [p for p in pieces(rng, data, 12) if p] or [data]
        return gen.compress('xz-blocks', data, rng, parts=len(parts)), f"blocks{len(parts)}"
    if kind == 'lzma':
        return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=0), 'lzma'
    if kind == 'zst':
        import zstandard

        parts, out, layout = [p for p in pieces(rng, data, 9) if p] or [data], b'', set()
        for p in parts:
            encoder = zstandard.ZstdCompressor(level=rng.choice([1, 3]), write_checksum=rng.random() < 0.5, write_content_size=rng.random() < 0.7)
            if rng.random() < 0.3:  # Without content size because it is not known in advance
                stream = encoder.compressobj()
                middle = rng.randrange(len(p) + 1)
                out += stream.compress(p[:middle]) + stream.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK) + stream.compress(p[middle:]) + stream.flush()
                layout.add('streamed')
            else:
                out += encoder.compress(p)
            if rng.random() < 0.15:
                field = rng.randbytes(rng.choice([0, 4, 1000]))
                out += struct.pack('<II', 0x184D2A50 + rng.randrange(16), len(field)) + field
                layout.add('skippable')
        return out, f"frames{len(parts)}{sorted(layout)}"
    if kind == 'lz4':
        import lz4.frame

        parts, out = [p for p in pieces(rng, data) if p] or [data], b''
        for p in parts:
            out += lz4.frame.compress(p, block_size=rng.choice([4, 5, 7]), block_linked=rng.random() < 0.5, content_checksum=rng.random() < 0.5,
                                      block_checksum=rng.random() < 0.5, store_size=rng.random() < 0.5, compression_level=rng.choice([0, 3, 9]))
        return out, f"frames{len(parts)}"
    return gen.compress(kind, data, rng), kind


def content(rng, large=False):
    size = rng.choice([1, 2, 511, 4096, 4097, 65535, 65536, 131072, rng.randrange(1, 300_000), rng.randrange(1, 300_000)])
    if large:
        size = rng.randrange(3_000_000, 9_000_000)
    style = rng.randrange(5)
    if style == 0:
        return bytes([rng.randrange(1, 256)]) * size
    if style == 1:
        return rng.randbytes(size)
    if style == 2:
        return b''.join(b'line %d\n' % k for k in range(size // 9 + 1))[:size]
    if style == 3:  # Alternating compressible and not
        return b''.join(rng.randbytes(5000) + b'x' * 20000 for _ in range(size // 25000 + 1))[:size]
    words = [rng.randbytes(rng.randrange(1, 9)) for _ in range(50)]
    out = b''.join(rng.choices(words, k=size // 2 + 10))
    return (out * (size // len(out) + 1))[:size]


def options_for(rng, kind):
    backends = {'gz': [None, ['rapidgzip'], ['indexed_gzip'], ['indexed_gzip', 'rapidgzip']], 'zst': [None, ['indexed_zstd']],
                'xz': [None, ['xz']], 'bz2': [None, ['rapidgzip-bzip2']]}
    options = {
        'gzipSeekPointSpacing': rng.choice([40_000, 65536, 200_000, 1 << 20, 16 << 20]),
        'parallelizations': rng.choice([{}, {'': 0}, {'': 1}, {'': 2}, {'': 4}, {'xz': 3}, {'rapidgzip-bzip2': 2}, {'rapidgzip': 3, '': 1}]),
        'prioritizedBackends': rng.choice(backends.get(kind.split('-')[0], [None])),
    }
    return {key: value for key, value in options.items() if value is not None}


SUFFIX = {'bgzf': 'gz', 'xz-blocks': 'xz', 'zlib': 'zz'}


def open_somehow(ctx, rng, path, encoded, options):
    """Open by path, as file object, or as a part of another file."""
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.StenciledFile import StenciledFile

    how = rng.choice(['path', 'path', 'path', 'file', 'memory', 'part'])
    if path.endswith('.zst') and how in ('memory', 'part'):
        how = 'path'  # The indexed_zstd backend needs a file descriptor. Nested archives are judged by C10.
    if how == 'path':
        return how, open_mount_source(path, **options)
    if how == 'file':
        return how, open_mount_source(open(path, 'rb'), **options)
    if how == 'memory':
        return how, open_mount_source(io.BytesIO(encoded), **options)
    before = rng.randbytes(rng.choice([1, 511, 5000]))
    file = io.BytesIO(before + encoded + rng.randbytes(100))
    return how, open_mount_source(StenciledFile([(file, len(before), len(encoded))]), **options)


def case_stream(ctx, i, rng, inside, large=False):
    from ratarmountcore.mountsource.factory import open_mount_source

    kind = KINDS[i % len(KINDS)] if not large else ['gz', 'bz2', 'zst', 'xz-blocks', 'bgzf', 'gz'][i % 6]
    if inside and kind == 'lzo':
        return  # Several readers of a tar.lzo may deadlock, see C02.
    data = content(rng, large)
    files = None
    if inside:
        members = [targen.Member('file', f"m{k}", content(rng), fmt='ustar') for k in range(rng.randrange(1, 5))] + [
            targen.Member('file', 'last', data, fmt='ustar')]
        files = [('/' + m.name, m.data) for m in members]
        data = targen.build(members)
    encoded, layout = encode(rng, kind, data)
    path = gen.write(os.path.join(ctx.mkdir(), 'data' + ('.tar' if inside else '') + '.' + SUFFIX.get(kind, kind)), encoded)
    options = options_for(rng, kind)
    ctx.about = f"{kind} {layout} {len(data)} bytes {options}"
    ctx.count('streams')
    how, ms = open_somehow(ctx, rng, path, encoded, options)
    ctx.about += ' ' + how

    def judge(ms, tag):
        names = list(ms.list('/'))
        if not inside:
            ctx.equal(len(names), 1, f"{kind}:names", str(names))
        drive(ctx, rng, ms, files or [('/' + names[0], data)], kind, tag, 30 if large else 60)

    with ms:
        judge(ms, how)
    ctx.distinct(kind, layout, how, inside, str(options))
    if how == 'path' and SUFFIX.get(kind, kind) in ('gz', 'bz2', 'xz', 'zst', 'zz'):
        stored = {**options, 'writeIndex': True, 'indexMinimumFileCount': 0, 'indexFilePath': os.path.join(ctx.mkdir('index'), 'i.sqlite')}
        with open_mount_source(path, **stored) as ms:
            if rng.random() < 0.5:
                judge(ms, 'created')
        # Also with other options because the seek points are the same ones.
        for other in (options, options_for(rng, kind)):
            with open_mount_source(path, **{**stored, **other}) as ms:
                judge(ms, 'reloaded')
            ctx.count('reloads')


def case_blocks(ctx, i, rng):
    """The readers that decode blocks in other processes."""
    from ratarmountcore.BlockParallelReaders import ParallelXZReader, ParallelZstdReader

    data = content(rng, rng.random() < 0.3)
    kind = ['xz-blocks', 'zst'][i % 2]
    if kind == 'zst':
        import zstandard

        parts = [p for p in pieces(rng, data, 30) if p]
        encoded = b''.join(zstandard.ZstdCompressor(level=1).compress(p) for p in parts)
    else:
        encoded = gen.compress(kind, data, rng, parts=rng.randrange(1, 20))
    path = gen.write(os.path.join(ctx.mkdir(), 'data'), encoded)
    reader = (ParallelXZReader if kind == 'xz-blocks' else ParallelZstdReader)(path, parallelization=rng.choice([2, 3, 5]))
    ctx.count('block_readers')
    handle = Handle(ctx, reader, data, f"blocks-{kind}/{len(data)}/0")
    try:
        for _ in range(60):
            handle.step(rng)
    finally:
        reader.close()
        reader.join_threads()


def case_empty(ctx, i, rng):
    """Streams with empty frames, which are valid."""
    from ratarmountcore.mountsource.factory import open_mount_source

    import lz4.frame
    import zstandard

    data = b'0123456789' * 1000
    zst, lz4 = zstandard.ZstdCompressor(level=1).compress, lz4.frame.compress
    name, encoded = [('zst-middle', zst(data) + zst(b'') + zst(data)), ('zst-first', zst(b'') + zst(data) + zst(data)),
                     ('lz4-middle', lz4(data) + lz4(b'') + lz4(data)), ('lz4-first', lz4(b'') + lz4(data) + lz4(data)),
                     ('gz-middle', gzip_member(rng, data) + gzip_member(rng, b'') + gzip_member(rng, data)),
                     ('bz2-middle', bz2.compress(data) + bz2.compress(b'') + bz2.compress(data))][i]
    path = gen.write(os.path.join(ctx.mkdir(), 'data.' + name.split('-')[0]), encoded)
    try:
        with open_mount_source(path) as ms:
            with ms.open(ms.lookup('/data')) as file:
                got = file.read()
            ctx.check_that(got == data * 2, f"empty-frame:{name}", f"{len(got)} of {2 * len(data)} bytes are read")
    except Exception as exception:
        ctx.fail(f"empty-frame:{name}", f"cannot be opened: {exception!r}")


def case(ctx, scenario, i, rng):
    if scenario == 'blocks':
        case_blocks(ctx, i, rng)
    elif scenario == 'empty':
        case_empty(ctx, i, rng)
    else:
        case_stream(ctx, i, rng, inside=scenario == 'tar' or (scenario == 'large' and rng.random() < 0.5), large=scenario == 'large')
