"""Random data and small helpers shared by the workload generators."""

import bz2
import contextlib
import gzip
import io
import lzma
import os
import random
import shutil
import subprocess
import zlib

from rv.core import HarnessError

NAMES = ['a', 'b', 'foo', 'bar.txt', 'Foo', 'ä', 'ünï', 'x y', "quo'te", 'semi;colon', '日本', 'a.b.c', '-dash', '~tilde',
         'per%cent', 'under_score', '[glob]', 'star*', 'que?', 'back\\slash', 'tab\tname', 'new\nline', '...', '.hidden',
         'a.versions', 'CON', 'UPPER', 'long' + 'n' * 60, '0', '1', '%20', '#hash', '🙂', 'é', 'e\u0301']


def blob(rng: random.Random, size: int) -> bytes:
    """Bytes that are unique per call with overwhelming probability and differ at every offset neighbourhood."""
    kind = rng.randrange(4)
    if size == 0:
        return b''
    if kind == 0:
        return rng.randbytes(size)
    if kind == 1:
        tag = b'%08x|' % rng.getrandbits(32)
        return (b''.join(tag + b'%07d\n' % i for i in range(size // 17 + 1)))[:size]
    if kind == 2:
        unit = rng.randbytes(rng.choice([1, 3, 7, 100, 512]))
        return (unit * (size // len(unit) + 1))[:size]
    data = bytearray(size)
    for _ in range(min(20, size)):
        data[rng.randrange(size)] = rng.randrange(1, 256)
    return bytes(data)


def size(rng, large=False):
    choices = [0, 1, 2, 10, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10239, 10240, 10241]
    if rng.random() < 0.3:
        return rng.randrange(0, 20000)
    if large and rng.random() < 0.3:
        return rng.randrange(100_000, 1_500_000)
    return rng.choice(choices)


def name(rng, special=0.3):
    if rng.random() < special:
        return rng.choice(NAMES)
    return rng.choice('abcdefg') + (str(rng.randrange(30)) if rng.random() < 0.7 else '')


def run(args, input=None, cwd=None, timeout=120, env=None, check=True):
    result = subprocess.run(args, input=input, cwd=cwd, timeout=timeout, capture_output=True, env=env, check=False)
    if check and result.returncode != 0:
        raise HarnessError(f"{args}: {result.returncode} {result.stderr[-500:]!r}")
    return result.stdout


def have(tool):
    return shutil.which(tool) is not None


# -- stream compressions ----------------------------------------------------------------------------------------------
def _split(rng, data, parts):
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(parts - 1))
    cuts = [0, *cuts, len(data)]
    return [data[a:b] for a, b in zip(cuts[:-1], cuts[1:])]


def compress(kind: str, data: bytes, rng=None, parts=1) -> bytes:
    """One stream file of the given compression, possibly of several members / streams / frames."""
    pieces = _split(rng, data, parts) if parts > 1 and rng else [data]
    if kind == 'gz':
        level = rng.choice([0, 1, 6, 9]) if rng else 6
        return b''.join(gzip.compress(p, level, mtime=0) for p in pieces)
    if kind == 'bz2':
        level = rng.choice([1, 9]) if rng else 1
        return b''.join(bz2.compress(p, level) for p in pieces)
    if kind == 'xz':
        return b''.join(lzma.compress(p, preset=0) for p in pieces)
    if kind == 'xz-blocks':
        import xz

        buffer = io.BytesIO()
        with xz.open(buffer, 'w', preset=0) as file:
            for i, piece in enumerate(pieces):
                if i:
                    file.change_block()
                file.write(piece)
        return buffer.getvalue()
    if kind == 'zst':
        import zstandard

        compressor = zstandard.ZstdCompressor(level=1)
        # No empty frames: indexed_zstd stops at them, see the known finding of C16.
        return b''.join(compressor.compress(p) for p in pieces if p or not data)
    if kind == 'zlib':
        return zlib.compress(data, 6)
    if kind == 'lzma':
        return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=0)
    if kind == 'lz4':
        import lz4.frame

        # No empty frames: libarchive stops at them, see C16.
        return b''.join(lz4.frame.compress(p) for p in pieces if p or not data)
    if kind in ('lzo', 'lrz', 'Z'):
        tool = {'lzo': ['lzop', '-c'], 'lrz': ['lrzip', '-q', '-o', '-'], 'Z': ['compress', '-c']}[kind]
        return run(tool, input=data)
    raise HarnessError(f"unknown compression {kind}")


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def write(path, data):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'wb') as file:
        file.write(data)
    return path
