"""C02: random programs of reads and seeks on interleaved handles against io.BytesIO."""

import io
import os

from rv import gen, targen, tarwork, view, zoo

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = (
    'A case mounts one generated source (35 formats, sparse TARs, layered mounts) and runs a random program of read, '
    'readinto, seek, tell on several simultaneously open handles and MountSource.read, each result compared with the '
    'bytes the source was made from; distinct: (format, layer, buffering, operation kind, position class) tuples.'
)
MINIMUM = {'operations': 5000, 'bytes_compared': 5_000_000, 'handles': 500, 'zoo_cases': 90, 'sparse_files': 10}
PRELOAD = ['ratarmountcore.mountsource.factory']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    n = len(zoo.FORMATS)
    return [('zoo', 3 * n * k, 8), ('large', n * k, 3), ('sparse', 40 * k, 5), ('layers', 40 * k, 5), ('lzo', 1, 1)]


def layer(ctx, rng, ms):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.formats.folder import FolderMountSource

    tag, prefix = [], ''
    for _ in range(rng.choice([1, 1, 2, 3])):
        what = rng.randrange(5)
        if what == 0:
            ms = FileVersionLayer(ms)
        elif what == 1:
            ms = UnionMountSource([FolderMountSource(ctx.mkdir('empty')), ms])
        elif what == 2:
            ms, prefix = SubvolumesMountSource({'sub': ms}), '/sub' + prefix
        elif what == 3 and 3 not in tag:
            ms = AutoMountLayer(ms, recursive=False, recursionDepth=0)
        else:
            ms, prefix = RemovePrefixMountSource('/some/folder', ms), '/some/folder' + prefix
        tag.append(what)
    return ms, prefix, tag


class Handle:
    def __init__(self, ctx, file, data, tag):
        self.ctx, self.file, self.data, self.tag = ctx, file, data, tag
        self.model = io.BytesIO(data)
        self.past = False  # Position may be clamped after seeking beyond the end, so only absolute seeks follow.
        self.log = []

    def size(self, rng):
        n = len(self.data)
        return rng.choice([0, 1, 2, 7, 100, 511, 512, 513, 4095, 4096, 4097, 8192, 65536, 131072, n, n + 1, max(0, n - 1),
                           rng.randrange(n + 2), rng.randrange(n // 7 + 2)])

    def position(self, rng):
        n = len(self.data)
        return rng.choice([0, 1, n, max(0, n - 1), n // 2, min(n, 512), min(n, 4096), min(n, 1 << 20), rng.randrange(n + 1),
                           rng.randrange(n + 1), rng.randrange(n + 1), n + rng.randrange(1, 5000)])

    def compare(self, got, want, op):
        self.ctx.count('operations')
        self.ctx.count('oracle_checks')
        length = len(want) if isinstance(want, bytes) else 0
        self.ctx.count('bytes_compared', length)
        where = 'past' if self.past else 'start' if self.model.tell() == length else 'end' if (
            self.model.tell() == len(self.data)) else 'middle'
        self.ctx.distinct(self.tag, op, where)
        self.log.append(op)
        if got != want:
            kind = ''
            if isinstance(want, bytes):
                kind = ':type' if not isinstance(got, (bytes, bytearray)) else (
                    ':short' if want.startswith(bytes(got)) else ':long' if bytes(got).startswith(want) else ':wrong')
                got, want = f"{len(got) if got is not None else None} bytes", f"{len(want)} bytes"
            self.ctx.fail(f"{self.tag.split('/')[0]}:{op}{kind}", f"{self.tag}: {op} after {self.log[-8:]}: got {got}, expected "
                          f"{want}; file of {len(self.data)} bytes, position {self.model.tell()} past={self.past}")
            # Resynchronize in order not to report the same thing again.
            self.file.seek(0)
            self.model.seek(0)
            self.past = False

    def step(self, rng):
        what = rng.randrange(12)
        if what <= 3:
            position = self.position(rng)
            if rng.random() < 0.2 and position <= len(self.data):
                got = self.file.seek(position - len(self.data), io.SEEK_END)
            else:
                got = self.file.seek(position)
            want = self.model.seek(position)
            self.past = position > len(self.data)
            if not self.past:
                self.compare(got, want, 'seek')
        elif what == 4 and not self.past:
            target = self.position(rng)
            if target <= len(self.data):
                got = self.file.seek(target - self.model.tell(), io.SEEK_CUR)
                self.compare(got, self.model.seek(target), 'seek-cur')
        elif what == 5:
            if not self.past:
                self.compare(self.file.tell(), self.model.tell(), 'tell')
        elif what == 6:
            buffer = bytearray(b'\xa5' * self.size(rng))
            reference = bytearray(len(buffer))
            try:
                got = self.file.readinto(buffer)
            except NotImplementedError:
                self.ctx.count('readinto_unsupported')  # Some handles only offer read.
                return
            want = self.model.readinto(reference)
            self.compare(bytes(buffer[:got]), bytes(reference[:want]), 'readinto')
        elif what == 7:
            self.compare(self.file.read(), self.model.read(), 'read-all')
        elif what == 8 and rng.random() < 0.5:
            self.compare(self.file.read(-1), self.model.read(-1), 'read-minus')
        else:
            n = self.size(rng)
            self.compare(self.file.read(n), self.model.read(n), 'read')


def drive(ctx, rng, ms, files, fmt, tag, steps=60):
    """files: list of (path, data)"""
    handles = []
    for _ in range(steps):
        if not handles or (len(handles) < 5 and rng.random() < 0.15):
            path, data = rng.choice(files)
            info = ms.lookup(path)
            ctx.require(info is not None, f"{fmt}:lookup", f"{path!r} missing")
            ctx.equal(info.size, len(data), f"{fmt}:size", path)
            buffering = rng.choice([-1, 0, 0, 4096])
            handles.append(Handle(ctx, ms.open(info, buffering=buffering), data, f"{fmt}/{tag}/{buffering}"))
            ctx.count('handles')
            ctx.check_that(handles[-1].file.readable(), f"{fmt}:readable", path)
        elif rng.random() < 0.03:
            handle = handles.pop(rng.randrange(len(handles)))
            handle.file.close()
        elif rng.random() < 0.12:
            path, data = rng.choice(files)
            n = len(data)
            offset = rng.choice([0, n, max(0, n - 1), rng.randrange(n + 1), n + 10])
            size = rng.choice([0, 1, n, n + 1, rng.randrange(n + 2), max(0, n - offset), max(0, n - offset) + 1])
            got = ms.read(ms.lookup(path), size, offset)
            want = data[offset : offset + size]
            ctx.count('operations')
            ctx.count('bytes_compared', len(want))
            ctx.distinct(fmt, tag, 'ms.read', offset >= n, size == 0, offset + size > n)
            ctx.check_that(got == want, f"{fmt}:ms.read" + (':long' if len(got) > len(want) else ':wrong'),
                           lambda: f"{path!r} ({n} bytes): read({size}, {offset}) gave {len(got)} bytes, expected {len(want)}")
        else:
            handle = rng.choice(handles)
            for _ in range(rng.choice([1, 1, 2, 5])):
                handle.step(rng)
    for handle in handles:
        handle.file.close()


def options_for(rng):
    return {'gzipSeekPointSpacing': rng.choice([65536, 1 << 20, 16 << 20]), 'parallelizations': {'': rng.choice([0, 1, 2])}}


def case_lzo(ctx, rng):
    """Two readers of a large lzop-compressed TAR at the same time: libarchive runs lzop as a child process for each."""
    import signal
    import time

    from ratarmountcore.mountsource.factory import open_mount_source

    members = [targen.Member('file', f"f{k}", rng.randbytes(1_000_000), fmt='ustar') for k in range(9)]
    path = gen.write(os.path.join(ctx.mkdir(), 'a.tar.lzo'), gen.compress('lzo', targen.build(members)))
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            with open_mount_source(path) as ms:
                for k in range(8, -1, -1):  # Backwards so that each needs a new reader and old ones are evicted.
                    with ms.open(ms.lookup(f"/f{k}")) as file:
                        code = 0 if file.read(100) == members[k].data[:100] else 4
        finally:
            os._exit(code)
    idle, last = 0, None
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            ctx.equal(os.waitstatus_to_exitcode(status), 0, 'lzo:wrong-data', 'exit code of the reader')
            break
        time.sleep(0.25)
        with open(f"/proc/{pid}/stat") as file:
            ticks = file.read().rsplit(')', 1)[1].split()[11:13]
        idle, last = (idle + 1 if ticks == last else 0), ticks
        if idle > 40:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            ctx.fail('lzo:two-readers-deadlock', 'reading two files of a large .tar.lzo and closing them never returns')
            break
    ctx.count('operations')


def case(ctx, scenario, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    if scenario == 'sparse':
        members = tarwork.random_members(rng, 40)
        compression = rng.choice(['', '', 'gz', 'bz2', 'xz', 'lz4'])
        if compression == 'lz4':  # Read by libarchive, which is only fed with sparse files having plain names here.
            members = [targen.Member('file', f"s{k}", data=m.data, sparse=m.sparse, sparseFormat=m.sparseFormat, fmt=m.fmt)
                       for k, m in enumerate(members) if m.sparse is not None]
        data = targen.build(members)
        path = gen.write(os.path.join(ctx.mkdir(), 'a.tar' + ('.' + compression if compression else '')),
                         gen.compress(compression, data, rng, parts=2) if compression else data)
        tree = tarwork.expected_tree(members)
        files = [(p, m.data) for p, (state, m) in tree.items()
                 if state != 'implied' and m.kind != 'hard' and targen.kind_visible(m) == 'file']
        ctx.count('sparse_files', sum(1 for p, (s, m) in tree.items() if s != 'implied' and m.sparse is not None))
        if not files:
            return
        sparse = [(p, d) for p, d in files if tree[p][1].sparse is not None]
        with open_mount_source(path, **options_for(rng)) as ms:
            drive(ctx, rng, ms, sparse + files if sparse else files, 'sparse', compression, 80)
        return

    if scenario == 'lzo':
        return case_lzo(ctx, rng)
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)] if scenario in ('zoo', 'large') else rng.choice(zoo.FORMATS)
    # Not with lzo because of the known deadlock, see case_lzo.
    source = zoo.make(fmt, rng, ctx.mkdir('zoo'), large=scenario == 'large' and not fmt.endswith('lzo'))
    files = [(p, n.data) for p, n in source.tree.items() if n.kind == 'file']
    if not files:
        ctx.note('no files')
        return
    with open_mount_source(source.path, **{**options_for(rng), **(source.options or {})}) as ms:
        tag, prefix = scenario, ''
        target = ms
        if scenario == 'layers':
            target, prefix, tags = layer(ctx, rng, ms)
            tag = f"layers{''.join(map(str, tags))}"

        drive(ctx, rng, target, [(prefix + p, d) for p, d in files], fmt, tag, 60 if scenario != 'large' else 30)
    ctx.sample({'format': source.fmt, 'files': [(p, len(d)) for p, d in files[:5]]})
    if scenario == 'zoo':
        ctx.count('zoo_cases')
    ctx.distinct('format', fmt)
    ctx.count('formats_' + fmt)
