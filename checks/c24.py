"""C24: an index of a TAR that was appended to (or changed) against a mount that builds its index anew."""

import os
import subprocess

from rv import gen, indexwork, targen, tarwork
from rv.core import HarnessError

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = (
    'A case writes a TAR (big enough for the in-place extension: 64 MiB and >= 100 members; or small, or compressed), '
    'mounts it with an index, then up to three times appends members (over the end blocks by our own encoder or by GNU '
    'tar, after the end blocks with ignored zeros) or changes earlier members, and compares the complete view of a mount '
    'with the old index with that of a mount without any index. Distinct: (size class, last member kind, how, options).'
)
ASSUMPTIONS = [
    'A view built without stored index is the reference; its own correctness is judged by C01.',
    'Earlier members are changed only in ways covered by the documented sampling (33 first, 33 last, 33 random files): '
    'all headers shift, or one of the first files changes.',
]
MINIMUM = {'entries_compared': 3000, 'extended_in_place': 10, 'rebuilt': 15, 'changed_earlier': 5, 'second_round': 10}
PRELOAD = ['ratarmountcore.mountsource.factory']
BIG = 64 * 1024 * 1024


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('big', 48 * k, 3), ('gnutar', 12 * k, 2), ('small', 40 * k, 5)]


def write_holes(path, data):
    """Long runs of zeros become holes, to be fast."""
    step = 1 << 20
    zeros = bytes(step)
    with open(path, 'wb') as file:
        for k in range(0, len(data), step):
            piece = data[k: k + step]
            if piece == zeros[: len(piece)]:
                file.seek(len(piece), 1)
            else:
                file.write(piece)
        file.truncate(len(data))


def last_members(rng, members):
    """Members of a specific kind to end with, because the end of the last member is where appending starts."""
    kind = rng.choice(['any', 'any', 'file', 'empty', 'dir', 'sym', 'hard', 'sparse', 'long', 'nested', 'fifo'])
    tag = f"zz-last-{rng.randrange(10**6)}"
    fmt = rng.choice(['gnu', 'pax'])
    if kind == 'file':
        return kind, [targen.Member('file', tag, data=gen.blob(rng, rng.choice([1, 511, 512, 513, 2048])), fmt=fmt)]
    if kind == 'empty':
        return kind, [targen.Member('file', tag, data=b'', fmt=fmt)]
    if kind in ('dir', 'fifo'):
        return kind, [targen.Member(kind, tag, fmt=fmt)]
    if kind == 'sym':
        return kind, [targen.Member('sym', tag, linkname='some/where', fmt=fmt)]
    if kind == 'hard':
        return kind, [targen.Member('file', tag + 't', data=b'target data', fmt=fmt), targen.Member('hard', tag, linkname=tag + 't', fmt=fmt)]
    if kind == 'sparse':
        data, ranges = tarwork.random_sparse(rng)
        return kind, [targen.Member('file', tag, data=data, sparse=ranges, sparseFormat='gnu', fmt='gnu')]
    if kind == 'long':
        return kind, [targen.Member('file', tag + '/' + 'n' * 180, data=gen.blob(rng, 700), fmt=fmt)]
    if kind == 'nested':
        return kind, [indexwork.nested_tar(rng, rng.choice([1, 2]))]
    return 'any', []


def renamed(members, prefix):
    for m in members:
        if not m.name.startswith(('/', '.')):
            m.name = prefix + m.name
    return members


def fresh_members(rng, count):
    members = tarwork.random_members(rng, count, special=0.15)
    if rng.random() < 0.5:
        return members  # names may repeat those of earlier rounds: further versions
    return [m for m in renamed(members, f"r{rng.randrange(1000)}-") if m.kind != 'hard' and len(m.name) < 90]


class Archive:
    def __init__(self, rng, path, members, compression=''):
        self.rng, self.path, self.members, self.compression = rng, path, members, compression
        self.tail = b''  # complete archives after the end blocks
        self.time = 1_600_000_000

    def write(self):
        if not self.tail:
            self.endBlocks = self.rng.choice([2, 2, 3, 20])
        data = targen.build(self.members, endBlocks=self.endBlocks)
        data += self.tail
        if self.compression:
            data = gen.compress(self.compression, data, self.rng)
        write_holes(self.path, data)
        self.time += self.rng.choice([1, 1, 1000])
        os.utime(self.path, (self.time, self.time))


def gnu_append(ctx, rng, archive):
    folder = ctx.mkdir()
    names = []
    for k in range(rng.randrange(1, 8)):
        name = rng.choice([f"g{rng.randrange(100)}", f"d{rng.randrange(3)}/g{rng.randrange(50)}", 'L' * 90 + str(k)])
        gen.write(os.path.join(folder, name), gen.blob(rng, rng.choice([0, 1, 600, 10240])))
        names.append(name)
    if rng.random() < 0.4:
        os.symlink('elsewhere', os.path.join(folder, 'a-link'))
        names.append('a-link')
    if rng.random() < 0.4:
        os.link(os.path.join(folder, names[0]), os.path.join(folder, 'hard'))
        names.append('hard')
    names = list(dict.fromkeys(names))
    form = rng.choice(['gnu', 'pax'])
    result = subprocess.run(['tar', '--append', f'--format={form}', '-C', folder, '-f', archive.path, *names], capture_output=True)
    if result.returncode:
        raise HarnessError(f"tar --append: {result.stderr!r}")
    archive.time += 10
    os.utime(archive.path, (archive.time, archive.time))


def change_earlier(rng, archive):
    """Changes which the sampled comparison of stored and real headers can always see."""
    how = rng.choice(['insert', 'remove', 'rename-first', 'metadata-first'])
    members = archive.members
    if how == 'insert':
        members.insert(rng.randrange(len(members) // 2), targen.Member('file', 'inserted', data=gen.blob(rng, 600), fmt='gnu'))
    elif how == 'remove':
        targets = {m.linkname for m in members if m.kind == 'hard'}
        places = [k for k, m in enumerate(members[:len(members) // 2]) if m.name not in targets and len(m.data or b'') < BIG]
        del members[rng.choice(places)]
    else:
        # For one of the very first regular files; they are all compared.
        places = [k for k, m in enumerate(members[:20]) if m.kind == 'file' and m.sparse is None and m.name.startswith('base')]
        if not places:
            members.insert(0, targen.Member('file', 'inserted', data=gen.blob(rng, 600), fmt='gnu'))
            return 'insert'
        member = members[rng.choice(places)]
        if how == 'rename-first':
            member.name = member.name[:-1] + ('x' if member.name[-1] != 'x' else 'y')
        else:
            member.mtime = int(member.mtime) + 1
    return how


def case(ctx, scenario, i, rng):
    folder = ctx.mkdir()
    options = {'writeIndex': True, 'indexMinimumFileCount': 0}
    path = os.path.join(folder, rng.choice(['a.tar', 'ä %.tar', 'archive']))
    big = scenario != 'small'
    compression = ''
    if big:
        count = rng.choice([130, 130, 130, 200, 60])
        members = [targen.Member('file', f"base{k % 7}/f{k:03}", data=gen.blob(rng, rng.choice([0, 10, 512, 1000])), fmt='gnu', mtime=k)
                   for k in range(count)]
        members += tarwork.random_members(rng, 30, special=0.15)
        members.insert(rng.choice([0, len(members) // 2, len(members)]), targen.Member('file', 'big', data=bytes(BIG), fmt='gnu'))
    else:
        members = tarwork.random_members(rng, rng.randrange(1, 40)) or [targen.Member('file', 'one', data=b'1')]
        compression = rng.choice(['', '', '', 'gz', 'bz2', 'xz', 'zst'])
        path += '.' + compression if compression else ''
    if rng.random() < 0.4:
        options.update({'recursive': True, 'recursionDepth': rng.choice([1, 2])})
        members.insert(rng.randrange(len(members)), indexwork.nested_tar(rng, rng.choice([1, 2])))
    if rng.random() < 0.15:
        options['transform'] = rng.choice([('^/?(.*)', r'/pre/\1'), ('f', 'FF')])
    if rng.random() < 0.2:
        options['hashes'] = ['md5']
    if rng.random() < 0.3:
        options['verifyModificationTime'] = True
    mayConcatenate = rng.random() < 0.25
    if mayConcatenate:
        options['ignoreZeros'] = True
    location = rng.choice(['default', 'explicit', 'folder'])
    if location == 'explicit':
        options['indexFilePath'] = os.path.join(ctx.mkdir(), 'the.index')
    elif location == 'folder':
        options['indexFolders'] = [ctx.mkdir()]

    kind, last = last_members(rng, members)
    archive = Archive(rng, path, members + last, compression)
    archive.write()
    ctx.about = f"{scenario} {compression or 'plain'} last={kind} {options}"
    changed = False
    for step in range(1 + rng.choice([1, 1, 2, 3])):
        how = 'initial'
        if step:
            choices = ['append'] * 4 + ['change'] * 2 + ['empty']
            if mayConcatenate:
                choices += ['concatenate'] * 3
            how = 'gnutar' if scenario == 'gnutar' and rng.random() < 0.8 else rng.choice(choices)
            if scenario == 'gnutar' and how not in ('gnutar',):
                how = 'none'
            if archive.tail and how in ('append', 'change'):
                how = 'concatenate'
            if how == 'append':
                archive.members += fresh_members(rng, rng.choice([1, 2, 10, 40]))
                if rng.random() < 0.3:  # a folder that was only implied before
                    archive.members.append(targen.Member('dir', f"base{rng.randrange(7)}", fmt='gnu', mode=0o700, mtime=99, uid=7))
                kind, last = last_members(rng, archive.members)
                archive.members += last
                archive.write()
            elif how == 'change':
                how += '-' + change_earlier(rng, archive)
                archive.members += fresh_members(rng, 3)
                archive.members.append(targen.Member('file', f"longer{step}", data=bytes(20000), fmt='gnu'))
                archive.write()
                ctx.count('changed_earlier')
            elif how == 'empty':
                # Nothing but more zeros. The modification time only changes as far as the check for it is requested.
                with open(path, 'ab') as file:
                    file.write(bytes(10240))
                if compression:
                    archive.write()
            elif how == 'concatenate':
                archive.tail += targen.build(fresh_members(rng, rng.choice([1, 5])), endBlocks=rng.choice([2, 20]))
                archive.write()
            elif how == 'gnutar':
                gnu_append(ctx, rng, archive)
        changed = changed or how != 'initial'
        reference = indexwork.fresh_view(path, options)
        log = os.path.join(ctx.root, 'log')
        with capture(log):
            got = indexwork.stored_view(path, options)
        text = open(log, errors='replace').read()
        ctx.count('entries_compared', len(reference))
        ctx.count('views_compared')
        if step:
            inPlace = 'being appended' in text
            ctx.count('extended_in_place' if inPlace else 'rebuilt')
            ctx.distinct(scenario, compression, kind, how, inPlace, tuple(sorted(options)))
            if step > 1:
                ctx.count('second_round')
        problem = indexwork.explain(got, reference)
        if problem:
            ctx.fail(f"{how.split('-')[0]}:{problem[0]}", f"step {step} {how}: {problem[1]}")
            return
        if rng.random() < 0.5:
            # The index left behind has to be good, too.
            problem = indexwork.explain(indexwork.stored_view(path, options), reference)
            if problem:
                ctx.fail(f"{how.split('-')[0]}:again:{problem[0]}", f"step {step} {how}, next mount: {problem[1]}")
                return
    ctx.sample({'what': ctx.about, 'entries': len(reference)})


class capture:
    """Standard output of the mount into a file, only used for counting the in-place extensions."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        import sys

        sys.stdout.flush()
        self.saved = os.dup(1)
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.close(fd)

    def __exit__(self, *args):
        import sys

        sys.stdout.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)
