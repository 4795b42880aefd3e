"""Random TAR workloads (members plus the rules that keep the expected view unambiguous)."""

from rv import gen
from rv.targen import Member, build, kind_visible, normalize, occurrences, parents  # noqa: F401


def spell(rng, path):
    """Another spelling of a normalized member path (without the leading slash)."""
    name = path.lstrip('/')
    choice = rng.randrange(12)
    if choice == 0:
        return './' + name
    if choice == 1:
        return '/' + name
    if choice == 2:
        return name.replace('/', '//', 1)
    if choice == 3:
        return name.replace('/', '/./', 1)
    if choice == 4 and '/' in name:
        head, tail = name.split('/', 1)
        return head + '/x/../' + tail
    if choice == 5:
        return '../' + name
    return name


def random_sparse(rng):
    """(data, ranges) with holes; all ranges but the last are multiples of 512, all start at multiples of 512."""
    blocks = rng.randrange(1, 30)
    tail = rng.choice([0, 0, 1, 100, 511])
    total = blocks * 512 + tail
    data = bytearray(total)
    ranges = []
    position = 0
    count = rng.choice([0, 1, 2, 3, 4, 5, 6, 26, 30])
    for _ in range(count):
        start = position + 512 * rng.randrange(0 if position == 0 else 1, 4)
        if start >= total:
            break
        length = min(512 * rng.randrange(1, 3), total - start)
        if length % 512 and start + length != total:
            break
        data[start : start + length] = gen.blob(rng, length)
        ranges.append((start, length))
        position = start + length
        if position >= total:
            break
    return bytes(data), ranges


def random_xattrs(rng):
    keys = ['user.a', 'user.b', 'user.comment', 'security.selinux', 'user.ünï', 'user.with space', 'trusted.x']
    values = [b'v', b'', b'1234567890', 'wert-ü'.encode(), b'multi\nline', b'x' * 300, b'a=b', b'\xc3\xa4=\n 17 path=x\n']
    return {k: rng.choice(values) for k in rng.sample(keys, rng.randrange(1, 4))}


def random_member(rng, name, kind, fmt, files):
    long = rng.random() < 0.12
    if long:
        segment = rng.choice(['long', 'läng'])
        name = name + '-' + '/'.join([segment * rng.randrange(5, 18) for _ in range(rng.randrange(1, 4))])
    if fmt in ('v7', 'ustar'):
        from rv.targen import split_ustar

        encoded = (name + '/').encode()
        if (fmt == 'v7' and len(encoded) > 100) or split_ustar(encoded) is None or split_ustar(name.encode()) is None:
            fmt = rng.choice(['gnu', 'pax'])
    mtime = rng.choice([0, 1, 1234567890, 1600000000 + rng.randrange(10**8), 2**31 + 5, 8**11 - 1])
    if fmt == 'pax' and rng.random() < 0.5:
        mtime = 1500000000 + rng.randrange(10**6) + rng.choice([0.5, 0.25, 0.125, 0.75])
    if fmt == 'gnu' and rng.random() < 0.1:
        mtime = rng.choice([-1, -1000000, 8**11, 8**11 + 77])
    big = fmt in ('gnu', 'pax')
    ids = [0, 1, 100, 1000, 65534, 8**7 - 1] + ([8**7, 2**31 - 1] if big else [])
    if fmt == 'v7':
        ids = [0, 1, 100, 1000, 65534]
    member = Member(
        kind, name, mode=rng.choice([0o644, 0o755, 0o600, 0o000, 0o777, 0o4755, 0o2755, 0o1777, 0o400, 0o6711]),
        mtime=mtime, uid=rng.choice(ids), gid=rng.choice(ids), fmt=fmt,
    )
    if fmt in ('v7', 'ustar') and rng.random() < 0.2 and member.mode < 0o10000:
        member.fullMode = fmt == 'v7'
    if kind in ('file', 'contig'):
        member.data = gen.blob(rng, gen.size(rng))
        if kind == 'file' and fmt in ('gnu', 'pax') and rng.random() < 0.25:
            member.data, member.sparse = random_sparse(rng)
            member.sparseFormat = rng.choice(['0.0', '0.1', '1.0']) if fmt == 'pax' else 'gnu'
            if member.sparseFormat == '1.0' and rng.random() < 0.4:
                member.paxSize = True
        elif fmt == 'pax' and rng.random() < 0.15:
            member.paxSize = rng.choice([True, 'zero']) if member.data else True
    elif kind == 'sym':
        member.linkname = rng.choice(['x', '../x', '/abs/target', 'a/b/c', 'ümlaut', '.', 'with space', 'dir/'])
        if big and rng.random() < 0.3:
            member.linkname = '/'.join(['target' * 5] * rng.randrange(4, 9))
    elif kind == 'hard':
        target = rng.choice(files)
        member.linkname = target
        if len(target.encode()) > 100 and fmt in ('v7', 'ustar'):
            member.fmt = rng.choice(['gnu', 'pax'])
            member.fullMode = False
    elif kind in ('chr', 'blk'):
        member.devmajor, member.devminor = rng.randrange(200), rng.randrange(200)
        if fmt == 'v7':
            member.fmt, member.fullMode = 'ustar', False
    elif kind == 'fifo' and fmt == 'v7':
        member.fmt, member.fullMode = 'ustar', False
    if fmt == 'pax' and rng.random() < 0.3:
        member.xattrs = random_xattrs(rng)
        if rng.random() < 0.3:
            member.libarchiveXattrs = {'user.bin': bytes(rng.randrange(256) for _ in range(rng.randrange(9)))}
    return member


def random_members(rng, count, fmts=('v7', 'ustar', 'gnu', 'pax'), duplicates=0.25, kinds=None, special=0.3):
    """
    Members whose expected view is unambiguous: a path that was a folder never becomes something else later
    (the reverse is allowed), and hard link targets are plain files that are never replaced.
    """
    mixed = rng.random() < 0.5
    fmt = rng.choice(fmts)
    kinds = kinds or ['file'] * 10 + ['dir'] * 3 + ['sym'] * 2 + ['hard'] * 2 + ['chr', 'blk', 'fifo', 'contig']
    members = []
    folders = ['']
    isFolder = set()
    leaves = {}
    frozen = set()
    targets = []
    while len(members) < count:
        if mixed:
            fmt = rng.choice(fmts)
        kind = rng.choice(kinds)
        if kind == 'hard' and not targets:
            kind = 'file'
        if leaves and rng.random() < duplicates and kind not in ('hard',):
            path = rng.choice(sorted(leaves))
            if path in frozen:
                continue
            if kind == 'dir' and rng.random() < 0.7:
                kind = 'file'
        else:
            path = rng.choice(folders) + '/' + gen.name(rng, special)
        member = random_member(rng, path.lstrip('/'), kind, fmt, targets)
        path = normalize(member.name)
        if path == '/':
            continue
        chain = parents(path)
        if path in frozen or any(p in frozen for p in chain):
            continue
        if kind != 'dir' and path in isFolder:
            continue
        if kind == 'dir':
            if member.fmt in ('v7', 'ustar'):
                from rv.targen import split_ustar

                if split_ustar((member.name + '/').encode()) is None or (
                    member.fmt == 'v7' and len((member.name + '/').encode()) > 100
                ):
                    continue
        # A file replaced by a folder once is fine, but only if the file stays in the past.
        for p in chain + ([path] if kind == 'dir' else []):
            isFolder.add(p)
            leaves.pop(p, None)
            if p not in folders:
                folders.append(p)
        if kind != 'dir':
            leaves[path] = member
            if path in targets:
                targets.remove(path)
        spelled = spell(rng, member.name)
        if rng.random() < 0.3 and len(spelled.encode()) < 90 and member.sparse is None:
            member.name = spelled
        if kind == 'file' and rng.random() < 0.5:
            targets.append(path.lstrip('/'))
            frozen.add(path)
        elif kind == 'hard':
            frozen.add(path)
            if rng.random() < 0.3:
                targets.append(path.lstrip('/'))
        members.append(member)
    return members


def expected_tree(members):
    """path -> ('implied', None) or ('member', newest member). Parents of members are implied folders."""
    tree = {}
    for member in members:
        path = normalize(member.name)
        if path == '/':
            continue
        for parent in parents(path):
            if parent not in tree or tree[parent][0] == 'member' and tree[parent][1].kind != 'dir':
                tree[parent] = ('implied', None)
        tree[path] = ('member', member)
    return tree


def resolve_hard(tree, member, limit=64):
    while member.kind == 'hard' and limit:
        state = tree.get(normalize(member.linkname))
        if state is None or state[1] is None:
            return None
        member = state[1]
        limit -= 1
    return member
