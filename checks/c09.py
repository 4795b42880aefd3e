"""C09: union mounts against the answers of their sources alone."""

import os
import shutil
import stat
import zipfile

from rv import gen, indexwork, targen, view

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = (
    'A case builds 1 to 5 sources (TAR, ZIP, folder, union, with conflicting types, repeated members, attributes) with few '
    'names, opens each twice, puts one set into a union with random cache limits, and compares every answer for every path of '
    'any source and for missing ones with the answer composed from the other set; folders are changed in between. '
    'distinct: (kinds of the sources at the path, cache class, query).'
)
MINIMUM = {'queries': 15000, 'conflicts': 250, 'contents_compared': 600, 'changes': 25}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.union']
NAMES = ['a', 'b', 'c', 'x.txt', 'ä']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('mixed', 90 * k, 6), ('live', 30 * k, 6)]


def random_paths(rng):
    """path -> kind, closed under parents."""
    tree = {}
    for _ in range(rng.randrange(1, 14)):
        parts = [rng.choice(NAMES) for _ in range(rng.randrange(1, 5))]
        path = ''
        for part in parts[:-1]:
            path += '/' + part
            if tree.setdefault(path, 'dir') != 'dir':
                break
        else:
            path += '/' + parts[-1]
            if path not in tree:
                tree[path] = rng.choice(['file', 'file', 'dir', 'sym'])
    return tree


def write_source(ctx, rng, number, kinds=('tar', 'tar', 'zip', 'folder')):
    """Returns (description, function that opens the source)."""
    kind = rng.choice(kinds)
    tree = random_paths(rng)
    folder = ctx.mkdir('source')
    data = {p: (f"{number}:{p} ".encode() * rng.randrange(0, 40)) for p in tree}
    if kind == 'folder':
        for path, what in sorted(tree.items()):
            real = folder + path
            if what == 'dir':
                os.mkdir(real)
            elif what == 'sym':
                os.symlink(f"to{number}", real)
            else:
                gen.write(real, data[path])
                if rng.random() < 0.3:
                    try:
                        os.setxattr(real, 'user.key', b'%d' % number)
                    except OSError:
                        pass
                os.utime(real, (number, number))
        return kind, folder, lambda: indexwork.open_source(folder), folder
    path = os.path.join(folder, f"s{number}.{kind}")
    if kind == 'zip':
        with zipfile.ZipFile(path, 'w') as archive:
            for one, what in tree.items():
                info = zipfile.ZipInfo(one.lstrip('/') + ('/' if what == 'dir' else ''), (2000 + number, 1, 1, 0, 0, 0))
                info.create_system = 3
                info.external_attr = {'dir': 0o40755, 'file': 0o100640, 'sym': 0o120777}[what] << 16
                archive.writestr(info, f"to{number}" if what == 'sym' else b'' if what == 'dir' else data[one])
    else:
        members = []
        for one, what in tree.items():
            if what == 'dir' and rng.random() < 0.5 and members:
                continue
            for repeat in range(rng.choice([1, 1, 1, 2, 3])):
                members.append(targen.Member(
                    what, one.lstrip('/'), data=data[one] + b'%d' % repeat if what == 'file' else b'', fmt='pax',
                    linkname=f"to{number}" if what == 'sym' else '', mtime=number * 100 + repeat, uid=number, gid=repeat,
                    xattrs={'user.key': b'%d/%d' % (number, repeat)} if rng.random() < 0.4 else {}))
        gen.write(path, targen.build(members))
    return kind, path, lambda: indexwork.open_source(path), None


def facts(info):
    return None if info is None else (info.size, info.mtime, info.mode, info.linkname, info.uid, info.gid)


def compare(ctx, union, alone, path, rng, tag):
    """All answers of the union for one path against those of the sources alone."""
    infos = [source.lookup(path) for source in alone]
    having = [k for k, info in enumerate(infos) if info is not None]
    kinds = [view.kind_of(infos[k].mode) for k in having]
    what = f"{path!r} being {kinds} of {len(alone)} sources"
    if len(set(kinds)) > 1:
        ctx.count('conflicts')
    ctx.distinct(tag, tuple(kinds[-3:]), len(alone))

    def check(name, got, want):
        ctx.count('queries')
        ctx.equal(got, want, f"{tag}:{name}", what)

    root = path == '/'
    got = union.lookup(path)
    winner = infos[having[-1]] if having else None
    if root:
        ctx.check_that(got is not None and stat.S_ISDIR(got.mode), f"{tag}:root", f"{got}")
    else:
        check('lookup', facts(got), facts(winner))
        counts = [source.versions(path) for source in alone]
        check('versions', union.versions(path), sum(counts))
        total = sum(counts)
        for number in range(-total - 1, total + 2):
            index = number - 1 if number > 0 else total - 1 + number
            want = None
            if 0 <= index < total and number <= total:
                for source, count in zip(alone, counts):
                    if index < count:
                        want = source.lookup(path, index + 1)
                        break
                    index -= count
            check('version', facts(union.lookup(path, number)), facts(want))
        check('exists', bool(union.exists(path)), winner is not None)
    if got is not None and not root and winner is not None:
        check('xattrs', {k: union.get_xattr(got, k) for k in union.list_xattr(got)},
              {k: alone[having[-1]].get_xattr(winner, k) for k in alone[having[-1]].list_xattr(winner)})
        check('no-xattr', union.get_xattr(got, 'user.none'), None)
        if kinds[-1] == 'file' and stat.S_ISREG(got.mode):
            data = view.read_all(alone[having[-1]], winner)
            ctx.count('contents_compared')
            check('content', view.read_all(union, got), data)
            start = rng.randrange(len(data) + 2)
            check('read', union.read(got, 10, start), data[start:start + 10])
            _, source, info = union.get_mount_source(got)
            check('get_mount_source', view.read_all(source, info), data)
    # Listings
    if winner is not None and stat.S_ISDIR(winner.mode) or root:
        folders = [source for source, info in zip(alone, infos) if info is not None and stat.S_ISDIR(info.mode)]
        want = {}
        for source in folders:
            for name in source.list(path) or ():
                want[name] = None
        for name in want:
            child = view.join(path, name)
            for source in folders:
                info = source.lookup(child)
                want[name] = info if info is not None else want[name]
        listing, modes = union.list(path), union.list_mode(path)
        check('list', sorted(listing if listing is not None else ()), sorted(want))
        check('list-mode', sorted(modes if modes is not None else ()), sorted(want))
        for name, info in want.items():
            child = f"{path} / {name}"
            if isinstance(listing, dict) and name in listing and info is not None:
                ctx.count('queries')
                ctx.equal(facts(listing[name]), facts(info), f"{tag}:list-info", child)
                if stat.S_ISREG(info.mode) and stat.S_ISREG(listing[name].mode):
                    ctx.equal(view.read_all(union, listing[name]), view.read_all(union, union.lookup(view.join(path, name))),
                              f"{tag}:list-info:content", child)
            if isinstance(modes, dict) and name in modes and info is not None:
                ctx.count('queries')
                ctx.equal(stat.S_IFMT(modes[name]), stat.S_IFMT(info.mode), f"{tag}:list-mode-info", child)
    else:
        check('list-non-folder', (union.list(path), union.list_mode(path)), (None, None))


def reachable(paths, alone, nested):
    """Paths all of whose parents are folders in the union.

    Something else than a folder inside an inner union hides the entries of folders to its left, in a flat union it does not.
    """
    result = []
    for path in paths:
        for parent in targen.parents(path):
            infos = [info for info in (source.lookup(parent) for source in alone) if info is not None]
            if infos and not all(stat.S_ISDIR(info.mode) for info in (infos if nested else infos[-1:])):
                break
        else:
            result.append(path)
    return result


def all_paths(alone):
    paths = {'/'}
    for source in alone:
        paths |= {path for path, _ in view.walk(source)}
    return paths


def make_union(sources, rng):
    from ratarmountcore.mountsource.compositing.union import UnionMountSource

    options = {}
    if rng.random() < 0.7:
        options['maxCacheDepth'] = rng.choice([0, 1, 2, 3, 4, 1024])
    if rng.random() < 0.6:
        options['maxCacheEntries'] = rng.choice([0, 1, 2, 5, 10, 100])
    if rng.random() < 0.3:
        options['maxSecondsToCache'] = rng.choice([0, -1, 1e-4, 100])
    return UnionMountSource(sources, **options), options


def case(ctx, scenario, i, rng):
    from ratarmountcore.mountsource.compositing.union import UnionMountSource

    count = rng.randrange(1, 6)
    kinds = ('tar', 'tar', 'zip', 'folder') if scenario == 'mixed' else ('tar', 'zip', 'folder', 'folder', 'folder')
    specs = [write_source(ctx, rng, k + 1, kinds) for k in range(count)]
    sources, alone = [spec[2]() for spec in specs], [spec[2]() for spec in specs]
    members = list(sources)
    if count >= 3 and rng.random() < 0.3:  # A union inside the union, next to one that caches nothing
        cut = rng.randrange(1, count - 1)
        members = members[:cut - 1] + [make_union(members[cut - 1:cut + 1], rng)[0]] + members[cut + 1:]
        alone = alone[:cut - 1] + [UnionMountSource(alone[cut - 1:cut + 1], maxCacheDepth=0)] + alone[cut + 1:]
    union, options = make_union(members, rng)
    ctx.about = f"{[spec[0] for spec in specs]} {options} {len(members)} members"
    ctx.sample({'sources': [spec[0] for spec in specs], 'options': options})
    try:
        for step in range(4 if scenario == 'live' else 1):
            paths = all_paths(alone)
            for path in list(paths):
                if rng.random() < 0.3:
                    paths.add(view.join(path, rng.choice(['none', 'a', 'a/b', 'b/c/ä', '.versions'])))
            order = sorted(reachable(paths, alone, len(members) < count))
            rng.shuffle(order)
            for path in order:
                compare(ctx, union, alone, path, rng, scenario)
            folders = [spec[3] for spec in specs if spec[3]]
            if scenario == 'live' and folders:
                for _ in range(rng.randrange(1, 4)):
                    change(rng, rng.choice(folders), step)
                    ctx.count('changes')
    finally:
        for source in sources + alone:
            indexwork.close(source)


def change(rng, folder, step):
    """Changes a folder that is being shown."""
    here = sorted(os.path.join(top, name) for top, dirs, names in os.walk(folder) for name in dirs + names)
    if here and rng.random() < 0.4:
        victim = rng.choice(here)
        if os.path.isdir(victim) and not os.path.islink(victim):
            shutil.rmtree(victim)
        else:
            os.unlink(victim)
        return
    top = rng.choice([folder] + [p for p in here if os.path.isdir(p) and not os.path.islink(p)])
    new = os.path.join(top, rng.choice(NAMES + ['new']))
    if os.path.lexists(new):
        return
    if rng.random() < 0.5:
        os.makedirs(os.path.join(new, rng.choice(NAMES)))
    else:
        gen.write(new, b'changed %d' % step)
