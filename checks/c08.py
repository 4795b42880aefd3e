"""C08: every version of a repeated path against the sequence of members that was written."""

import io
import os
import stat
import warnings
import zipfile

from rv import gen, indexwork, targen, tarwork, view, zoo
from rv.core import HarnessError

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = (
    'A case writes an archive repeating paths as files, folders and links (or any archive of each format, without repeats) and '
    'asks for every version number from below -n to above n of every path, and for hundreds of real, derived and malformed '
    'paths through the versions folders; each answer (metadata, content, listing) is compared with the member written. '
    'distinct: (scenario, query class, number of versions, outcome).'
)
MINIMUM = {'versions_compared': 3000, 'special_paths': 8000, 'missing_answers': 2500, 'contents_compared': 2000}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.versioning']

NAMES = ['a', 'b', 'c.txt', 'a.versions', 'b.versions', 'a.versions.versions', '1', '2', '.versions', '..versions', 'x.versions.txt', 'ä']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('tar', 60 * k, 5), ('hardlinks', 16 * k, 4), ('zip', 16 * k, 4), ('formats', len(zoo.FORMATS) * (1 if tier == 'quick' else 6), 3)]


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario](ctx, i, rng)


class Version:
    def __init__(self, kind, data=b'', link='', mtime=None, mode=None, uid=None, gid=None):
        self.kind, self.data, self.link, self.mtime, self.mode, self.uid, self.gid = kind, data, link, mtime, mode, uid, gid


def from_member(member):
    return Version(member.kind, member.data, member.linkname, member.mtime, member.mode, member.uid, member.gid)


def matches(ctx, ms, info, version, key, what):
    if info is None:
        ctx.fail(f"{key}:missing", f"{what} is missing")
        return
    ctx.count('versions_compared')
    if not ctx.equal(view.kind_of(info.mode), version.kind, f"{key}:kind", what):
        return
    if version.mtime is not None:
        ctx.equal((info.mtime, stat.S_IMODE(info.mode), info.uid, info.gid),
                  (version.mtime, version.mode, version.uid, version.gid), f"{key}:metadata", what)
    if version.kind == 'sym':
        ctx.equal(info.linkname, version.link, f"{key}:link", what)
    if version.kind == 'file':
        ctx.equal(info.size, len(version.data), f"{key}:size", what)
        data = view.read_all(ms, info)
        ctx.count('contents_compared')
        ctx.check_that(data == version.data, f"{key}:content", lambda: f"{what}: {data[:60]} instead of {version.data[:60]}")


def check_numbers(ctx, ms, path, versions, key):
    """All version numbers of one path of the plain source."""
    n = len(versions)
    ctx.equal(ms.versions(path), n, f"{key}:count", f"versions of {path!r}")
    for k in range(-n - 2, n + 3):
        info = ms.lookup(path, k)
        index = k - 1 if k > 0 else n - 1 + k
        ctx.distinct(key, 'number', n, k)
        if 0 <= index < n and (k <= n):
            matches(ctx, ms, info, versions[index], f"{key}:number", f"version {k} of {n} of {path!r}")
        else:
            ctx.count('missing_answers')
            ctx.check_that(info is None, f"{key}:number:exists", lambda: f"version {k} of {path!r} with {n} versions exists: {info}")


class Model:
    """What paths mean when looking through the layer. tree: path -> list of Version, oldest first."""

    def __init__(self, tree):
        self.tree = tree
        self.children = {'/': set()}
        for path in tree:
            folder, name = path.rsplit('/', 1)
            self.children.setdefault(folder or '/', set()).add(name)

    def real(self, path):
        return path == '/' or path in self.tree

    def resolve(self, path):
        """None, ('real', path, number) or ('folder', path): the list of versions."""
        current, number, special = '/', None, False
        parts = [p for p in path.split('/') if p]
        for k, part in enumerate(parts):
            if special:
                n = len(self.tree[current])
                if not (part.isascii() and part.isdigit() and str(int(part)) == part and 1 <= int(part) <= n):
                    return None
                number, special = int(part), False
                continue
            if number is not None:  # Only folders have something below.
                if self.tree[current][number - 1].kind != 'dir':
                    return None
                number = None
            child = view.join(current, part)
            if self.real(child):
                current = child
            elif part.endswith('.versions') and len(part) > len('.versions') and child[:-len('.versions')] in self.tree:
                current, special = child[:-len('.versions')], True
            else:
                return None
        return ('folder', current) if special else ('real', current, number)


def check_layer(ctx, ms, tree, rng, key, count=150):
    model = Model(tree)
    paths = sorted(tree)
    queries = [p for p in paths] + [p + '.versions' for p in paths]
    numbers = ['00', '01', '+1', ' 1', '1 ', 'x', '1.versions', '1.0', '99', '1_0', '²', '١', '2.versions', 'a']
    for path in paths:
        for number in range(1, len(tree[path]) + 2):
            queries.append(f"{path}.versions/{number}")
    while len(queries) < count + 3 * len(paths):
        path = rng.choice(paths)
        parts = path.lstrip('/').split('/')
        for k in range(len(parts)):
            if rng.random() < 0.5:
                prefix = '/' + '/'.join(parts[:k + 1])
                n = len(tree.get(prefix, ()))
                parts[k] += '.versions/' + (rng.choice(numbers) if rng.random() < 0.2 else str(rng.randrange(1, n + 2)))
        query = '/' + '/'.join(parts)
        if rng.random() < 0.3:
            query += rng.choice(['.versions', '.versions/1', '/1', '/.versions', '/nothing', '.version', '.versionss', '.versions.versions', '.versions/x'])
        if rng.random() < 0.1:
            query = '/' + rng.choice(['missing', 'missing.versions', 'missing.versions/1', '.versions', '.versions/1', 'no/such.versions/1',
                                      'no.versions/1/such', 'missing.versions.versions'])
        queries.append(query)
    for query in queries:
        want = model.resolve(query)
        ctx.count('special_paths')
        what = f"{query!r} with {[(p, len(v)) for p, v in tree.items()][:8]}"
        info = ms.lookup(query)
        names = ms.list(query) if want is None or want[0] == 'folder' or tree.get(want[1], [Version('dir')])[(want[2] or 0) - 1].kind == 'dir' else ()
        modes = ms.list_mode(query) if names != () else ()
        ctx.distinct(key, 'layer', 'none' if want is None else want[0], query.count('.versions'), query.count('/'))
        if want is None:
            ctx.count('missing_answers')
            ctx.check_that(info is None, f"{key}:layer:exists", lambda: f"{what} exists: {info}")
            ctx.check_that(names is None and modes is None, f"{key}:layer:missing-listed", lambda: f"{what} is missing but lists {names}, {modes}")
            continue
        if want[0] == 'folder':
            if ctx.check_that(info is not None and stat.S_ISDIR(info.mode), f"{key}:layer:versions-folder", lambda: f"{what}: {info}"):
                ctx.equal(sorted(names or ()), sorted(str(k + 1) for k in range(len(tree[want[1]]))), f"{key}:layer:versions-list", what)
                ctx.equal(sorted(modes or ()), sorted(str(k + 1) for k in range(len(tree[want[1]]))), f"{key}:layer:versions-list-mode", what)
                ctx.equal(ms.list_xattr(info), [], f"{key}:layer:versions-xattr", what)
            continue
        if want[1] == '/':
            continue
        versions = tree[want[1]]
        version = versions[(want[2] or len(versions)) - 1]
        matches(ctx, ms, info, version, f"{key}:layer:{'number' if want[2] else 'plain'}", what)
        if version.kind == 'dir':
            ctx.equal(sorted(names or ()), sorted(model.children.get(want[1], ())), f"{key}:layer:listing", what)


def layered(ms):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    return FileVersionLayer(ms)


def random_sequence(rng):
    """Members and the tree path -> versions. Folders are never replaced by anything else."""
    folders, files = [''], []
    for _ in range(rng.randrange(0, 4)):
        path = rng.choice(folders) + '/' + rng.choice(NAMES)
        if path not in folders:
            folders.append(path)
    for _ in range(rng.randrange(2, 8)):
        path = rng.choice(folders) + '/' + rng.choice(NAMES)
        if path not in folders and path not in files:
            files.append(path)
    members, tree, made = [], {}, set()
    explicit = {f for f in folders[1:] if rng.random() < 0.6}
    for number in range(rng.randrange(4, 40)):
        if rng.random() < 0.25 and explicit:
            path, kind = rng.choice(sorted(explicit)), 'dir'
            made.add(path)
        else:
            if not files:
                continue
            path, kind = rng.choice(files), rng.choice(['file', 'file', 'file', 'sym', 'fifo'])
        fmt = rng.choice(['ustar', 'gnu', 'pax'])
        member = targen.Member(kind, tarwork.spell(rng, path) if rng.random() < 0.3 else path.lstrip('/'), fmt=fmt,
                               data=b'%d ' % number * rng.randrange(0, 300) if kind == 'file' else b'',
                               linkname=f"to{number}" if kind == 'sym' else '', mode=rng.choice([0o644, 0o600, 0o755, 0o700]),
                               mtime=1000 + number, uid=number, gid=2 * number)
        if targen.normalize(member.name) != path:
            raise HarnessError(f"{member.name!r} is not {path!r}")
        members.append(member)
        tree.setdefault(path, []).append(from_member(member))
        for parent in targen.parents(path):
            if parent not in tree:
                tree[parent] = []
    for path, versions in tree.items():
        if not versions:
            tree[path] = [Version('dir')]
    return members, tree


def case_tar(ctx, i, rng):
    members, tree = random_sequence(rng)
    if not members:
        return
    ctx.about = repr([(m.kind, m.name) for m in members])[:1500]
    compression = rng.choice(['', '', 'gz', 'bz2', 'xz', 'zst'])
    folder = ctx.mkdir('tar')
    path = os.path.join(folder, 'versions.tar' + ('.' + compression if compression else ''))
    data = targen.build(members)
    gen.write(path, gen.compress(compression, data, rng) if compression else data)
    stored = rng.random() < 0.4
    options = dict(writeIndex=True, indexFilePath=os.path.join(folder, 'i.sqlite'), indexMinimumFileCount=0) if stored else {}
    if stored:
        indexwork.close(indexwork.open_source(path, **options))
    ms = indexwork.open_source(path, **options)
    try:
        ctx.sample({'members': len(members), 'paths': {p: len(v) for p, v in tree.items()}})
        for one, versions in tree.items():
            check_numbers(ctx, ms, one, versions, 'tar')
        for missing in ('/missing', '/a.versions/7', '/missing/x', '/a/missing'):
            if missing not in tree:
                check_numbers(ctx, ms, missing, [], 'tar:missing')
        check_layer(ctx, layered(ms), tree, rng, 'tar')
    finally:
        indexwork.close(ms)


def case_hardlinks(ctx, i, rng):
    """Versions that are hard links show the file they are linked to."""
    targets = {f"/t{k}": Version('file', rng.randbytes(rng.randrange(1, 3000)), '', 50 + k, 0o640, k, k) for k in range(3)}
    members = [targen.Member('file', p.lstrip('/'), data=v.data, mtime=v.mtime, mode=v.mode, uid=v.uid, gid=v.gid, fmt='gnu') for p, v in targets.items()]
    tree = {p: [v] for p, v in targets.items()}
    for number in range(rng.randrange(3, 12)):
        path = rng.choice(['/a', '/d/b'])
        if '/d' not in tree and path.startswith('/d/'):
            tree['/d'] = [Version('dir')]
        if rng.random() < 0.5:
            target = rng.choice(sorted(targets))
            members.append(targen.Member('hard', path.lstrip('/'), linkname=target.lstrip('/'), mtime=1, fmt='gnu'))
            tree.setdefault(path, []).append(targets[target])
        else:
            member = targen.Member('file', path.lstrip('/'), data=b'x%d' % number, mtime=100 + number, mode=0o600, uid=1, gid=1, fmt='gnu')
            members.append(member)
            tree.setdefault(path, []).append(from_member(member))
    path = os.path.join(ctx.mkdir('tar'), 'hard.tar')
    gen.write(path, targen.build(members))
    ctx.about = repr([(m.kind, m.name, m.linkname) for m in members])[:1500]
    ms = indexwork.open_source(path)
    try:
        for one, versions in tree.items():
            ctx.equal(ms.versions(one), len(versions), 'hardlinks:count', one)
        check_layer(ctx, layered(ms), tree, rng, 'hardlinks', 60)
    finally:
        indexwork.close(ms)


def case_zip(ctx, i, rng):
    """ZIP archives may repeat names, too."""
    tree = {}
    buffer = io.BytesIO()
    with zipfile.ZipFile(buffer, 'w') as archive, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for number in range(rng.randrange(2, 20)):
            path = rng.choice(['/a', '/b', '/d/c', '/d/c.versions', '/a.versions'])
            data = b'%d ' % number * rng.randrange(0, 200)
            archive.writestr(zipfile.ZipInfo(path.lstrip('/'), (2000, 1, 1, 0, 0, number)), data, rng.choice([0, 8]))
            if path.startswith('/d/'):
                tree.setdefault('/d', [Version('dir')])
            tree.setdefault(path, []).append(Version('file', data))
    path = os.path.join(ctx.mkdir('zip'), 'versions.zip')
    gen.write(path, buffer.getvalue())
    ctx.about = repr({p: len(v) for p, v in tree.items()})
    ms = indexwork.open_source(path)
    try:
        for one, versions in tree.items():
            check_numbers(ctx, ms, one, versions, 'zip')
        check_layer(ctx, layered(ms), tree, rng, 'zip', 80)
    finally:
        indexwork.close(ms)


def case_formats(ctx, i, rng):
    """Sources of every format without repeats: exactly one version each."""
    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir('zoo'))
    ctx.about = f"{fmt} {sorted(source.tree)[:10]}"
    ms = indexwork.open_source(source.path, **source.options)
    tree = {}
    try:
        for path, node in source.tree.items():
            tree[path] = [Version(node.kind, node.data, node.link)]
            if node.kind == 'sym' and 'link' not in source.fields:
                tree[path][0].link = ms.lookup(path).linkname
        for path, versions in tree.items():
            check_numbers(ctx, ms, path, versions, f"formats:{fmt}")
        check_numbers(ctx, ms, '/certainly missing', [], f"formats:{fmt}:missing")
        check_layer(ctx, layered(ms), tree, rng, f"formats:{fmt}", 40)
    finally:
        indexwork.close(ms)
