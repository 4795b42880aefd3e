"""C11: composed mounts route every path to exactly the right source."""

import contextlib
import io
import os
import posixpath
import random
import stat
import time

from checks import c12
from rv import fusework, gen, targen, view, zoo

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = (
    'A case opens 1 to 6 sources of random formats twice, once inside a subvolume, prefix, or single-file composition (also '
    'of each other, and as the command line tool composes them) and once alone, and compares listing, modes, lookup, versions, '
    'content, partial reads, extended attributes, and the innermost source of every path; between mount and unmount operations '
    'at random, also unusable, places, the whole composition is compared with a dictionary model of what is mounted where; '
    'distinct: (composition, mount points, operations).'
)
MINIMUM = {'paths_compared': 2500, 'operations': 350, 'refused': 60, 'contents': 800, 'prefix_paths': 300, 'single_files': 40,
           'nested_mounts': 50}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmountcore.mountsource.compositing.subvolumes', 'ratarmount.FuseMount']

FORMATS = ['tar', 'tar.gz', 'zip', 'ar', 'sqlar', 'squashfs', 'asar', 'folder', 'single.bz2', 'rar', '7z', 'html']
NAMES = ['a', 'b', 'c', 'a.tar', 'Ä', 'x y', '.hidden', '...', 'a.1', 'b\n', '%s', 'mnt']
FIELDS = ('size', 'mtime', 'mode', 'linkname', 'uid', 'gid')


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('subvolumes', 90 * k, 4), ('prefix', 70 * k, 5), ('single', 40 * k, 5), ('mount', 60 * k, 4)]


def versions_tar(rng, folder):
    members = []
    for k in range(rng.randrange(1, 9)):
        members.append(targen.Member('file', rng.choice(['f', 'g', 'd/f', 'd/e/h']), data=gen.blob(rng, rng.choice([0, 5, 2000])),
                                     xattrs={'user.tag': str(k).encode()} if rng.random() < 0.5 else {}, fmt='pax'))
    return gen.write(os.path.join(folder, 'versions.tar'), targen.build(members))


class Inner:
    """A source twice: to be put into compositions and to compare with."""

    def __init__(self, ctx, rng, formats=FORMATS):
        from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
        from ratarmountcore.mountsource.factory import open_mount_source

        fmt = rng.choice(formats + ['versions', 'versions'])
        options = {'indexFilePath': ':memory:'}
        if fmt == 'versions':
            path = versions_tar(rng, ctx.mkdir('source'))
        else:
            source = zoo.make(fmt, rng, ctx.mkdir('source'))
            path, options = source.path, {**source.options, **options}
        self.fmt, self.path = fmt, path
        with contextlib.redirect_stdout(io.StringIO()):
            self.ms, self.alone = (open_mount_source(path, **options) for _ in range(2))
        if rng.random() < 0.4:
            self.ms, self.alone = FileVersionLayer(self.ms), FileVersionLayer(self.alone)
            self.fmt += '+versions'
        self.entries = [('/', self.alone.lookup('/'))] + list(view.walk(self.alone))


def fields(info):
    if info is None:
        return None
    result = {name: getattr(info, name) for name in FIELDS}
    if result['mtime'] > time.time() - 3600:
        result['mtime'] = 'now'  # generated
    return result


def fields_but_root(info, path):
    result = fields(info)
    if path == '/' and result:
        result.pop('mtime')  # generated when opening the source
    return result


def modes(listing):
    return None if listing is None else ({name: mode for name, mode in listing.items()} if isinstance(listing, dict) else sorted(listing))


def compare_source(ctx, rng, outer, inner, top, tag, limit=None):
    """Everything below top must be as in the source alone."""
    entries = inner.entries if limit is None or len(inner.entries) <= limit else rng.sample(inner.entries, limit)
    for path, info in entries:
        full = top + path if path != '/' else top or '/'
        where = f"{ctx.about} {inner.fmt} {path!r} as {full!r}"
        got = outer.lookup(full)
        ctx.equal(fields_but_root(got, path), fields_but_root(info, path), f"{tag}:lookup", where)
        if got is None:
            continue
        ctx.count('paths_compared')
        ctx.equal(outer.versions(full), inner.alone.versions(path), f"{tag}:versions", where)
        ctx.check_that(outer.exists(full), f"{tag}:exists", where)
        ctx.equal(outer.is_dir(full), inner.alone.is_dir(path), f"{tag}:is_dir", where)
        # The version layer only knows the newest version and shows others in folders.
        for version in () if inner.fmt.endswith('+versions') else range(-1, inner.alone.versions(path) + 2):
            if version != 0 and path != '/':
                ctx.equal(fields(outer.lookup(full, version)), fields(inner.alone.lookup(path, version)), f"{tag}:version", f"{where} version {version}")
        if stat.S_ISDIR(info.mode):
            for name, function, expected in (
                ('list', outer.list(full), inner.alone.list(path)), ('list_mode', outer.list_mode(full), inner.alone.list_mode(path))
            ):
                ctx.equal(sorted(function or []), sorted(expected or []), f"{tag}:{name}", where)
                if name == 'list_mode' and isinstance(function, dict) and isinstance(expected, dict):
                    ctx.equal(function, expected, f"{tag}:modes", where)
                if name == 'list' and isinstance(function, dict) and isinstance(expected, dict):
                    ctx.equal({k: fields(v) for k, v in function.items()}, {k: fields(v) for k, v in expected.items()}, f"{tag}:infos", where)
        ctx.equal(sorted(outer.list_xattr(got)), sorted(inner.alone.list_xattr(info)), f"{tag}:xattrs", where)
        for key in inner.alone.list_xattr(info):
            ctx.equal(outer.get_xattr(got, key), inner.alone.get_xattr(info, key), f"{tag}:xattr", where)
        ctx.equal(outer.get_xattr(got, 'user.none'), None, f"{tag}:no-xattr", where)
        if stat.S_ISREG(info.mode) and not info.linkname:
            expected = view.read_all(inner.alone, info)
            with ctx.guard(f"{tag}:open", where):
                ctx.equal(view.read_all(outer, got), expected, f"{tag}:content", where)
                offset, size = rng.randrange(len(expected) + 1), rng.randrange(2000)
                ctx.equal(outer.read(got, size, offset), expected[offset: offset + size], f"{tag}:read", where)
            ctx.count('contents')
        with ctx.guard(f"{tag}:get_mount_source", where):
            _, deepest, deepestInfo = outer.get_mount_source(got)
            _, deepestAlone, deepestInfoAlone = inner.alone.get_mount_source(info)
            ctx.equal(type(deepest).__name__, type(deepestAlone).__name__, f"{tag}:innermost", where)
            ctx.equal(fields_but_root(deepestInfo, path), fields_but_root(deepestInfoAlone, path), f"{tag}:innermost-info", where)
        ctx.equal(fields_but_root(outer.lookup(full), path), fields_but_root(info, path), f"{tag}:lookup-again", where)
    for path in ['/missing', '/missing/x', rng.choice(inner.entries)[0].rstrip('/') + '/missing']:
        if inner.alone.lookup(path) is None:
            ctx.equal(outer.lookup(top + path), None, f"{tag}:missing", ctx.about)
            ctx.equal(outer.versions(top + path), 0, f"{tag}:missing-versions", ctx.about)
            ctx.check_that(not outer.list(top + path), f"{tag}:missing-list", ctx.about)
            ctx.check_that(not outer.exists(top + path), f"{tag}:missing-exists", ctx.about)


def parts_of(path):
    return tuple(part for part in posixpath.normpath('/' + path).split('/') if part)


def spell(rng, parts):
    if rng.random() < 0.5:
        return '/'.join(parts)
    result = ''
    for part in parts:
        result += rng.choice(['/', '/', '//', '/./', '/zz/../'])
        result += part
    return rng.choice(['', '', '/..', '/../..']) + result + rng.choice(['', '', '/'])


def compare_structure(ctx, ms, model, tag):
    """The folders above the mount points, as nested sets of names."""
    folders = {(): set()}
    for parts in model:
        for k in range(len(parts)):
            folders.setdefault(parts[:k], set()).add(parts[k])
    for parts, names in folders.items():
        path = '/' + '/'.join(parts)
        for spelling in {path, path + '/'}:
            ctx.equal(sorted(ms.list(spelling) or []), sorted(names), f"{tag}:folder", f"{ctx.about} {spelling!r}")
        ctx.equal(sorted(ms.list_mode(path) or []), sorted(names), f"{tag}:folder-modes", f"{ctx.about} {path!r}")
        info = ms.lookup(path)
        ctx.check_that(info is not None and stat.S_ISDIR(info.mode), f"{tag}:folder-info", f"{ctx.about} {path!r}: {info}")
        ctx.equal(ms.versions(path), 1, f"{tag}:folder-versions", f"{ctx.about} {path!r}")
        if info is not None:
            ctx.equal(list(ms.list_xattr(info)), [], f"{tag}:folder-xattrs", ctx.about)
            ctx.equal(ms.get_xattr(info, 'user.x'), None, f"{tag}:folder-xattr", ctx.about)
        for name in NAMES + ['zz']:
            if name not in names:
                ctx.equal(ms.lookup(path.rstrip('/') + '/' + name), None, f"{tag}:unmounted", f"{ctx.about} {path!r} {name!r}")
                ctx.check_that(not ms.list(path.rstrip('/') + '/' + name), f"{tag}:unmounted-list", f"{ctx.about} {path!r} {name!r}")


def case_subvolumes(ctx, i, rng):
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource

    inners = [Inner(ctx, rng) for _ in range(rng.randrange(1, 5))]
    model = {}
    initial = {}
    if rng.random() < 0.5:
        for inner in inners[: rng.randrange(len(inners)) + 1]:
            parts = tuple(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3])))
            if not any(parts[: len(p)] == p or p[: len(parts)] == parts for p in model):
                model[parts] = inner
                initial['/'.join(parts)] = inner.ms
    ms = SubvolumesMountSource(initial)
    history = [sorted(initial)]
    for step in range(rng.randrange(3, 16)):
        ctx.about = f"{history[-6:]}"
        what = rng.random()
        used = [inner for inner in model.values()]
        free = [inner for inner in inners if inner not in used]
        if what < 0.5 and (free or what < 0.15):
            base = list(rng.choice(list(model))) if model and rng.random() < 0.6 else []
            base = base[: rng.randrange(len(base) + 1)]
            parts = tuple(base + [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
            path = spell(rng, parts)
            history.append(('mount', path))
            inside = any(parts[: len(p)] == p and len(p) < len(parts) for p in model)
            taken = any(p[: len(parts)] == parts for p in model)
            usable = bool(parts) and not inside and not taken
            ctx.about = f"{history[-6:]}"
            ctx.equal(ms.is_mountable(path), usable, 'subvolumes:mountable', f"{ctx.about} with {sorted(model)}")
            compare_structure(ctx, ms, model, 'subvolumes:mountable')
            if not free and usable:
                continue
            inner = rng.choice(free or inners)
            try:
                good = bool(ms.mount(path, inner.ms))
            except Exception as exception:
                good = False
                if usable:
                    ctx.fail('subvolumes:refused', f"{ctx.about} with {sorted(model)}: {exception!r}")
            ctx.equal(good, usable, 'subvolumes:mount', f"{ctx.about} with {sorted(model)}")
            if usable:
                model[parts] = inner
                ctx.count('nested_mounts', int(len(parts) > 1))
            else:
                ctx.count('refused')
        else:
            if model and rng.random() < 0.7:
                parts = rng.choice(list(model))
                if rng.random() < 0.2:
                    parts = parts[:-1]
                elif rng.random() < 0.15:
                    parts += (rng.choice(NAMES),)
            else:
                parts = tuple(rng.choice(NAMES) for _ in range(rng.randrange(3)))
            path = spell(rng, parts)
            history.append(('unmount', path))
            ctx.about = f"{history[-6:]}"
            removed = ms.unmount(path)
            expected = model.pop(parts, None)
            ctx.check_that(removed is (expected.ms if expected else None), 'subvolumes:unmount', f"{ctx.about}: {removed}")
            ctx.count('refused', int(expected is None))
        ctx.count('operations')
        compare_structure(ctx, ms, model, 'subvolumes')
        for parts, inner in model.items():
            compare_source(ctx, rng, ms, inner, '/' + '/'.join(parts), 'subvolumes', limit=4)
    ctx.distinct('subvolumes', str(history))
    ctx.about = f"{history[-6:]}"
    for parts, inner in model.items():
        compare_source(ctx, rng, ms, inner, '/' + '/'.join(parts), 'subvolumes')
    if hasattr(ms, 'join_threads'):
        with ctx.guard('subvolumes:join_threads', ctx.about):
            ms.join_threads()
    closed = []

    def recorded(source):
        original = source.__exit__

        class Recording(type(source)):
            def __exit__(self, *arguments):
                closed.append(self)
                return original(*arguments)

        source.__class__ = Recording

    for inner in inners:
        recorded(inner.ms)
    ms.__exit__(None, None, None)
    ctx.equal(sorted(map(id, closed)), sorted(id(inner.ms) for inner in model.values()), 'subvolumes:closed', f"{ctx.about} with {sorted(model)}")
    for inner in inners:
        if inner not in model.values():
            inner.ms.__exit__(None, None, None)
        inner.alone.__exit__(None, None, None)


def case_prefix(ctx, i, rng):
    """The source appears below the prefix; compositions can be stacked."""
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource

    inner = Inner(ctx, rng)
    ms, top = inner.ms, ''
    layers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
        kind = rng.choice(['prefix', 'prefix', 'subvolumes'])
        if kind == 'prefix':
            ms = RemovePrefixMountSource(rng.choice(['', '/', '//']) + '/'.join(parts) + rng.choice(['', '/']), ms)
        else:
            ms = SubvolumesMountSource({'/'.join(parts): ms})
        top = '/' + '/'.join(parts) + top
        layers.append((kind, parts))
    ctx.about = f"{layers}"
    ctx.distinct('prefix', str(layers), inner.fmt)
    folder = '/'
    for name in top[1:].split('/'):
        ctx.equal(sorted(ms.list(folder) or []), [name], 'prefix:folder', f"{ctx.about} {folder!r}")
        ctx.equal(sorted(ms.list_mode(folder) or []), [name], 'prefix:folder-modes', f"{ctx.about} {folder!r}")
        info = ms.lookup(folder)
        ctx.check_that(info is not None and stat.S_ISDIR(info.mode), 'prefix:folder-info', f"{ctx.about} {folder!r}: {info}")
        ctx.equal(ms.versions(folder), 1, 'prefix:folder-versions', f"{ctx.about} {folder!r}")
        for other in (name + 'x', name[:-1], 'zz'):
            if other and other != name:
                ctx.equal(ms.lookup(view.join(folder, other)), None, 'prefix:other', f"{ctx.about} {folder!r} {other!r}")
                ctx.check_that(not ms.list(view.join(folder, other)), 'prefix:other-list', f"{ctx.about} {folder!r} {other!r}")
        folder = view.join(folder, name)
    compare_source(ctx, rng, ms, inner, top, 'prefix')
    ctx.count('prefix_paths', len(inner.entries))
    ms.__exit__(None, None, None)
    inner.alone.__exit__(None, None, None)


def case_single(ctx, i, rng):
    from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource

    files = {}
    for name in rng.sample(NAMES, rng.randrange(1, 5)):
        files[name] = gen.blob(rng, gen.size(rng, 20000))
    kind = rng.choice(['alone', 'subvolumes', 'union'])
    if kind == 'alone':
        files = dict(list(files.items())[:1])
    ctx.about = f"{kind} of {[(name, len(data)) for name, data in files.items()]}"
    ctx.distinct('single', kind, str(files))
    singles = {}
    for name, data in files.items():
        way = rng.choice(['memory', 'file', 'opener'])
        if way == 'memory':
            what = io.BytesIO(data)
        else:
            path = gen.write(os.path.join(ctx.mkdir('f'), 'x'), data)
            what = open(path, 'rb', buffering=rng.choice([0, -1])) if way == 'file' else lambda buffering, path=path: open(path, 'rb')
        singles[name] = SingleFileMountSource(rng.choice(['', '/', '//']) + name, what)
        for wrong in ('', '/', 'a/b', '/a/b'):
            try:
                SingleFileMountSource(wrong, io.BytesIO(b''))
            except ValueError:
                continue
            ctx.fail('single:path', f"a single file at {wrong!r} was accepted")
    if kind == 'alone':
        ms = next(iter(singles.values()))
        places = {'/' + name: data for name, data in files.items()}
    elif kind == 'union':
        ms = UnionMountSource(list(singles.values()))
        places = {'/' + name: data for name, data in files.items()}
    else:
        ms = SubvolumesMountSource({f"in/{k}": single for k, single in enumerate(singles.values())})
        places = {f"/in/{k}/{name}": data for k, (name, data) in enumerate(files.items())}
    folders = {posixpath.dirname(path) for path in places}
    for folder in folders:
        ctx.equal(sorted(ms.list(folder)), sorted(path.rsplit('/', 1)[1] for path in places if posixpath.dirname(path) == folder), 'single:list', ctx.about)
        ctx.check_that(stat.S_ISDIR(ms.lookup(folder).mode), 'single:folder', ctx.about)
    opened = []
    for path, data in places.items():
        where = f"{ctx.about} {path!r}"
        ctx.count('single_files')
        info = ms.lookup(path)
        ctx.check_that(info is not None and stat.S_ISREG(info.mode), 'single:kind', where)
        ctx.equal(info.size, len(data), 'single:size', where)
        ctx.equal(ms.versions(path), 1, 'single:versions', where)
        ctx.equal(ms.lookup(path, 1) is not None, True, 'single:version1', where)
        ctx.equal(ms.lookup(path, 2), None, 'single:version2', where)
        ctx.check_that(not ms.list(path), 'single:list-file', where)
        for wrong in (path + 'x', path + '/x', path[:-1] + '/x'):
            if wrong.rstrip('/') not in places:
                ctx.equal(ms.lookup(wrong), None, 'single:missing', f"{where} {wrong!r}")
        ctx.equal(view.read_all(ms, info), data, 'single:content', where)
        opened += [[ms.open(ms.lookup(path), buffering=rng.choice([-1, 0, 4096])), data, 0, path] for _ in range(2)]
    # Several readers, each with its own position, which outlive neither each other nor later opens
    for _ in range(40):
        entry = rng.choice(opened)
        file, data, position, path = entry
        if rng.random() < 0.3:
            entry[2] = position = rng.randrange(len(data) + 1)
            file.seek(position)
        size = rng.randrange(300)
        got = file.read(size)
        ctx.check_that(got == data[position: position + len(got)] and (len(got) == size or position + len(got) == len(data) or got),
                       'single:readers', f"{ctx.about} {path!r} at {position}: {got[:20]!r}")
        entry[2] = position + len(got)
    for file, *_ in opened:
        file.close()
    for path, data in places.items():
        ctx.equal(view.read_all(ms, ms.lookup(path)), data, 'single:after-close', f"{ctx.about} {path!r}")
    ms.__exit__(None, None, None)


def case_mount(ctx, i, rng):
    """Several inputs as subfolders through the FUSE layer."""
    count = rng.randrange(2, 6)
    paths, inners = [], []
    for k in range(count):
        inner = Inner(ctx, rng, ['tar', 'zip', 'folder', 'ar', 'squashfs'])
        name = os.path.basename(inner.path)
        if rng.random() < 0.4 and inner.fmt.split('+')[0] != 'folder':  # more equal names
            target = os.path.join(ctx.mkdir('same'), rng.choice(['same', 'same.1', 'x']))
            os.rename(inner.path, target)
            inner.path, name = target, os.path.basename(target)
        inner.name = name
        paths.append(inner.path)
        inners.append(inner)
    names, number = {}, {}
    for inner in inners:
        names.setdefault(inner.name, []).append(inner)
    ctx.about = f"{[inner.name for inner in inners]}"
    ctx.distinct('mount', ctx.about)
    options = {'disableUnionMount': True, 'recursionDepth': 0, 'recursive': False, 'enableFileVersions': rng.random() < 0.5}
    ops = fusework.mount(paths, ctx.mkdir('mnt'), indexFilePath=None, writeIndex=False, **options)
    try:
        entries = fusework.entries(ops, '/')
        shown = sorted(name for name in entries if name not in ('.', '..'))
        ctx.equal(len(shown), count, 'mount:count', f"{ctx.about}: {shown}")
        # Which of several equal names is which is not documented, therefore match by content.
        left = list(shown)
        for inner in inners:
            expected = {path for path, _ in inner.entries if path != '/'}
            candidates = [name for name in left if name == inner.name or name.startswith(inner.name + '.')]
            matching = []
            for name in candidates:
                got = set()
                stack = ['/' + name]
                while stack:
                    folder = stack.pop()
                    for entry in fusework.entries(ops, folder):
                        if entry in ('.', '..'):
                            continue
                        path = folder + '/' + entry
                        got.add(path[len(name) + 1:])
                        if stat.S_ISDIR(ops.getattr(path)['st_mode']):
                            stack.append(path)
                if got == expected and all(
                    fusework.read_file(ops, '/' + name + path) == view.read_all(inner.alone, info)
                    for path, info in inner.entries if stat.S_ISREG(info.mode) and not info.linkname
                ):
                    matching.append(name)
            ctx.check_that(bool(matching), 'mount:source', f"{ctx.about}: no folder among {candidates} shows {inner.name} with {sorted(expected)[:8]}")
            if matching:
                left.remove(inner.name if inner.name in matching else matching[0])
            ctx.count('operations')
    finally:
        fusework.unmount(ops)
    for inner in inners:
        inner.alone.__exit__(None, None, None)
        inner.ms.__exit__(None, None, None)


def case(ctx, scenario, i, rng):
    {'subvolumes': case_subvolumes, 'prefix': case_prefix, 'single': case_single, 'mount': case_mount}[scenario](ctx, i, rng)
