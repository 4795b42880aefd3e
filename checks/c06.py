"""C06: hostile, stale, foreign and damaged files where a mount looks for its index."""

import io
import os
import shutil
import sqlite3
import stat
import tarfile
import zipfile

from rv import gen, indexwork, targen, tarwork

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = (
    'A case builds one archive, records the view of a mount without stored index, then puts a generated bad state into the '
    'index locations (nothing but zeros, truncated index, text, archives, compressed garbage, foreign SQLite databases, indexes '
    'left over from a replaced archive of another size, modification time or format, mixes of those over several locations) '
    'and mounts with random options, twice. Monitors compare the complete views and compare the bytes of every file around. '
    'distinct: (archive kind, state, location, options).'
)
ASSUMPTIONS = [
    'A view built without stored index is the reference; its own correctness is judged by C01 and C26.',
    'Replaced archives differ in size, or in modification time with its verification switched on. '
    'For TARs that grew, C24 judges the sampling of the earlier part.',
    'Damage to single bytes in the middle of an otherwise complete index is not covered by the documented checks.',
]
MINIMUM = {'entries_compared': 2000, 'damaged': 60, 'stale': 60, 'foreign': 40, 'readonly': 40, 'several_locations': 20}
PRELOAD = ['ratarmountcore.mountsource.factory']


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('damaged', 120 * k, 5), ('stale', 120 * k, 5), ('foreign', 80 * k, 5), ('readonly', 80 * k, 5), ('several', 60 * k, 4),
            ('large', 10 * k, 1)]


def build(rng, folder, fmt=None, name=None):
    """(path, options, what) of an archive whose backend stores indexes."""
    fmt = fmt or rng.choice(['tar', 'tar', 'tar', 'zip', 'ar', 'asar', 'html', 'ogg', 'single.gz', 'single.xz'])
    if fmt == 'tar':
        return indexwork.tar_archive(rng, folder, name=name)
    return indexwork.zoo_archive(rng, folder, fmt)


def location(ctx, rng, path):
    """(kind, options, index path)"""
    kind = rng.choice(['default', 'explicit', 'explicit', 'folder'])
    if kind == 'default':
        return kind, {}, path + '.index.sqlite'
    place = ctx.mkdir('idx')
    if kind == 'explicit':
        file = os.path.join(place, rng.choice(['index', 'x.sqlite', 'foo.tar.index.sqlite', 'notes.txt']))
        return kind, {'indexFilePath': file}, file
    return kind, {'indexFolders': [place]}, os.path.join(place, path.replace('/', '_') + '.index.sqlite')


def make_index(path, options, where):
    """Lets the real code write its index and returns the bytes, or None if this archive does not get one."""
    options = dict(options, writeIndex=True, indexMinimumFileCount=0, **where)
    indexwork.close(indexwork.open_source(path, **options))


def foreign_database(rng, path, similar=False):
    if os.path.exists(path):
        os.remove(path)
    with sqlite3.connect(path) as db:
        names = ['notes', 'sqlar', 'moz_places', 'metadata'] + (['versions', 'files', 'xattrs'] if similar else [])
        for name in rng.sample(names, rng.randrange(1, len(names))):
            db.execute(f'CREATE TABLE "{name}" (key TEXT, value TEXT)')
            for k in range(rng.randrange(5)):
                db.execute(f'INSERT INTO "{name}" VALUES (?, ?)', (f"key{k}", f"value{k}"))
    db.close()


def truncations(rng, data):
    kind = rng.choice(['any', 'page', 'header', 'one', 'short', 'half', 'zeros-tail'])
    n = len(data)
    if kind == 'page':
        return data[: 4096 * rng.randrange(1, max(2, n // 4096))]
    if kind == 'header':
        return data[: rng.choice([15, 16, 17, 99, 100, 101, 512])]
    if kind == 'one':
        return data[: n - rng.choice([1, 2, 100, 4095])]
    if kind == 'short':
        return data[: rng.randrange(1, 100)]
    if kind == 'half':
        return data[: n // 2]
    if kind == 'zeros-tail':
        cut = 4096 * rng.randrange(0, max(1, n // 4096))
        return bytes(rng.choice([1, 512, 4096, 8192])) if cut == 0 else data[:cut]
    return data[: rng.randrange(1, n)]


def garbage(rng):
    kind = rng.choice(['text', 'random', 'zip', 'gz', 'gz-sqlite-text', 'tar', 'sqlite-header', 'png', 'newlines', 'xz-cut'])
    if kind == 'text':
        return kind, b'Dear diary,\n' + gen.blob(rng, rng.randrange(1, 5000))
    if kind == 'random':
        return kind, rng.randbytes(rng.choice([1, 10, 100, 5000, 100000]))
    if kind == 'zip':
        return kind, b'PK\x03\x04' + rng.randbytes(500)
    if kind == 'gz':
        return kind, gen.compress('gz', gen.blob(rng, 3000), rng)
    if kind == 'gz-sqlite-text':
        return kind, gen.compress('gz', b'SQLite format 3\0' + bytes(2000), rng)
    if kind == 'tar':
        return kind, targen.build(tarwork.random_members(rng, 5))
    if kind == 'sqlite-header':
        return kind, b'SQLite format 3\0' + rng.randbytes(5000)
    if kind == 'png':
        return kind, b'\x89PNG\r\n\x1a\n' + rng.randbytes(2000)
    if kind == 'xz-cut':
        return kind, gen.compress('xz', gen.blob(rng, 3000), rng)[:-20]
    return kind, b'\n' * 5000


def compare(ctx, what, step, path, options, reference, allow=()):
    try:
        got = indexwork.stored_view(path, options)
    except allow as exception:
        ctx.count('refused')
        ctx.note(f"{step}: {exception!r}")
        return False
    ctx.count('entries_compared', len(reference) + 1)
    problem = indexwork.explain(got, reference)
    if problem:
        ctx.fail(f"{step}:{problem[0]}", f"{what}, {step}: {problem[1]}")
    return True


def random_options(rng):
    options = {'writeIndex': rng.random() < 0.7}
    if rng.random() < 0.6:
        options['indexMinimumFileCount'] = rng.choice([0, 1, 1000])
    return options


def case(ctx, scenario, i, rng):
    folder = ctx.mkdir()
    path, options, what = build(rng, folder)
    {'damaged': damaged, 'stale': stale, 'foreign': foreign, 'readonly': readonly, 'several': several, 'large': large}[scenario](
        ctx, rng, folder, path, options, what)


def twice(ctx, rng, what, step, path, options, reference):
    for attempt in range(2):
        compare(ctx, what, step, path, dict(options, **random_options(rng)), reference)


def damaged(ctx, rng, folder, path, options, what):
    reference = indexwork.fresh_view(path, options)
    kind, where, index = location(ctx, rng, path)
    make_index(path, options, where)
    if not os.path.isfile(index):
        ctx.count('without_index')
        return
    with open(index, 'rb') as file:
        data = file.read()
    for _ in range(3):
        state = rng.choice(['empty', 'truncated', 'truncated', 'truncated', 'garbage', 'truncated-compressed'])
        target = index
        if state == 'empty':
            gen.write(index, b'')
        elif state == 'truncated':
            gen.write(index, truncations(rng, data))
        elif state == 'truncated-compressed':
            ext = rng.choice(['gz', 'xz', 'bz2', 'zst'])
            packed = gen.compress(ext, data, rng)
            if kind != 'default':
                where = {'indexFilePath': index + '.' + ext}
            target = index + '.' + ext
            if os.path.exists(index):
                os.remove(index)
            gen.write(target, packed[: rng.randrange(1, len(packed))] if rng.random() < 0.5
                      else gen.compress(ext, truncations(rng, data), rng))
        else:
            state, bad = garbage(rng)
            gen.write(index, bad)
        ctx.count('damaged')
        ctx.about = f"{what} {options} {kind} {state} {os.path.getsize(target)} of {len(data)}"
        ctx.distinct(what, kind, state)
        ctx.sample({'archive': what, 'location': kind, 'state': state, 'entries': len(reference)})
        twice(ctx, rng, what, 'damaged', path, dict(options, **where), reference)
        if target != index and os.path.exists(target):
            os.remove(target)


def replace(rng, ctx, path, what):
    """Puts another archive at the same path. Returns its (options, what)."""
    other = ctx.mkdir('other')
    if rng.random() < 0.6 and what.startswith('tar'):
        new = indexwork.tar_archive(rng, other, compression=rng.choice(['', 'gz', 'xz']))
    else:
        same = what.split('+')[0] if rng.random() < 0.5 and not what.startswith('tar') else None
        new = build(rng, other, same)
    return new


def twins(ctx, rng):
    """Two archives of the same size with other names and contents: (path, bytes of the other, options, what)."""
    names = [rng.choice(['file', 'data', 'a/bb']) + str(k) for k in range(rng.randint(1, 4))]
    sizes = [rng.choice([1, 10, 511, 512, 5000]) for _ in names]
    fmt = rng.choice(['tar', 'zip'])
    variants = []
    for letter in 'xy':
        buffer = io.BytesIO()
        if fmt == 'tar':
            with tarfile.open(fileobj=buffer, mode='w') as archive:
                for name, size in zip(names, sizes):
                    info = tarfile.TarInfo(name + letter)
                    info.size, info.mtime = size, 1_000_000_000
                    archive.addfile(info, io.BytesIO(rng.randbytes(size)))
        else:
            with zipfile.ZipFile(buffer, 'w') as archive:
                for name, size in zip(names, sizes):
                    archive.writestr(zipfile.ZipInfo(name + letter, (2001, 2, 3, 4, 5, 6)), rng.randbytes(size))
        variants.append(buffer.getvalue())
    path = gen.write(os.path.join(ctx.mkdir('twins'), f"twin.{fmt}"), variants[0])
    return path, variants[1], {'writeIndex': True, 'indexMinimumFileCount': 0}, f"{fmt}.twin"


def stale(ctx, rng, folder, path, options, what):
    twin = None
    if rng.random() < 0.4:
        path, twin, options, what = twins(ctx, rng)
    kind, where, index = location(ctx, rng, path)
    make_index(path, options, where)
    if not os.path.isfile(index):
        ctx.count('without_index')
        return
    old = os.stat(path)
    verify = rng.random() < 0.4
    if twin:
        data, newOptions, newWhat = twin, options, what
    else:
        newPath, newOptions, newWhat = replace(rng, ctx, path, what)
        with open(newPath, 'rb') as file:
            data = file.read()
    # Content changes that the documented checks cover: another size, or another time if that is verified.
    if rng.random() < 0.2 and what.startswith('tar.plain') and len(data) < old.st_size and newWhat.startswith('tar.plain'):
        data += bytes(old.st_size - len(data))
        verify = True
    gen.write(path, data)
    if len(data) == old.st_size or verify and rng.random() < 0.5:
        verify = True
        delta = rng.choice([1, -1, 3600, -86400, 0.001, -0.001])
        os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns + int(delta * 1e9)))
    else:
        verify = False
        if rng.random() < 0.5:
            os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
    newOptions = dict(newOptions)
    for key in ('transform', 'encoding'):
        newOptions.pop(key, None)
    ctx.about = f"{what} -> {newWhat} {newOptions} {kind} {old.st_size} -> {len(data)} verify {verify}"
    reference = indexwork.fresh_view(path, newOptions)
    if verify:
        newOptions['verifyModificationTime'] = True
    ctx.count('stale')
    ctx.distinct(what, newWhat, kind, verify)
    ctx.sample({'old': what, 'new': newWhat, 'location': kind, 'verify': verify, 'sizes': [old.st_size, len(data)]})
    step = 'stale' + ('-mtime' if verify else '') + ('' if what.split('.')[0] == newWhat.split('.')[0] else '-other-format')
    twice(ctx, rng, f"{what} replaced by {newWhat}", step, path, dict(newOptions, **where), reference)


def foreign(ctx, rng, folder, path, options, what):
    reference = indexwork.fresh_view(path, options)
    place = ctx.mkdir('user')
    precious = os.path.join(place, rng.choice(['thesis.tex', 'notes', 'data.db', 'photo.png', 'backup.tar', 'x.sqlite']))
    kind = rng.choice(['garbage', 'garbage', 'database', 'database', 'archive-itself', 'other-archive', 'link'])
    if kind == 'garbage':
        kind, data = garbage(rng)
        while kind == 'sqlite-header':  # Might as well be a damaged index.
            kind, data = garbage(rng)
        gen.write(precious, data)
    elif kind == 'database':
        foreign_database(rng, precious)
    elif kind == 'archive-itself':
        precious = path
    elif kind == 'other-archive':
        shutil.copy(build(rng, place)[0], precious)
    else:
        real = gen.write(os.path.join(place, 'real.txt'), b'precious text\n' * 100)
        os.symlink(real, precious)
    def state():  # SQLite may be opened for writing, but nothing may change.
        return {p: v[:2] + v[3:] if len(v) > 3 else v for p, v in indexwork.files_below(place, folder).items()}

    before = state()
    ctx.about = f"{what} {options} {kind} {precious}"
    ctx.count('foreign')
    ctx.distinct(what, kind)
    ctx.sample({'archive': what, 'file': kind})
    for _ in range(2):
        compare(ctx, what, 'foreign', path, dict(options, indexFilePath=precious, **random_options(rng)), reference)
        after = state()
        lost = sorted(p for p in before if p not in after)
        changed = sorted(p for p in before if p in after and before[p] != after[p])
        ctx.check_that(not lost, 'foreign:removed', f"{lost} removed, it is not an index: {kind}")
        ctx.check_that(not changed, 'foreign:changed', f"{changed} changed, it is not an index: {kind}")
        if lost or changed:
            return


def readonly(ctx, rng, folder, path, options, what):
    from ratarmountcore.utils import RatarmountError

    reference = indexwork.fresh_view(path, options)
    kind, where, index = location(ctx, rng, path)
    state = rng.choice(['none', 'valid', 'valid', 'damaged', 'garbage', 'empty', 'stale-mtime', 'database', 'similar-database'])
    if state not in ('none', 'garbage', 'database', 'similar-database'):
        make_index(path, options, where)
    judged = state == 'valid'
    readOnly = {'readOnlyIndex': True, 'writeIndex': rng.random() < 0.5}
    if state == 'damaged' and os.path.isfile(index):
        with open(index, 'rb') as file:
            data = file.read()
        gen.write(index, truncations(rng, data))
    elif state == 'garbage':
        gen.write(index, garbage(rng)[1])
    elif state == 'empty':
        gen.write(index, b'')
    elif state == 'stale-mtime':
        os.utime(path, (1, 1))
        readOnly['verifyModificationTime'] = True
    elif state.endswith('database'):
        foreign_database(rng, index, similar='similar' in state)
    where = dict(where)
    if rng.random() < 0.3:
        readOnly['indexMinimumFileCount'] = rng.choice([0, 1, 1000])
    def snapshot():
        return indexwork.files_below(*{folder, os.path.dirname(index)})

    before = snapshot()
    ctx.about = f"{what} {options} {kind} {state} {readOnly}"
    ctx.count('readonly')
    ctx.distinct(what, kind, state)
    ctx.sample({'archive': what, 'location': kind, 'state': state})
    # Without a usable index, a mount with read-only indexes may be refused, but never be wrong.
    allow = () if judged and os.path.isfile(index) else (RatarmountError, Exception)
    for _ in range(2):
        if allow:
            try:
                ms = indexwork.open_source(path, **dict(options, **where, **readOnly))
            except Exception as exception:  # noqa: any error is a refusal here
                ctx.count('refused')
                ctx.note(f"{state}: {type(exception).__name__}")
            else:
                backend = str(type(ms))
                indexwork.close(ms)
                ctx.note(f"{state}: opened by {backend}")
        else:
            compare(ctx, what, 'readonly', path, dict(options, **where, **readOnly), reference)
        after = snapshot()
        different = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
        ctx.check_that(not different, f"readonly:{state}:changed-files", f"changed, created or removed: {different}")


def several(ctx, rng, folder, path, options, what):
    """Several index locations holding bad states, with a good one possibly among them."""
    reference = indexwork.fresh_view(path, options)
    places = [ctx.mkdir('i') for _ in range(rng.randrange(2, 4))]
    folders = list(places)
    if rng.random() < 0.4:
        folders.insert(rng.randrange(len(folders) + 1), '')
    use = {'indexFolders': folders}
    if rng.random() < 0.3:
        use = {}
    good = gen.write(os.path.join(ctx.mkdir('good'), 'index'), b'')
    os.remove(good)
    make_index(path, options, {'indexFilePath': good})
    if not os.path.isfile(good):
        ctx.count('without_index')
        return
    with open(good, 'rb') as file:
        data = file.read()
    name = path.replace('/', '_') + '.index.sqlite'
    spots = [os.path.join(f, name) if f else path + '.index.sqlite' for f in folders] if use else [path + '.index.sqlite']
    spots += [path + '.index.sqlite.' + ext for ext in rng.sample(['gz', 'bz2', 'xz', 'zst'], rng.randrange(3))] if not use or '' in folders else []
    states = []
    for spot in spots:
        state = rng.choice(['none', 'good', 'truncated', 'garbage', 'empty', 'folder', 'link-loop', 'no-parent'])
        content = {'good': data, 'truncated': truncations(rng, data), 'garbage': garbage(rng)[1], 'empty': b''}.get(state)
        ext = spot.rsplit('.', 1)[1]
        if content is not None:
            gen.write(spot, gen.compress(ext, content, rng) if ext in ('gz', 'bz2', 'xz', 'zst') else content)
        elif state == 'folder':
            os.mkdir(spot)
        elif state == 'link-loop':
            os.symlink(spot, spot)
        elif state == 'no-parent' and os.path.dirname(spot) in places:
            shutil.rmtree(os.path.dirname(spot))
            gen.write(os.path.dirname(spot), b'')
        states.append(state)
    ctx.about = f"{what} {options} {use} {list(zip(spots, states))}"
    ctx.count('several_locations')
    ctx.distinct(what, tuple(states), bool(use))
    ctx.sample({'archive': what, 'states': states})
    for _ in range(2):
        twice(ctx, rng, what, 'several', path, dict(options, **use), reference)


def large(ctx, rng, folder, path, options, what):
    """Many files, so that tables span many pages and truncation hits the middle of them."""
    path, options, what = indexwork.tar_archive(rng, folder, compression=rng.choice(['', '', 'zst']), count=rng.choice([300, 800]), nested=False, name='many')
    damaged(ctx, rng, folder, path, options, what)
