"""C04: a mount using an index written by an earlier run against a mount that builds its index anew."""

import os
import shutil

from rv import gen, indexwork, view
from rv.core import HarnessError

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = (
    'A case builds one archive (TAR of any compression with random options, or another indexed format), records the view '
    'of a mount that has no stored index, mounts it writing an index to a random location, and mounts it again several '
    'times with that index (same options, read-only, other neutral options, the index compressed, other reading order), '
    'comparing complete views; distinct: (format, location, options, follow-up). Reuse is measured: a follow-up counts '
    'as reused only if the index file was opened and left byte-identical and no other index file appeared.'
)
ASSUMPTIONS = ['A view built without stored index is the reference; its own correctness is judged by C01 and C26.']
MINIMUM = {'entries_compared': 2000, 'reused': 60, 'seek_points_reused': 5, 'compressed_index': 5, 'readonly': 20}
PRELOAD = ['ratarmountcore.mountsource.factory']

COMPRESSED = {'gz': 'gz', 'bz2': 'bz2', 'xz': 'xz', 'zst': 'zst'}


def plan(tier):
    k = 1 if tier == 'quick' else 20
    return [('tar', 130 * k, 5), ('zoo', 60 * k, 4), ('large', 30 * k, 2), ('many', 6 * k, 1)]


def locate(ctx, rng, path):
    """(kind, options, function giving the index path)"""
    kind = rng.choice(['default', 'default', 'explicit', 'explicit-deep', 'folders', 'folders-later', 'blocked', 'home', 'threshold'])
    place = os.path.join(ctx.mkdir(), 'idx')
    name = path.replace('/', '_') + '.index.sqlite'
    if kind == 'default':
        return kind, {}, path + '.index.sqlite'
    if kind == 'threshold':
        return kind, {'indexMinimumFileCount': 3}, path + '.index.sqlite'
    if kind == 'explicit':
        file = place + rng.choice(['.sqlite', '.any', ' ä%20?.x'])
        return kind, {'indexFilePath': file}, file
    if kind == 'explicit-deep':
        file = os.path.join(place, 'not', 'there', 'yet', 'index')
        return kind, {'indexFilePath': file}, file
    if kind == 'folders':
        return kind, {'indexFolders': [place]}, os.path.join(place, name)
    if kind == 'folders-later':
        blocked = gen.write(place + '-blocked', b'a file, not a folder')
        return kind, {'indexFolders': [blocked, os.path.join(place, 'b'), '']}, os.path.join(place, 'b', name)
    if kind == 'home':
        return kind, {'indexFolders': ['~/indexes', '']}, os.path.expanduser(os.path.join('~/indexes', name))
    os.makedirs(path + '.index.sqlite', exist_ok=True)  # Something else is where the index should go.
    return kind, {}, None


def random_reads(rng, ms, paths, count=6):
    """Reads at random places, so that later full reads start from any decoder state."""
    for path in rng.sample(paths, min(len(paths), count)):
        info = ms.lookup(path)
        with ms.open(info) as file:
            for _ in range(3):
                file.seek(rng.randrange(info.size + 1))
                file.read(rng.choice([1, 100, 5000]))


def case(ctx, scenario, i, rng):
    folder = ctx.mkdir()
    if scenario == 'zoo':
        fmt = (indexwork.INDEXED_FORMATS + indexwork.UNSTORED_FORMATS)[i % 21] if rng.random() < 0.5 else rng.choice(indexwork.INDEXED_FORMATS)
        path, options, what = indexwork.zoo_archive(rng, folder, fmt)
    elif scenario == 'large':
        if rng.random() < 0.6:
            path, options, what = indexwork.tar_archive(rng, folder, compression=rng.choice(['gz', 'gz', 'bz2', 'xz-blocks', 'zst', 'zlib']), large=True)
        else:
            path, options, what = indexwork.zoo_archive(rng, folder, rng.choice([f for f in indexwork.INDEXED_FORMATS if '.' in f]), large=True)
            if fmt_is_gz(path):
                options['gzipSeekPointSpacing'] = rng.choice([64 * 1024, 100 * 1000])
    elif scenario == 'many':
        path, options, what = indexwork.tar_archive(rng, folder, count=rng.choice([999, 1000, 1001, 1400]), nested=False,
                                                    compression=rng.choice(['', 'gz']))
    else:
        path, options, what = indexwork.tar_archive(rng, folder)

    if what.startswith(('tar', 'zip', 'ar', 'single')) and rng.random() < 0.25:
        options['hashes'] = rng.sample(['md5', 'sha256', 'crc32', 'sha1'], 2)
        what += '+hashes'
    ctx.about = f"{what} {options}"
    reference = indexwork.fresh_view(path, options)
    kind, location, index = locate(ctx, rng, path)
    stored = dict({'indexMinimumFileCount': 0} if scenario != 'many' else {}, **options)
    stored.update(location, writeIndex=True)
    files = [p for p, v in reference.items() if v[0][0] == 'file' and v[0][2] > 0]

    def compare(got, step):
        ctx.count('entries_compared', len(reference))
        problem = indexwork.explain(got, reference)
        if problem:
            ctx.fail(f"{what.split('+')[0]}:{step}:{problem[0]}", f"{what} at {kind}, {step}: {problem[1]}")

    # The run that writes the index.
    ms = indexwork.open_source(path, **stored)
    try:
        if rng.random() < 0.5:
            random_reads(rng, ms, files)
        if rng.random() < 0.7:
            compare(indexwork.deep(ms), 'writing')
    finally:
        indexwork.close(ms)
    exists = bool(index) and os.path.isfile(index)
    ctx.count('index_written' if exists else 'index_elsewhere_or_none')
    if exists:
        ctx.check_that(indexwork.is_index(index), f"{kind}:not-an-index", f"{index} is not an SQLite file")

    # Runs that should use it.
    for _ in range(rng.randrange(2, 4)):
        step = rng.choice(['same', 'same', 'readonly', 'neutral', 'compressed', 'url', 'no-write'])
        again = dict(stored)
        temporary = None
        if not exists and step in ('readonly', 'compressed', 'url'):
            continue
        if step == 'readonly':
            again['readOnlyIndex'] = True
            ctx.count('readonly')
        elif step == 'neutral':
            again['parallelizations'] = {'': rng.choice([0, 1, 3])}
            again['indexMinimumFileCount'] = rng.choice([0, 1, 1000])
            if rng.random() < 0.5:
                again['verifyModificationTime'] = True
            if 'recursive' not in again and what.startswith('tar') and rng.random() < 0.3:
                again['gzipSeekPointSpacing'] = 128 * 1024
        elif step == 'no-write':
            again['writeIndex'] = False
        elif step == 'compressed':
            extension = rng.choice(sorted(COMPRESSED))
            with open(index, 'rb') as file:
                packed = gen.compress(extension, file.read(), rng)
            temporary = index + '.hidden'
            shutil.move(index, temporary)
            gen.write(index + '.' + extension, packed)
            if kind not in ('default', 'threshold'):
                again.pop('indexFolders', None)
                again['indexFilePath'] = index + '.' + extension
            ctx.count('compressed_index')
        elif step == 'url':
            again.pop('indexFolders', None)
            again['indexFilePath'] = 'file://' + index
        before = indexwork.files_below(folder, os.path.dirname(index)) if exists else {}
        ms = indexwork.open_source(path, **again)
        try:
            if rng.random() < 0.6:
                random_reads(rng, ms, files)
            compare(indexwork.deep(ms), step)
            ctx.sample({'archive': what, 'options': repr(options), 'location': kind, 'step': step, 'entries': len(reference)})
            ctx.distinct(what, kind, step)
        finally:
            indexwork.close(ms)
        if exists:
            after = indexwork.files_below(folder, os.path.dirname(index))
            same = {p: v[:2] if isinstance(v, tuple) else v for p, v in before.items()} == {
                p: v[:2] if isinstance(v, tuple) else v for p, v in after.items()}
            ctx.count('reused' if same else 'rewritten')
            if same and what.startswith(('tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'single')) and scenario == 'large':
                ctx.count('seek_points_reused')
            if step == 'readonly':
                ctx.check_that(same, f"readonly:changed-files", f"{set(before) ^ set(after)} or contents of index changed")
        if temporary:
            os.remove(index + '.' + extension)
            shutil.move(temporary, index)


def fmt_is_gz(path):
    return path.endswith('.gz')
