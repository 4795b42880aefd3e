"""C05: kills and write failures at every file-changing call while an index is created, updated or loaded."""

import errno
import os
import shutil

from rv import faults, gen, indexwork, targen, tarwork
from rv.core import HarnessError

SHIM = True
PROPERTY = 'C05'
LEVEL = 'fault_enumeration'
RULE = (
    'A case builds one archive, counts the file-changing system calls below the index folder while the real code creates, '
    'extends, rejects or loads an index, and repeats that run in forked processes which are killed before, in the middle of '
    '(torn write) or after the k-th such call, or for which the k-th (or every later) one fails with ENOSPC or EIO. After each, '
    'the archive is mounted again normally, twice, and the complete view compared to that of a mount without stored index. '
    'distinct: (archive kind, phase, fault, call number of calls).'
)
ASSUMPTIONS = [
    'Process kills are modelled (all earlier system calls took effect), not the loss of cached writes on power failure.',
    'A view built without stored index is the reference; its own correctness is judged by C01 and C26.',
]
MINIMUM = {'kills': 150, 'failed_calls': 100, 'crash_points_seen': 150, 'entries_compared': 2000}
PRELOAD = ['ratarmountcore.mountsource.factory', 'rapidgzip', 'indexed_gzip']
TECHNIQUE = 'runtime fault injection (preloaded library) with a reference-view oracle'


def setup(scratch, tier):
    if not faults.available():
        raise HarnessError('the fault injection library is not loaded')


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('create', 30 * k, 2), ('reject', 14 * k, 2), ('append', 3 * k, 1), ('load', 8 * k, 2)]


def small_archive(rng, folder):
    if rng.random() < 0.3:
        return indexwork.zoo_archive(rng, folder, rng.choice(['zip', 'ar', 'asar', 'html', 'ogg', 'single.gz', 'single.xz', 'single.zst']))
    return indexwork.tar_archive(rng, folder)


def run(path, options):
    """What the interrupted process does: mount, look at a bit, unmount."""
    ms = indexwork.open_source(path, **options)
    try:
        ms.list('/')
        return type(ms).__name__
    finally:
        indexwork.close(ms)


def view_of(path, options):
    return indexwork.stored_view(path, options)


def judge(ctx, what, step, path, options, reference, fault):
    """Two later mounts, each complete and right."""
    for attempt in ('next', 'second'):
        outcome = faults.forked(lambda: view_of(path, options))
        if outcome.error:
            ctx.fail(f"{step}:{attempt}-mount:{outcome.error[0]}", f"{what} after {fault}: {attempt} mount: {outcome.error}", traceback=outcome.trace)
            return
        ctx.require(outcome.value is not None, f"{step}:{attempt}-mount:died", f"{what} after {fault}: the {attempt} mount died")
        ctx.count('entries_compared', len(reference) + 1)
        problem = indexwork.explain(outcome.value, reference)
        ctx.check_that(problem is None, f"{step}:{problem and problem[0]}", f"{what} after {fault}, {attempt} mount: {problem}")
        if problem:
            return


def restore(folder, saved):
    """Brings the folder back to the saved state."""
    shutil.rmtree(folder, ignore_errors=True)
    shutil.copytree(saved, folder, symlinks=True)


def points(rng, total, limit):
    everything = list(range(1, total + 1))
    if len(everything) <= limit:
        return everything
    edge = everything[:4] + everything[-10:]
    return sorted({rng.choice(edge) if rng.random() < 0.5 else rng.choice(everything) for _ in range(limit)})


def case(ctx, scenario, i, rng):
    folder = ctx.mkdir('archive')
    place = ctx.mkdir('place')
    saved = os.path.join(ctx.mkdir('saved'), 'place')

    if scenario == 'append':
        path, options, what, before = grown_archive(ctx, rng, folder)
    else:
        path, options, what = small_archive(rng, folder)
        before = None
    index = os.path.join(place, rng.choice(['x.index.sqlite', 'x.index.sqlite', 'named', 'deep/er/x.sqlite']))
    kind = rng.choice(['explicit', 'explicit', 'folder', 'folders'])
    use = {'indexFilePath': index} if kind == 'explicit' else {'indexFolders': [place]}
    if kind == 'folders':
        use = {'indexFolders': [place, os.path.join(place, 'second')]}
    options = dict(options, **use, writeIndex=True, indexMinimumFileCount=rng.choice([0, 0, 0, 1, 5]))
    if rng.random() < 0.2 and what.startswith(('tar', 'zip')):
        options['hashes'] = ['md5']

    if scenario == 'append':
        with open(path, 'rb') as file:
            data = file.read()
        with open(path, 'wb') as file:
            file.write(before)
        run(path, options)
        with open(path, 'wb') as file:
            file.write(data)
    elif scenario == 'reject':
        other, otherOptions, _ = indexwork.tar_archive(rng, ctx.mkdir('other'), compression='', name=os.path.basename(path) + 'x')
        state = rng.choice(['garbage', 'truncated', 'stale'])
        run(path, options)
        files = [f for f in _files(place)]
        if not files:
            return
        target = rng.choice(files)
        if state == 'garbage':
            gen.write(target, rng.randbytes(5000))
        elif state == 'truncated':
            with open(target, 'rb+') as file:
                file.truncate(rng.randrange(os.path.getsize(target)))
        else:
            os.utime(path, (1, 1))
            options['verifyModificationTime'] = True
    elif scenario == 'load':
        run(path, options)

    reference = indexwork.fresh_view(path, {k: v for k, v in options.items() if k not in ('indexFilePath', 'indexFolders', 'writeIndex')})
    shutil.copytree(place, saved, symlinks=True)
    ctx.about = f"{what} {options} {scenario}"

    log = os.path.join(ctx.root, 'log')
    outcome = faults.forked(lambda: run(path, options), place, faults.LOG, log=log)
    ctx.require(not outcome.error, f"{scenario}:no-fault:{outcome.error and outcome.error[0]}", f"{what}: {outcome.error}", traceback=outcome.trace)
    events = faults.read_log(log)
    total = len(events)
    ctx.count('calls_seen', total)
    ctx.sample({'archive': what, 'phase': scenario, 'calls': total, 'first': [e[1] for e in events[:6]], 'entries': len(reference)})
    if total == 0:
        ctx.count('without_changes')
        return

    limit = {'create': 7, 'reject': 7, 'append': 4, 'load': 5}[scenario] if ctx.tier == 'quick' else 200
    for at in points(rng, total, limit):
        how = rng.choice(['before', 'middle', 'after'])
        restore(place, saved)
        outcome = faults.forked(lambda: run(path, options), place, faults.KILLS[how], at)
        if not outcome.killed:  # Not every run makes the same number of calls.
            ctx.count('kill_point_not_reached')
            continue
        ctx.count('kills')
        ctx.count('crash_points_seen')
        ctx.distinct(what, scenario, how, at, total)
        judge(ctx, what, f"{scenario}:kill", path, options, reference, f"kill {how} call {at}/{total} {events[at - 1][1:] if at <= total else ''}")
    for at in points(rng, total, limit // 2 + 1):
        error = rng.choice([errno.ENOSPC, errno.EIO])
        sticky = rng.random() < 0.6
        restore(place, saved)
        outcome = faults.forked(lambda: view_of(path, options), place, faults.FAIL, at, error, sticky)
        fault = f"{errno.errorcode[error]} at {'every call from' if sticky else 'call'} {at}/{total} {events[at - 1][1:]}"
        ctx.count('failed_calls')
        ctx.distinct(what, scenario, 'fail', sticky, at, total)
        if outcome.error:
            ctx.fail(f"{scenario}:fault:mount-failed:{outcome.error[0]}", f"{what}, {fault}: mounting failed: {outcome.error}", traceback=outcome.trace)
        else:
            ctx.require(outcome.value is not None, f"{scenario}:fault:died", f"{what}, {fault}: the process died")
            problem = indexwork.explain(outcome.value, reference)
            ctx.check_that(problem is None, f"{scenario}:fault:{problem and problem[0]}", f"{what}, {fault}: {problem}")
        judge(ctx, what, f"{scenario}:after-fault", path, options, reference, fault)


def _files(folder):
    return sorted(os.path.join(top, name) for top, _, names in os.walk(folder) for name in names)


def grown_archive(ctx, rng, folder):
    """An archive large enough for its index to be extended after members have been appended (see C24)."""
    members = [targen.Member('file', f"f{k}", data=b'%d' % k, mtime=5) for k in range(120)]
    members.append(targen.Member('file', 'big', data=bytes(65 << 20), mtime=5))
    more = tarwork.random_members(rng, rng.randrange(1, 12))
    first = targen.build(members)
    path = os.path.join(folder, 'grown.tar')
    both = targen.build(members + more)
    gen.write(path, both)
    return path, {}, 'tar.plain+grown', first
