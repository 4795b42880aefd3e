"""C13: the overlay after remounts, and after kills at every file-changing call of an operation."""

import contextlib
import errno
import hashlib
import os

from checks import c12
from rv import faults, fusework, gen, indexwork
from rv.core import HarnessError

SHIM = True
PROPERTY = 'C13'
LEVEL = 'fault_enumeration'
RULE = (
    'remount: random operation sequences as in C12 with several unmounts and new mounts on the same overlay folder in between, '
    'comparing the tree with that of the reference directory after each and the bytes of the sources at the end. kill: after a '
    'random history, one operation runs in forked processes that are killed before, in the middle of, or after its k-th '
    'file-changing system call below the overlay folder, for every k; the tree of the next mount must be one of the trees of '
    'the reference directory before or after one of the system calls of the operation. distinct: (operation, kill point, '
    'number of points, state found).'
)
ASSUMPTIONS = [
    'Process kills are modelled (all earlier system calls took effect), not the loss of cached writes on power failure.',
    'A single write call to a file is not expected to be atomic; only its start and its end are used as kill points.',
]
MINIMUM = {'kills': 250, 'faults': 150, 'failed_operations': 80, 'remounts': 80, 'states_before': 60, 'states_after': 60}
PRELOAD = ['ratarmount.FuseMount', 'ratarmountcore.mountsource.factory']
TECHNIQUE = 'runtime fault injection (preloaded library) and trace comparison with a reference directory'


def setup(scratch, tier):
    if not faults.available():
        raise HarnessError('the fault injection library is not loaded')


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('remount', 24 * k, 2), ('kill', 40 * k, 2), ('fault', 32 * k, 2)]


def fingerprint(paths):
    result = {}
    for path in paths:
        if os.path.isdir(path):
            result.update(indexwork.files_below(path))
        else:
            with open(path, 'rb') as file:
                result[path] = (hashlib.sha1(file.read()).hexdigest(), os.stat(path).st_mtime_ns, os.stat(path).st_mode)
    return result


def case(ctx, scenario, i, rng):
    if scenario == 'remount':
        remount(ctx, rng)
    else:
        single(ctx, rng, kill if scenario == 'kill' else fault)


def history(ctx, rng, mirror, count):
    for _ in range(count):
        fusework.step(mirror, rng)
    mirror.close_all()


def remount(ctx, rng):
    ops, sources, overlay, again, kind = c12.setup_mount(ctx, rng)
    before = fingerprint(sources)
    try:
        root = ctx.mkdir('reference')
        fusework.populate(root, fusework.tree(ops))
        mirror = fusework.Mirror(ctx, ops, root, truncateAtOpen=rng.random() < 0.5)
        for _ in range(rng.choice([3, 5])):
            history(ctx, rng, mirror, rng.choice([3, 10, 25]))
            if not mirror.compare('history'):
                return
            if rng.random() < 0.3:  # ended without unmounting
                ctx.count('unclean_remounts')
            else:
                fusework.unmount(ops)
            # As at the end of the process.
            ops.writeOverlay.sqlConnection.close()
            ops = mirror.ops = mirror.vfs.ops = again()
            ctx.count('remounts')
            mirror.history.append('remount')
            if not mirror.compare('remount'):
                return
        ctx.equal(fingerprint(sources), before, 'source-changed', f"the sources after {mirror.text()}")
    finally:
        fusework.unmount(ops)


def both_names(step, got, before):
    """The target has been replaced but the old name has not been removed."""
    _, old, new = step
    want = dict(before)
    want[new] = dict(before[new], data=before[old]['data'], size=before[old]['size'])
    ignore = {k: v for k, v in got.get(new, {}).items() if k in ('perm', 'uid', 'gid', 'mtime')}
    want[new].update(ignore)
    return not fusework.differences(got, want, 0)


def single(ctx, rng, judge):
    """One operation after a random history, to be interrupted at all places."""
    ops, sources, overlay, again, kind = c12.setup_mount(ctx, rng, kind=rng.choice(['tar', 'tar', 'zip', 'folder', 'union']))
    root = ctx.mkdir('reference')
    before = fingerprint(sources)
    since = None
    try:
        fusework.populate(root, fusework.tree(ops))
        mirror = fusework.Mirror(ctx, ops, root)
        since = mirror.since
        history(ctx, rng, mirror, rng.choice([0, 2, 6, 15, 30]))
        if not mirror.compare('history'):
            return
    finally:
        fusework.unmount(ops)
        ops.writeOverlay.sqlConnection.close()
    del ops, mirror.ops, mirror.vfs
    name, steps = fusework.random_steps(rng, root)
    states = fusework.states_of(root, steps, ctx.root)
    saved = os.path.join(ctx.root, 'saved')
    fusework.clone(overlay, saved)

    log = os.path.join(ctx.root, 'log')

    def attempt(mode, at, log='', error=0, sticky=False, after=None):
        fusework.clone(saved, overlay)

        def run():
            mounted = again()
            faults.arm(overlay, mode, at, error, sticky, log=log)
            calls = fusework.MountCalls(mounted)
            result = None
            for number, step in enumerate(steps):
                try:
                    calls.run(step)
                except Exception as exception:
                    if not isinstance(exception, OSError) and mode != faults.FAIL:
                        raise
                    result = ('refused', getattr(exception, 'errno', None), number, f"{type(exception).__name__}: {exception}")
                    break
            events = faults.count()
            faults.disarm()
            return (result or ('done', events)) + ((after(mounted, calls),) if after else ())

        return faults.forked(run)

    total = attempt(faults.LOG, 0, log)
    if total.value is None:
        ctx.fail(f"{name}:exception", f"{steps}: {total.error}", traceback=total.trace)
        return
    if total.value[0] == 'refused':
        ctx.check_that(total.value[1] in (errno.EXDEV, errno.EROFS), f"{name}:refused", f"{steps}: {total.value}")
        return
    events = total.value[1]
    calls = faults.read_log(log)
    os.unlink(log)
    judge(ctx, rng, f"{kind}: {[s[:2] for s in steps]}", name, steps, states, since, attempt, again, events, calls)
    ctx.equal(fingerprint(sources), before, 'source-changed', f"the sources after {steps}")


def kill(ctx, rng, about, name, steps, states, since, attempt, again, events, calls):
    points = [('before', at) for at in range(1, events + 1)] + [('after', events)]
    points += [('middle', n) for n, call, path in calls if 'write' in call and '.ratarmount.overlay.sqlite' in path]
    if ctx.tier == 'quick' and len(points) > 14:
        points = rng.sample(points, 14)
    for when, at in points:
        outcome = attempt(faults.KILLS[when], at)
        if not outcome.killed:
            ctx.count('not_reached')
            continue
        ctx.count('kills')
        later = faults.forked(lambda: fusework.tree(again()))
        where = f"{about} killed {when} change {at} of {events}"
        if later.value is None:
            ctx.fail(f"{name}:next-mount", f"{where}: {later.error}", traceback=later.trace)
            return
        matches = [k for k, state in enumerate(states) if not fusework.differences(later.value, state, since)]
        if not matches:
            if name == 'rename-over' and both_names(steps[0], later.value, states[0]):
                ctx.fail('rename-over:both-names', f"{where}: the old name remains while the target is replaced already")
                return
            best = min((fusework.differences(later.value, state, since) for state in states), key=len)
            ctx.fail(f"{name}:{best[0][0]}", f"{where}: neither the tree before nor after: {[t for _, t in best[:4]]}")
            return
        ctx.count('states_before', matches[0] == 0)
        ctx.count('states_after', matches[-1] == len(states) - 1)
        ctx.distinct(name, at, events, when, matches[0])


def fault(ctx, rng, about, name, steps, states, since, attempt, again, events, calls):
    """Every file-changing call fails, alone or together with all later ones."""
    def after(mounted, calls_):
        if calls_.handle:
            with contextlib.suppress(OSError):
                mounted.release(*calls_.handle)
        return fusework.tree(mounted)

    points = [(at, error, sticky) for at in range(1, events + 1) for error in (errno.ENOSPC, errno.EIO) for sticky in (False, True)]
    for at, error, sticky in rng.sample(points, min(len(points), 10 if ctx.tier == 'quick' else 60)):
        outcome = attempt(faults.FAIL, at, error=error, sticky=sticky, after=after)
        where = f"{about}: {errno.errorcode[error]}{' from' if sticky else ' for'} change {at} of {events} on"
        if outcome.value is None:
            ctx.fail(f"fault:{name}:exception", f"{where}: {outcome.error}", traceback=outcome.trace)
            return
        ctx.count('faults')
        if outcome.value[0] == 'done':
            allowed = {len(states) - 1}
        else:
            ctx.count('failed_operations')
            allowed = {outcome.value[2], outcome.value[2] + 1}
            where += f", {outcome.value[3]}"
        later = faults.forked(lambda: fusework.tree(again()))
        if later.value is None:
            ctx.fail(f"fault:{name}:next-mount", f"{where}: {later.error}", traceback=later.trace)
            return
        for when, tree in (('live', outcome.value[-1]), ('next mount', later.value)):
            if any(not fusework.differences(tree, states[k], since) for k in allowed):
                continue
            if name == 'rename-over' and outcome.value[0] != 'done' and both_names(steps[0], tree, states[0]):
                ctx.fail('rename-over:both-names', f"{where}: the old name remains while the target is replaced already")
                return
            best = min((fusework.differences(tree, states[k], since) for k in sorted(allowed)), key=len)
            ctx.fail(f"fault:{name}:{best[0][0]}", f"{where}, {when}, {outcome.value[0]}: {[t for _, t in best[:4]]}")
            return
        ctx.distinct('fault', name, at, events, error, sticky, outcome.value[0])
