"""C14: committing a write overlay to its TAR archive, against the tree that the mount with overlay showed."""

import contextlib
import io
import os

import sys
import tarfile
import tempfile

from checks import c12, c13
from rv import fusework, gen, indexwork, targen

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = (
    'commit: random operation sequences (as in C12, with odd names) through the FUSE operations of an overlay above a generated '
    'TAR (GNU, PAX and ustar members, several versions, different spellings of member names), then the command line with '
    '--commit-overlay and the confirmation. The tree of the archive mounted alone (names, types, contents, link targets) must '
    'equal the tree that was visible, before and after a second commit of the same overlay. cancel: other answers or none; '
    'unsupported: compressed and other archives, folders, missing overlays, several sources; the bytes of everything must stay. '
    'distinct: (scenario, operations of the sequence, answer or source kind).'
)
ASSUMPTIONS = [
    'Only names, types, contents and link targets are compared: the documented commands commit deletions and contents.',
    'GNU tar is installed as required.',
]
MINIMUM = {'committed': 60, 'entries_compared': 500, 'cancelled': 15, 'unsupported': 15, 'removed_paths': 40, 'added_paths': 60}
PRELOAD = ['ratarmount.FuseMount', 'ratarmount.cli', 'ratarmountcore.mountsource.factory']
TECHNIQUE = 'runtime monitoring: the committed archive against the recorded tree of the overlay mount'
NAMES = ['a', 'b', 'c', 'd', 'new', 'x y', 'ü', 'f.txt', '-x', '--checkpoint=1', 'back\\nslash', '\\101', 'new\nline', '*', '?', '[ab]',
         "it's", '@a', '#c', '%41', 'a:b']
ARCHIVES = ['archive.tar', 'a b.tar', 'ü.tar', "it's.tar", 'archive', 'host:archive.tar', 'x.TAR']
FACTS = ('kind', 'size', 'data', 'link')


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('commit', 100 * k, 3), ('cancel', 20 * k, 4), ('unsupported', 24 * k, 4), ('hardlinks', 4, 2), ('implied', 4, 2)]


def commit(arguments, answer):
    """Runs the command line. Returns ('returned', code) or ('raised', text)."""
    from ratarmount.cli import cli

    old = sys.stdin
    sys.stdin = io.StringIO(answer)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(out):
            code = cli(arguments)
        return 'returned', code if code == 0 else f"{code} {out.getvalue()[-600:]}"
    except SystemExit as exception:
        return 'exited', exception.code
    except Exception as exception:
        return 'raised', f"{type(exception).__name__}: {exception}"
    finally:
        sys.stdin = old


def shown(tree):
    return {path: {k: v for k, v in facts.items() if k in FACTS} for path, facts in tree.items()}


def tar_of(ctx, rng, name, tree, odd=True):
    """The members of the tree in random spellings, formats and versions."""
    spelling = rng.choice(['', '', './', '/']) if odd else ''
    members = []
    for path, node in sorted(tree.items()):
        if odd and node.kind == 'file' and rng.random() < 0.15:
            members.append(targen.Member('file', spelling + path[1:], data=b'old version', mtime=1_000_000_000))
        members.append(targen.Member(node.kind, spelling + path[1:], data=node.data, mode=node.mode, mtime=int(node.mtime),
                                     linkname=node.link, fmt=rng.choice(['gnu', 'pax', 'ustar']) if odd else 'gnu'))
    data = targen.build(members, record=rng.choice([None, 10240]) if odd else None)
    return gen.write(os.path.join(ctx.root, name), data)


def mount_with(path, overlay, point):
    return fusework.mount([path], point, writeOverlay=overlay, indexFilePath=':memory:')


def alone(path, point):
    ops = fusework.mount([path], point, indexFilePath=':memory:')
    try:
        return fusework.tree(ops)
    finally:
        fusework.unmount(ops)


def session(ctx, rng, path, overlay, point, operations):
    """Changes something. Returns (the tree shown at the end, the tree at the start), or None after a violation."""
    ops = mount_with(path, overlay, point)
    try:
        start = fusework.tree(ops)
        root = ctx.mkdir('reference')
        fusework.populate(root, start)
        mirror = fusework.Mirror(ctx, ops, root)
        for _ in range(operations):
            fusework.step(mirror, rng)
        mirror.close_all()
        if not mirror.compare('history'):
            return None
        return fusework.tree(ops), start, mirror.text()
    finally:
        fusework.unmount(ops)
        ops.writeOverlay.sqlConnection.close()


def case(ctx, scenario, i, rng):
    # The root folder is not accessible in the mount and symbolic links to nowhere have no meaning for the real tar.
    temporary = ctx.mkdir('tmp')
    tempfile.tempdir = temporary
    names, fusework.NAMES = fusework.NAMES, NAMES if rng.random() < 0.7 else fusework.NAMES
    old = os.getcwd()
    try:
        {"commit": commit_case, "cancel": cancel, "unsupported": unsupported, "hardlinks": hardlinks, "implied": implied}[scenario](ctx, rng)
    finally:
        os.chdir(old)
        fusework.NAMES = names
        tempfile.tempdir = None
    left = indexwork.files_below(temporary)
    ctx.check_that(not left, f"{scenario}:litter", f"temporary files are left: {sorted(left)}")


def locations(ctx, rng):
    """(archive name, overlay folder, mount point)"""
    overlay = os.path.join(ctx.root, rng.choice(['overlay', 'over lay', 'ö', "it's"]))
    return rng.choice(ARCHIVES), overlay, ctx.mkdir('mnt')


def arguments_for(ctx, rng, path, overlay, point):
    if rng.random() < 0.3:
        os.chdir(ctx.root)
        path, overlay = os.path.relpath(path), os.path.relpath(overlay)
    if rng.random() < 0.3:
        overlay += '/'
    return ['--commit-overlay', '--write-overlay', overlay, path] + ([point] if rng.random() < 0.7 else [])


def compare_trees(ctx, got, want, key, what):
    different = fusework.differences(shown(got), shown(want), 0)
    ctx.count('entries_compared', len(want))
    return ctx.check_that(not different, f"{key}:{different[0][0] if different else ''}", f"{what}: {[t for _, t in different[:4]]}")


def do_commit(ctx, rng, path, overlay, point, key, times=(1,)):
    """Changes, commits, and compares."""
    done = session(ctx, rng, path, overlay, point, rng.choice([1, 4, 10, 30]))
    if done is None:
        return
    want, start, history = done
    ctx.count('removed_paths', len(set(start) - set(want)))
    ctx.count('added_paths', len(set(want) - set(start)))
    before = c13.fingerprint([overlay])
    for count in times:
        result = commit(arguments_for(ctx, rng, path, overlay, point), 'commit\n')
        if not ctx.equal(result, ('returned', 0), f"{key}:failed", f"commit {count} after {history}"):
            return
        ctx.count('committed')
        if not want:  # an archive without any member is not recognized as a TAR
            with tarfile.open(path, 'r:') as archive:
                ctx.equal(archive.getnames(), [], f"{key}:not-empty", f"commit {count} after {history}")
            return
        if not compare_trees(ctx, alone(path, point), want, key if count == 1 else key + ':again', f"commit {count} after {history}"):
            return
    after = c13.fingerprint([overlay])
    changed = [p for p in before if after.get(p) != before[p]]
    ctx.check_that(not changed, f"{key}:overlay-changed", f"the overlay was changed: {changed}")
    ctx.distinct(key, history[-60:], len(want))
    ctx.sample({'entries': len(want), 'removed': len(set(start) - set(want)), 'history': history[-200:]})


def commit_case(ctx, rng):
    name, overlay, point = locations(ctx, rng)
    tree = c12.make_tree(rng, rng.randrange(1, 18))
    path = tar_of(ctx, rng, name, tree)
    ctx.about = name
    do_commit(ctx, rng, path, overlay, point, 'commit', times=rng.choice([(1,), (1, 2)]))


def hardlinks(ctx, rng):
    """Deleting or replacing the first of several hard links."""
    path = gen.write(os.path.join(ctx.root, 'archive.tar'), targen.build([
        targen.Member('file', 'first', data=b'linked contents', mtime=1_000_000_000),
        targen.Member('hard', 'second', linkname='first', mtime=1_000_000_000),
        targen.Member('file', 'other', data=b'other', mtime=1_000_000_000),
    ]))
    overlay, point = os.path.join(ctx.root, 'overlay'), ctx.mkdir('mnt')
    ops = mount_with(path, overlay, point)
    try:
        vfs = fusework.Vfs(ops)
        rng.choice([lambda: vfs.unlink('/first'), lambda: vfs.rename('/first', '/moved')])()
        want = fusework.tree(ops)
    finally:
        fusework.unmount(ops)
        ops.writeOverlay.sqlConnection.close()
    result = commit(['--commit-overlay', '--write-overlay', overlay, path, point], 'commit\n')
    ctx.count('committed')
    if ctx.equal(result, ('returned', 0), 'hardlinks:failed', 'commit'):
        compare_trees(ctx, alone(path, point), want, 'hardlinks', 'target of a hard link removed')


def implied(ctx, rng):
    """Folders that only exist because of their files."""
    path = gen.write(os.path.join(ctx.root, 'archive.tar'), targen.build([
        targen.Member('file', 'folder/file', data=b'contents', mtime=1_000_000_000),
        targen.Member('file', 'other', data=b'other', mtime=1_000_000_000),
    ]))
    overlay, point = os.path.join(ctx.root, 'overlay'), ctx.mkdir('mnt')
    ops = mount_with(path, overlay, point)
    try:
        vfs = fusework.Vfs(ops)
        rng.choice([lambda: vfs.unlink('/folder/file'), lambda: vfs.rename('/folder/file', '/moved')])()
        want = fusework.tree(ops)
    finally:
        fusework.unmount(ops)
        ops.writeOverlay.sqlConnection.close()
    result = commit(['--commit-overlay', '--write-overlay', overlay, path, point], 'commit\n')
    ctx.count('committed')
    if ctx.equal(result, ('returned', 0), 'implied:failed', 'commit'):
        compare_trees(ctx, alone(path, point), want, 'implied', 'last file of an implied folder removed')


def cancel(ctx, rng):
    name, overlay, point = locations(ctx, rng)
    path = tar_of(ctx, rng, name, c12.make_tree(rng, rng.randrange(1, 10)))
    if session(ctx, rng, path, overlay, point, rng.choice([0, 4, 10])) is None:
        return
    answer = rng.choice(['', '\n', 'no\n', 'commit ', 'Commit\n', 'COMMIT\n', ' commit\n', 'commit.\n', 'y\n', 'yes\ncommit\n', 'commi\n', 'n'])
    before = c13.fingerprint([path, overlay])
    result = commit(arguments_for(ctx, rng, path, overlay, point), answer)
    ctx.equal(c13.fingerprint([path, overlay]), before, 'cancel:changed', f"after answering {answer!r}: {result}")
    ctx.count('cancelled')
    ctx.distinct('cancel', answer)


def unsupported(ctx, rng):
    name, overlay, point = locations(ctx, rng)
    kind = rng.choice(['tar.gz', 'zip', 'folder', 'squashfs', 'tar.lz4', 'no-overlay', 'no-archive', 'two', 'no-option'])
    sources = []
    if kind in ('no-overlay', 'two', 'no-option', 'no-archive'):
        path = tar_of(ctx, rng, name, c12.make_tree(rng, 5))
    else:
        path = c12.write_source(rng, os.path.join(ctx.root, 'source'), kind, c12.make_tree(rng, 8))
    if kind != 'no-overlay' and session(ctx, rng, path, overlay, point, rng.choice([1, 4, 10])) is None:
        return
    arguments = arguments_for(ctx, rng, path, overlay, point)
    if kind == 'no-archive':
        os.remove(path)
    if kind == 'two':
        other = tar_of(ctx, rng, 'other.tar', c12.make_tree(rng, 5))
        sources.append(other)
        arguments = ['--commit-overlay', '--write-overlay', overlay, path, other, point]
    if kind == 'no-option':
        arguments = ['--commit-overlay', path, point]
    before = c13.fingerprint([ctx.root])
    result = commit(arguments, 'commit\n')
    ctx.check_that(result[0] == 'raised' or result[1] not in (0, None), f"unsupported:{kind}:accepted", f"{arguments}: {result}")
    after = c13.fingerprint([ctx.root])
    different = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    ctx.check_that(not different, f"unsupported:{kind}:changed", f"{arguments}: {result}, changed {different}")
    ctx.count('unsupported')
    ctx.distinct('unsupported', kind)


