"""C27: the command line does what its documentation says."""

import contextlib
import json
import os
import random
import shutil
import stat
import tempfile
import time

from checks import c07, c10
from rv import cliwork, fusework, gen, indexwork, targen, view, zoo
from rv.zoo import Node

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = (
    'The real command line entry point runs in-process with a recording stand-in for the kernel mount. place: random lists of '
    'sources (archives, folders, URLs, duplicates) with and without mount points; the mounted sources, their priority, the chosen '
    'mount point, its creation and removal, and the arguments for FUSE are compared with the documentation. options: random '
    'combinations of all mount options on sources for which they matter; the tree, extended attributes, and index files must be '
    'those of the library called with the documented meaning. effects: single options against hand-derived listings. '
    'indexonly: --no-mount must create complete usable indexes and mount nothing. refused: invalid command lines must end with an '
    'error and change nothing. unmount: exactly the named mount points are passed on. '
    'distinct: (scenario, options and kinds of sources).'
)
ASSUMPTIONS = ['The kernel mount, daemonizing, and fusermount are replaced by recording stand-ins.']
MINIMUM = {'placed': 120, 'inferred': 40, 'combinations': 200, 'effects': 60, 'indexed_archives': 60, 'refusals': 80, 'unmounts': 15, 'entries_compared': 4000}
PRELOAD = ['ratarmount.FuseMount', 'ratarmount.cli', 'ratarmount.actions', 'ratarmountcore.mountsource.factory', 'libarchive', 'rapidgzip']
TECHNIQUE = 'runtime monitoring: what the command line hands to FUSE and leaves on disk against the documented meaning'


def plan(tier):
    k = 1 if tier == 'quick' else 15
    return [('place', 200 * k, 5), ('options', 240 * k, 5), ('effects', len(EFFECTS) * 6 * k, 6), ('indexonly', 60 * k, 5),
            ('refused', 120 * k, 6), ('unmount', 24 * k, 6)]


def environment(ctx):
    home = os.path.join(ctx.root, 'home')
    os.makedirs(home, exist_ok=True)
    return {'HOME': home, 'TMPDIR': ctx.mkdir('tmp')}


# ---------------------------------------------------------------- sources and mount points

FORMATS = {'.tar': 'tar', '.tar.gz': 'tar.gz', '.tgz': 'tgz', '.tar.bz2': 'tar.bz2', '.tar.xz': 'tar.xz', '.zip': 'zip', '.7z': '7z', '.squashfs': 'squashfs', '.TAR': 'tar', '.Zip': 'zip', '.unknownext': 'tar', '': 'zip', '.docx': 'zip', '.v1.5': 'tar'}


def marked(k):
    return {'/which': Node('file', b'%d' % k, mtime=10**9, mode=0o644), f"/only{k}": Node('file', b'content %d' % k, mtime=10**9, mode=0o600),
            f"/d": Node('dir', mtime=10**9, mode=0o755), f"/d/f{k}": Node('file', b'', mtime=10**9, mode=0o644)}


def make_source(ctx, rng, folder, k, suffix=None):
    """(path, suffix or None for folders)"""
    suffix = rng.choice([*FORMATS, None, None]) if suffix is None else suffix
    stem = rng.choice(['arch', 'x y', 'ü', 'v1.2', 'a.b.c', '-dash', 'with,comma', 'tar', '[b]', 'q?']) + str(k)
    if suffix is None:
        path = os.path.join(folder, stem + rng.choice(['', '.tar', '.d']))
        zoo.write_tree(marked(k), path)
        return path, None
    path = os.path.join(folder, stem + suffix)
    gen.write(path, c10.Maker(ctx, rng).pack(FORMATS[suffix], marked(k)).data)
    return path, suffix


def inferred(path, suffix):
    if suffix == '':
        name = os.path.basename(path)
        base = os.path.splitext(path)[0]
        return base if base != path else path + '.mounted'
    if suffix in ('.unknownext', '.v1.5'):
        return os.path.splitext(path)[0]
    return path[: -len(suffix)]


def place(ctx, i, rng):
    top = ctx.mkdir('data')
    if rng.random() < 0.3:
        top = os.path.join(top, rng.choice(['fol.der', 'folder.tar', 'a b']))
        os.mkdir(top)
    cwd = rng.choice([top, ctx.mkdir('cwd')])
    count = rng.choice([1, 1, 1, 2, 2, 3, 4])
    sources = [make_source(ctx, rng, top, k) for k in range(count)]
    mode = rng.choice(['new', 'existing', 'none', 'none', 'source-folder'])
    if mode == 'none' and sources[-1][1] is None:
        sources.append(make_source(ctx, rng, top, len(sources), rng.choice(list(FORMATS))))
    point = None
    kept = True
    if mode == 'new':
        point, kept = os.path.join(ctx.mkdir('m'), rng.choice(['mnt', 'm.tar', 'x y', 'a/'])), False
    elif mode == 'existing':
        point = ctx.mkdir('mnt')
        if rng.random() < 0.3:
            gen.write(os.path.join(point, 'hidden below'), b'')
    elif mode == 'source-folder':
        folders = [path for path, suffix in sources if suffix is None]
        if not folders:
            mode = 'none'
        else:
            point = rng.choice(folders)
    expected = point
    if mode == 'none':
        path, suffix = sources[0]
        if suffix is None:
            expected = os.path.splitext(path)[0] if path.endswith(('.tar', '.d')) else path
            if os.path.basename(path).endswith('.tar'):
                expected = path[:-4]
            elif expected == path:
                expected = os.path.splitext(path)[0] if os.path.splitext(path)[0] != path else path + '.mounted'
        else:
            expected = inferred(path, suffix)
        kept = False
        ctx.count('inferred')
        what = rng.random()
        if what < 0.2 and not os.path.lexists(expected):
            os.mkdir(expected)
            kept = True
        elif what < 0.3 and not os.path.lexists(expected):
            gen.write(expected, b'in the way')
    arguments, order = [], []
    for k, (path, suffix) in enumerate(sources):
        spelled = path
        r = rng.random()
        if r < 0.25:
            spelled = os.path.relpath(path, cwd)
        elif r < 0.35 and (mode != 'none' or k > 0):
            spelled = os.path.join(ctx.mkdir(), rng.choice(['link', 'link.zip', 'l.tar']))
            os.symlink(path, spelled)
            if mode == 'none' and k == len(sources) - 1 and suffix is None:
                spelled = path
        elif r < 0.45 and (mode != 'none' or k > 0) and not set(path) & set('?[]%# '):
            spelled = 'file://' + path
        arguments.append(spelled if not spelled.startswith('-') else './' + spelled)
        order.append(k)
        if rng.random() < 0.1:
            arguments.append(arguments[-1])  # neighbouring duplicates are one
    if point:
        arguments.append(os.path.relpath(point, cwd) if rng.random() < 0.3 else point)
        if arguments[-1].startswith('-'):
            arguments[-1] = './' + arguments[-1]
    options, kwargs = [], {}
    if rng.random() < 0.4:
        options += [rng.choice(['-f', '--foreground'])]
        kwargs['foreground'] = True
    if rng.random() < 0.3:
        options += [rng.choice(['-o', '--fuse']), 'allow_other,entry_timeout=2.8,x=a=b']
        kwargs.update(allow_other=True, entry_timeout='2.8', x='a=b')
    if rng.random() < 0.2:
        options += ['--prefix', '/d']
        kwargs.update(modules='subdir', subdir='/d')
    subvolumes = rng.random() < 0.25
    if subvolumes:
        options += ['--disable-union-mount']
    line = options + arguments if rng.random() < 0.7 else arguments + options
    if '-' in ''.join(a[:1] for a in arguments):
        line = options + ['--'] + arguments
    line = ['--index-file', ':memory:'] + line
    ctx.about = f"{line} from {cwd}"
    ctx.distinct('place', mode, tuple(suffix for _, suffix in sources), bool(options))
    blocked = expected is not None and os.path.lexists(expected) and not os.path.isdir(expected)
    existed = os.path.exists(expected)
    seen = {}

    def session(ops):
        seen['exists'] = os.path.isdir(expected)
        seen['tree'] = fusework.tree(ops)

    result = cliwork.run(line, session, cwd=cwd, environment=environment(ctx))
    ctx.count('placed')
    if blocked:
        ctx.check_that(result.refused and not result.mounts, 'blocked', f"an inferred mount point that is a file was used: {result}")
        with open(expected, 'rb') as file:
            ctx.check_that(file.read() in (b'in the way',) or expected in [path for path, _ in sources], 'blocked-changed', 'the file in the way was changed')
        ctx.count('refusals')
        return
    ctx.require(result.code == 0 and len(result.mounts) == 1, 'not-mounted', f"{result}")
    mountPoint, given = result.mounts[0]
    ctx.equal(mountPoint, os.path.realpath(expected), 'mount-point')
    ctx.check_that(given.get('nothreads') is True, 'threads', f"FUSE was asked to use threads: {given}")
    given.pop('nothreads', None)
    given.pop('nonempty', None)
    ctx.equal(given, {'foreground': False, **kwargs}, 'fuse-arguments')
    ctx.check_that(seen.get('exists'), 'mount-point-missing', 'the mount point did not exist when FUSE was started')
    ctx.check_that(os.path.exists(expected) == existed, 'mount-point-left', f"the mount point existed: {existed}, afterwards: {not existed}")
    tree = seen['tree']
    if subvolumes and len(sources) > 1:
        names = []
        for path, _ in sources:
            name, number = os.path.basename(path), 1
            names.append(name)
        want = {f"/{name}/only{k}" for k, name in enumerate(names)}
        got = {path for path in tree if path.count('/') == 2 and '/only' in path}
        ctx.equal(got, want, 'subvolumes')
        for k, name in enumerate(names):
            ctx.equal(tree.get(f"/{name}/which", {}).get('data'), b'%d' % k, 'subvolume-contents')
    else:
        ctx.equal({path for path in tree if path.startswith('/only')}, {f"/only{k}" for k in order}, 'sources')
        ctx.equal(tree.get('/which', {}).get('data'), b'%d' % order[-1], 'priority', 'the last source')
        ctx.equal({path for path in tree if path.startswith('/d/')}, {f"/d/f{k}" for k in order}, 'merged')
    ctx.count('entries_compared', len(tree))


# ---------------------------------------------------------------- combinations of options

def rich_tar(ctx, rng, level=2):
    maker = c10.Maker(ctx, rng)
    maker.hardLinks = True
    nested = maker.archive(level, rng.choice(['tar', 'tar.gz', 'zip']))
    first = [
        targen.Member('file', 'dup', data=b'older version', mtime=5), targen.Member('file', 'folder/x.txt', data=gen.blob(rng, 3000), mtime=7),
        targen.Member('file', '', rawName=b'caf\xe9.txt', data=b'latin', fmt='gnu'), targen.Member('file', 'folder/inner' + nested.suffix, data=nested.data, mtime=8),
        targen.Member('file', 'folder/inner.bin', data=nested.data), targen.Member('sym', 'link', linkname='dup'),
        targen.Member('file', '13405641735/snapshot', data=b'incremental', mtime=9), targen.Member('dir', 'empty'),
        targen.Member('file', 'text.gz', data=gen.compress('gz', b'text', rng)), targen.Member('hard', 'hard', linkname='folder/x.txt'),
        targen.Member('file', 'dup', data=b'newer version', mtime=6),
    ]
    return targen.build(first) + targen.build([targen.Member('file', 'behind-zeros', data=b'seen with -i', mtime=11)])


def world(ctx, rng):
    top = ctx.mkdir('data')
    sources, kinds = [], []
    for k in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['tar', 'tar', 'tar.gz', 'tar.bz2', 'zip', 'folder', 'secret', '7z'])
        path = os.path.join(top, f"s{k}.{kind}")
        if kind == 'tar':
            gen.write(path, rich_tar(ctx, rng))
        elif kind.startswith('tar.'):
            gen.write(path, gen.compress(kind[4:], rich_tar(ctx, rng), rng))
        elif kind in ('zip', '7z'):
            gen.write(path, c10.Maker(ctx, rng).archive(2, kind).data)
        elif kind == 'folder':
            zoo.write_tree(c10.Maker(ctx, rng).tree(2), path)
            gen.write(os.path.join(path, 'inside.tar'), rich_tar(ctx, rng, 1))
        else:
            plain = ctx.mkdir()
            gen.write(os.path.join(plain, 'hidden.txt'), b'plain text')
            gen.run(['7z', 'a', '-tzip', '-psecret', '-y', '-bd', path, '.'], cwd=plain)
        sources.append(path)
        kinds.append(kind)
    return top, sources, kinds


def mount_options(ctx, rng):
    """(arguments, library options) of random documented mount options."""
    overlay = ctx.mkdir('overlay')
    index = ctx.mkdir('index')
    passwords = gen.write(os.path.join(ctx.mkdir('pw'), 'pass words'), rng.choice([b'wrong\nsecret\nother', b'secret', b'secret\n', b'a\n\nb\nsecret\n']))
    with open(passwords, 'rb') as file:
        listed = file.read().split(b'\n')
    pattern, replacement = rng.choice([('^(.*/)?([^/]+)$', r'/flat/\2'), (r'[.]', '-'), ('x', 'yy'), ('^/', '/pre/')])
    depth = rng.choice([0, 1, 2, -1])
    extensions = rng.choice([['/archive'], ['.zip'], ['/all', '.tar/-'], ['*'], ['.tar', '.gz'], ['.b?n']])
    gs = rng.choice(['0.0625', '1', '2.5'])
    file = os.path.join(index, rng.choice(['my.index', 'a b']))
    folders = rng.choice([[index], [index + '/x,y', ''], ['', index], ['~/idx', index]])
    if any(',' in folder for folder in folders) or rng.random() < 0.3:
        spelled = json.dumps(folders)
    else:
        spelled = ','.join(folders) if len(folders) > 1 else folders[0]
    choices = [
        (rng.choice([['-r'], ['--recursive']]), {'recursive': True}),
        (['--recursive', '--no-recursive'], {'recursive': False}),
        (['--recursion-depth', str(depth)] if depth >= 0 else [f"--recursion-depth={depth}"], {'recursionDepth': depth}),
        (['-r', '--recursion-depth', '1'], {'recursive': True, 'recursionDepth': 1}),
        (rng.choice([['-l'], ['--lazy']]), {'lazyMounting': True}),
        (rng.choice([['-s'], ['--strip-recursive-tar-extension']]), {'stripRecursiveTarExtension': True}),
        (['--recursive-extensions', ','.join(extensions)], {'recursiveExtensions': extensions}),
        (['--transform-recursive-mount-point', '[.]([a-z0-9]+)$', r'+\1'], {'transformRecursiveMountPoint': ('[.]([a-z0-9]+)$', r'+\1')}),
        (['--transform', pattern, replacement], {'transform': (pattern, replacement)}),
        (rng.choice([['-e', 'latin-1'], ['--encoding', 'latin-1']]), {'encoding': 'latin-1'}),
        (rng.choice([['-i'], ['--ignore-zeros']]), {'ignoreZeros': True}),
        (['--gnu-incremental'], {'isGnuIncremental': True}),
        (['--no-gnu-incremental'], {'isGnuIncremental': False}),
        (['--detect-gnu-incremental'], {'isGnuIncremental': None}),
        (['--disable-union-mount'], {'disableUnionMount': True}),
        (['--no-file-versions'], {'enableFileVersions': False}),
        (['--control-interface'], {'controlInterface': True}),
        (['--hashes', 'md5, sha1'], {'hashes': ['md5', 'sha1']}),
        (['--hashes', 'md5', '--hashes', 'crc32'], {'hashes': ['md5', 'crc32']}),
        (['--force-folder-index'], {'forceFolderIndex': True}),
        (['-P', '2'], {'parallelizations': {'': 2}}),
        (['-P', 'rapidgzip-bzip2:2,:1'], {'parallelizations': {'rapidgzip-bzip2': 2, '': 1}}),
        (['-gs', gs], {'gzipSeekPointSpacing': int(float(gs) * 1024 * 1024)}),
        (['--use-backend', 'libarchive'], {'prioritizedBackends': ['libarchive']}),
        (['--use-backend', 'zipfile,indexed_gzip', '--use-backend', 'libarchive'], {'prioritizedBackends': ['libarchive', 'indexed_gzip', 'zipfile']}),
        (['--union-mount-cache-max-depth', '0', '--union-mount-cache-max-entries', '3', '--union-mount-cache-timeout', '0.5'],
         {'maxCacheDepth': 0, 'maxCacheEntries': 3, 'maxSecondsToCache': 0.5}),
        (['--password', 'secret'], {'passwords': [b'secret']}),
        (['--password-file', passwords], {'passwords': list(dict.fromkeys(listed))}),
        (['--password', 'wrong', '--password-file', passwords], {'passwords': list(dict.fromkeys([b'wrong', *listed]))}),
        (['-w', overlay], {'writeOverlay': overlay}),
        (['--write-overlay', ':temp:'], {'writeOverlay': ':temp:'}),
        (['--index-file', file], {'indexFilePath': file}),
        (['--index-folders', spelled], {'indexFolders': folders}),
        (rng.choice([['-c'], ['--recreate-index']]), {'clearIndexCache': True}),
        (['-c', '--recreate-index-on-errors'], {}),
        (['--no-recreate-index'], {'readOnlyIndex': True}),
        (['--index-minimum-file-count', '0'], {'indexMinimumFileCount': 0}),
        (['--verify-mtime'], {'verifyModificationTime': True}),
        (['--no-color'], {}), (['-d', '0'], {}), (['--debug', '2'], {}),
        (['--log-file', os.path.join(ctx.root, 'logs', 'log')], {'logFile': os.path.join(ctx.root, 'logs', 'log')}),
    ]
    arguments, options = [], {}
    for given, meaning in rng.sample(choices, rng.choice([1, 2, 3, 3, 4, 6])):
        if set(meaning) & set(options) or {'readOnlyIndex', 'clearIndexCache'} & set(meaning) and {'readOnlyIndex', 'clearIndexCache'} & set(options):
            continue
        if set(given) & {a for a in arguments if a.startswith('-')} or given[0] == '-c' and 'readOnlyIndex' in options:
            continue
        arguments += given
        options.update(meaning)
    return arguments, options


DEFAULTS = {'isGnuIncremental': False, 'recursiveExtensions': ['/archive', '/compressed', '/disk', '/split'], 'parallelizations': {'': 1, 'rapidgzip-bzip2': 0},
            'indexMinimumFileCount': 1000, 'writeIndex': True, 'encoding': 'utf-8'}


def everything(ops):
    """The tree with extended attributes and versions."""
    tree = fusework.tree(ops, contents=True) if not has_control(ops) else control_free(ops)
    for path, facts in tree.items():
        if facts['kind'] in ('file', 'dir'):
            names = ops.listxattr(path)
            facts['xattrs'] = {name: ops.getxattr(path, name) for name in names}
            with contextlib.suppress(OSError):
                facts['versions'] = sorted(fusework.entries(ops, path + '.versions'))
    with contextlib.suppress(OSError):
        ops.mkdir('/writable', 0o755)
        tree['writable'] = {'kind': 'writable'}
    return tree


def has_control(ops):
    try:
        ops.getattr('/.ratarmount-control/command')
        return True
    except OSError:
        return False


def control_free(ops):
    result = {'control': {'kind': 'control interface'}}
    stack = ['/']
    while stack:
        folder = stack.pop()
        for name in fusework.entries(ops, folder):
            path = fusework.join(folder, name)
            if path == '/.ratarmount-control':
                continue
            st = ops.getattr(path)
            facts = {'kind': view.kind_of(st['st_mode']), 'perm': stat.S_IMODE(st['st_mode']), 'uid': st['st_uid'], 'mtime': st['st_mtime']}
            if facts['kind'] == 'dir':
                stack.append(path)
            elif facts['kind'] == 'file':
                facts['data'] = fusework.read_file(ops, path)
            result[path] = facts
    return result


def files_in(*tops):
    return {os.path.join(folder, name) for top in tops for folder, _, names in os.walk(top) for name in names}


def options(ctx, i, rng):
    top, sources, kinds = world(ctx, rng)
    arguments, meaning = mount_options(ctx, rng)
    point = ctx.mkdir('mnt')
    env = environment(ctx)
    index = {'indexFilePath', 'indexFolders', 'readOnlyIndex', 'clearIndexCache'} & set(meaning)
    if not index:
        arguments += ['--index-file', ':memory:']
        meaning = {**meaning, 'indexFilePath': ':memory:'}
    line = arguments + sources + [point] if rng.random() < 0.7 else sources + [point] + arguments
    ctx.about = f"{line}"
    ctx.distinct('options', tuple(kinds), tuple(sorted(meaning)))
    ctx.count('combinations')
    before = files_in(ctx.root)
    copy = None
    if meaning.get('writeOverlay', ':temp:') != ':temp:':
        copy = meaning['writeOverlay']
        gen.write(os.path.join(copy, 'from overlay'), b'in the overlay')
    since = int(time.time() * 1e9) - 10**7
    started = time.time_ns() - 10**7
    result = cliwork.run(line, everything, environment=env)
    created = files_in(ctx.root) - before - files_in(env['TMPDIR'])
    for path in created:
        os.remove(path)
    shutil.rmtree(os.path.join(copy, 'writable'), ignore_errors=True) if copy else None
    if copy:
        gen.write(os.path.join(copy, 'from overlay'), b'in the overlay')
    saved = dict(os.environ)
    os.environ.update(env)
    tempfile.tempdir = None
    try:
        expected, error = None, None
        arguments = {**DEFAULTS, **meaning}
        arguments['parallelizations'] = {**arguments['parallelizations']}
        ops = fusework.mount(sources, point, **arguments)
        try:
            expected = everything(ops)
        finally:
            fusework.unmount(ops)
    except Exception as exception:
        error = exception
    finally:
        os.environ.clear()
        os.environ.update(saved)
        tempfile.tempdir = None
    again = files_in(ctx.root) - before - files_in(env['TMPDIR'])
    if error is not None:
        ctx.check_that(result.refused or result.error, 'not-refused', f"the library refuses with {error!r} but the command line gives {result}")
        ctx.count('refusals')
        return
    ctx.require(result.code == 0 and len(result.mounts) == 1, 'not-mounted', f"{result}")
    problems = fusework.differences(result.value, expected, started)
    ctx.count('entries_compared', len(expected))
    ctx.count('oracle_checks', len(expected))
    for field, text in problems[:2]:
        ctx.fail(f"differs:{field}", text)
    clean = lambda paths: {path.replace(ctx.root, '') for path in paths if not path.endswith('-journal')}  # of overlays not yet collected
    ctx.equal(clean(created), clean(again), 'files')
    if meaning.get('indexFilePath') == ':memory:' and 'logFile' not in meaning and not copy:
        ctx.equal(created, set(), 'written', 'nothing is written with an index in memory')
    if meaning.get('logFile'):
        ctx.check_that(meaning['logFile'] in created, 'log', 'the log file was not written')


# ---------------------------------------------------------------- single options against hand-derived listings

def listing(ctx, line, folder='/', what=None):
    result = cliwork.run(['--index-file', ':memory:', *line, ctx.mkdir('mnt')],
                         what or (lambda ops: sorted(path for path in fusework.tree(ops))), environment=environment(ctx))
    ctx.require(result.code == 0 and result.mounts, 'not-mounted', f"{line}: {result}")
    ctx.count('entries_compared', len(result.value) if hasattr(result.value, '__len__') else 1)
    return result.value


def tar_with(ctx, rng, files, name='t.tar', fmt='tar'):
    """files: path -> data"""
    members = [targen.Member('file', path, data=data, mtime=10**9) for path, data in files.items()]
    data = targen.build(members)
    if fmt == 'zip':
        data = c10.Maker(ctx, rng).pack('zip', {'/' + path: Node('file', data, mtime=10**9, mode=0o644) for path, data in files.items()}).data
    return gen.write(os.path.join(ctx.mkdir(), name), data)


def inner(ctx, rng, fmt, files):
    return c10.Maker(ctx, rng).pack(fmt, {'/' + path: Node('file', data, mtime=10**9, mode=0o644) for path, data in files.items()}).data


def effect_depth(ctx, rng):
    deep = inner(ctx, rng, 'zip', {'leaf': b'1'})
    middle = inner(ctx, rng, 'zip', {'deep.zip': deep})
    path = tar_with(ctx, rng, {'middle.zip': middle}, fmt=rng.choice(['tar', 'zip']), name='t.bin')
    for arguments, want in (
        ([], ['/middle.zip']), (['-r'], ['/middle.zip', '/middle.zip/deep.zip', '/middle.zip/deep.zip/leaf']),
        (['--recursion-depth', '0'], ['/middle.zip']), (['--recursion-depth', '1'], ['/middle.zip', '/middle.zip/deep.zip']),
        (['--recursion-depth', '2'], ['/middle.zip', '/middle.zip/deep.zip', '/middle.zip/deep.zip/leaf']),
        (['--recursion-depth=-1'], ['/middle.zip', '/middle.zip/deep.zip', '/middle.zip/deep.zip/leaf']),
        (['-r', '--recursion-depth', '0'], ['/middle.zip']),
        (['-r', '-s'], ['/middle', '/middle.zip', '/middle/deep', '/middle/deep.zip', '/middle/deep/leaf']),
    ):
        ctx.equal(listing(ctx, arguments + [path]), want, f"depth:{' '.join(arguments)}")


def effect_extensions(ctx, rng):
    data = inner(ctx, rng, 'zip', {'leaf': b'1'})
    outer = rng.choice(['tar', 'zip'])
    path = tar_with(ctx, rng, {'a.zip': data, 'b.dat': data, 'c.jar': data, 'd.Zip': data, 'e.txt.gz': gen.compress('gz', b'x', rng)}, fmt=outer, name='outer')
    zips = {'a.zip', 'd.Zip'}
    for given, mounted in (
        ([], zips | {'e.txt.gz'}), (['--recursive-extensions', '.dat'], {'b.dat'}), (['--recursive-extensions', '.dat,.zip'], {'b.dat'} | zips),
        (['--recursive-extensions', '/archive,.zip/-'], set()), (['--recursive-extensions', '/binary'], {'c.jar'}),
        (['--recursive-extensions', '*'], {'b.dat', 'c.jar', 'e.txt.gz'} | zips), (['--recursive-extensions', '/compressed'], {'e.txt.gz'}),
        (['--recursive-extensions', '.zip', '--recursive-extensions', '.jar'], zips | {'c.jar'}),
        (['--recursive-extensions', '.d??'], {'b.dat'}),
    ):
        got = listing(ctx, ['-r', *given, path])
        ctx.equal({name.split('/')[1] for name in got if name.count('/') == 2}, mounted, f"extensions:{' '.join(given[1:])}", f"{got}")


def effect_tar_in_tar(ctx, rng):
    """Known: see known_findings.txt."""
    data = inner(ctx, rng, 'tar', {'leaf': b'1'})
    path = tar_with(ctx, rng, {'a.tar': data, 'b.zip': inner(ctx, rng, 'zip', {'leaf': b'1'})})
    got = listing(ctx, ['-r', '--recursive-extensions', '.zip', path])
    ctx.equal(got, ['/a.tar', '/b.zip', '/b.zip/leaf'], 'extensions:tar-in-tar')


def effect_zeros(ctx, rng):
    one, two = targen.build([targen.Member('file', 'one', data=b'1')]), targen.build([targen.Member('file', 'two', data=b'2')])
    path = gen.write(os.path.join(ctx.mkdir(), 'cat.tar'), one + two)
    ctx.equal(listing(ctx, [path]), ['/one'], 'zeros:off')
    ctx.equal(listing(ctx, [rng.choice(['-i', '--ignore-zeros']), path]), ['/one', '/two'], 'zeros:on')


def effect_encoding(ctx, rng):
    path = gen.write(os.path.join(ctx.mkdir(), 'l.tar'), targen.build([targen.Member('file', '', rawName=b'caf\xe9', data=b'', fmt='gnu')]))
    ctx.equal(listing(ctx, [rng.choice(['-e', '--encoding']), rng.choice(['latin1', 'iso-8859-1', 'cp1252']), path]), ['/caf\xe9'], 'encoding')


def effect_incremental(ctx, rng):
    # The time stamps are where other formats have the name prefix.
    data = bytearray(targen.build([targen.Member('file', 'folder/file', data=b'1', fmt='ustar'), targen.Member('file', 'plain/file', data=b'', fmt='ustar')]))
    data[345:369] = b'13405641735\0' * 2
    data[148:156] = b' ' * 8
    data[148:156] = b'%06o\0 ' % sum(data[:512])
    path = gen.write(os.path.join(ctx.mkdir(), 'i.tar'), bytes(data))
    with_ = [p for p in listing(ctx, ['--gnu-incremental', path]) if 'file' in p]
    ctx.equal(with_, ['/folder/file', '/plain/file'], 'incremental:on')
    without = [p for p in listing(ctx, [path]) if 'file' in p]
    ctx.equal(without, ['/13405641735/folder/file', '/plain/file'], 'incremental:off')


def effect_versions(ctx, rng):
    members = [targen.Member('file', 'f', data=b'old'), targen.Member('file', 'f', data=b'new')]
    path = gen.write(os.path.join(ctx.mkdir(), 'v.tar'), targen.build(members))

    def look(ops):
        try:
            ops.getattr('/f.versions')
            return [fusework.read_file(ops, f"/f.versions/{k}") for k in sorted(fusework.entries(ops, '/f.versions'))]
        except OSError as exception:
            return exception.errno

    ctx.equal(listing(ctx, [*rng.choice([[], ['--file-versions']]), path], what=look), [b'old', b'new'], 'versions:on')
    ctx.equal(listing(ctx, ['--no-file-versions', path], what=look), 2, 'versions:off')


def effect_transform(ctx, rng):
    path = tar_with(ctx, rng, {'a/b.txt': b'', 'c.txt': b''})
    ctx.equal([p for p in listing(ctx, ['--transform', '[.]txt$', '.md', path]) if p.endswith('md') or p.endswith('txt')], ['/a/b.md', '/c.md'], 'transform')
    nested = tar_with(ctx, rng, {'a/n.tar.gz': inner(ctx, rng, 'tar.gz', {'leaf': b'1'}), 'z.zip': inner(ctx, rng, 'zip', {'l2': b''})})
    got = listing(ctx, ['-r', '--transform-recursive-mount-point', '^.*/([^/]+)[.](tar.gz|zip)$', r'/\1', nested])
    ctx.check_that('/n/leaf' in got and '/z/l2' in got, 'transform-mount-point', f"{got}")


def effect_hashes(ctx, rng):
    import hashlib
    import zlib

    data = gen.blob(rng, 2000)
    path = tar_with(ctx, rng, {'f': data})
    look = lambda ops: {name: ops.getxattr('/f', name) for name in ops.listxattr('/f')}
    got = listing(ctx, ['--hashes', 'md5,sha256', '--hashes', 'crc32', path], what=look)
    text = {key: value.decode() if isinstance(value, bytes) else value for key, value in got.items()}
    ctx.equal(text.get('user.hash.md5'), hashlib.md5(data).hexdigest(), 'hash:md5')
    ctx.equal(text.get('user.hash.sha256'), hashlib.sha256(data).hexdigest(), 'hash:sha256')
    ctx.equal(set(text), {'user.hash.md5', 'user.hash.sha256', 'user.hash.crc32'}, 'hash:names')
    ctx.equal(listing(ctx, [path], what=look), {}, 'hash:off')


def effect_password(ctx, rng):
    plain = ctx.mkdir()
    gen.write(os.path.join(plain, 'hidden.txt'), b'plain text')
    word = rng.choice(['secret', 'with space', 'p,w', '-x-', 'a"b', 'f%s'])
    path = os.path.join(ctx.mkdir(), 'secret.zip')
    gen.run(['7z', 'a', '-tzip', '-p' + word, '-y', '-bd', path, '.'], cwd=plain)
    lines = ['no', 'nope', word]
    rng.shuffle(lines)
    file = gen.write(os.path.join(ctx.mkdir(), 'words'), '\n'.join(lines).encode() + rng.choice([b'', b'\n']))
    read = lambda ops: fusework.read_file(ops, '/hidden.txt')
    ctx.equal(listing(ctx, [f"--password={word}", path], what=read), b'plain text', 'password')
    ctx.equal(listing(ctx, ['--password-file', file, path], what=read), b'plain text', 'password-file')
    result = cliwork.run(['--index-file', ':memory:', '--password', 'wrong', path, ctx.mkdir('mnt')], read, environment=environment(ctx))
    ctx.check_that(result.value is None, 'password-wrong', f"{result.value}")


def effect_backend(ctx, rng):
    """The last given backend comes first."""
    path = tar_with(ctx, rng, {'f': b'1'}, fmt='zip', name='f.zip')
    index = os.path.join(ctx.mkdir(), 'i')
    import sqlite3

    for arguments, want in (([], 'zipfile'), (['--use-backend', 'zipfile', '--use-backend', 'libarchive'], 'libarchive'),
                            (['--use-backend', 'libarchive,zipfile'], 'zipfile')):
        result = cliwork.run(['--index-file', index, '-c', *arguments, path, ctx.mkdir('mnt')], lambda ops: fusework.read_file(ops, '/f'), environment=environment(ctx))
        ctx.equal(result.value, b'1', 'backend:contents')
        name = None
        if os.path.exists(index):
            with contextlib.closing(sqlite3.connect(index)) as db:
                name = dict(db.execute('select * from metadata')).get('backendName')
            os.remove(index)
        # libarchive keeps its index in memory
        ctx.check_that((name or '').lower().startswith('zip') == (want == 'zipfile'), f"backend:{' '.join(arguments)}", f"the index was made by {name}")


def effect_overlay(ctx, rng):
    path = tar_with(ctx, rng, {'f': b'from tar', 'g': b'g'})
    overlay = ctx.mkdir('ov')
    gen.write(os.path.join(overlay, 'f'), b'from overlay')

    def change(ops):
        ops.unlink('/g')
        fh = ops.create('/new', 0o100644)
        ops.write('/new', b'new', 0, fh)
        ops.release('/new', fh)
        return {path: facts.get('data') for path, facts in fusework.tree(ops).items()}

    ctx.equal(listing(ctx, [rng.choice(['-w', '--write-overlay']), overlay, path], what=change), {'/f': b'from overlay', '/new': b'new'}, 'overlay')
    ctx.equal(listing(ctx, ['-w', overlay, path]), ['/f', '/new'], 'overlay:again')
    before = files_in(ctx.root)
    ctx.equal(listing(ctx, ['-w', ':temp:', path], what=change), {'/f': b'from tar', '/new': b'new'}, 'overlay:temp')
    ctx.equal(files_in(ctx.root), before, 'overlay:temp-left')


def effect_indexes(ctx, rng):
    """Where the index appears, that it is used, and that it is made anew."""
    path = tar_with(ctx, rng, {'f': b'1'})
    env = environment(ctx)
    folder = ctx.mkdir('idx')
    name = path.replace('/', '_') + '.index.sqlite'
    read = lambda ops: sorted(fusework.tree(ops))
    for arguments, where in (
        ([], path + '.index.sqlite'), (['--index-folders', folder], os.path.join(folder, name)),
        (['--index-folders', json.dumps([folder + '/a,b', ''])], os.path.join(folder, 'a,b', name)),
        (['--index-folders', '~/x,' + folder], os.path.join(env['HOME'], 'x', name)),
        (['--index-folders', ',' + folder], path + '.index.sqlite'), (['--index-file', folder + '/mine'], folder + '/mine'),
    ):
        key = 'index:' + ' '.join(arguments).replace(ctx.root, '')[:15]
        before = files_in(ctx.root)
        result = cliwork.run(['--index-minimum-file-count', '0', *arguments, path, ctx.mkdir('mnt')], read, environment=env)
        ctx.equal(result.value, ['/f'], key)
        created = files_in(ctx.root) - before
        ctx.equal(created, {where}, key + ':where')
        if created != {where}:
            return
        first = os.stat(where).st_ino, os.stat(where).st_mtime_ns
        cliwork.run(['--no-recreate-index', *arguments, path, ctx.mkdir('mnt')], read, environment=env)
        ctx.equal((os.stat(where).st_ino, os.stat(where).st_mtime_ns), first, key + ':unchanged')
        gen.write(where, b'')
        os.remove(where)
        os.close(os.open(where, os.O_CREAT | os.O_WRONLY))
        with open(where, 'wb') as file:
            file.write(b'garbage' * 1000)
        result = cliwork.run(['-c', '--index-minimum-file-count', '0', *arguments, path, ctx.mkdir('mnt')], read, environment=env)
        ctx.equal(result.value, ['/f'], key + ':recreated')
        ctx.check_that(indexwork.is_index(where), key + ':recreated-file', 'no index afterwards')
        os.remove(where)


def effect_control(ctx, rng):
    path = tar_with(ctx, rng, {'f': b'1'})
    look = lambda ops: has_control(ops)
    ctx.equal(listing(ctx, [path], what=look), False, 'control:off')
    ctx.equal(listing(ctx, ['--control-interface', path], what=look), True, 'control:on')


EFFECTS = [effect_depth, effect_extensions, effect_tar_in_tar, effect_zeros, effect_encoding, effect_incremental, effect_versions, effect_transform,
           effect_hashes, effect_password, effect_backend, effect_overlay, effect_indexes, effect_control]


def effects(ctx, i, rng):
    effect = EFFECTS[i % len(EFFECTS)]
    ctx.about = effect.__name__
    ctx.distinct('effects', effect.__name__, i)
    ctx.count('effects')
    effect(ctx, rng)


# ---------------------------------------------------------------- only creating indexes

def indexonly(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    top = ctx.mkdir('data')
    env = environment(ctx)
    archives = []
    folder = os.path.join(top, 'folder')
    os.mkdir(folder)
    recursive = rng.random() < 0.6
    for k in range(rng.choice([1, 2, 3])):
        where = rng.choice([top, folder]) if recursive else top
        path, opts, what = indexwork.tar_archive(rng, where, count=rng.randrange(1, 12), name=f"t{k}")
        archives.append((path, where == folder))
        if opts:
            archives.pop()
            os.remove(path)
    archives = archives or [(gen.write(os.path.join(top, 'only.tar'), rich_tar(ctx, rng)), False)]
    for name in ('z.zip', 'y.7z'):
        where = folder if recursive and rng.random() < 0.5 else top
        if rng.random() < 0.5:
            path = gen.write(os.path.join(where, name), c10.Maker(ctx, rng).archive(0, name.split('.')[1]).data)
            archives.append((path, where == folder))
    sources = [path for path, inside in archives if not inside]
    if any(inside for _, inside in archives):
        sources.insert(rng.randrange(len(sources) + 1), folder)
    index = ctx.mkdir('index')
    line = ['--no-mount', '--index-minimum-file-count', '0', '--index-folders', index, *sources] + (['-r'] if recursive else [])
    ctx.about = f"{line}"
    ctx.distinct('indexonly', recursive, len(sources), tuple(os.path.basename(path) for path, _ in archives))
    before = c07.snapshot(top)
    result = cliwork.run(line, environment=env, cwd=ctx.mkdir('cwd'))
    ctx.require(result.code == 0, 'indexonly', f"{result}")
    ctx.equal(result.mounts, [], 'indexonly:mounted')
    ctx.equal(c07.snapshot(top), before, 'indexonly:changed', 'the sources')
    for path, inside in archives:
        want = os.path.join(index, path.replace('/', '_') + '.index.sqlite')
        if path.endswith('.7z'):
            continue
        ctx.count('indexed_archives')
        ctx.require(os.path.isfile(want), 'indexonly:missing', f"no index for {path}: {sorted(os.listdir(index))}; {result.output[-500:]}")
        facts = os.stat(want).st_mtime_ns
        options = {'recursive': recursive} if recursive else {}
        with open_mount_source(path, indexFilePath=want, readOnlyIndex=True, writeIndex=False, **options) as used:
            got = indexwork.deep(used)
        with open_mount_source(path, indexFilePath=':memory:', **options) as fresh:
            wanted = indexwork.deep(fresh)
        ctx.count('entries_compared', len(wanted))
        ctx.equal(os.stat(want).st_mtime_ns, facts, 'indexonly:rewritten')
        problem = indexwork.explain(got, wanted)
        ctx.check_that(not problem, 'indexonly:incomplete', f"{path}: {problem}")


# ---------------------------------------------------------------- invalid command lines

def refused(ctx, i, rng):
    top = ctx.mkdir('data')
    tar = tar_with(ctx, rng, {'f': b'1'})
    other = tar_with(ctx, rng, {'g': b'1'}, name='other.tar')
    text = gen.write(os.path.join(top, 'notes.txt'), b'just some text, not an archive at all\n' * 3)
    empty = gen.write(os.path.join(top, 'empty.txt'), b'')
    overlay, point = os.path.join(top, 'ov'), os.path.join(top, 'mnt')
    os.mkdir(overlay)
    if rng.random() < 0.5:
        os.mkdir(point)
    mounting = [
        [os.path.join(top, 'missing.tar'), tar], [tar, os.path.join(top, 'missing.zip'), point], [text, point], [tar, text, point], [point, text],
        ['--no-such-option', tar, point], ['-P', '-1', tar, point], ['-P', 'x', tar, point], ['-P', 'a:b', tar, point],
        ['--index-folders', '[broken', tar, point], ['-d', 'x', tar, point], ['--recursion-depth', 'deep', tar, point], ['-gs', 'many', tar, point],
        [tar, other, tar, point], ['nosuchprotocol://host/x.tar', point], [], ['--unmount'], ['--commit-overlay', tar], ['--transform', 'x', tar],
        ['--commit-overlay', '-w', overlay, tar, other], ['--commit-overlay', '-w', os.path.join(top, 'no-overlay'), tar],
        ['--no-mount'], ['--no-mount', os.path.join(top, 'missing.tar')], ['--no-mount', text], ['--password-file', os.path.join(top, 'no-words'), tar, point],
        ['--transform-recursive-mount-point', 'x', tar], ['--union-mount-cache-timeout', 'soon', tar, point], ['--unmount', '--commit-overlay', tar],
        [empty, point], [os.path.join(top, 'missing')], ['--index-minimum-file-count', '1.5', tar, point], ['-P', '2:3:4', tar, point],
    ]
    line = mounting[i % len(mounting)]
    ctx.about = f"{line}".replace(ctx.root, '')
    ctx.distinct('refused', i % len(mounting))
    before = c07.snapshot(ctx.root)
    result = cliwork.run(line, lambda ops: 'session', environment={}, cwd=top)
    ctx.count('refusals')
    ctx.check_that(not result.error, f"crash:{i % len(mounting)}", f"{line}: {result}")
    ctx.check_that(result.refused and not result.mounts, f"accepted:{i % len(mounting)}", f"{line}: {result}")
    ctx.check_that(result.output.strip(), f"silent:{i % len(mounting)}", f"{line}: {result}")
    after = c07.snapshot(ctx.root)
    changed = {path for path in set(before) | set(after) if before.get(path, ())[:4] != after.get(path, ())[:4] or (
        before[path] != after[path] and not stat.S_ISDIR(before[path][0]))}
    ctx.check_that(not changed, f"changed:{i % len(mounting)}", f"{line} changed {sorted(changed)}")


def unmount(ctx, i, rng):
    """Only what was named is passed to the tool that unmounts."""
    tools = ctx.mkdir('bin')
    log = os.path.join(ctx.root, 'log')
    code = rng.choice([0, 0, 1])
    for name in ('fusermount', 'umount', 'fusermount3'):
        gen.write(os.path.join(tools, name), f'#!/bin/sh\n(printf "%s\\0" {name} "$@"; echo) >> {log}\nexit {code}\n'.encode())
        os.chmod(os.path.join(tools, name), 0o755)
    folder = ctx.mkdir('points')
    points = [os.path.join(folder, name) for name in rng.sample(['a', 'b c', 'ü', 'd.tar', 'e;f', "g'h", '$(i)', '*'], rng.choice([1, 1, 2, 3]))]
    for point in points:
        if rng.random() < 0.7:
            os.mkdir(point)
    gen.write(os.path.join(folder, 'bystander'), b'')
    before = c07.snapshot(folder)
    line = [rng.choice(['-u', '--unmount']), *points] if rng.random() < 0.7 else [*points, '-u']
    ctx.about = f"{line} with a tool exiting with {code}"
    ctx.distinct('unmount', len(points), code, i)
    result = cliwork.run(line, environment={'PATH': tools + ':' + os.environ['PATH']}, cwd=folder)
    ctx.count('unmounts')
    ctx.check_that(not result.error and not result.mounts, 'unmount', f"{result}")
    ctx.equal(result.code, 0, 'unmount:code', 'nothing is mounted there afterwards')
    with open(log, 'rb') as file:
        calls = [line.split(b'\0')[:-1] for line in file.read().split(b'\n') if line]
    ctx.count('oracle_checks', len(calls))
    named = {os.fsdecode(call[-1]) for call in calls}
    ctx.equal(named, set(points), 'unmount:points')
    ctx.check_that(all(call[:2] == [b'fusermount', b'-u'] for call in calls), 'unmount:calls', f"{calls}")
    ctx.equal(c07.snapshot(folder), before, 'unmount:changed', 'the folder')


def case(ctx, scenario, i, rng):
    globals()[scenario](ctx, i, rng)
