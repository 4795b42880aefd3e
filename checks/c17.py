"""C17: listing, metadata, and lookup of every source must tell the same tree, and nothing outside of it."""

import errno
import io
import json
import os
import posixpath
import sqlite3
import stat
import struct
import unicodedata
import zipfile

from rv import fusework, gen, targen, view, zoo
from rv.core import HarnessError
from rv.zoo import Node

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = (
    'A case opens one source (35 formats; archives with hostile member names of 8 formats from encoders of our own; folders '
    'next to secrets; layered mounts), walks it, and demands for every folder that list, list_mode, lookup, exists, is_dir '
    'agree in names, types, and metadata, and for hundreds of mutated and hostile query paths that not listed means not '
    'found; distinct: (format, layer, query class).'
)
MINIMUM = {'entries_checked': 6000, 'absent_queries': 20000, 'folders_checked': 1500, 'hostile_members_found': 300, 'escapes_tried': 500}
PRELOAD = ['ratarmountcore.mountsource.factory', 'ratarmount.FuseMount']
HOSTILE_FORMATS = ['tar', 'zip', 'rar', 'cpio', 'ar', 'sqlar', 'sqlar-denormal', 'asar']


def plan(tier):
    k = 3 if tier == 'quick' else 25
    return [('zoo', 2 * len(zoo.FORMATS) * k, 5), ('hostile', 14 * len(HOSTILE_FORMATS) * k, 8), ('folder', 20 * k, 5),
            ('layers', 40 * k, 5), ('fuse', 30 * k, 5), ('gzname', 20 * k, 6)]


def facts(info, generated):
    if info is None:
        return None
    kind = view.kind_of(info.mode)
    result = {'kind': kind, 'mode': oct(info.mode), 'link': info.linkname or '', 'uid': info.uid, 'gid': info.gid}
    if kind != 'dir':
        result['size'] = info.size
    # Folders that are not stored but implied get the current time.
    if not (kind == 'dir' and abs(info.mtime - generated) < 1000):
        result['mtime'] = info.mtime
    return result


BAD_NAMES = ['%', '_', '*', '?', '[a]', "'", '"', "' OR '1'='1", ';', '\\', '\n', ' ', '\t', '-', '~', '$HOME', '.versions', '0',
             'n' * 300, 'ü', 'A' * 5000, 'files', '\x7f', '%00', '\udcff']


def absent_queries(rng, known, folders, files):
    """Paths that must not be found: (class, path)."""
    folders, files = sorted(folders), sorted(files)
    for _ in range(40):
        folder = rng.choice(folders)
        yield 'bad', view.join(folder, rng.choice(BAD_NAMES))
    for path in rng.sample(sorted(known), min(len(known), 25)):
        folder, name = path.rsplit('/', 1)
        candidates = [
            ('case', folder + '/' + name.swapcase()), ('prefix', path[:-1]), ('suffix', path + rng.choice('x .0~')),
            ('space', folder + '/ ' + name), ('glob', folder + '/' + name[:-1] + '?'), ('glob', folder + '/' + name[:1] + '*'),
            ('glob', folder + '/[' + name[:1] + ']' + name[1:]), ('like', folder + '/' + name[:-1] + '_'), ('like', folder + '/%'),
            ('nfd', folder + '/' + unicodedata.normalize('NFD', name)), ('nfc', folder + '/' + unicodedata.normalize('NFC', name)),
            ('other-folder', rng.choice(folders).rstrip('/') + '/' + name), ('backslash', '/' + path[1:].replace('/', '\\')),
            ('versions', path + '.versions'), ('twice', path + path), ('newline', path + '\n'), ('quote', path + "'"),
        ]
        yield from rng.sample(candidates, 9)
    for path in rng.sample(files, min(len(files), 12)):
        yield 'below-file', path + '/' + rng.choice(['x', path.rsplit('/', 1)[1], '0', 'files'])
        yield 'below-missing', path + '.missing/' + path.rsplit('/', 1)[1]


def check_source(ctx, rng, ms, tag, generated, allowNested=()):
    """All invariants. Returns path -> FileInfo."""
    found, folders, files = {}, {'/'}, set()
    stack = ['/']
    root = ms.lookup('/')
    ctx.check_that(root is not None and stat.S_ISDIR(root.mode), f"{tag}:root", f"the root is {root}")
    while stack:
        folder = stack.pop()
        listing, modes = ms.list(folder), ms.list_mode(folder)
        ctx.count('folders_checked')
        names = [] if listing is None else list(listing)
        modeNames = [] if modes is None else list(modes)
        ctx.check_that(len(set(names)) == len(names), f"{tag}:duplicate-names", folder)
        ctx.check_that(sorted(map(repr, names)) == sorted(map(repr, modeNames)), f"{tag}:list-vs-list-mode",
                       lambda: f"{folder!r}: {sorted(map(repr, names))[:8]} {sorted(map(repr, modeNames))[:8]}")
        for name in names:
            if not isinstance(name, str) or name in ('', '.', '..') or '/' in name:
                ctx.fail(f"{tag}:bad-name", f"{name!r} is listed in {folder!r}")
                continue
            path = view.join(folder, name)
            info = ms.lookup(path)
            ctx.count('entries_checked')
            if info is None:
                ctx.fail(f"{tag}:listed-not-found", path)
                continue
            if isinstance(listing, dict) and listing[name] is not None:
                ctx.check_that(facts(listing[name], generated) == facts(info, generated), f"{tag}:list-vs-lookup",
                               lambda: f"{path!r}: list {facts(listing[name], generated)}, lookup {facts(info, generated)}")
            if isinstance(modes, dict) and modes[name] is not None:
                ctx.check_that(stat.S_IFMT(modes[name]) == stat.S_IFMT(info.mode), f"{tag}:list-mode-vs-lookup",
                               lambda: f"{path!r}: list_mode {oct(modes[name])}, lookup {oct(info.mode)}")
            isDir = stat.S_ISDIR(info.mode)
            ctx.check_that(ms.exists(path) is True and ms.is_dir(path) is isDir, f"{tag}:exists", path)
            ctx.check_that(ms.versions(path) >= 1, f"{tag}:versions", f"{path!r} has {ms.versions(path)} versions")
            found[path] = info
            if isDir:
                folders.add(path)
                if path.count('/') > 300 or len(found) > 5000:
                    ctx.fail(f"{tag}:endless", f"{len(found)} entries, {path[:200]!r}")
                    return found
                stack.append(path)
            else:
                files.add(path)
                ctx.check_that(ms.list(path) is None and ms.list_mode(path) is None, f"{tag}:file-listed", path)
    for kind, path in absent_queries(rng, found, folders, files):
        if path in found or path in folders or not path or any(p in ('', '.', '..') for p in path[1:].split('/')):
            continue
        if any(path.startswith(p) for p in allowNested):
            continue
        ctx.count('absent_queries')
        ctx.distinct(tag, kind)
        try:
            got = ms.lookup(path)
            listing, modes = ms.list(path), ms.list_mode(path)
        except Exception as exception:
            ctx.fail(f"{tag}:query-{kind}:{type(exception).__name__}", f"{path[:200]!r}: {exception!r}")
            continue
        ctx.check_that(got is None, f"{tag}:found-not-listed:{kind}", lambda: f"{path[:200]!r} is not listed but looking it up gives {got}")
        ctx.check_that(listing is None and modes is None, f"{tag}:missing-listed:{kind}", lambda: f"{path[:200]!r}: {listing}")
        ctx.check_that(not ms.exists(path) and not ms.is_dir(path), f"{tag}:missing-exists:{kind}", path[:200])
    return found


# -- hostile archives ---------------------------------------------------------------------------------------------------
NAMES = ['plain', 'dir/sub/file', '../up', '../../../../up2', '/abs/path', '//abs2', './dot', './/dot2', 'a/../b', 'a/./c', 'a//d',
         'x/../../y', 'per%cent', 'under_score', 'star*', 'que?', '[x]', '[!x]', "quo'te", '"dq"', "'; DROP TABLE files; --",
         'new\nline', 'tab\t', ' space', 'space ', '...', '.hidden', '..a', 'a..', 'c:\\x', 'back\\slash', 'n' * 250,
         'deep/' * 60 + 'f', 'Case', 'cASE', 'dup/child', 'name.versions', 'v.versions/1', '-rf', '~', '$HOME', 'a=b', '%2e%2e',
         unicodedata.normalize('NFC', 'é'), unicodedata.normalize('NFD', 'é'), '\u202egnp', '\ufeff', '🙂', 'x/y', 'files',
         'sqlite_master', '\x01\x02', 'a/b/../../../../c', 'trailing/', 'dir/sub/', 'dir/./sub2/.', '..../x', '.. /x']


def hostile_members(rng):
    """name -> Node, names as stored"""
    names = rng.sample(NAMES, rng.randrange(5, 25))
    if rng.random() < 0.3:
        names += ['prefix' + name for name in rng.sample(names, 2)]
    if rng.random() < 0.3:
        names.append('/'.join(rng.choice(['a', 'b', '..', '.', '', 'ü', '*']) for _ in range(6)) + '/end')
    result = {}
    for k, name in enumerate(names):
        node = Node('dir' if name.endswith(('/', '/.')) else 'file', mode=0o755 if name.endswith('/') else 0o644, mtime=1_000_000_000 + 2 * k)
        if node.kind == 'file':
            node.data = b'content of ' + name.encode()
        result[name] = node
    # What is listed for a file that is a folder at the same time is not specified.
    places = {normal(name) for name in result}
    return {name: n for name, n in result.items()
            if n.kind == 'dir' or not any(place.startswith(normal(name) + '/') for place in places)}


def encode(rng, fmt, members):
    """The bytes of the archive and the members in it."""
    if fmt == 'tar':
        kinds = [targen.Member(n.kind, name, data=n.data, mode=n.mode, mtime=n.mtime, fmt=rng.choice(['gnu', 'pax']))
                 for name, n in members.items()]
        return targen.build(kinds), members
    if fmt == 'zip':
        buffer = io.BytesIO()
        members = {name: n for name, n in members.items() if '\0' not in name}
        with zipfile.ZipFile(buffer, 'w') as file:
            for name, n in members.items():
                info = zipfile.ZipInfo('x', (2001, 9, 9, 1, 46, 40))
                info.filename = name
                info.external_attr = (n.mode | (stat.S_IFDIR if n.kind == 'dir' else stat.S_IFREG)) << 16
                info.create_system = 3
                file.writestr(info, n.data)
        return buffer.getvalue(), members
    if fmt == 'rar':
        return zoo.rar5([(name.encode(), n) for name, n in members.items()]), members
    if fmt == 'cpio':
        out, inode = b'', 1
        for name, n in [*members.items(), ('TRAILER!!!', None)]:
            encoded, inode = name.encode() + b'\0', inode + 1
            mode = 0 if n is None else n.mode | (stat.S_IFDIR if n.kind == 'dir' else stat.S_IFREG)
            data = b'' if n is None else n.data
            out += b'070701' + b'%08X' * 13 % (inode, mode, 0, 0, 1, 7, len(data), 0, 0, 0, 0, len(encoded), 0) + encoded
            out += b'\0' * (-len(out) % 4) + data
            out += b'\0' * (-len(out) % 4)
        return out, members
    if fmt == 'ar':
        members = {name: n for name, n in members.items() if n.kind == 'file' and '\n' not in name}
        out = b'!<arch>\n'
        for name, n in members.items():
            body = name.encode() + n.data
            out += zoo.ar_header(b'#1/%d' % len(name.encode()), n, len(body)) + body + b'\n' * (len(body) % 2)
        return out, members
    if fmt.startswith('sqlar'):
        return None, members
    # ASAR stores a tree, so that names are only single components.
    files, content, kept = {}, b'', {}
    for name, n in members.items():
        if n.kind != 'file':
            continue
        files[name] = {'size': len(n.data), 'offset': str(len(content))}
        content += n.data
        kept[name] = n
    text = json.dumps({'files': files}).encode()
    padding = -len(text) % 4
    pickled = struct.pack('<I', len(text)) + text + b'\0' * padding
    return struct.pack('<III', 4, len(pickled) + 4, len(pickled)) + pickled + content, kept


def normal(name):
    return posixpath.normpath('/' + name.lstrip('/'))


def case_hostile(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    fmt = HOSTILE_FORMATS[i % len(HOSTILE_FORMATS)]
    members = hostile_members(rng)
    path = os.path.join(ctx.mkdir(), 'archive.' + fmt.split('-')[0])
    data, members = encode(rng, fmt, members)
    if data is None:
        with_parents = dict(members)
        if fmt == 'sqlar':  # In the usual form, SQLAR names have no such spellings and all folders are stored.
            members = {normal(name)[1:]: n for name, n in members.items() if normal(name) != '/'}
            for name in list(members):
                parts = name.split('/')
                for k in range(1, len(parts)):
                    members.setdefault('/'.join(parts[:k]), Node('dir', mode=0o755, mtime=1_000_000_000))
            for name in list(members):
                if any(other.startswith(name + '/') for other in members):
                    members[name] = Node('dir', mode=0o755, mtime=1_000_000_000)
            with_parents = members
        zoo.write_sqlar(sqlite3.connect(path), rng, {'/' + name: n for name, n in with_parents.items()})
    else:
        gen.write(path, data)
    options = {}
    if rng.random() < 0.3:
        options = dict(writeIndex=True, indexFilePath=os.path.join(ctx.mkdir('index'), 'index'), indexMinimumFileCount=0)
    ctx.about = f"{fmt} {list(members)}"
    generated = __import__('time').time()
    for _ in range(2 if options else 1):
        with open_mount_source(path, **options) as ms:
            found = check_source(ctx, rng, ms, 'hostile-' + fmt, generated)
            for p in found:
                if not p.startswith('/') or p != posixpath.normpath(p):
                    ctx.fail(f"hostile-{fmt}:denormal", p)
            check_members(ctx, ms, fmt, members, found)


def case_gzname(ctx, i, rng):
    """A gzip file stores the name of the original file, which may be anything, too."""
    from checks.c16 import gzip_member
    from ratarmountcore.mountsource.factory import open_mount_source

    names = [*NAMES, '', '.', '..', '/', '../', 'dir/', '/etc/passwd', '../../x']
    name = names[i % len(names)]
    encoded = rng.choice([name.encode(), name.encode() + b'\xff', name.encode('latin1', 'replace')])
    data = rng.randbytes(rng.randrange(1, 2000))
    path = gen.write(os.path.join(ctx.mkdir(), 'outer.gz'), gzip_member(rng, data, encoded))
    ctx.about = repr(encoded)
    with open_mount_source(path) as ms:
        found = check_source(ctx, rng, ms, 'gzname', __import__('time').time())
        if ctx.equal(len(found), 1, 'gzname:entries', str(list(found))):
            ctx.equal(view.read_all(ms, *found.values()), data, 'gzname:content', str(encoded))
            ctx.count('hostile_members_found')


def check_members(ctx, ms, fmt, members, found):
    """Every member is at its normalized path unless another one with the same path or a file above hides it."""
    places = {}
    for name, n in members.items():
        places.setdefault(normal(name), []).append((name, n))
    for place, group in places.items():
        if place == '/' or len(group) > 1 or any(other.startswith(place + '/') for other in places):
            continue
        if any(place.startswith(other + '/') and any(n.kind != 'dir' for _, n in g) for other, g in places.items()):
            continue
        name, n = group[0]
        info = found.get(place)
        if info is None:
            ctx.fail(f"hostile-{fmt}:member-missing", f"member {name!r} is not at {place!r}")
            continue
        ctx.count('hostile_members_found')
        if n.kind == 'file':
            if ctx.equal(view.kind_of(info.mode), 'file', f"hostile-{fmt}:member-kind", name):
                ctx.equal(view.read_all(ms, info), n.data, f"hostile-{fmt}:member-content", name)


# -- folders ------------------------------------------------------------------------------------------------------------
ESCAPES = ['/../secret', '/../secret/file', '/sub/../../secret', '/..', '/../..', '/./../secret', '/sub/../../secret/file', '//../secret',
           '/../src/../secret', '/sub/..//../secret', '/../../../../../../../../etc/passwd', '/.']


def check_escapes(ctx, rng, ms, tag, secret):
    for path in ESCAPES:
        ctx.count('escapes_tried')
        try:
            info = ms.lookup(path)
        except Exception as exception:
            ctx.fail(f"{tag}:escape:{type(exception).__name__}", f"{path!r}: {exception!r}")
            continue
        if info is not None and stat.S_ISREG(info.mode):
            data = view.read_all(ms, info)
            ctx.check_that(data != secret and b'root:' not in data, f"{tag}:escape-file", f"{path!r} reads a file outside of the source")
        for listing in (ms.list(path), ms.list_mode(path)):
            names = [] if listing is None else list(listing)
            ctx.check_that('secret' not in names and 'passwd' not in names, f"{tag}:escape-list", f"{path!r} lists {names[:9]}")


def case_folder(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    base = ctx.mkdir()
    secret = b'secret %d' % rng.getrandbits(60)
    gen.write(os.path.join(base, 'secret', 'file'), secret)
    root = os.path.join(base, 'src')
    tree, _ = zoo.random_tree(rng, names='all', count=20)
    zoo.write_tree(tree, root)
    gen.write(os.path.join(root, 'sub', 'x'), b'x')
    gen.write(os.path.join(base, 'src2', 'y'), b'shares the prefix')  # A sibling whose path begins with that of the source
    generated = __import__('time').time()
    options = {}
    if rng.random() < 0.4:
        options = dict(forceFolderIndex=True, writeIndex=True, indexMinimumFileCount=0, indexFilePath=os.path.join(ctx.mkdir(), 'index'))
    with open_mount_source(root, **options) as ms:
        tag = 'folder-indexed' if options else 'folder'
        found = check_source(ctx, rng, ms, tag, generated if options else 0)
        check_escapes(ctx, rng, ms, tag, secret)
        on_disk = {p[len(root):] for p, dirs, files in os.walk(root) for p in [os.path.join(p, n) for n in dirs + files]}
        ctx.check_that(set(found) == on_disk, f"{tag}:paths", lambda: f"{sorted(set(found) ^ on_disk)[:5]}")


def case_zoo(ctx, i, rng):
    from ratarmountcore.mountsource.factory import open_mount_source

    fmt = zoo.FORMATS[i % len(zoo.FORMATS)]
    source = zoo.make(fmt, rng, ctx.mkdir())
    options = dict(source.options)
    ctx.about = fmt
    with open_mount_source(source.path, **options) as ms:
        ctx.about = f"{fmt} {type(ms).__name__}"
        found = check_source(ctx, rng, ms, fmt, __import__('time').time())
        ctx.check_that(set(found) == set(source.tree), f"{fmt}:paths", lambda: f"{sorted(set(found) ^ set(source.tree))[:5]}")
        gen.write(os.path.join(os.path.dirname(source.path), '..', 'secret', 'file'), b'secret!')
        check_escapes(ctx, rng, ms, fmt, b'secret!')


def case_layers(ctx, i, rng):
    from checks.c02 import layer
    from ratarmountcore.mountsource.factory import open_mount_source

    fmt = rng.choice([f for f in zoo.FORMATS if f != 'git'])
    source = zoo.make(fmt, rng, ctx.mkdir())
    ms, prefix, tags = layer(ctx, rng, open_mount_source(source.path, **source.options))
    ctx.about = f"{fmt} {tags}"
    with ms:
        found = check_layers(ctx, rng, ms, tags)
        below = {p[len(prefix):] for p in found if p.startswith(prefix + '/')}
        ctx.check_that(below == set(source.tree), 'layers:paths', lambda: f"{sorted(below ^ set(source.tree))[:5]}")


def check_layers(ctx, rng, ms, tags):
    found = {path for path, _ in view.walk(ms)}
    allow = sorted(found) if 0 in tags else ()  # The versions folders are hidden on purpose.
    return check_source(ctx, rng, ms, 'layers', __import__('time').time(), allowNested=[p + '.versions' for p in allow])


def case_fuse(ctx, i, rng):
    """The same agreement for the file system operations."""
    fmt = rng.choice([f for f in zoo.FORMATS if f != 'git'])
    source = zoo.make(fmt, rng, ctx.mkdir())
    ops = fusework.mount([source.path], ctx.mkdir(), **{**source.options, 'recursionDepth': None})
    try:
        got = fusework.tree(ops)  # Checks every name and type against getattr.
        for path, entry in got.items():
            ctx.check_that(' BUT ' not in entry['kind'] and ' but ' not in entry['kind'], 'fuse:listed-vs-getattr', f"{path!r}: {entry['kind']}")
            ctx.count('entries_checked')
        ctx.check_that(set(got) == set(source.tree), 'fuse:paths', lambda: f"{fmt}: {sorted(set(got) ^ set(source.tree))[:5]}")
        folders = {'/'} | {p for p, e in got.items() if e['kind'] == 'dir'}
        for kind, path in absent_queries(rng, got, folders, set(got) - folders):
            if path in got or path in folders or not path or any(p in ('', '.', '..') for p in path[1:].split('/')) or '.versions' in path:
                continue
            ctx.count('absent_queries')
            try:
                ops.getattr(path)
            except OSError as exception:
                ctx.check_that(exception.errno == errno.ENOENT, f"fuse:absent:{kind}", f"{path[:200]!r} raised {exception!r}")
                continue
            except Exception as exception:
                ctx.fail(f"fuse:absent:{kind}", f"{path[:200]!r} raised {exception!r} instead of ENOENT")
                continue
            ctx.fail(f"fuse:absent:{kind}:found", path[:200])
    finally:
        fusework.unmount(ops)


def case(ctx, scenario, i, rng):
    globals()['case_' + scenario](ctx, i, rng)
