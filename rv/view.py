"""Observing a mount source through its public interface only."""

import hashlib
import stat

MAX_ENTRIES = 20000


class ViewProblem(Exception):
    pass


def kind_of(mode):
    for name, test in (('dir', stat.S_ISDIR), ('file', stat.S_ISREG), ('sym', stat.S_ISLNK), ('chr', stat.S_ISCHR),
                       ('blk', stat.S_ISBLK), ('fifo', stat.S_ISFIFO), ('sock', stat.S_ISSOCK)):
        if test(mode):
            return name
    return 'none'


def join(folder, name):
    return ('' if folder == '/' else folder) + '/' + name


def names_of(listing):
    return None if listing is None else list(listing)


def read_all(ms, info, chunk=None):
    with ms.open(info) as file:
        if chunk is None:
            return file.read()
        parts = []
        while part := file.read(chunk):
            parts.append(part)
        return b''.join(parts)


def walk(ms, top='/', limit=MAX_ENTRIES):
    """Yields (path, FileInfo) for everything reachable by listing and looking up, parents first; not the top."""
    stack = [(top, 0)]
    seen = 0
    while stack:
        folder, depth = stack.pop()
        if depth > 64:
            raise ViewProblem(f"tree deeper than 64 at {folder}")
        listing = ms.list(folder)
        if listing is None:
            continue
        for name in sorted(listing):
            seen += 1
            if seen > limit:
                raise ViewProblem(f"more than {limit} entries")
            path = join(folder, name)
            info = ms.lookup(path)
            yield path, info
            if info is not None and stat.S_ISDIR(info.mode):
                stack.append((path, depth + 1))


def entry(ms, path, info, contents=True, xattrs=True, versions=True, meta=True):
    if info is None:
        return {'kind': 'MISSING'}
    kind = kind_of(info.mode)
    result = {'kind': kind}
    if kind == 'file' and contents:
        data = read_all(ms, info)
        result['data'] = hashlib.sha1(data).hexdigest()
        result['len'] = len(data)
    if kind == 'file':
        result['size'] = info.size
    if kind == 'sym':
        result['link'] = info.linkname
    if meta:
        result.update(mode=stat.S_IMODE(info.mode), mtime=info.mtime, uid=info.uid, gid=info.gid,
                      size=info.size, link=info.linkname)
    if xattrs:
        result['xattrs'] = {key: ms.get_xattr(info, key) for key in sorted(ms.list_xattr(info))}
    if versions:
        result['versions'] = ms.versions(path)
    return result


def snapshot(ms, top='/', **kwargs):
    """The whole visible tree as plain data."""
    return {path: entry(ms, path, info, **kwargs) for path, info in walk(ms, top)}


def diff(got, want, limit=6):
    """Human-readable difference of two snapshots, empty when equal."""
    lines = []
    for path in sorted(set(got) | set(want)):
        if path not in got:
            lines.append(f"missing {path!r} ({want[path]})")
        elif path not in want:
            lines.append(f"unexpected {path!r} ({got[path]})")
        elif got[path] != want[path]:
            a, b = got[path], want[path]
            keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            lines.append(f"{path!r}: " + ', '.join(f"{k}: got {a.get(k)!r} want {b.get(k)!r}" for k in keys))
        if len(lines) >= limit:
            lines.append('...')
            break
    return '; '.join(lines)


def diff_kind(got, want):
    """Coarse mechanism of the first difference, for keys."""
    if set(want) - set(got):
        return 'missing-entry'
    if set(got) - set(want):
        return 'extra-entry'
    for path in sorted(want):
        if got[path] != want[path]:
            a, b = got[path], want[path]
            keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            return 'differs-' + '+'.join(keys)
    return 'equal'
