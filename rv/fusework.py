"""Driving the FUSE operations object the way the kernel and libfuse do, next to a real directory as the reference."""

import contextlib
import errno
import io
import os
import stat
import time

from rv import gen, view

UMASK = 0o022  # applied by the kernel; os.umask of the checks is the same
UTIME_NOW, UTIME_OMIT = (1 << 30) - 1, (1 << 30) - 2
FILE, DIR, LINK, FIFO = stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFIFO


def mount(paths, mountPoint, **options):
    """The operations object that is handed to FUSE."""
    from ratarmount.FuseMount import FuseMount

    with contextlib.redirect_stdout(io.StringIO()):
        return FuseMount(paths, mountPoint, **options)


def unmount(ops):
    ops.__exit__(None, None, None)


def join(folder, name):
    return ('' if folder == '/' else folder) + '/' + name


def entries(ops, path, fh=None):
    """name -> file type (None if not known) for a folder; the dot entries are checked and removed."""
    result = {}
    dots = []
    for item in ops.readdir(path, fh):
        name, mode = (item, None) if isinstance(item, str) else (item[0], item[1])
        if name in ('.', '..'):
            dots.append(name)
            continue
        if name in result:
            raise view.ViewProblem(f"{name!r} appears twice in the listing of {path!r}")
        result[name] = stat.S_IFMT(mode or 0) or None  # zero is DT_UNKNOWN
    if dots != ['.', '..']:
        raise view.ViewProblem(f"the listing of {path!r} has the dot entries {dots}")
    return result


def read_file(ops, path, size=None, chunk=65536, flags=os.O_RDONLY):
    fh = ops.open(path, flags)
    try:
        parts = []
        offset = 0
        while part := ops.read(path, chunk, offset, fh):
            parts.append(part)
            offset += len(part)
            if offset > 200_000_000:
                raise view.ViewProblem(f"{path!r} never ends")
        return b''.join(parts)
    finally:
        ops.release(path, fh)


def tree(ops, contents=True):
    """path -> facts of everything visible."""
    result = {}
    stack = ['/']
    while stack:
        folder = stack.pop()
        for name, kind in sorted(entries(ops, folder).items()):
            path = join(folder, name)
            try:
                st = ops.getattr(path)
            except OSError as exception:
                result[path] = {'kind': f"LISTED BUT {errno.errorcode.get(exception.errno, exception.errno)}"}
                continue
            mode = st['st_mode']
            facts = {'kind': view.kind_of(mode), 'perm': stat.S_IMODE(mode), 'uid': st['st_uid'], 'gid': st['st_gid'],
                     'mtime': st['st_mtime']}
            if kind is not None and kind != stat.S_IFMT(mode):
                facts['kind'] += f" but listed as {view.kind_of(kind)}"
            if stat.S_ISDIR(mode):
                stack.append(path)
            elif stat.S_ISREG(mode):
                facts['size'] = st['st_size']
                if contents:
                    facts['data'] = read_file(ops, path)
            elif stat.S_ISLNK(mode):
                facts['link'] = ops.readlink(path)
            result[path] = facts
        if len(result) > 20000:
            raise view.ViewProblem("endless tree")
    return result


def reference_tree(root, contents=True, linked=()):
    result = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            full = os.path.join(folder, name)
            st = os.lstat(full)
            facts = {'kind': view.kind_of(st.st_mode), 'perm': stat.S_IMODE(st.st_mode), 'uid': st.st_uid, 'gid': st.st_gid,
                     'mtime': st.st_mtime_ns}
            if stat.S_ISREG(st.st_mode):
                facts['size'] = st.st_size
                if contents:
                    with open(full, 'rb') as file:
                        facts['data'] = file.read()
            elif stat.S_ISLNK(st.st_mode):
                facts['link'] = os.readlink(full)
            if st.st_ino in linked:
                facts['mtime'] = None  # see the known finding about metadata of hard links
            result[full[len(root):]] = facts
    return result


def populate(root, tree):
    """Makes a real directory show the given tree."""
    for path in sorted(tree):
        facts, full = tree[path], root + path
        if facts['kind'] == 'dir':
            os.mkdir(full)
        elif facts['kind'] == 'file':
            with open(full, 'wb') as file:
                file.write(facts['data'])
        elif facts['kind'] == 'sym':
            os.symlink(facts['link'], full)
        elif facts['kind'] == 'fifo':
            os.mkfifo(full)
        else:
            raise view.ViewProblem(f"cannot make {path}: {facts}")
    for path in sorted(tree, reverse=True):
        facts, full = tree[path], root + path
        os.chown(full, facts['uid'], facts['gid'], follow_symlinks=False)
        if facts['kind'] != 'sym':
            os.chmod(full, facts['perm'])
        os.utime(full, ns=(facts['mtime'], facts['mtime']), follow_symlinks=False)


def differences(got, want, since, ignore=()):
    """[(field, text)]. Times after 'since' count as 'changed during the run'; times of folders are not compared because
    changing their entries changes them. Permissions and times of links are not shown by every source."""
    result = []
    for path in sorted(set(got) | set(want)):
        if path not in got:
            result.append(('missing', f"{path!r} is missing"))
        elif path not in want:
            result.append(('extra', f"{path!r} is shown as {brief(got[path])}"))
        else:
            a, b = got[path], want[path]
            if a['kind'] != b['kind']:
                result.append(('kind', f"{path!r} is {brief(a)} instead of {brief(b)}"))
                continue
            for field in b:
                if field in ignore or b[field] is None or field == 'mtime' and b['kind'] == 'dir' or field == 'perm' and b['kind'] == 'sym':
                    continue
                x, y = a.get(field), b[field]
                if field == 'mtime':
                    if y >= since:
                        same = x >= since
                    else:
                        same = abs(x - y) <= 2000
                else:
                    same = x == y
                if not same:
                    result.append((field, f"{path!r}: {field} is {short(x)} instead of {short(y)}"))
    return result


def short(value):
    return f"{len(value)} bytes {value[:30]!r}" if isinstance(value, bytes) else oct(value) if isinstance(value, int) and value < 0o10000 else repr(value)


def brief(facts):
    return {k: short(v) for k, v in facts.items()}


class Outcome:
    def __init__(self, function):
        self.error = None
        self.other = None
        self.value = None
        try:
            self.value = function()
        except OSError as exception:
            self.error = exception.errno
            self.text = str(exception)
        except Exception as exception:  # libfuse gets EINVAL for these
            import traceback

            self.error = errno.EINVAL
            self.other = exception
            self.text = f"{type(exception).__name__}: {exception}"
            self.trace = traceback.format_exc()

    @property
    def ok(self):
        return self.error is None

    def __str__(self):
        return 'success' if self.ok else errno.errorcode.get(self.error, str(self.error)) + ' ' + self.text


def fail(number):
    raise OSError(number, os.strerror(number))


class Vfs:
    """System calls on the mount: the checks of the kernel before it asks the file system, then the operations of libfuse.

    Paths are absolute inside the mount and contain no links in their folders."""

    def __init__(self, ops, truncateAtOpen=True):
        self.ops = ops
        self.truncateAtOpen = truncateAtOpen  # libfuse 3 passes O_TRUNC to open, libfuse 2 calls truncate

    def stat(self, path):
        return self.ops.getattr(path)

    def kind(self, path):
        try:
            return stat.S_IFMT(self.ops.getattr(path)['st_mode'])
        except OSError as exception:
            if exception.errno == errno.ENOENT:
                return None
            raise

    def parent(self, path):
        parts = path.strip('/').split('/')[:-1]
        for k in range(len(parts)):
            kind = self.kind('/' + '/'.join(parts[: k + 1]))
            if kind is None:
                fail(errno.ENOENT)
            if kind != DIR:
                fail(errno.ENOTDIR)

    def existing(self, path):
        self.parent(path)
        kind = self.kind(path)
        if kind is None:
            fail(errno.ENOENT)
        return kind

    def absent(self, path):
        self.parent(path)
        if self.kind(path) is not None:
            fail(errno.EEXIST)

    def create(self, path, mode, flags=os.O_RDWR):
        self.absent(path)
        return self.ops.create(path, FILE | mode & ~UMASK, flags)

    def open(self, path, flags):
        if self.existing(path) == DIR and flags & os.O_ACCMODE != os.O_RDONLY:
            fail(errno.EISDIR)
        truncates = flags & os.O_TRUNC
        if truncates and not self.truncateAtOpen:
            flags &= ~os.O_TRUNC
        fh = self.ops.open(path, flags)
        if truncates and not self.truncateAtOpen:
            try:
                self.ops.truncate(path, 0)
            except BaseException:
                self.ops.release(path, fh)
                raise
        return fh

    def truncate(self, path, length):
        kind = self.existing(path)
        if kind != FILE:
            fail(errno.EISDIR if kind == DIR else errno.EINVAL)
        self.ops.truncate(path, length)

    def mkdir(self, path, mode):
        self.absent(path)
        self.ops.mkdir(path, mode & ~UMASK)

    def rmdir(self, path):
        if self.existing(path) != DIR:
            fail(errno.ENOTDIR)
        self.ops.rmdir(path)

    def unlink(self, path):
        if self.existing(path) == DIR:
            fail(errno.EISDIR)
        self.ops.unlink(path)

    def symlink(self, target, path):
        self.absent(path)
        self.ops.symlink(path, target)

    def link(self, source, path):
        kind = self.existing(source)
        self.absent(path)
        if kind == DIR:
            fail(errno.EPERM)
        self.ops.link(path, source)

    def mkfifo(self, path, mode):
        self.absent(path)
        self.ops.mknod(path, FIFO | mode & ~UMASK, 0)

    def rename(self, old, new):
        kind = self.existing(old)
        self.parent(new)
        target = self.kind(new)
        if old == new:
            return
        if (new + '/').startswith(old + '/'):
            fail(errno.EINVAL)
        if (old + '/').startswith(new + '/'):
            fail(errno.ENOTEMPTY)
        if target is not None:
            if kind == DIR and target != DIR:
                fail(errno.ENOTDIR)
            if kind != DIR and target == DIR:
                fail(errno.EISDIR)
        self.ops.rename(old, new)

    def chmod(self, path, mode):
        kind = self.existing(path)
        self.ops.chmod(path, kind | mode)

    def chown(self, path, uid, gid):
        self.existing(path)
        self.ops.chown(path, uid, gid)

    def utime(self, path, atime, mtime):
        self.existing(path)
        self.ops.utimens(path, None if atime is None else (atime, mtime))


class Handle:
    def __init__(self, path, fh, fd, flags, stamp):
        self.path, self.fh, self.fd, self.flags, self.stamp = path, fh, fd, flags, stamp


class Mirror:
    """Applies every operation to the mount and to a real directory and compares results and trees.

    Reads through handles opened before the file was first modified after mounting are not compared (as documented for C12).
    """

    def __init__(self, ctx, ops, root, truncateAtOpen=True, ignore=()):
        self.ctx, self.ops, self.root, self.ignore = ctx, ops, root, ignore
        self.vfs = Vfs(ops, truncateAtOpen)
        self.handles = []
        self.history = []
        self.since = (int(time.time()) - 2) * 10**9
        self.clock = 0
        self.modified = {}  # inode in the reference -> clock of the first modification through the mount
        self.hidden = 0
        self.linked = set()  # inodes in the reference that were linked: their metadata is not compared (known finding)
        self.refused = False
        self.archives = []  # paths of recursively mounted archives, in which nothing can be created

    def text(self):
        return ', '.join(self.history[-int(os.environ.get("RV_HISTORY", "8")):])

    def compare(self, operation):
        got = tree(self.ops)
        want = reference_tree(self.root, linked=self.linked)
        self.ctx.count('trees_compared')
        problems = differences(got, want, self.since, self.ignore)
        for field, text in problems[:1]:
            self.ctx.fail(f"{operation}:{field}", f"after {self.text()}: {'; '.join(t for _, t in problems[:4])}")
        return not problems

    def do(self, operation, text, onMount, onReference, refusals=()):
        """Returns (mount outcome, reference outcome or None when refused)."""
        self.history.append(text)
        self.ctx.count('operations')
        mine = Outcome(onMount)
        if mine.error in refusals or mine.error == errno.EROFS and any(f"'{path}/" in text for path in self.archives):
            self.ctx.count('refused')
            self.refused = True
            return mine, None
        reference = Outcome(onReference)
        self.ctx.distinct('operation', operation, str(mine).split()[0])
        if mine.other is not None:
            self.ctx.fail(f"{operation}:exception", f"{self.text()}: {mine.text}", trace=mine.trace)
        elif mine.ok != reference.ok:
            self.ctx.fail(f"{operation}:{'accepted' if mine.ok else 'refused'}",
                          f"{self.text()}: {mine}, a directory gives {reference}")
        elif not mine.ok:
            self.ctx.count('failing_operations')
        return mine, reference

    def real(self, path):
        return self.root + path

    def touch(self, path):
        self.clock += 1
        self.modified.setdefault(os.lstat(self.real(path)).st_ino, self.clock)

    # -- operations
    def create(self, path, mode):
        mine, reference = self.do(
            'create', f"create({path!r}, {mode:o})", lambda: self.vfs.create(path, mode),
            lambda: os.open(self.real(path), os.O_RDWR | os.O_CREAT | os.O_EXCL, mode))
        if mine.ok and reference is not None and reference.ok:
            self.touch(path)
            self.handles.append(Handle(path, mine.value, reference.value, os.O_RDWR, self.clock))
        return mine.ok

    def open(self, path, flags):
        mine, reference = self.do(
            'open', f"open({path!r}, {flag_names(flags)})", lambda: self.vfs.open(path, flags),
            lambda: os.open(self.real(path), flags | os.O_NOFOLLOW), ())
        if mine.ok and reference.ok:
            self.clock += 1
            if flags & os.O_TRUNC:
                self.touch(path)
                self.clock += 1
            self.handles.append(Handle(path, mine.value, reference.value, flags, self.clock))
            return self.handles[-1]
        return None

    def readable(self, handle):
        return handle.flags & os.O_ACCMODE != os.O_WRONLY

    def writable(self, handle):
        return handle.flags & os.O_ACCMODE != os.O_RDONLY

    def read(self, handle, size, offset):
        if handle.stamp < self.modified.get(os.fstat(handle.fd).st_ino, 0):
            return  # opened before the first modification
        mine, reference = self.do(
            'read', f"read({handle.path!r}, {size}, {offset})", lambda: self.ops.read(handle.path, size, offset, handle.fh),
            lambda: os.pread(handle.fd, size, offset))
        if mine.ok and reference.ok:
            self.ctx.count('reads')
            if mine.value != reference.value:
                self.ctx.fail('read:data', f"{self.text()}: got {short(mine.value)} instead of {short(reference.value)}")

    def write(self, handle, data, offset):
        if handle.flags & os.O_APPEND:
            offset = os.fstat(handle.fd).st_size  # the kernel passes the end
        mine, reference = self.do(
            'write', f"write({handle.path!r}, {len(data)}, {offset})", lambda: self.ops.write(handle.path, data, offset, handle.fh),
            lambda: os.write(handle.fd, data) if handle.flags & os.O_APPEND else os.pwrite(handle.fd, data, offset))
        if mine.ok and reference.ok:
            self.touch(handle.path)
            handle.stamp = max(handle.stamp, self.clock)
            if mine.value != reference.value:
                self.ctx.fail('write:count', f"{self.text()}: returned {mine.value} instead of {reference.value}")

    def truncate_handle(self, handle, length):
        mine, _ = self.do('ftruncate', f"ftruncate({handle.path!r}, {length})",
                          lambda: self.ops.truncate(handle.path, length, handle.fh), lambda: os.ftruncate(handle.fd, length))
        if mine.ok:
            self.touch(handle.path)
            handle.stamp = max(handle.stamp, self.clock)

    def flush(self, handle):
        self.do('flush', f"flush({handle.path!r})", lambda: self.ops.flush(handle.path, handle.fh), lambda: 0)

    def fsync(self, handle, datasync):
        self.do('fsync', f"fsync({handle.path!r})", lambda: self.ops.fsync(handle.path, datasync, handle.fh), lambda: os.fsync(handle.fd))

    def close(self, handle):
        self.flush(handle)
        self.do('release', f"release({handle.path!r})", lambda: self.ops.release(handle.path, handle.fh),
                lambda: os.close(handle.fd))
        self.handles.remove(handle)
        if '/.fuse_hidden' in handle.path and not any(h.path == handle.path for h in self.handles):
            self.simple('unlink-hidden', f"unlink({handle.path!r})", lambda: self.vfs.unlink(handle.path),
                        lambda: self.forget(handle.path) or os.unlink(self.real(handle.path)))

    def close_all(self):
        while self.handles:
            self.close(self.handles[-1])

    def simple(self, operation, text, onMount, onReference, refusals=()):
        mine, reference = self.do(operation, text, onMount, onReference, refusals)
        return mine.ok and reference is not None and reference.ok

    def truncate(self, path, length):
        if self.simple('truncate', f"truncate({path!r}, {length})", lambda: self.vfs.truncate(path, length),
                       lambda: os.truncate(self.real(path), length)):
            self.touch(path)

    def mkdir(self, path, mode):
        return self.simple('mkdir', f"mkdir({path!r}, {mode:o})", lambda: self.vfs.mkdir(path, mode),
                           lambda: os.mkdir(self.real(path), mode))

    def rmdir(self, path):
        self.simple('rmdir', f"rmdir({path!r})", lambda: self.vfs.rmdir(path), lambda: os.rmdir(self.real(path)))

    def unlink(self, path):
        if any(h.path == path for h in self.handles):  # libfuse hides files that are still open
            self.hidden += 1
            return self.rename(path, path.rsplit('/', 1)[0] + f"/.fuse_hidden{self.hidden:016x}", 'rename-hidden')
        self.simple('unlink', f"unlink({path!r})", lambda: self.vfs.unlink(path), lambda: self.forget(path) or os.unlink(self.real(path)))
        return None

    def forget(self, path):
        """The file is removed from the reference, so its inode number may be used again."""
        if os.path.lexists(self.real(path)):
            st = os.lstat(self.real(path))
            if st.st_nlink == 1:
                self.modified.pop(st.st_ino, None)
                self.linked.discard(st.st_ino)

    def symlink(self, target, path):
        self.simple('symlink', f"symlink({target!r}, {path!r})", lambda: self.vfs.symlink(target, path),
                    lambda: os.symlink(target, self.real(path)))

    def link(self, source, path):
        if os.path.lexists(self.real(source)):
            self.linked.add(os.lstat(self.real(source)).st_ino)
        return self.simple('link', f"link({source!r}, {path!r})", lambda: self.vfs.link(source, path),
                           lambda: os.link(self.real(source), self.real(path), follow_symlinks=False), (errno.EXDEV,))

    def mkfifo(self, path, mode):
        self.simple('mkfifo', f"mkfifo({path!r}, {mode:o})", lambda: self.vfs.mkfifo(path, mode),
                    lambda: os.mkfifo(self.real(path), mode))

    def replace(self, old, new):
        before = os.lstat(self.real(new)) if os.path.lexists(self.real(new)) else None
        os.rename(self.real(old), self.real(new))
        if before and before.st_nlink == 1 and os.lstat(self.real(new)).st_ino != before.st_ino:
            self.modified.pop(before.st_ino, None)
            self.linked.discard(before.st_ino)

    def rename(self, old, new, operation='rename'):
        target = self.root + old
        special = os.path.lexists(target) and not os.path.islink(target) and not os.path.isfile(target)
        if os.path.isfile(self.real(new)) and any(h.path == new for h in self.handles):
            self.unlink(new)  # libfuse hides the target
        if self.simple(operation, f"rename({old!r}, {new!r})", lambda: self.vfs.rename(old, new),
                       lambda: self.replace(old, new), (errno.EXDEV,) if special else ()):
            for handle in self.handles:
                if (handle.path + '/').startswith(old + '/'):
                    handle.path = new + handle.path[len(old):]
            return True
        return False

    def chmod(self, path, mode):
        self.simple('chmod', f"chmod({path!r}, {mode:o})", lambda: self.vfs.chmod(path, mode), lambda: os.chmod(self.real(path), mode))

    def chown(self, path, uid, gid):
        self.simple('chown', f"chown({path!r}, {uid}, {gid})", lambda: self.vfs.chown(path, uid, gid),
                    lambda: os.chown(self.real(path), uid, gid, follow_symlinks=False))

    def utime(self, path, mtime):
        self.simple('utime', f"utime({path!r}, {mtime})", lambda: self.vfs.utime(path, mtime, mtime),
                    lambda: os.utime(self.real(path), ns=(mtime, mtime), follow_symlinks=False))

    def touch_times(self, path, atime, mtime):
        """With the special values of utimensat(2) for the current time and for no change, or None for both now."""
        def real():
            st = os.lstat(self.real(path))
            now = time.time_ns()
            times = (UTIME_NOW, UTIME_NOW) if atime is None else (atime, mtime)
            os.utime(self.real(path), follow_symlinks=False,
                     ns=tuple(now if t == UTIME_NOW else old if t == UTIME_OMIT else t for t, old in zip(times, (st.st_atime_ns, st.st_mtime_ns))))

        self.simple('touch', f"touch({path!r}, {atime}, {mtime})", lambda: self.vfs.utime(path, atime, mtime), real)


def flag_names(flags):
    names = [{0: 'r', 1: 'w', 2: 'rw'}[flags & os.O_ACCMODE]]
    names += [n for n, f in (('trunc', os.O_TRUNC), ('append', os.O_APPEND)) if flags & f]
    return '+'.join(names)


NAMES = ['a', 'b', 'c', 'd', 'new', 'x y', 'ü', 'f.txt']
MODES = [0o644, 0o600, 0o755, 0o400]
OPERATIONS = ['create'] * 5 + ['open'] * 6 + ['read'] * 4 + ['write'] * 7 + ['close'] * 3 + ['truncate'] * 3 + ['ftruncate'] * 2 + \
    ['mkdir'] * 4 + ['rmdir'] * 3 + ['unlink'] * 5 + ['symlink'] * 2 + ['link'] * 2 + ['mkfifo'] + ['rename'] * 7 + \
    ['chmod'] * 3 + ['chown'] * 2 + ['utime'] * 3 + ['flush', 'fsync', 'wrong']


def lexical_up(folder, target):
    """Whether a link with that target placed in the folder leaves the tree."""
    depth = folder.strip('/').count('/') + (1 if folder.strip('/') else 0)
    for part in target.split('/'):
        depth += -1 if part == '..' else 1 if part not in ('', '.') else 0
        if depth < 0:
            return True
    return False


def step(mirror, rng, operations=OPERATIONS, handles=4):
    """One random operation. Returns its name."""
    folders, files, links, others = [''], [], [], []
    for folder, dirs, names in os.walk(mirror.root):
        inside = folder[len(mirror.root):]
        for name in sorted(dirs + names):
            full = os.path.join(folder, name)
            path = inside + '/' + name
            if '.fuse_hidden' in name:
                continue
            (links if os.path.islink(full) else folders if os.path.isdir(full) else files if os.path.isfile(full) else others).append(path)
    linked = {p for p in files if os.lstat(mirror.root + p).st_nlink > 1}
    existing = folders[1:] + files + links + others

    def fresh():
        for _ in range(20):
            path = rng.choice(folders) + '/' + rng.choice(NAMES)
            if not os.path.lexists(mirror.root + path):
                return path
        return rng.choice(folders) + '/' + f"n{rng.randrange(10**6)}"

    what = rng.choice(operations)
    if what == 'create':
        mirror.create(fresh(), rng.choice(MODES))
    elif what == 'open' and files and len(mirror.handles) < handles:
        mirror.open(rng.choice(files), rng.choice([os.O_RDONLY, os.O_RDWR, os.O_RDWR, os.O_WRONLY, os.O_WRONLY | os.O_TRUNC,
                                                   os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_APPEND]))
    elif what in ('read', 'write', 'ftruncate', 'close', 'flush', 'fsync') and mirror.handles:
        handle = rng.choice(mirror.handles)
        size = os.fstat(handle.fd).st_size
        if what == 'read' and mirror.readable(handle):
            mirror.read(handle, rng.choice([1, 10, 4096, 100000]), rng.choice([0, size // 2, max(0, size - 1), size, size + 10]))
        elif what == 'write' and mirror.writable(handle):
            mirror.write(handle, gen.blob(rng, rng.choice([0, 1, 5, 100, 5000])), rng.choice([0, 0, size // 2, size, size, size + 7]))
        elif what == 'ftruncate' and mirror.writable(handle):
            mirror.truncate_handle(handle, rng.choice([0, size // 2, size, size + 9]))
        elif what == 'flush':
            mirror.flush(handle)
        elif what == 'fsync':
            mirror.fsync(handle, rng.choice([0, 1]))
        elif what == 'close':
            mirror.close(handle)
    elif what == 'truncate' and files:
        path = rng.choice(files)
        size = os.path.getsize(mirror.root + path)
        mirror.truncate(path, rng.choice([0, size // 2, size, size + 9]))
    elif what == 'mkdir':
        mirror.mkdir(fresh(), rng.choice([0o755, 0o700, 0o777]))
    elif what == 'rmdir' and folders[1:]:
        empty = [f for f in folders[1:] if not os.listdir(mirror.root + f)]
        mirror.rmdir(rng.choice(empty if empty and rng.random() < 0.7 else folders[1:]))
    elif what == 'unlink' and files + links + others:
        mirror.unlink(rng.choice(files + links + others))
    elif what == 'symlink':
        path = fresh()
        target = rng.choice(['a', '../a', '/abs', 'x y/b', 'nowhere/ü', '.', '../../b'])
        if not lexical_up(path.rsplit('/', 1)[0], target):
            mirror.symlink(target, path)
    elif what == 'link' and files:
        mirror.link(rng.choice(files), fresh())
    elif what == 'mkfifo':
        mirror.mkfifo(fresh(), rng.choice([0o644, 0o600]))
    elif what == 'rename' and existing:
        old = rng.choice((files + links + others) * 3 + folders[1:])
        new = fresh() if rng.random() < 0.6 else rng.choice(existing)
        if os.path.islink(mirror.root + old) and lexical_up(new.rsplit('/', 1)[0], os.readlink(mirror.root + old)):
            return 'none'
        if os.path.isdir(mirror.root + old) and not os.path.islink(mirror.root + old) and any(
                (p + '/').startswith(old + '/') and lexical_up((new + p[len(old):]).rsplit('/', 1)[0], os.readlink(mirror.root + p))
                for p in links):
            return 'none'
        mirror.rename(old, new)
    elif what == 'chmod' and files + folders[1:]:
        path = rng.choice([p for p in files if p not in linked] + folders[1:] or ['']) or None
        if path:
            mirror.chmod(path, rng.choice([0o644, 0o600, 0o755, 0o444, 0o770]))
    elif what == 'chown' and existing:
        path = rng.choice([p for p in existing if p not in linked] or ['']) or None
        if path:
            mirror.chown(path, rng.choice([-1, 0, 1000, 70000]), rng.choice([0, 1000, 12]))
    elif what == 'utime' and existing:
        path = rng.choice([p for p in existing if p not in linked] or ['']) or None
        if path and rng.random() < 0.4:
            mirror.touch_times(path, *rng.choice([(None, None), (UTIME_NOW, UTIME_NOW), (UTIME_OMIT, 10**18), (UTIME_OMIT, UTIME_NOW),
                                            (10**18, UTIME_OMIT), (UTIME_NOW, UTIME_OMIT), (UTIME_OMIT, UTIME_OMIT)]))
        elif path:
            mirror.utime(path, rng.choice([0, 1, 1_000_000_000_000_000_000, 1_234_567_890_123_456_789, 946684800_500000000]))
    elif what == 'wrong':
        path = rng.choice(['/missing', '/missing/deeper'] + [f + '/below' for f in files[:2]])
        rng.choice([lambda: mirror.unlink(path), lambda: mirror.rmdir(path), lambda: mirror.truncate(path, 0),
                    lambda: mirror.rename(path, fresh()), lambda: mirror.open(path, os.O_RDONLY), lambda: mirror.mkdir(path + '/x', 0o755)])()
    else:
        return 'none'
    return what


# -- sequences of system calls that can be repeated elsewhere
class MountCalls:
    """Runs steps on a mount."""

    def __init__(self, ops):
        self.ops, self.vfs, self.handle = ops, Vfs(ops), None

    def run(self, step):
        name, *args = step
        if name == 'open':
            self.handle = (args[0], self.vfs.open(*args))
        elif name == 'create':
            self.handle = (args[0], self.vfs.create(*args))
        elif name == 'write':
            self.ops.write(self.handle[0], args[0], args[1], self.handle[1])
        elif name == 'ftruncate':
            self.ops.truncate(self.handle[0], args[0], self.handle[1])
        elif name == 'close':
            self.ops.flush(self.handle[0], self.handle[1])
            self.ops.release(self.handle[0], self.handle[1])
            self.handle = None
        else:
            getattr(self.vfs, name)(*args)


class RealCalls:
    """Runs steps in a real directory."""

    def __init__(self, root):
        self.root, self.handle = root, None

    def run(self, step):
        name, *args = step
        path = self.root + args[0] if args and isinstance(args[0], str) else None
        if name == 'open':
            self.handle = os.open(path, args[1])
        elif name == 'create':
            self.handle = os.open(path, os.O_RDWR | os.O_CREAT | os.O_EXCL, args[1])
        elif name == 'write':
            os.pwrite(self.handle, args[0], args[1])
        elif name == 'ftruncate':
            os.ftruncate(self.handle, args[0])
        elif name == 'close':
            os.close(self.handle)
            self.handle = None
        elif name == 'truncate':
            os.truncate(path, args[1])
        elif name == 'mkdir':
            os.mkdir(path, args[1])
        elif name == 'rmdir':
            os.rmdir(path)
        elif name == 'unlink':
            os.unlink(path)
        elif name == 'symlink':
            os.symlink(args[0], self.root + args[1])
        elif name == 'link':
            os.link(path, self.root + args[1], follow_symlinks=False)
        elif name == 'mkfifo':
            os.mkfifo(path, args[1])
        elif name == 'rename':
            os.rename(path, self.root + args[1])
        elif name == 'chmod':
            os.chmod(path, args[1])
        elif name == 'chown':
            os.chown(path, args[1], args[2], follow_symlinks=False)
        elif name == 'utime':
            os.utime(path, ns=(args[1], args[2]), follow_symlinks=False)
        else:
            raise AssertionError(name)


def random_steps(rng, root, names=NAMES, links=True, only=None):
    """A short sequence of system calls that all succeed in the given directory. Returns (name, steps)."""
    folders, files, symlinks = [''], [], []
    for folder, dirs, entries_ in os.walk(root):
        for name in sorted(dirs + entries_):
            full = os.path.join(folder, name)
            path = full[len(root):]
            (symlinks if os.path.islink(full) else folders if os.path.isdir(full) else files if os.path.isfile(full) else []).append(path)
    empty = [f for f in folders[1:] if not os.listdir(root + f)]
    single = [f for f in files if os.lstat(root + f).st_nlink == 1]

    def fresh():
        while True:
            path = rng.choice(folders) + '/' + rng.choice([*names, f"n{rng.randrange(1000)}"])
            if not os.path.lexists(root + path):
                return path

    data = gen.blob(rng, rng.choice([1, 10, 3000]))
    choices = [('create', lambda: [('create', fresh(), rng.choice([0o644, 0o600])), ('write', data, 0), ('close',)]),
               ('mkdir', lambda: [('mkdir', fresh(), 0o755)]),
               ('symlink', lambda: [('symlink', 'target', fresh())]),
               ('mkfifo', lambda: [('mkfifo', fresh(), 0o644)])]
    if files:
        one = rng.choice(files)
        size = os.path.getsize(root + one)
        choices += [('write', lambda: [('open', one, os.O_RDWR), ('write', data, rng.choice([0, size])), ('close',)]),
                    ('overwrite', lambda: [('open', one, os.O_WRONLY | os.O_TRUNC), ('write', data, 0), ('close',)]),
                    ('truncate', lambda: [('truncate', one, rng.choice([0, size // 2, size + 3]))]),
                    ('unlink', lambda: [('unlink', one)]),
                    ('rename', lambda: [('rename', one, fresh())]),
                    ('rename', lambda: [('rename', one, fresh())])]
        if len(files) > 1:
            choices.append(('rename-over', lambda: [('rename', *rng.sample(files, 2))]))
        if links:
            choices.append(('link', lambda: [('link', one, fresh())]))
    if single:
        two = rng.choice(single)
        choices += [('chmod', lambda: [('chmod', two, rng.choice([0o600, 0o755, 0o444]))]),
                    ('chown', lambda: [('chown', two, rng.choice([0, 1000]), rng.choice([0, 12]))]),
                    ('utime', lambda: [('utime', two, 5, rng.choice([1, 1_234_567_890_000_000_000]))])]
    if symlinks:
        three = rng.choice(symlinks)
        choices += [('unlink-link', lambda: [('unlink', three)])]
        target = fresh()
        if not lexical_up(target.rsplit('/', 1)[0], os.readlink(root + three)):
            choices += [('rename-link', lambda: [('rename', three, target)])]
    if empty:
        choices.append(('rmdir', lambda: [('rmdir', rng.choice(empty))]))
    if len(folders) > 1:
        old = rng.choice(folders[1:])
        new = fresh()
        if not (new + '/').startswith(old + '/') and not symlinks:
            choices.append(('rename-folder', lambda: [('rename', old, new)]))
    if only:
        choices = [c for c in choices if c[0] in only] or choices
    name, make = rng.choice(choices)
    return name, make()


def states_of(root, steps, workspace):
    """The trees of a copy of the directory before the first and after every step."""
    import shutil

    copy = os.path.join(workspace, 'states')
    shutil.rmtree(copy, ignore_errors=True)
    clone(root, copy)
    linked = set()
    result = [reference_tree(copy, linked=linked_inodes(copy, linked))]
    calls = RealCalls(copy)
    for step_ in steps:
        calls.run(step_)
        result.append(reference_tree(copy, linked=linked_inodes(copy, linked)))
    shutil.rmtree(copy)
    return result


def linked_inodes(root, known):
    """Adds the inodes below root with several names to the known ones."""
    for folder, _, files in os.walk(root):
        for name in files:
            st = os.lstat(os.path.join(folder, name))
            if st.st_nlink > 1:
                known.add(st.st_ino)
    return known


def clone(source, target):
    """An exact copy of a directory, with its times, owners and hard links."""
    import shutil

    if os.path.lexists(target):
        shutil.rmtree(target)
    gen.run(['cp', '-a', source, target])
