"""The `posix` module of the simulated machine, and file objects on top of it.

Functions act for K.current.  Whatever is not defined here does not exist in the
simulation: stdlib code over it takes its portable fallbacks.
"""

import errno
import hashlib
import io
import os as real_os
import posix as real_posix
import stat as st_mod
import types
import weakref

from .kernel import K, HarnessError, Killed
from .vfs import err

posix = types.ModuleType('posix')


def export(f):
    setattr(posix, f.__name__.lstrip('_') if f.__name__.startswith('_x') else f.__name__, f)
    return f


CONSTANTS = (
    'O_RDONLY O_WRONLY O_RDWR O_CREAT O_EXCL O_TRUNC O_APPEND O_CLOEXEC O_NOFOLLOW O_DIRECTORY '
    'O_NONBLOCK O_SYNC O_DSYNC O_NOCTTY O_ACCMODE F_OK R_OK W_OK X_OK EX_OK '
    'WNOHANG SEEK_DATA SEEK_HOLE').split()
for _n in CONSTANTS:
    if hasattr(real_posix, _n):
        setattr(posix, _n, getattr(real_posix, _n))
for _n in ('stat_result', 'fspath', 'strerror', 'WIFEXITED', 'WEXITSTATUS', 'WIFSIGNALED', 'WTERMSIG', 'terminal_size',
           'uname_result', 'times_result', 'statvfs_result', 'sched_param', 'cpu_count', '_path_normpath', '_path_splitroot',
           'waitstatus_to_exitcode'):
    if hasattr(real_posix, _n):
        setattr(posix, _n, getattr(real_posix, _n))
posix.error = OSError
posix._have_functions = ['HAVE_LSTAT']
posix.environ = {}                      # replaced by the loader

AT_CWD = None


class Desc:
    """An open file description."""

    __slots__ = ('node', 'canon', 'flags', 'pos', 'fd', 'proc')

    def __init__(self, node, canon, flags, fd, proc):
        self.node = node
        self.canon = canon
        self.flags = flags
        self.pos = 0
        self.fd = fd
        self.proc = proc

    @property
    def readable(self):
        return self.flags & real_os.O_ACCMODE != real_os.O_WRONLY

    @property
    def writable(self):
        return self.flags & real_os.O_ACCMODE != real_os.O_RDONLY


def proc():
    p = K.current
    if p is None:
        raise HarnessError('simulated system call outside any simulated process')
    return p


def _path(path):
    path = real_os.fspath(path)
    if isinstance(path, bytes):
        path = real_os.fsdecode(path)
    if '\0' in path:
        raise ValueError('embedded null byte')
    return path


def _at(p, dir_fd):
    if dir_fd is None:
        return p.cwd
    d = p.fds.get(dir_fd)
    if d is None:
        raise err(errno.EBADF)
    return d.node, d.canon


def _desc(p, fd):
    d = p.fds.get(fd)
    if d is None:
        raise err(errno.EBADF)
    return d


def _sys(name, path=''):
    p = proc()
    w = p.world
    return p, w.fs, w.enter(p, name, path)


def _canon_for_log(p, path):
    return path


# -- stat family

def _stat_result(n):
    size = len(n.data) if n.kind == 'f' else len(n.target) if n.kind == 'l' else 4096
    ns = (n.atime, n.mtime, n.ctime)
    return real_os.stat_result(
        (n.st_mode, n.ino, 2049, n.nlink, n.uid, n.uid, size) + tuple(t // 10**9 for t in ns),
        {'st_atime': ns[0] / 1e9, 'st_mtime': ns[1] / 1e9, 'st_ctime': ns[2] / 1e9,
         'st_atime_ns': ns[0], 'st_mtime_ns': ns[1], 'st_ctime_ns': ns[2],
         'st_blksize': 4096, 'st_blocks': (size + 511) // 512, 'st_rdev': 0})


@export
def stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fstat(path)
    path = _path(path)
    p, fs, _ = _sys('stat', path)
    node, _ = fs.lookup(path, _at(p, dir_fd), p.uid, follow_symlinks)
    return _stat_result(node)


@export
def lstat(path, *, dir_fd=None):
    return stat(path, dir_fd=dir_fd, follow_symlinks=False)


@export
def fstat(fd):
    p, fs, _ = _sys('fstat')
    return _stat_result(_desc(p, fd).node)


@export
def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    path = _path(path)
    p, fs, _ = _sys('access', path)
    try:
        node, _ = fs.lookup(path, _at(p, dir_fd), p.uid, follow_symlinks)
    except OSError:
        return False
    return mode == 0 or fs.may(node, p.uid, mode)


@export
def readlink(path, *, dir_fd=None):
    path = _path(path)
    p, fs, _ = _sys('stat', path)
    node, _ = fs.lookup(path, _at(p, dir_fd), p.uid, False)
    if node.kind != 'l':
        raise err(errno.EINVAL, path)
    return node.target


# -- directories

def _dir_order(fs, node):
    salt = fs.order_salt
    if salt == 0:
        return sorted(node.entries)

    def key(name):
        return hashlib.md5(f'{salt}/{node.ino}/{name}'.encode('utf-8', 'surrogateescape')).digest()
    return sorted(node.entries, key=key)


def _readdir(path):
    if isinstance(path, int):
        p, fs, _ = _sys('readdir')
        d = _desc(p, path)
        return fs, d.node, d.canon
    path = _path(path)
    p, fs, _ = _sys('readdir', path)
    node, canon = fs.lookup(path, p.cwd, p.uid)
    if node.kind != 'd':
        raise err(errno.ENOTDIR, path)
    if not fs.may(node, p.uid, 4):
        raise err(errno.EACCES, path)
    return fs, node, canon


@export
def listdir(path='.'):
    if path is None:
        path = '.'
    as_bytes = isinstance(path, bytes)
    fs, node, _ = _readdir(path)
    names = _dir_order(fs, node)
    return [real_os.fsencode(n) for n in names] if as_bytes else names


class DirEntry:
    def __init__(self, parent, name, node):
        self.name = name
        self.path = name if parent is None else parent + name if parent.endswith('/') else f'{parent}/{name}'
        self._ino = node.ino
        self._kind = node.kind

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f'<DirEntry {self.name!r}>'

    def inode(self):
        return self._ino

    def _is(self, follow, kind):
        if self._kind == 'l' and follow:
            try:
                st = stat(self.path)
            except FileNotFoundError:
                return False
            return (st_mod.S_ISDIR if kind == 'd' else st_mod.S_ISREG)(st.st_mode)
        return self._kind == kind

    def is_dir(self, *, follow_symlinks=True):
        return self._is(follow_symlinks, 'd')

    def is_file(self, *, follow_symlinks=True):
        return self._is(follow_symlinks, 'f')

    def is_symlink(self):
        return self._kind == 'l'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return stat(self.path, follow_symlinks=follow_symlinks)


posix.DirEntry = DirEntry


class _ScandirIterator:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


@export
def scandir(path='.'):
    if path is None:
        path = '.'
    fs, node, canon = _readdir(path)
    parent = canon if isinstance(path, int) else _path(path)
    return _ScandirIterator([DirEntry(parent, n, node.entries[n]) for n in _dir_order(fs, node)])


@export
def mkdir(path, mode=0o777, *, dir_fd=None):
    path = _path(path)
    p, fs, _ = _sys('mkdir', path)
    d, name, node, canon = fs.walk(path.rstrip('/') or path, _at(p, dir_fd), p.uid, False)
    if node is not None:
        raise err(errno.EEXIST, path)
    fs.check_dir_writable(d, p.uid, path)
    fs.create(d, name, 'd', mode & ~p.umask & 0o777, p.uid)
    p.events.append(('mkdir', canon))


@export
def rmdir(path, *, dir_fd=None):
    path = _path(path)
    p, fs, _ = _sys('rmdir', path)
    d, name, node, canon = fs.walk(path, _at(p, dir_fd), p.uid, False)
    if node is None:
        raise err(errno.ENOENT, path)
    if node.kind != 'd':
        raise err(errno.ENOTDIR, path)
    if not name:
        raise err(errno.EBUSY if node is fs.root else errno.EINVAL, path)
    fs.check_dir_writable(d, p.uid, path)
    if node.entries:
        raise err(errno.ENOTEMPTY, path)
    fs._unlink(d, name)
    node.nlink = 0
    p.events.append(('rmdir', canon))


@export
def chdir(path):
    p = proc()
    if isinstance(path, int):
        p, fs, _ = _sys('chdir')
        d = _desc(p, path)
        p.cwd = (d.node, d.canon)
        return
    path = _path(path)
    p, fs, _ = _sys('chdir', path)
    node, canon = fs.lookup(path, p.cwd, p.uid)
    if node.kind != 'd':
        raise err(errno.ENOTDIR, path)
    p.cwd = (node, canon)


@export
def getcwd():
    p, fs, _ = _sys('getcwd')
    node, canon = p.cwd
    if node.nlink == 0:
        raise err(errno.ENOENT)
    # the path may have changed since: ask the tree
    parts = []
    while node is not fs.root:
        for name, child in node.parent.entries.items():
            if child is node:
                parts.append(name)
                break
        else:
            raise err(errno.ENOENT)
        node = node.parent
    return '/' + '/'.join(reversed(parts))


@export
def getcwdb():
    return real_os.fsencode(getcwd())


# -- names

@export
def unlink(path, *, dir_fd=None):
    path = _path(path)
    p, fs, _ = _sys('unlink', path)
    d, name, node, canon = fs.walk(path, _at(p, dir_fd), p.uid, False)
    if node is None:
        raise err(errno.ENOENT, path)
    if node.kind == 'd':
        raise err(errno.EISDIR, path)
    fs.check_dir_writable(d, p.uid, path)
    fs._unlink(d, name)
    node.nlink -= 1
    p.events.append(('unlink', canon))


posix.remove = unlink


@export
def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    src, dst = _path(src), _path(dst)
    p, fs, _ = _sys('rename', f'{src} -> {dst}')
    try:
        sd, sname, node, scanon = fs.walk(src, _at(p, src_dir_fd), p.uid, False)
        if {src.rstrip('/').rpartition('/')[2], dst.rstrip('/').rpartition('/')[2]} & {'.', '..'}:
            fs.walk(dst, _at(p, dst_dir_fd), p.uid, False)
            raise err(errno.EBUSY)
        dd, dname, target, dcanon = fs.walk(dst.rstrip('/') or dst if node is None or node.kind == 'd' else dst,
                                            _at(p, dst_dir_fd), p.uid, False)
        if node is None:
            raise err(errno.ENOENT)
        if not sname or not dname:
            raise err(errno.EBUSY)
        fs.check_dir_writable(sd, p.uid, src)
        fs.check_dir_writable(dd, p.uid, dst)
        if node.kind == 'd':
            # changing a directory's parent writes its '..' entry
            if sd is not dd and not fs.may(node, p.uid, 2):
                raise err(errno.EACCES)
            up = dd
            while True:
                if up is node:
                    raise err(errno.EINVAL)
                if up is fs.root:
                    break
                up = up.parent
        if target is not None and target is not node:
            if target.kind == 'd':
                if node.kind != 'd':
                    raise err(errno.EISDIR)
                if target.entries:
                    raise err(errno.ENOTEMPTY)
            elif node.kind == 'd':
                raise err(errno.ENOTDIR)
    except OSError as e:
        raise err(e.errno, src, dst) from None
    fs.rename(sd, sname, node, dd, dname, target)
    p.events.append(('rename', scanon, dcanon))


posix.replace = rename


@export
def link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    src, dst = _path(src), _path(dst)
    p, fs, _ = _sys('link', f'{src} -> {dst}')
    try:
        node, scanon = fs.lookup(src, _at(p, src_dir_fd), p.uid, False)
        d, name, target, canon = fs.walk(dst, _at(p, dst_dir_fd), p.uid, False)
        if target is not None:
            raise err(errno.EEXIST)
        fs.check_dir_writable(d, p.uid, dst)
        if node.kind == 'd' or p.world.nolink:
            raise err(errno.EPERM)
    except OSError as e:
        raise err(e.errno, src, dst) from None
    fs._link(d, name, node)
    node.nlink += 1
    p.events.append(('link', scanon, canon))


@export
def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    src, dst = _path(src), _path(dst)
    p, fs, _ = _sys('symlink', dst)
    d, name, target, canon = fs.walk(dst, _at(p, dir_fd), p.uid, False)
    if target is not None:
        raise err(errno.EEXIST, src, dst)
    fs.check_dir_writable(d, p.uid, dst)
    node = fs.create(d, name, 'l', 0o777, p.uid)
    node.target = src
    p.events.append(('symlink', canon, src))


@export
def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        p, fs, _ = _sys('chmod')
        d = _desc(p, path)
        node, canon = d.node, d.canon
    else:
        path = _path(path)
        p, fs, _ = _sys('chmod', path)
        node, canon = fs.lookup(path, _at(p, dir_fd), p.uid, follow_symlinks)
    if p.uid not in (0, node.uid):
        raise err(errno.EPERM, path)
    node.mode = mode & 0o7777
    node.ctime = fs.clock()
    p.events.append(('chmod', canon))


@export
def fchmod(fd, mode):
    chmod(fd, mode)


@export
def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    path = _path(path)
    p, fs, _ = _sys('utime', path)
    node, canon = fs.lookup(path, _at(p, dir_fd), p.uid, follow_symlinks)
    if times is not None:
        node.atime, node.mtime = (int(t * 10**9) for t in times)
    elif ns is not None:
        node.atime, node.mtime = ns
    else:
        node.atime = node.mtime = fs.clock()
    p.events.append(('utime', canon))


# -- files

@export
def open(path, flags, mode=0o777, *, dir_fd=None):
    path = _path(path)
    p = proc()
    fs = p.world.fs
    want = flags & real_os.O_ACCMODE
    writing = want != real_os.O_RDONLY
    p.world.enter(p, 'creat' if flags & real_os.O_CREAT else 'open', path)
    follow = not (flags & real_os.O_NOFOLLOW) and not (flags & real_os.O_EXCL and flags & real_os.O_CREAT)
    d, name, node, canon = fs.walk(path, _at(p, dir_fd), p.uid, follow)
    if node is None:
        if not flags & real_os.O_CREAT:
            raise err(errno.ENOENT, path)
        if path.endswith('/'):
            raise err(errno.EISDIR, path)
        fs.check_dir_writable(d, p.uid, path)
        node = fs.create(d, name, 'f', mode & ~p.umask & 0o777, p.uid)
        p.events.append(('create', canon))
    else:
        if flags & real_os.O_CREAT and flags & real_os.O_EXCL:
            raise err(errno.EEXIST, path)
        if node.kind == 'l':
            raise err(errno.ELOOP, path)
        if node.kind == 'd':
            if writing or flags & real_os.O_CREAT:
                raise err(errno.EISDIR, path)
        elif flags & real_os.O_DIRECTORY:
            raise err(errno.ENOTDIR, path)
        bits = {real_os.O_RDONLY: 4, real_os.O_WRONLY: 2, real_os.O_RDWR: 6}[want]
        if not fs.may(node, p.uid, bits):
            raise err(errno.EACCES, path)
        if flags & real_os.O_TRUNC and writing:
            fs.truncate(node, 0)
            p.events.append(('truncate', canon))
    fd = 3
    while fd in p.fds:
        fd += 1
    p.fds[fd] = Desc(node, canon, flags, fd, p)
    if len(p.fds) > 900:
        del p.fds[fd]
        raise err(errno.EMFILE, path)
    return fd


@export
def close(fd):
    p = proc()
    if p.ended or p.dead:
        raise Killed
    d = p.fds.pop(fd, None)
    if d is None:
        raise err(errno.EBADF)
    p.world.log(p.pid, 'close', fd)


@export
def closerange(a, b):
    p = proc()
    for fd in [f for f in p.fds if a <= f < b]:
        del p.fds[fd]


def d_read(d, n):
    p = d.proc
    fs = p.world.fs
    todo = p.world.enter(p, 'read', d.canon)
    if not d.readable:
        raise err(errno.EBADF)
    if d.node.kind != 'f':
        raise err(errno.EISDIR)
    if n < 0:
        n = len(d.node.data)
    if todo == 'short' and n > 1:
        n = max(1, n // 2)
    out = bytes(d.node.data[d.pos:d.pos + n])
    d.pos += len(out)
    if todo == 'rot' and out:
        b = bytearray(out)
        bit = d.proc.rng.randrange(len(b) * 8)
        b[bit // 8] ^= 1 << bit % 8
        out = bytes(b)
    return out


def d_write(d, data):
    p = d.proc
    w = p.world
    data = bytes(data)
    todo = w.enter(p, 'write', d.canon)
    if not d.writable:
        raise err(errno.EBADF)
    if todo == 'short' and len(data) > 1:
        data = data[:len(data) // 2]
    if todo == 'tornkill':
        data = data[:p.rng.randint(0, len(data))]
    if d.flags & real_os.O_APPEND:
        d.pos = len(d.node.data)
    if data:
        w.fs.write(d.node, d.pos, data)
        p.events.append(('write', d.canon))
    d.pos += len(data)
    if todo == 'tornkill':
        p.dead = True
        raise Killed
    return len(data)


@export
def read(fd, n):
    return d_read(_desc(proc(), fd), n)


@export
def write(fd, data):
    return d_write(_desc(proc(), fd), memoryview(data))


@export
def lseek(fd, pos, how):
    d = _desc(proc(), fd)
    return d_seek(d, pos, how)


def d_seek(d, pos, how):
    base = 0 if how == 0 else d.pos if how == 1 else len(d.node.data or b'')
    if base + pos < 0:
        raise err(errno.EINVAL)
    d.pos = base + pos
    return d.pos


def d_fsync(d):
    p = d.proc
    w = p.world
    w.enter(p, 'fsync', d.canon)
    w.fs.fsync(d.node, w.personality)


@export
def fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    d_fsync(_desc(proc(), fd))


@export
def fdatasync(fd):
    fsync(fd)


@export
def sync():
    p, fs, _ = _sys('fsync')
    fs.sync_all()


def d_truncate(d, size):
    p = d.proc
    p.world.enter(p, 'truncate', d.canon)
    if not d.writable:
        raise err(errno.EINVAL)
    p.world.fs.truncate(d.node, size)
    p.events.append(('truncate', d.canon))


@export
def ftruncate(fd, size):
    d_truncate(_desc(proc(), fd), size)


@export
def truncate(path, size):
    if isinstance(path, int):
        return ftruncate(path, size)
    fd = open(path, real_os.O_WRONLY)
    try:
        ftruncate(fd, size)
    finally:
        close(fd)


@export
def dup(fd):
    p = proc()
    d = _desc(p, fd)
    new = 3
    while new in p.fds:
        new += 1
    p.fds[new] = d
    return new


@export
def isatty(fd):
    return False


@export
def get_inheritable(fd):
    return False


@export
def set_inheritable(fd, value):
    pass


@export
def statvfs(path):
    _sys('statvfs')
    return real_os.statvfs_result((4096, 4096, 10**7, 10**7, 10**7, 10**6, 10**6, 10**6, 4096, 255))


# -- process

@export
def getpid():
    return proc().pid


@export
def getppid():
    return 1


for _n in ('getuid', 'geteuid', 'getgid', 'getegid'):
    setattr(posix, _n, lambda: proc().uid)


@export
def getlogin():
    return 'user'


@export
def umask(mask):
    p = proc()
    old, p.umask = p.umask, mask & 0o777
    return old


@export
def urandom(n):
    p = proc()
    return p.rng.randbytes(n)


@export
def getrandom(n, flags=0):
    return urandom(n)


@export
def putenv(k, v):
    pass


@export
def unsetenv(k):
    pass


@export
def uname():
    return real_os.uname_result(('Linux', proc().host.name, '6.0', '#1', 'x86_64'))


@export
def get_terminal_size(fd=1):
    raise err(errno.ENOTTY)


@export
def _exit(code):
    raise SystemExit(code)


@export
def device_encoding(fd):
    return None


@export
def sched_yield():
    _sys('sched_yield')


# -- file objects

class SimFileIO(io.RawIOBase):
    def __init__(self, name, desc, mode, closefd=True):
        self._d = desc
        self.name = name
        self.mode = mode
        self._closefd = closefd
        self._fdno = desc.fd

    def _ok(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        self._ok()
        return self._d.readable

    def writable(self):
        self._ok()
        return self._d.writable

    def seekable(self):
        self._ok()
        return True

    def fileno(self):
        self._ok()
        return self._fdno

    def isatty(self):
        self._ok()
        return False

    def readinto(self, b):
        self._ok()
        if not self._d.readable:
            raise io.UnsupportedOperation('not readable')
        data = d_read(self._d, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        self._ok()
        if not self._d.readable:
            raise io.UnsupportedOperation('not readable')
        out = []
        while True:
            chunk = d_read(self._d, max(1, len(self._d.node.data) - self._d.pos))
            if not chunk:
                return b''.join(out)
            out.append(chunk)

    def write(self, b):
        self._ok()
        if not self._d.writable:
            raise io.UnsupportedOperation('not writable')
        return d_write(self._d, b)

    def seek(self, pos, whence=0):
        self._ok()
        return d_seek(self._d, pos, whence)

    def tell(self):
        self._ok()
        return self._d.pos

    def truncate(self, size=None):
        self._ok()
        if size is None:
            size = self._d.pos
        d_truncate(self._d, size)
        return size

    def close(self):
        if self.closed:
            return
        d = self._d
        try:
            super().close()
        finally:
            if self._closefd and d.proc.fds.get(self._fdno) is d and not d.proc.ended:
                del d.proc.fds[self._fdno]


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = proc()
    if not isinstance(file, int):
        file = real_os.fspath(file)
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError(f'invalid mode: {mode!r}')
    creating, reading, writing, appending = ('x' in modes, 'r' in modes, 'w' in modes, 'a' in modes)
    updating, text, binary = '+' in modes, 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode takes no encoding, errors or newline argument')
    acc = real_os.O_RDWR if updating else real_os.O_RDONLY if reading else real_os.O_WRONLY
    flags = acc | real_os.O_CLOEXEC
    if creating:
        flags |= real_os.O_CREAT | real_os.O_EXCL
    elif writing:
        flags |= real_os.O_CREAT | real_os.O_TRUNC
    elif appending:
        flags |= real_os.O_CREAT | real_os.O_APPEND
    if isinstance(file, int):
        desc = _desc(p, file)
    else:
        fd = opener(file, flags) if opener is not None else open(file, flags, 0o666)
        desc = _desc(p, fd)
        if desc.node.kind == 'd':
            del p.fds[fd]
            raise err(errno.EISDIR, _path(file))
    raw = SimFileIO(file, desc, ''.join(sorted(modes - {'t', 'b'})) , closefd)
    if appending:
        desc.pos = len(desc.node.data)
    line_buffering = buffering == 1 and not binary
    if buffering < 0 or buffering == 1:
        buffering = p.world.fs.blksize
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if updating:
        buf = io.BufferedRandom(raw, buffering)
    elif reading:
        buf = io.BufferedReader(raw, buffering)
    else:
        buf = io.BufferedWriter(raw, buffering)
    if binary:
        if not reading or updating:
            p.writers.append(weakref.ref(buf))
        return buf
    txt = io.TextIOWrapper(buf, 'utf-8' if encoding in (None, 'locale') else encoding, errors, newline, line_buffering)
    txt.mode = mode
    if not reading or updating:
        p.writers.append(weakref.ref(txt))
    return txt


class FileIO(SimFileIO):
    """io.FileIO replacement."""

    def __init__(self, file, mode='r', closefd=True, opener=None):
        raw = sim_open(file, mode.replace('b', '') + 'b', 0, closefd=closefd, opener=opener)
        super().__init__(file, raw._d, mode, closefd)
        raw._closefd = False
