"""A file system in memory that records, interrupts and schedules.

Everything below a root of its own is served from memory; the functions of
os and io pass other paths on.  Contents may be symbolic.  Before every
operation another process could notice, the hook is called; what a file holds
after a crash is what was written out for certain, or any part of the rest.
"""
import builtins
import errno
import io
import os
import stat
import threading
import time

from hlib.util import Stream

COUNT = [0]
FD = 100000


class Crash(BaseException):
    """The process that sees this is dead."""


class Inode(object):
    def __init__(self, data=b'', mode=0o644, kind='file'):
        self.data = data
        self.mode = mode
        self.kind = kind
        self.links = 1
        self.stable = data
        self.mtime = 0
        self.number = 0


def err(number, path):
    return OSError(number, os.strerror(number), path)


class File(object):
    """What open() gives."""

    def __init__(self, fs, path, inode, mode, fd):
        self.fs = fs
        self.name = path
        self.inode = inode
        self.mode = mode
        self.text = 'b' not in mode
        self.encoding = 'utf-8'
        self.pos = 0
        self.closed = False
        self.pending = False
        self.fd = fd
        self.can_read = 'r' in mode or '+' in mode
        self.can_write = 'r' not in mode or '+' in mode
        self.append = 'a' in mode
        self.data = inode.data
        if self.append:
            self.pos = len(self.data)

    def _load(self):
        if not self.pending:
            self.data = self.inode.data

    def read(self, n=-1):
        self.check(self.can_read)
        self._load()
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out.decode('utf-8') if self.text else out

    def readline(self, n=-1):
        self._load()
        rest = bytes(self.data[self.pos:])
        i = rest.find(b'\n')
        return self.read(len(rest) if i < 0 else i + 1)

    def readlines(self):
        out = []
        while 1:
            line = self.readline()
            if not line:
                return out
            out.append(line)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        self.check(self.can_write)
        self._load()
        n = len(data)
        if self.text:
            data = data.encode('utf-8')
        data = bytes(data)
        if self.append:
            self.pos = len(self.data)
        self.data = (self.data[:self.pos] + data
                     + self.data[self.pos + len(data):])
        self.pos += len(data)
        self.pending = True
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def truncate(self, n=None):
        self.flush()
        n = self.pos if n is None else n
        self.fs.step('truncate', self.name)
        self.inode.data = self.data = self.data[:n]
        return n

    def flush(self):
        self.check(True)
        if self.pending:
            self.fs.step('write', self.name, self)
            self.inode.data = self.data
            self.pending = False
            self.fs.touch(self.inode)

    def check(self, ok):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not ok:
            raise io.UnsupportedOperation('not allowed')

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self._load()
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        self.pos = pos
        return pos

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                self.closed = True
                self.fs.fds.pop(self.fd, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Stat(object):
    def __init__(self, inode):
        self.st_mode = inode.mode | (
            stat.S_IFDIR if inode.kind == 'dir' else stat.S_IFREG)
        self.st_size = len(inode.data)
        self.st_nlink = inode.links
        self.st_mtime = self.st_ctime = self.st_atime = float(inode.mtime)
        self.st_mtime_ns = self.st_ctime_ns = self.st_atime_ns = \
            inode.mtime * 1000000000
        self.st_uid = self.st_gid = 0
        self.st_ino = inode.number
        self.st_dev = 1


class FS(object):
    """In memory, for symbolic runs and for crashes and schedules."""

    real = False

    def __init__(self, sx):
        COUNT[0] += 1
        self.root = '/nowhere-%d' % COUNT[0]
        self.files = {}
        self.fds = {}
        self.next_fd = FD
        self.next_inode = 1
        self.pid = 70001
        self.alive = [70001]
        self.hook = None
        self.sleeper = None
        self.slept = 0
        self.dead = {}
        self.umask = 0o022
        self.install(sx)

    # for the harnesses
    def path(self, name):
        return self.root + '/' + name

    def put(self, name, data, mode=0o600):
        self.next_inode += 1
        node = Inode(data, mode)
        node.number = self.next_inode
        self.files[self.path(name)] = node

    def get(self, name):
        return self.files[self.path(name)].data

    def mode(self, name):
        return self.files[self.path(name)].mode

    def names(self):
        n = len(self.root) + 1
        return sorted([p[n:] for p in self.files])

    def close(self):
        pass

    def mine(self, path):
        if isinstance(path, bytes):
            path = path.decode('utf-8')
        path = getattr(path, '_fs_path', path)
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        return isinstance(path, str) and path.startswith(self.root)

    # operations
    def step(self, kind, path, detail=None):
        if self.dead.get(self.pid):
            raise Crash()
        if self.hook is not None:
            self.hook(kind, path, detail)

    def norm(self, path):
        if isinstance(path, bytes):
            path = path.decode('utf-8')
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        return os.path.normpath(path)

    def node(self, path):
        path = self.norm(path)
        if path == self.root:
            return Inode(b'', 0o755, 'dir')
        if path not in self.files:
            raise err(errno.ENOENT, path)
        return self.files[path]

    def touch(self, inode):
        inode.mtime = 1

    def open(self, path, mode='r', *a, **k):
        if k.get('opener') is not None:
            path = k['opener'](path, 0)
        if isinstance(path, int):
            f = self.fds[path]
            f.text = 'b' not in mode
            f.can_read = 'r' in mode or '+' in mode
            f.can_write = 'r' not in mode or '+' in mode
            return f
        path = self.norm(path)
        self.step('open', path)
        if path in self.files and self.files[path].kind == 'dir':
            raise err(errno.EISDIR, path)
        if 'x' in mode and path in self.files:
            raise err(errno.EEXIST, path)
        if path not in self.files:
            if 'r' in mode:
                raise err(errno.ENOENT, path)
            self.create(path, 0o666 & ~self.umask)
        elif 'w' in mode:
            self.files[path].data = b''
            self.touch(self.files[path])
        return self.descriptor(path, mode)

    def create(self, path, mode):
        folder = os.path.dirname(path)
        if folder != self.root and folder not in self.files:
            raise err(errno.ENOENT, path)
        self.next_inode += 1
        node = Inode(b'', mode)
        node.number = self.next_inode
        self.files[path] = node

    def descriptor(self, path, mode):
        self.next_fd += 1
        f = File(self, path, self.files[path], mode, self.next_fd)
        self.fds[self.next_fd] = f
        return f

    def os_open(self, path, flags, mode=0o777, **k):
        path = self.norm(path)
        if path == self.root:
            self.next_fd += 1
            self.fds[self.next_fd] = None
            return self.next_fd
        self.step('open', path)
        if path in self.files:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if flags & os.O_TRUNC:
                self.files[path].data = b''
        elif flags & os.O_CREAT:
            self.create(path, mode & ~self.umask)
        else:
            raise err(errno.ENOENT, path)
        how = 'rb'
        if flags & os.O_RDWR:
            how = 'r+b'
        elif flags & os.O_WRONLY:
            how = 'wb'
        if flags & os.O_APPEND:
            how = how.replace('w', 'a')
        return self.descriptor(path, how).fd

    def os_write(self, fd, data):
        f = self.fds[fd]
        n = f.write(data)
        f.flush()
        return n

    def os_read(self, fd, n):
        return self.fds[fd].read(n)

    def os_close(self, fd):
        f = self.fds.pop(fd)
        if f is not None:
            f.close()

    def fsync(self, fd):
        f = self.fds[fd] if isinstance(fd, int) else fd
        if f is None:
            return
        self.step('fsync', f.name)
        f.inode.stable = f.inode.data

    def fdopen(self, fd, mode='r', *a, **k):
        return self.open(fd, mode)

    def stat(self, path, **k):
        if isinstance(path, int):
            return Stat(self.fds[path].inode)
        self.step('stat', path)
        return Stat(self.node(path))

    def link(self, old, new, **k):
        old, new = self.norm(old), self.norm(new)
        self.step('link', new)
        node = self.node(old)
        if new in self.files:
            raise err(errno.EEXIST, new)
        node.links += 1
        self.files[new] = node

    def unlink(self, path, **k):
        path = self.norm(path)
        self.step('unlink', path)
        node = self.node(path)
        node.links -= 1
        del self.files[path]

    def rename(self, old, new, **k):
        old, new = self.norm(old), self.norm(new)
        self.step('rename', new)
        node = self.node(old)
        if new in self.files and self.files[new] is node:
            return
        del self.files[old]
        self.files[new] = node

    def chmod(self, path, mode, **k):
        if isinstance(path, int):
            node = self.fds[path].inode
        else:
            path = self.norm(path)
            node = self.node(path)
        self.step('chmod', path)
        node.mode = mode & 0o7777

    def chown(self, path, uid, gid, **k):
        self.step('chown', path)

    def utime(self, path, *a, **k):
        self.step('utime', path)

    def access(self, path, mode, **k):
        self.step('stat', path)
        path = self.norm(path)
        return path == self.root or path in self.files

    def listdir(self, path='.'):
        self.step('list', path)
        n = len(self.norm(path)) + 1
        return sorted([p[n:] for p in self.files
                       if os.path.dirname(p) == self.norm(path)])

    def mkdir(self, path, mode=0o777, **k):
        path = self.norm(path)
        self.step('mkdir', path)
        if path == self.root or path in self.files:
            raise err(errno.EEXIST, path)
        self.files[path] = Inode(b'', mode, 'dir')

    def rmdir(self, path, **k):
        path = self.norm(path)
        self.step('rmdir', path)
        self.node(path)
        del self.files[path]

    def truncate(self, path, n):
        if isinstance(path, int):
            self.fds[path].truncate(n)
            return
        self.step('truncate', path)
        node = self.node(path)
        node.data = node.data[:n]

    def readlink(self, path, **k):
        raise err(errno.EINVAL, path)

    def kill(self, pid, number):
        """Only tells whether there is such a process."""
        self.step('kill', str(pid))
        if pid not in self.alive:
            raise err(errno.ESRCH, None)
        if number:
            raise AssertionError('a process was to be killed')

    def getpid(self):
        return self.pid

    def sleep(self, seconds):
        if self.dead.get(self.pid):
            raise Crash()
        if self.sleeper is not None:
            self.sleeper(seconds)
        else:
            self.slept += 1
            if self.slept > 20:
                raise AssertionError('waits for ever')

    def install(self, sx):
        fs = self

        def passing(real, ours, paths=1):
            def f(*a, **k):
                for x in a[:paths]:
                    if fs.mine(x) or (isinstance(x, int) and x > FD
                                      and not isinstance(x, bool)):
                        return ours(*a, **k)
                return real(*a, **k)
            return f
        for name, ours, paths in [
                ('stat', fs.stat, 1), ('lstat', fs.stat, 1),
                ('fstat', fs.stat, 1), ('link', fs.link, 2),
                ('unlink', fs.unlink, 1), ('remove', fs.unlink, 1),
                ('rename', fs.rename, 2), ('replace', fs.rename, 2),
                ('chmod', fs.chmod, 1), ('fchmod', fs.chmod, 1),
                ('chown', fs.chown, 1), ('fchown', fs.chown, 1),
                ('utime', fs.utime, 1), ('access', fs.access, 1),
                ('listdir', fs.listdir, 1), ('mkdir', fs.mkdir, 1),
                ('rmdir', fs.rmdir, 1), ('truncate', fs.truncate, 1),
                ('ftruncate', fs.truncate, 1), ('readlink', fs.readlink, 1),
                ('open', fs.os_open, 1), ('write', fs.os_write, 1),
                ('read', fs.os_read, 1), ('close', fs.os_close, 1),
                ('fsync', fs.fsync, 1), ('fdatasync', fs.fsync, 1),
                ('fdopen', fs.fdopen, 1)]:
            sx.patch(os, name, passing(getattr(os, name), ours, paths))
        sx.patch(os, 'kill', fs.kill)
        sx.patch(os, 'getpid', fs.getpid)
        sx.patch(time, 'sleep', fs.sleep)
        for m in [builtins, io, getattr(io, '_real', None)]:
            if m is not None:
                opener = passing(m.open, fs.open)
                sx.patch(m, 'open', opener)


class RealFS(object):
    """A scratch directory, for replays."""

    real = True

    def __init__(self, sx):
        import tempfile
        self.root = tempfile.mkdtemp(prefix='vfy-')

    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, data, mode=0o600):
        with open(self.path(name), 'wb') as f:
            f.write(bytes(data))
        os.chmod(self.path(name), mode)

    def get(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def mode(self, name):
        return stat.S_IMODE(os.stat(self.path(name)).st_mode)

    def names(self):
        return sorted(os.listdir(self.root))

    def close(self):
        import shutil
        shutil.rmtree(self.root, ignore_errors=True)


def make(sx):
    return FS(sx) if sx.symbolic else RealFS(sx)


def containers(modules):
    """Lists, dictionaries and sets that belong to modules and classes."""
    out = []
    for m in modules:
        spaces = [vars(m)]
        for v in list(vars(m).values()):
            if hasattr(v, '__mro__') and v.__module__ == m.__name__:
                spaces.append(vars(v))
        for space in spaces:
            for name in sorted(space):
                v = space[name]
                if name[:2] != '__' and isinstance(v, (list, dict, set)):
                    out.append((v, v.copy()))
    return out


def pristine(state):
    """What a new process starts with."""
    for v, first in state:
        if isinstance(v, list):
            v[:] = first
        else:
            v.clear()
            v.update(first)
