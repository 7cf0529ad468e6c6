"""
The simulated disk: an in-memory file system under VROOT, with the os, open()
and tempfile calls of the code under test (and of the standard library below
it) routed to it. Faults are planned; nothing here is random.

Nothing outside VROOT can be changed through these calls: such a call is
recorded as an escape and refused. (Directories that do not exist under the
package itself are overlaid: relative upload directories live there.)
"""
import __builtin__
import errno
import io
import os
import stat as _stat
import tempfile
import thread
import threading

VROOT = '/__simdisk__'
SYSTMP = VROOT + '/systmp'
NAME_MAX = 255

_real = {}
for _n in ('open', 'fdopen', 'close', 'write', 'read', 'lseek', 'fsync', 'ftruncate', 'fstat', 'isatty',
           'stat', 'lstat', 'unlink', 'remove', 'mkdir', 'rmdir', 'rename', 'link', 'symlink',
           'listdir', 'access', 'chmod', 'chown', 'utime', 'readlink', 'truncate', 'mkfifo', 'lchmod', 'lchown',
           'statvfs'):
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
_real_builtin_open = __builtin__.open
_real_io_open = io.open


class Crash(BaseException):
    """The process dies: nothing it does after this reaches the disk."""


class Node(object):
    def __init__(self, kind, mode):
        self.kind = kind        # 'f' or 'd'
        self.mode = mode
        self.data = ''          # contents (files)
        self.chunks = None      # pending appends, joined on demand
        self.foreign = False    # put there by someone else than the code under test
        self.touched = False    # changed after it was put there

    def get(self):
        if self.chunks:
            self.data = self.data + ''.join(self.chunks)
            self.chunks = None
        return self.data

    def size(self):
        return len(self.data) + (sum(len(c) for c in self.chunks) if self.chunks else 0)

    def put(self, pos, data):
        n = self.size()
        if pos == n:
            if self.chunks is None:
                self.chunks = []
            self.chunks.append(data)
            return
        d = self.get()
        if pos > n:
            d = d + '\0' * (pos - n)
        self.data = d[:pos] + data + d[pos + len(data):]


class Disk(object):
    """
    plan (all keys optional):
      bufsize    write buffer of file objects
      faults     [{'op': class or '*', 'nth': n (0-based, counted per class), 'err': name,
                   'last': bool (keeps failing), 'torn': bytes of a write that still get through}]
      capacity   bytes that fit
      collide    the first n temporary names are already taken
      keepbuf    whether data whose flush failed stays buffered
      nt         as on Windows: an open file can be neither removed nor renamed, and names have fewer characters
    """

    def __init__(self, plan=None, sim=None):
        plan = plan or {}
        self.plan = plan
        self.sim = sim
        self.bufsize = plan.get('bufsize', 8192)
        self.faults = []
        self.capacity = None
        self.collide = 0
        self.crashed = False
        self.keepbuf = plan.get('keepbuf', True)
        self.nt = bool(plan.get('nt'))
        self.opened = {}         # path -> how often it is open
        self.nodes = {VROOT: Node('d', 0755), SYSTMP: Node('d', 0755), CWD: Node('d', 0755)}
        self.counts = {}
        self.total_ops = 0
        self.fired = []          # (op, errno name)
        self.escapes = []        # attempted changes outside
        self.trace = []          # op classes in order
        self.created = []        # paths of files made by the code
        self.born = {}           # path -> number of the scheduling point
        self.made_dirs = []
        self.excused = set()     # paths whose close or unlink failed by a fault
        self.clobbered = []
        self.healed = False
        self.open_fds = 0
        self.max_used = 0
        self.threads = set([thread.get_ident()])
        self.names = 0
        self.collided = 0
        self.bytes_written = 0

    def arm(self):
        """Planned faults count from here."""
        plan = self.plan
        self.counts = {}
        self.total_ops = 0
        self.trace = []
        self.created = []
        self.faults = [dict(f) for f in plan.get('faults') or []]
        self.capacity = plan.get('capacity')
        self.collide = plan.get('collide') or 0

    def adopt(self, old):
        """What a crash leaves behind: everything that was written, and it belongs to nobody."""
        self.nodes = {}
        for p, n in old.nodes.items():
            m = Node(n.kind, n.mode)
            m.data = n.get() if n.kind == 'f' else ''
            if n.kind == 'f':
                m.foreign = m.data
            self.nodes[p] = m

    # -- set-up by the harness
    def add_dir(self, path, mode=0755):
        self.nodes[path] = Node('d', mode)

    def add_file(self, path, data, mode=0644):
        n = Node('f', mode)
        n.data = data
        n.foreign = data
        self.nodes[path] = n
        return n

    def foreign_damage(self):
        """What happened to files that belong to someone else."""
        out = list(self.clobbered)
        for p, n in sorted(self.nodes.items()):
            if n.kind == 'f' and n.foreign is not False and n.get() != n.foreign:
                out.append('changed ' + p)
        return out

    def files(self, under=VROOT, foreign=False):
        return sorted(p for p, n in self.nodes.items()
                      if n.kind == 'f' and p.startswith(under + '/') and (foreign or n.foreign is False))

    def used(self):
        return sum(n.size() for n in self.nodes.values() if n.kind == 'f')

    def heal(self):
        self.healed = True
        self.capacity = None
        for p, n in self.nodes.items():
            if n.kind == 'd':
                n.mode |= 0700

    # -- faults
    def step(self, op, path):
        """One operation of class op is about to happen; returns a planned fault or None."""
        if self.crashed:
            raise Crash()
        self.total_ops += 1
        self.trace.append(op)
        if self.sim is not None:
            self.sim.log('d:%s' % op)
            self.sim.yield_point('disk')
        k = self.counts.get(op, 0)
        self.counts[op] = k + 1
        if self.healed:
            return None
        for f in self.faults:
            if f['op'] == '*':
                i = self.total_ops - 1
            elif f['op'] == op:
                i = k
            else:
                continue
            if i == f['nth'] or (f.get('last') and i >= f['nth']):
                self.fired.append((op, f['err']))
                if f['err'] == 'CRASH':
                    self.crashed = True
                    raise Crash()
                if op in ('close', 'unlink'):
                    self.excused.add(path)
                return f
        return None

    def check(self, op, path, exc=OSError):
        f = self.step(op, path)
        if f is not None:
            raise mkerr(exc, f['err'], path)

    # -- path helpers
    def parent_ok(self, path, exc):
        d = os.path.dirname(path)
        n = self.lookup(d)
        if n is None:
            raise mkerr(exc, 'ENOENT', path)
        if n.kind != 'd':
            raise mkerr(exc, 'ENOTDIR', path)
        if len(os.path.basename(path)) > NAME_MAX:
            raise mkerr(exc, 'ENAMETOOLONG', path)
        return n

    def lookup(self, path):
        n = self.nodes.get(path)
        if n is not None:
            return n
        if not path.startswith(VROOT) and is_virtual_dir(path):
            try:
                st = _real['stat'](path)
            except (OSError, IOError):
                return None
            return Node('d' if _stat.S_ISDIR(st.st_mode) else 'f', 0755)
        return None

    # -- operations
    def open(self, path, flags, mode=0777, exc=OSError, op=None):
        if '\0' in path:
            raise mkerr(exc, 'EINVAL', path)
        creat = flags & os.O_CREAT
        if self.nt and [c for c in os.path.basename(path) if c < ' ' or c in '<>:"|?*\\']:
            raise mkerr(exc, 'EINVAL', path)
        fault = self.step('create' if creat else 'open', path)
        if fault is not None:
            raise mkerr(exc, fault['err'], path)
        parent = self.parent_ok(path, exc)
        node = self.lookup(path)
        if (creat and flags & os.O_EXCL and node is None and self.collided < self.collide
                and path.startswith(VROOT)):
            # someone else has just taken this very name
            self.collided += 1
            node = self.add_file(path, 'not yours %d' % self.collided)
        elif creat and node is None and not (flags & os.O_EXCL) and self.collided < self.collide:
            self.collided += 1
            node = self.add_file(path, 'not yours %d' % self.collided)
        if node is not None:
            if creat and flags & os.O_EXCL:
                raise mkerr(exc, 'EEXIST', path)
            if node.kind == 'd':
                raise mkerr(exc, 'EISDIR', path)
            writing = flags & (os.O_WRONLY | os.O_RDWR)
            if writing and path not in self.nodes:
                self.escapes.append('open %s' % path)
                raise mkerr(exc, 'EACCES', path)
            if writing and not node.mode & 0200:
                raise mkerr(exc, 'EACCES', path)
            if flags & os.O_TRUNC:
                node.data = ''
                node.chunks = None
                if node.foreign is not False:
                    self.clobbered.append('truncated ' + path)
        else:
            if not creat:
                raise mkerr(exc, 'ENOENT', path)
            if not parent.mode & 0200:
                raise mkerr(exc, 'EACCES', path)
            if self.capacity is not None and self.capacity <= 0 and self.used() >= self.capacity:
                self.fired.append(('create', 'ENOSPC'))
                raise mkerr(exc, 'ENOSPC', path)
            node = Node('f', mode)
            self.nodes[path] = node
            self.created.append(path)
            if self.sim is not None:
                self.born[path] = self.sim.yields
        self.open_fds += 1
        self.opened[path] = self.opened.get(path, 0) + 1
        return SimFD(self, path, node, flags)

    def pwrite(self, fd, data, exc):
        """Physical write; returns how much was written, raises if an error follows that."""
        f = self.step('write', fd.path)
        if not fd.flags & (os.O_WRONLY | os.O_RDWR):
            raise mkerr(exc, 'EBADF', fd.path)
        if f is not None:
            torn = min(f.get('torn', 0), len(data))
            if torn:
                fd.node.put(fd.pos, data[:torn])
                fd.pos += torn
            e = mkerr(exc, f['err'], fd.path)
            e._torn = torn
            raise e
        if self.capacity is not None:
            room = max(0, self.capacity - self.used())
            if room < len(data):
                if room:
                    fd.node.put(fd.pos, data[:room])
                    fd.pos += room
                self.fired.append(('write', 'ENOSPC'))
                e = mkerr(exc, 'ENOSPC', fd.path)
                e._torn = room
                raise e
        if fd.flags & os.O_APPEND:
            fd.pos = fd.node.size()
        fd.node.put(fd.pos, data)
        fd.pos += len(data)
        self.bytes_written += len(data)
        return len(data)

    def remove(self, path):
        f = self.step('unlink', path)
        if f is not None:
            raise mkerr(OSError, f['err'], path)
        n = self.lookup(path)
        if n is None:
            raise mkerr(OSError, 'ENOENT', path)
        if n.kind == 'd':
            raise mkerr(OSError, 'EPERM', path)
        if path not in self.nodes:
            self.escapes.append('unlink %s' % path)
            raise mkerr(OSError, 'EACCES', path)
        self.in_use(path)
        p = self.lookup(os.path.dirname(path))
        if p is not None and not p.mode & 0200:
            self.excused.add(path)
            raise mkerr(OSError, 'EACCES', path)
        if n.foreign is not False:
            self.clobbered.append('removed ' + path)
        self.nodes.pop(path, None)

    def in_use(self, path):
        if self.nt and self.opened.get(path):
            raise mkerr(OSError, 'EACCES', path)

    def mkdir(self, path, mode=0777):
        f = self.step('mkdir', path)
        if f is not None:
            raise mkerr(OSError, f['err'], path)
        p = self.parent_ok(path, OSError)
        if self.lookup(path) is not None:
            raise mkerr(OSError, 'EEXIST', path)
        if not p.mode & 0200:
            raise mkerr(OSError, 'EACCES', path)
        self.nodes[path] = Node('d', mode)
        self.made_dirs.append(path)

    def rmdir(self, path):
        self.check('rmdir', path)
        n = self.nodes.get(path)
        if n is None:
            raise mkerr(OSError, 'ENOENT', path)
        if n.kind != 'd':
            raise mkerr(OSError, 'ENOTDIR', path)
        if [p for p in self.nodes if p.startswith(path + '/')]:
            raise mkerr(OSError, 'ENOTEMPTY', path)
        del self.nodes[path]

    def rename(self, a, b):
        self.check('rename', a)
        n = self.nodes.get(a)
        if n is None:
            raise mkerr(OSError, 'ENOENT', a)
        self.parent_ok(b, OSError)
        self.in_use(a)
        old = self.nodes.get(b)
        if old is not None and old.foreign is not False:
            self.clobbered.append('replaced ' + b)
        if n.foreign is not False:
            self.clobbered.append('moved ' + a)
        del self.nodes[a]
        self.nodes[b] = n
        if n.kind == 'f':
            self.created.append(b)

    def link(self, a, b):
        self.check('link', a)
        n = self.nodes.get(a)
        if n is None:
            raise mkerr(OSError, 'ENOENT', a)
        self.parent_ok(b, OSError)
        if b in self.nodes:
            raise mkerr(OSError, 'EEXIST', b)
        self.nodes[b] = n
        self.created.append(b)

    def stat(self, path):
        f = self.step('stat', path)
        if f is not None:
            raise mkerr(OSError, f['err'], path)
        n = self.lookup(path)
        if n is None:
            d = self.lookup(os.path.dirname(path))
            raise mkerr(OSError, 'ENOTDIR' if d is not None and d.kind == 'f' else 'ENOENT', path)
        return mkstat(n)

    def listdir(self, path):
        self.check('listdir', path)
        n = self.lookup(path)
        if n is None:
            raise mkerr(OSError, 'ENOENT', path)
        if n.kind != 'd':
            raise mkerr(OSError, 'ENOTDIR', path)
        k = len(path) + 1
        return sorted(p[k:] for p in self.nodes if p.startswith(path + '/') and '/' not in p[k:])


def mkstat(n):
    kind = _stat.S_IFDIR if n.kind == 'd' else _stat.S_IFREG
    return os.stat_result((kind | n.mode, 1, 1, 1, 0, 0, n.size() if n.kind == 'f' else 4096, 0, 0, 0))


def mkerr(exc, name, path):
    code = getattr(errno, name)
    e = exc(code, os.strerror(code), path)
    e.simulated = True
    return e


class SimFD(object):
    """What os.open() returns (Jython's own is an object, too)."""

    def __init__(self, disk, path, node, flags):
        self.disk = disk
        self.path = path
        self.node = node
        self.flags = flags
        self.pos = 0
        self.closed = False

    def fileno(self):
        return self

    def close_fd(self, exc=OSError):
        if self.closed:
            raise mkerr(exc, 'EBADF', self.path)
        self.closed = True
        self.disk.open_fds -= 1
        self.disk.opened[self.path] -= 1
        f = self.disk.step('close', self.path)
        if f is not None:
            raise mkerr(exc, f['err'], self.path)


class SimFile(object):
    """A Python 2 file object over a SimFD: buffered writes, errors at flush, seek, read and close."""

    encoding = None
    errors = None
    newlines = None
    softspace = 0
    loose = False    # an io file takes None for a size

    def __init__(self, fd, mode, bufsize, name):
        self._fd = fd
        self._disk = fd.disk
        self.mode = mode
        self.name = name
        self._limit = fd.disk.bufsize if bufsize is None or bufsize < 0 else bufsize
        if bufsize == 1:
            self._limit = fd.disk.bufsize
        self._buf = []
        self._pending = 0
        self._closed = False
        if 'a' in mode:
            fd.pos = fd.node.size()

    @property
    def closed(self):
        return self._closed

    def _dead(self):
        # finaliser threads, and anything left of an earlier run, have no effect
        return self._disk is not CURRENT[0] or foreign_thread(self._disk)

    def _check(self):
        if self._closed:
            raise ValueError('I/O operation on closed file')

    def _flush(self):
        if not self._buf:
            return
        data = ''.join(self._buf)
        try:
            self._disk.pwrite(self._fd, data, IOError)
        except IOError, e:
            if self._disk.keepbuf:
                data = data[getattr(e, '_torn', 0):]
                self._buf = [data] if data else []
                self._pending = len(data)
            else:
                self._buf = []
                self._pending = 0
            raise
        self._buf = []
        self._pending = 0

    def write(self, data):
        self._check()
        if self._dead():
            return
        if 'r' in self.mode and '+' not in self.mode:
            raise IOError(errno.EBADF, 'File not open for writing')
        if isinstance(data, unicode):
            data = data.encode('ascii')
        elif not isinstance(data, str):
            data = str(buffer(data))
        if not data:
            return
        self._buf.append(data)
        self._pending += len(data)
        if self._pending >= self._limit:
            self._flush()

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self._check()
        if not self._dead():
            self._flush()

    def _none(self):
        if self.loose:
            return -1
        raise TypeError('integer required')

    def _pre_read(self):
        self._check()
        if 'w' in self.mode and '+' not in self.mode:
            raise IOError(errno.EBADF, 'File not open for reading')
        self._flush()
        f = self._disk.step('read', self._fd.path)
        if f is not None:
            raise mkerr(IOError, f['err'], self._fd.path)

    def read(self, size=-1):
        if size is None:
            size = self._none()
        self._pre_read()
        d = self._fd.node.get()
        p = self._fd.pos
        out = d[p:] if size < 0 else d[p:p + size]
        self._fd.pos = p + len(out)
        return out

    def readline(self, size=-1):
        if size is None:
            size = self._none()
        self._pre_read()
        d = self._fd.node.get()
        p = self._fd.pos
        i = d.find('\n', p)
        end = i + 1 if i >= 0 else len(d)
        if size >= 0:
            end = min(end, p + size)
        out = d[p:end]
        self._fd.pos = p + len(out)
        return out

    def readlines(self, hint=None):
        out = []
        while 1:
            line = self.readline()
            if not line:
                return out
            out.append(line)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def xreadlines(self):
        return iter(self.readline, '')

    def __iter__(self):
        self._check()
        return self

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def seek(self, pos, whence=0):
        self._check()
        if self._dead():
            return
        self._flush()
        f = self._disk.step('seek', self._fd.path)
        if f is not None:
            raise mkerr(IOError, f['err'], self._fd.path)
        if whence == 1:
            pos += self._fd.pos
        elif whence == 2:
            pos += self._fd.node.size()
        if pos < 0:
            raise mkerr(IOError, 'EINVAL', self._fd.path)
        self._fd.pos = pos

    def tell(self):
        self._check()
        return self._fd.pos + self._pending

    def truncate(self, size=None):
        self._check()
        if self._dead():
            return
        self._flush()
        self._disk.check('truncate', self._fd.path, IOError)
        n = self._fd.pos if size is None else size
        self._fd.node.data = self._fd.node.get()[:n]

    def isatty(self):
        return False

    def fileno(self):
        return self._fd

    def close(self):
        if self._closed:
            return
        if self._dead():
            return
        self._closed = True
        err = None
        try:
            self._flush()
        except IOError, e:
            err = e
            self._disk.excused.add(self._fd.path)
        self._buf = []
        self._pending = 0
        try:
            if not self._fd.closed:
                self._fd.close_fd(IOError)
        except IOError, e:
            err = err or e
        if err is not None:
            raise err

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return '<sim file>'


class LooseFile(SimFile):
    loose = True


# ---------------------------------------------------------------- patching

CURRENT = [None]
PKG = [None]      # real directory of the package under test
OVERLAY = []


def foreign_thread(disk):
    return thread.get_ident() not in disk.threads


def is_virtual_dir(path):
    return PKG[0] is not None and (path == PKG[0] or path.startswith(PKG[0] + '/'))


def norm(path):
    if isinstance(path, unicode):
        path = path.encode('utf-8')
    if not isinstance(path, str):
        return None
    if not path.startswith('/'):
        path = os.path.join(CWD, path)
    # not normpath: a/../b needs a to exist, which is good enough here
    return os.path.normpath(path)


CWD = VROOT + '/cwd'


def virtual(path, change=False):
    """The normalised path if the simulated disk is to serve it, else None."""
    disk = CURRENT[0]
    p = norm(path)
    if p is None or disk is None:
        return None
    if p == VROOT or p.startswith(VROOT + '/'):
        return p
    if is_virtual_dir(p):
        if p in disk.nodes:
            return p
        try:
            _real['stat'](p)
        except (OSError, IOError):
            return p
        if change:
            # real files of the package: treated as present, and read-only
            return p
    return None


def _deny(what, path):
    disk = CURRENT[0]
    if disk is not None and not foreign_thread(disk):
        disk.escapes.append('%s %s' % (what, norm(path)))
    raise mkerr(OSError, 'EACCES', path)


def _active():
    return CURRENT[0] is not None


def _ours():
    return CURRENT[0] is not None and not foreign_thread(CURRENT[0])


def s_open(path, flags, mode=0777):
    if not _active():
        return _real['open'](path, flags, mode)
    v = virtual(path, flags & os.O_CREAT)
    if v is not None:
        return CURRENT[0].open(v, flags, mode)
    if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR | os.O_TRUNC):
        _deny('open', path)
    return _real['open'](path, flags, mode)


def s_fdopen(fd, mode='r', bufsize=-1):
    if isinstance(fd, SimFD):
        return SimFile(fd, mode, bufsize, '<fdopen>')
    return _real['fdopen'](fd, mode, bufsize)


def s_close(fd):
    if isinstance(fd, SimFD):
        if fd.disk is CURRENT[0] and not foreign_thread(fd.disk):
            fd.close_fd()
        return
    return _real['close'](fd)


def s_write(fd, data):
    if isinstance(fd, SimFD):
        return fd.disk.pwrite(fd, str(data), OSError)
    return _real['write'](fd, data)


def s_read(fd, n):
    if isinstance(fd, SimFD):
        fd.disk.check('read', fd.path)
        out = fd.node.get()[fd.pos:fd.pos + n]
        fd.pos += len(out)
        return out
    return _real['read'](fd, n)


def s_lseek(fd, pos, how):
    if isinstance(fd, SimFD):
        fd.disk.check('seek', fd.path)
        fd.pos = pos + (0, fd.pos, fd.node.size())[how]
        return fd.pos
    return _real['lseek'](fd, pos, how)


def s_fsync(fd):
    if isinstance(fd, SimFile):
        fd = fd.fileno()
    if isinstance(fd, SimFD):
        fd.disk.check('fsync', fd.path)
        return
    return _real['fsync'](fd)


def s_fstat(fd):
    if isinstance(fd, SimFD):
        return mkstat(fd.node)
    return _real['fstat'](fd)


def s_ftruncate(fd, n):
    if isinstance(fd, SimFD):
        fd.disk.check('truncate', fd.path)
        fd.node.data = fd.node.get()[:n]
        return
    return _real['ftruncate'](fd, n)


def s_stat(path):
    if _active():
        v = virtual(path)
        if v is not None:
            return CURRENT[0].stat(v)
    return _real['stat'](path)


def s_lstat(path):
    if _active():
        v = virtual(path)
        if v is not None:
            return CURRENT[0].stat(v)
    return _real['lstat'](path)


def s_unlink(path):
    if not _active():
        return _real['unlink'](path)
    v = virtual(path, True)
    if not _ours():
        return
    if v is not None:
        return CURRENT[0].remove(v)
    _deny('unlink', path)


def s_mkdir(path, mode=0777):
    if not _active():
        return _real['mkdir'](path, mode)
    v = virtual(path, True)
    if v is not None:
        return CURRENT[0].mkdir(v, mode)
    _deny('mkdir', path)


def s_rmdir(path):
    if not _active():
        return _real['rmdir'](path)
    v = virtual(path, True)
    if v is not None:
        return CURRENT[0].rmdir(v)
    _deny('rmdir', path)


def s_rename(a, b):
    if not _active():
        return _real['rename'](a, b)
    va, vb = virtual(a, True), virtual(b, True)
    if va is not None and vb is not None:
        return CURRENT[0].rename(va, vb)
    _deny('rename', a if va is None else b)


def s_link(a, b):
    if not _active():
        return _real['link'](a, b)
    va, vb = virtual(a, True), virtual(b, True)
    if va is not None and vb is not None:
        return CURRENT[0].link(va, vb)
    _deny('link', a if va is None else b)


def s_listdir(path):
    if _active():
        v = virtual(path)
        if v is not None:
            return CURRENT[0].listdir(v)
    return _real['listdir'](path)


def s_access(path, mode):
    if _active():
        v = virtual(path)
        if v is not None:
            n = CURRENT[0].lookup(v)
            if n is None:
                return False
            return not (mode & os.W_OK and not n.mode & 0200)
    return _real['access'](path, mode)


def s_chmod(path, mode):
    if not _active():
        return _real['chmod'](path, mode)
    v = virtual(path, True)
    if v is not None:
        n = CURRENT[0].lookup(v)
        if n is None:
            raise mkerr(OSError, 'ENOENT', path)
        n.mode = mode
        return
    _deny('chmod', path)


def s_utime(path, times):
    if not _active():
        return _real['utime'](path, times)
    if virtual(path, True) is None:
        _deny('utime', path)


def _refuse(name):
    real = _real[name]

    def f(*args, **kw):
        if not _active():
            return real(*args, **kw)
        _deny(name, args[0])
    return f


def mode_flags(mode):
    if '+' in mode:
        fl = os.O_RDWR
    elif 'r' in mode:
        fl = os.O_RDONLY
    else:
        fl = os.O_WRONLY
    if 'w' in mode:
        fl |= os.O_CREAT | os.O_TRUNC
    elif 'a' in mode:
        fl |= os.O_CREAT | os.O_APPEND
    elif 'x' in mode:
        fl |= os.O_CREAT | os.O_EXCL
    return fl


def s_builtin_open(path, mode='r', bufsize=-1, *a, **kw):
    if _active() and isinstance(path, basestring):
        v = virtual(path, 'w' in mode or 'a' in mode or 'x' in mode)
        if v is not None:
            fd = CURRENT[0].open(v, mode_flags(mode), 0666, IOError)
            return SimFile(fd, mode, bufsize, path)
        if 'r' not in mode or '+' in mode:
            disk = CURRENT[0]
            if not foreign_thread(disk):
                disk.escapes.append('open %s' % norm(path))
            raise mkerr(IOError, 'EACCES', path)
    return _real_builtin_open(path, mode, bufsize, *a, **kw)


def s_io_open(path, mode='r', *a, **kw):
    if isinstance(path, SimFD):
        return LooseFile(path, mode, -1, path)
    if _active() and isinstance(path, basestring):
        v = virtual(path, 'w' in mode or 'a' in mode or 'x' in mode)
        if v is not None:
            return LooseFile(CURRENT[0].open(v, mode_flags(mode), 0666, IOError), mode, -1, path)
        if 'r' not in mode or '+' in mode:
            disk = CURRENT[0]
            if not foreign_thread(disk):
                disk.escapes.append('open %s' % norm(path))
            raise mkerr(IOError, 'EACCES', path)
    return _real_io_open(path, mode, *a, **kw)


class Names(object):
    """Deterministic temporary names, in place of tempfile's random ones."""

    def __iter__(self):
        return self

    def next(self):
        d = CURRENT[0]
        d.names += 1
        n = d.names * 7919 + 12345
        out = ''
        for _ in range(6):
            out += 'abcdefghijklmnopqrstuvwxyz012345'[n % 32]
            n //= 32
        return out


_real_getcwd = os.getcwd
_real_getcwdu = os.getcwdu


def s_getcwd():
    return CWD if _active() else _real_getcwd()


def s_getcwdu():
    return unicode(CWD) if _active() else _real_getcwdu()


def install(pkg):
    PKG[0] = pkg
    os.getcwd, os.getcwdu = s_getcwd, s_getcwdu
    os.open, os.fdopen, os.close, os.write, os.read = s_open, s_fdopen, s_close, s_write, s_read
    os.lseek, os.fsync, os.fstat, os.ftruncate = s_lseek, s_fsync, s_fstat, s_ftruncate
    os.stat, os.lstat, os.unlink, os.remove = s_stat, s_lstat, s_unlink, s_unlink
    os.mkdir, os.rmdir, os.rename, os.link = s_mkdir, s_rmdir, s_rename, s_link
    os.listdir, os.access, os.chmod, os.utime = s_listdir, s_access, s_chmod, s_utime
    for n in ('symlink', 'chown', 'truncate', 'mkfifo', 'lchmod', 'lchown'):
        if n in _real:
            setattr(os, n, _refuse(n))
    __builtin__.open = s_builtin_open
    io.open = s_io_open
    tempfile._io.open = s_io_open
    tempfile._name_sequence = Names()
    tempfile.tempdir = SYSTMP
    tempfile._TemporaryFileWrapper.unlink = staticmethod(s_unlink)


def use(disk):
    CURRENT[0] = disk
    tempfile._name_sequence = Names()
    tempfile.tempdir = SYSTMP
    return disk
