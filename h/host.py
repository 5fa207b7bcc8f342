"""A model of the host operating system for the WASI checks (POSIX semantics, in memory, symbolic contents).

The package's imports of os, fcntl, select, socket, random, time and sys are answered by the modules made here, in the symbolic
run and in the concrete replay alike, so no real file is ever touched.  Every run creates its own Host, installed with use()."""
import errno as E
import fcntl as rfcntl
import os as ros
import random as rrandom
import select as rselect
import socket as rsocket
import stat as rstat
import sys as rsys
import time as rtime
import types

from sx import core, instr
from sx.core import Unsupported, SBytes, SymInt, SymBool, Sym, conc, as_int
from sx.models import nospec
from sx.strs import SStr

CUR = None


def use(h):
    global CUR
    CUR = h
    return h


def err(n):
    return OSError(n, ros.strerror(n))


class Escape(Exception):
    """A path left the directory it must stay in (confined resolution only)."""


KIND = {'dir': rstat.S_IFDIR, 'file': rstat.S_IFREG, 'link': rstat.S_IFLNK, 'chr': rstat.S_IFCHR, 'sock': rstat.S_IFSOCK, 'fifo': rstat.S_IFIFO,
        'blk': rstat.S_IFBLK}


class Node:
    def __init__(self, kind, ino, parent=None, data=None, target=None, times=(0, 0, 0)):
        self.kind = kind
        self.ino = ino
        self.parent = parent
        self.entries = [] if kind == 'dir' else None        # [(name, node)]
        self.data = data
        self.target = target
        self.times = list(times)
        self.nlink = 1
        self.size = None                                    # reported size when not that of data
        self.space = None

    def under(self, top):
        n = self
        while n is not None:
            if n is top:
                return True
            n = n.parent
        return False


class Open:
    """An open file description."""

    def __init__(self, node, flags, sock=None):
        self.node = node
        self.flags = flags
        self.pos = 0
        self.sock = sock


class Stat:
    def __init__(self, n):
        self.st_mode = KIND[n.kind] | 0o644
        self.st_ino = n.ino
        self.st_dev = 1
        self.st_uid = self.st_gid = 0
        self.st_nlink = n.nlink
        self.st_size = n.size if n.size is not None else size_of(n)
        self.st_atime_ns, self.st_mtime_ns, self.st_ctime_ns = n.times
        self.st_blksize, self.st_blocks = 4096, 1

    st_atime = property(lambda self: stamp(self.st_atime_ns))
    st_mtime = property(lambda self: stamp(self.st_mtime_ns))
    st_ctime = property(lambda self: stamp(self.st_ctime_ns))


def stamp(ns):
    """A file time as a float, rounded as os.stat does it."""
    from sx.models import m_float
    return m_float(ns // 1000000000) + m_float(ns % 1000000000) * 1e-9


def size_of(n):
    if n.kind == 'file':
        return n.data.n if isinstance(n.data, SBytes) else len(n.data)
    if n.kind == 'link':
        return len(n.target.encode()) if isinstance(n.target, str) else 1
    return 0


def least(n, k):
    """min(n, k) of a requested amount and a concrete one, as a concrete number; only the amounts below k are told apart."""
    k = conc(k)
    return k if bool(n >= k) else conc(n)


def empty():
    return SBytes.zeros(0, True) if core.Engine.cur is not None else bytearray()


def isstr(p):
    return isinstance(p, (str, SStr))


class Host:
    def __init__(self):
        self.ino = 1
        self.root = self.node('dir')
        self.fds = {}
        self.next = 100
        self.closed = []            # host descriptors closed, in order
        self.touched = []           # every node reached through a path: (operation, node)
        self.ops = []               # operations with an effect on anything: names
        self.cwd = self.root
        self.clocks = {}
        self.clock_log = []
        self.random = None
        self.fail = None            # callable(operation) -> errno or None: fault schedule
        self.confine = None         # node: path resolution must stay below it (reference runs)
        self.select_log = []
        self.select_ready = None
        self.after_select = None
        self.short = None           # callable(kind, n) -> number of bytes transferred
        self.shut = []
        self.signals = []

    # -- building ------------------------------------------------------------------------------------------------
    def node(self, kind, **k):
        self.ino += 1
        return Node(kind, self.ino, **k)

    def put(self, path, kind='dir', data=None, target=None, times=(0, 0, 0)):
        d = self.root
        parts = [p for p in path.split('/') if p]
        for p in parts[:-1]:
            d = self.child(d, p) or self.add(d, p, self.node('dir'))
        n = self.node(kind, data=data, target=target, times=times)
        return self.add(d, parts[-1], n)

    def aside(self, path, to):
        """The host renames what is at path, and something else gets its name."""
        n = self.at(path)
        self.drop(n.parent, path.split('/')[-1])
        d = self.at(to.rsplit('/', 1)[0])
        n.parent = d
        self.add(d, to.split('/')[-1], n)
        if n.kind == 'dir':
            self.put(path)
            self.put(path + '/decoy', 'file', data=bytearray(b'?'), times=(1, 2, 3))
        else:
            self.put(path, n.kind, data=bytearray(b'decoy') if n.kind == 'file' else b'', times=(1, 2, 3))

    def at(self, path):
        d = self.root
        for p in [p for p in path.split('/') if p]:
            d = self.child(d, p)
        return d

    def add(self, d, name, n):
        d.entries.append((name, n))
        if n.kind == 'dir':
            n.parent = d
        elif n.parent is None:
            n.parent = d
        return n

    def child(self, d, name):
        for k, n in d.entries:
            if type(k) is str and type(name) is str:
                if k == name:
                    return n
            elif bool(k == name):
                return n
        return None

    def drop(self, d, name):
        for i, (k, n) in enumerate(d.entries):
            if bool(k == name):
                del d.entries[i]
                return

    # -- resolution ----------------------------------------------------------------------------------------------
    def hit(self, op, n):
        if self.confine is not None and not n.under(self.confine):
            raise Escape()
        self.touched.append((op, n))

    def start(self, p, dir_fd):
        if p.startswith('/'):
            if self.confine is not None:
                raise Escape()
            return self.root
        if dir_fd is None:
            return self.cwd
        f = self.fd(dir_fd)
        if f.node.kind != 'dir':
            raise err(E.ENOTDIR)
        return f.node

    def resolve(self, op, p, dir_fd=None, follow=True):
        """(parent, last component, node or None).  last is None when the path names a directory itself ('/', '.', '..')."""
        if not isstr(p):
            if isinstance(p, (bytes, bytearray, SBytes)):
                p = SBytes.lift(p).decode() if isinstance(p, SBytes) else bytes(p).decode()
            else:
                raise TypeError('path')
        if '\0' in p:
            raise ValueError('embedded null byte')
        if len(p) == 0:
            raise err(E.ENOENT)
        d = self.start(p, dir_fd)
        self.hit(op, d)
        parts = list(p.split('/'))
        hops = 0
        last = None
        parent, node = d.parent, d
        i = 0
        while i < len(parts):
            c = parts[i]
            rest = parts[i + 1:]
            i += 1
            if len(c) == 0:
                continue
            if node is None:
                raise err(E.ENOENT)
            if node.kind != 'dir':
                raise err(E.ENOTDIR)
            if bool(c == '.'):
                parent, last = node.parent, None
                continue
            if bool(c == '..'):
                up = node.parent or node
                self.hit(op, up)
                node, parent, last = up, up.parent, None
                continue
            parent, last, node = node, c, self.child(node, c)
            if node is not None and node.kind == 'link' and (rest or follow):
                self.touched.append((op, node))
                hops += 1
                if hops > 40:
                    raise err(E.ELOOP)
                t = node.target
                if t.startswith('/'):
                    if self.confine is not None:
                        raise Escape()
                    node = self.root
                else:
                    node = parent
                self.hit(op, node)
                parts, i = list(t.split('/')) + rest, 0
                parent, last = node.parent, None
                continue
            if node is not None:
                self.touched.append((op, node))
        if node is None:
            self.touched.append((op, parent))
        if node is not None and node.kind != 'dir' and len(parts[-1]) == 0:
            raise err(E.ENOTDIR)
        slash = len(parts[-1]) == 0
        return parent, last, node, slash

    def fd(self, n):
        n = conc(n)
        if n not in self.fds:
            raise err(E.EBADF)
        return self.fds[n]

    def newfd(self, o):
        n = self.next
        self.next += 1
        self.fds[n] = o
        return n

    def fault(self, op):
        if self.fail is not None:
            e = self.fail(op)
            if e:
                raise err(e)

    def nodeof(self, op, p, dir_fd=None, follow=True):
        if isinstance(p, (int, SymInt)) and not isinstance(p, bool):
            return self.fd(p).node
        n = self.resolve(op, p, dir_fd, follow)[2]
        if n is None:
            raise err(E.ENOENT)
        return n

    # -- system calls --------------------------------------------------------------------------------------------
    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        self.fault('open')
        nofollow = bool(flags & ros.O_NOFOLLOW)
        creat = bool(flags & ros.O_CREAT)
        excl = creat and bool(flags & ros.O_EXCL)
        parent, last, n, slash = self.resolve('open', path, dir_fd, not nofollow and not excl)
        acc = conc(flags & 3)
        if n is None:
            if not creat:
                raise err(E.ENOENT)
            if slash:
                raise err(E.EISDIR)
            if bool(flags & ros.O_DIRECTORY):
                raise err(E.EINVAL)
            n = self.add(parent, last, self.node('file', data=empty()))
            self.ops.append('create')
        elif excl:
            raise err(E.EEXIST)
        if n.kind == 'link':
            raise err(E.ELOOP)
        if bool(flags & ros.O_DIRECTORY) and n.kind != 'dir':
            raise err(E.ENOTDIR)
        if n.kind == 'dir' and (acc != 0 or creat):
            raise err(E.EISDIR)
        if n.kind == 'file' and acc != 0 and bool(flags & ros.O_TRUNC):
            n.data = empty()
            self.ops.append('truncate')
        elif n.kind == 'file' and bool(flags & ros.O_TRUNC):
            n.data = empty()
            self.ops.append('truncate')
        self.ops.append('open')
        return self.newfd(Open(n, flags & ~(ros.O_CREAT | ros.O_EXCL | ros.O_TRUNC | ros.O_NOFOLLOW | ros.O_DIRECTORY)))

    def close(self, fd):
        self.fault('close')
        fd = conc(fd)
        self.fd(fd)
        del self.fds[fd]
        self.closed.append(fd)
        self.ops.append('close')

    def dup(self, fd):
        self.fault('dup')
        return self.newfd(self.fd(fd))

    def stat(self, p, *, dir_fd=None, follow_symlinks=True):
        self.fault('stat')
        return Stat(self.nodeof('stat', p, dir_fd, bool(follow_symlinks)))

    def lstat(self, p, *, dir_fd=None):
        self.fault('stat')
        return Stat(self.nodeof('stat', p, dir_fd, False))

    def fstat(self, fd):
        self.fault('stat')
        return Stat(self.fd(fd).node)

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        self.fault('mkdir')
        parent, last, n, _ = self.resolve('mkdir', path, dir_fd, False)
        if n is not None or last is None:
            raise err(E.EEXIST)
        self.add(parent, last, self.node('dir'))
        self.ops.append('mkdir')

    def rmdir(self, path, *, dir_fd=None):
        self.fault('rmdir')
        parent, last, n, _ = self.resolve('rmdir', path, dir_fd, False)
        if last is None:
            raise err(E.ENOTEMPTY if bool(path.rstrip('/').endswith('..')) else E.EINVAL)
        if n is None:
            raise err(E.ENOENT)
        if n.kind != 'dir':
            raise err(E.ENOTDIR)
        if n.entries:
            raise err(E.ENOTEMPTY)
        self.drop(parent, last)
        self.ops.append('rmdir')

    def unlink(self, path, *, dir_fd=None):
        self.fault('unlink')
        parent, last, n, slash = self.resolve('unlink', path, dir_fd, False)
        if last is None:
            raise err(E.EISDIR)
        if n is None:
            raise err(E.ENOENT)
        if n.kind == 'dir':
            raise err(E.EISDIR)
        if slash:
            raise err(E.ENOTDIR)
        self.drop(parent, last)
        n.nlink -= 1
        self.ops.append('unlink')

    remove = unlink

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        self.fault('rename')
        sp, sl, sn, ss = self.resolve('rename', src, src_dir_fd, False)
        with_ = self.confine2()
        dp, dl, dn, ds = self.resolve('rename', dst, dst_dir_fd, False)
        self.confine = with_
        if sl is None or dl is None:
            raise err(E.EBUSY)
        if sn is None:
            raise err(E.ENOENT)
        if sn.kind == 'dir' and dp.under(sn):
            raise err(E.EINVAL)
        if ss and sn.kind != 'dir' or ds and sn.kind != 'dir':
            raise err(E.ENOTDIR)
        if dn is not None:
            if dn is sn:
                return
            if sn.kind == 'dir':
                if dn.kind != 'dir':
                    raise err(E.ENOTDIR)
                if dn.entries:
                    raise err(E.ENOTEMPTY)
            elif dn.kind == 'dir':
                raise err(E.EISDIR)
            self.drop(dp, dl)
            dn.nlink -= 1
        self.drop(sp, sl)
        sn.parent = dp
        self.add(dp, dl, sn)
        self.ops.append('rename')

    replace = rename

    def confine2(self):
        """The second path of a call may be confined to another directory."""
        c = self.confine
        if isinstance(c, tuple):
            raise Unsupported('confinement')
        if getattr(self, 'second', None) is not None:
            self.confine = self.second
        return c

    def link(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        self.fault('link')
        _, _, sn, ss = self.resolve('link', src, src_dir_fd, bool(follow_symlinks))
        with_ = self.confine2()
        dp, dl, dn, ds = self.resolve('link', dst, dst_dir_fd, False)
        self.confine = with_
        if sn is None:
            raise err(E.ENOENT)
        if dn is not None or dl is None:
            raise err(E.EEXIST)
        if sn.kind == 'dir':
            raise err(E.EPERM)
        if ds:
            raise err(E.ENOENT)
        sn.nlink += 1
        self.add(dp, dl, sn)
        self.ops.append('link')

    def symlink(self, src, dst, target_is_directory=False, *, dir_fd=None):
        self.fault('symlink')
        if '\0' in src:
            raise ValueError('embedded null byte')
        if len(src) == 0:
            raise err(E.ENOENT)
        dp, dl, dn, ds = self.resolve('symlink', dst, dir_fd, False)
        if dn is not None or dl is None:
            raise err(E.EEXIST)
        if ds:
            raise err(E.ENOENT)
        self.add(dp, dl, self.node('link', target=src))
        self.ops.append('symlink')

    def readlink(self, path, *, dir_fd=None):
        self.fault('readlink')
        _, last, n, slash = self.resolve('readlink', path, dir_fd, False)
        if n is None:
            raise err(E.ENOENT)
        if n.kind != 'link':
            raise err(E.EINVAL)
        return n.target

    def listdir(self, path='.'):
        self.fault('listdir')
        n = self.nodeof('listdir', path)
        if n.kind != 'dir':
            raise err(E.ENOTDIR)
        return [k for k, _ in n.entries][::-1]

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        self.fault('utime')
        n = self.nodeof('utime', path, dir_fd, bool(follow_symlinks))
        if times is not None:
            raise Unsupported('utime with float times')
        a, m = ns if ns is not None else (self.clock('real'), self.clock('real'))
        n.times[0], n.times[1] = a, m
        self.ops.append('utime')

    # -- data ----------------------------------------------------------------------------------------------------
    def can(self, o, write):
        acc = conc(o.flags & 3)
        if acc != 2 and (acc == 1) != write:
            raise err(E.EBADF)

    def rd(self, node, pos, n):
        """Bytes of a regular file from pos on, at most n."""
        d = node.data
        size = d.n if isinstance(d, SBytes) else len(d)
        if bool(n < 0) or bool(pos < 0):
            raise err(E.EINVAL)
        if bool(pos >= size):
            return mk(d, 0, 0)
        if isinstance(pos, SymInt):
            pos = conc(pos)
        end = pos + n
        if bool(end >= size):
            end = size
        return mk(d, pos, conc(end))

    def wr(self, node, pos, data):
        n = data.n if isinstance(data, SBytes) else len(data)
        if node.kind != 'file':
            raise err(E.EISDIR if node.kind == 'dir' else E.EINVAL)
        n = conc(n)
        if n == 0:
            return 0
        if bool(pos > 1 << 20):
            raise Unsupported('write far beyond the file')
        pos = conc(pos)
        d = node.data
        size = conc(d.n) if isinstance(d, SBytes) else len(d)
        if pos > size:
            d.extend(bytes(pos - size))
        if isinstance(d, SBytes) or isinstance(data, SBytes):
            d = SBytes.lift(d).snap(True)
            d[slice(pos, pos + n)] = data
            node.data = d
        else:
            d[pos:pos + n] = data
        self.ops.append('write')
        return n

    def limit(self, what, n):
        return n if self.short is None else self.short(what, n)

    def read(self, fd, n):
        self.fault('read')
        o = self.fd(fd)
        self.can(o, False)
        if o.node.kind == 'dir':
            raise err(E.EISDIR)
        if o.node.kind != 'file':
            k = self.limit('read', least(n, len(o.node.data) if not isinstance(o.node.data, SBytes) else conc(o.node.data.n)))
            r = mk(o.node.data, 0, k)
            o.node.data = mk(o.node.data, k, None)
            return r
        r = self.rd(o.node, o.pos, n if self.short is None else self.limit('read', least(n, size_of(o.node))))
        o.pos = o.pos + (r.n if isinstance(r, SBytes) else len(r))
        return r

    def pread(self, fd, n, off):
        self.fault('pread')
        o = self.fd(fd)
        self.can(o, False)
        if o.node.kind == 'dir':
            raise err(E.EISDIR)
        if o.node.kind != 'file':
            raise err(E.ESPIPE)
        if bool(off < 0):
            raise err(E.EINVAL)
        return self.rd(o.node, off, n if self.short is None else self.limit('pread', least(n, size_of(o.node))))

    def write(self, fd, data):
        self.fault('write')
        o = self.fd(fd)
        self.can(o, True)
        n = conc(data.n) if isinstance(data, SBytes) else len(data)
        k = conc(self.limit('write', n))
        if k != n:
            data = mk(data, 0, k)
        if o.node.kind != 'file':
            o.node.data = cat(o.node.data, data)
            self.ops.append('write')
            return k
        if bool(o.flags & ros.O_APPEND):
            o.pos = size_of(o.node)
        r = self.wr(o.node, o.pos, data)
        o.pos = o.pos + r
        return r

    def pwrite(self, fd, data, off):
        self.fault('pwrite')
        o = self.fd(fd)
        self.can(o, True)
        if o.node.kind != 'file':
            raise err(E.ESPIPE)
        if bool(off < 0):
            raise err(E.EINVAL)
        n = conc(data.n) if isinstance(data, SBytes) else len(data)
        k = conc(self.limit('write', n))
        if k != n:
            data = mk(data, 0, k)
        return self.wr(o.node, size_of(o.node) if bool(o.flags & ros.O_APPEND) else off, data)   # as Linux does

    def readv(self, fd, bufs):
        return scatter(self.read(fd, sum(blen(b) for b in bufs)), bufs)

    def preadv(self, fd, bufs, off, flags=0):
        return scatter(self.pread(fd, sum(blen(b) for b in bufs), off), bufs)

    def writev(self, fd, bufs):
        return self.write(fd, gather(bufs))

    def pwritev(self, fd, bufs, off, flags=0):
        return self.pwrite(fd, gather(bufs), off)

    def get_blocking(self, fd):
        return not bool(self.fd(fd).flags & ros.O_NONBLOCK)

    def set_blocking(self, fd, b):
        o = self.fd(fd)
        o.flags = o.flags & ~ros.O_NONBLOCK if bool(b) else o.flags | ros.O_NONBLOCK
        self.ops.append('setfl')

    def scandir(self, path='.'):
        d = self.nodeof('listdir', path)
        return Scan([Entry(self, path, k) for k in self.listdir(path)])

    def fchmod(self, fd, mode):
        raise Unsupported('fchmod')

    def lseek(self, fd, off, whence):
        self.fault('lseek')
        o = self.fd(fd)
        if o.node.kind not in ('file', 'dir'):
            raise err(E.ESPIPE)
        whence = conc(whence)
        if whence not in (0, 1, 2, 3, 4):
            raise err(E.EINVAL)
        if bool(off < -(1 << 63)) or bool(off >= 1 << 63):
            raise OverflowError('lseek')
        base = 0 if whence == 0 else o.pos if whence == 1 else size_of(o.node)
        if whence > 2:              # SEEK_DATA, SEEK_HOLE: a file here is one stretch of data
            if bool(off < 0) or bool(off >= size_of(o.node)):
                raise err(E.ENXIO)
            base = 0 if whence == 3 else size_of(o.node) - off
        p = base + off
        if bool(p < 0) or bool(p >= 1 << 63):
            raise err(E.EINVAL)
        o.pos = p
        return p

    def ftruncate(self, fd, n):
        self.fault('ftruncate')
        o = self.fd(fd)
        if o.node.kind != 'file' or conc(o.flags & 3) == 0:
            raise err(E.EINVAL)
        self.truncnode(o.node, n)

    def truncate(self, path, n):
        self.fault('ftruncate')
        self.truncnode(self.nodeof('truncate', path), n)

    def truncnode(self, node, n):
        if bool(n < 0):
            raise err(E.EINVAL)
        if bool(n >= 1 << 63):
            raise OverflowError('ftruncate')
        if bool(n > 1 << 20):
            raise err(E.EFBIG)
        n = conc(n)
        size = conc(size_of(node))
        if n <= size:
            node.data = mk(node.data, 0, n)
        else:
            node.data = cat(node.data, bytearray(n - size))
        self.ops.append('truncate')

    def posix_fallocate(self, fd, off, n):
        self.fault('fallocate')
        o = self.fd(fd)
        if bool(off < 0) or bool(n <= 0):
            raise err(E.EINVAL)
        if conc(o.flags & 3) == 0:
            raise err(E.EBADF)
        if o.node.kind != 'file':
            raise err(E.ENODEV)
        if bool(off + n > size_of(o.node)):
            self.truncnode(o.node, off + n)

    def posix_fadvise(self, fd, off, n, a):
        self.fd(fd)

    def fsync(self, fd):
        self.fault('fsync')
        self.fd(fd)
        self.ops.append('fsync')

    fdatasync = fsync

    def isatty(self, fd):
        return self.fd(fd).node.kind == 'chr'

    def getcwd(self):
        return self.pathof(self.cwd)

    def pathof(self, n):
        parts = []
        while n.parent is not None:
            for k, c in n.parent.entries:
                if c is n:
                    parts.append(k)
            n = n.parent
        return '/' + '/'.join(parts[::-1])

    def access(self, p, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            self.nodeof('access', p, dir_fd, bool(follow_symlinks))
            return True
        except OSError:
            return False

    def fcntl(self, fd, cmd, arg=0):
        self.fault('fcntl')
        o = self.fd(fd)
        cmd = conc(cmd)
        if cmd == rfcntl.F_SETFL:
            keep = o.flags & (3 | ros.O_DIRECTORY | ros.O_CREAT | ros.O_EXCL)
            o.flags = keep | arg & (ros.O_APPEND | ros.O_NONBLOCK | ros.O_ASYNC | ros.O_DIRECT)
            self.ops.append('setfl')
            return 0
        if cmd == rfcntl.F_GETFL:
            return o.flags
        raise Unsupported(f'fcntl {cmd}')

    # -- time, random, poll --------------------------------------------------------------------------------------
    def clock(self, name):
        self.clock_log.append(name)
        v = self.clocks.get(name)
        if v is None:
            raise Unsupported(f'clock {name}')
        return v() if callable(v) else v

    def randbytes(self, n):
        if self.random is None:
            raise Unsupported('random')
        return self.random(n)

    def select(self, r, w, x, timeout=None):
        self.fault('select')
        self.select_log.append((list(r), list(w), list(x), timeout))
        for f in list(r) + list(w):
            self.fd(f)
        if self.select_ready is None:
            raise Unsupported('select')
        return self.select_ready(list(r), list(w), timeout)

    # -- observation ---------------------------------------------------------------------------------------------
    def snap(self, n=None, times=True):
        """The tree as nested lists (order of entries does not matter: sorted by inode)."""
        n = n or self.root
        base = [n.kind, n.ino, n.nlink]
        if times:
            base.append(list(n.times))
        if n.kind == 'dir':
            return base + [[[k, self.snap(c, times)] for k, c in sorted(n.entries, key=lambda e: e[1].ino)]]
        if n.kind == 'link':
            return base + [n.target]
        return base + [obsbytes(n.data)]

    def fdsnap(self):
        return [[k, o.node.ino, o.flags, o.pos] for k, o in sorted(self.fds.items())]


def obsbytes(d):
    if isinstance(d, SBytes) and d.items is None:
        n = conc(d.n)
        return SBytes.from_items([d.get(i) for i in range(n)], False)
    if isinstance(d, SBytes):
        return d.snap(False)
    return bytes(d) if d is not None else b''


def mk(d, a, b):
    if isinstance(d, SBytes):
        r = d[slice(a, b)]
        return r.snap(True)
    return bytearray(d[a:b])


def cat(a, b):
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        return (SBytes.lift(a) + SBytes.lift(b)).snap(True)
    return bytearray(a) + bytearray(b)


def blen(b):
    return conc(b.n) if isinstance(b, SBytes) else len(b)


def gather(bufs):
    r = b''
    for b in bufs:
        r = cat(r, b)
    return r


def scatter(data, bufs):
    at, n = 0, blen(data)
    for b in bufs:
        k = min(blen(b), n - at)
        b[0:k] = mk(data, at, at + k)
        at += k
    return n


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Entry:
    """An entry of os.scandir."""

    def __init__(self, h, top, name):
        self.h, self.top, self.name = h, top, name
        self.path = name if not isstr(top) else f'{top}/{name}'

    def stat(self, *, follow_symlinks=True):
        nospec()
        isfd = not isstr(self.top)
        return self.h.stat(self.path, dir_fd=self.top if isfd else None, follow_symlinks=follow_symlinks)

    def inode(self):
        return self.stat(follow_symlinks=False).st_ino

    def is_symlink(self):
        return rstat.S_ISLNK(conc(self.stat(follow_symlinks=False).st_mode))

    def is_dir(self, *, follow_symlinks=True):
        try:
            return rstat.S_ISDIR(conc(self.stat(follow_symlinks=follow_symlinks).st_mode))
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return rstat.S_ISREG(conc(self.stat(follow_symlinks=follow_symlinks).st_mode))
        except FileNotFoundError:
            return False


class Poll:
    """select.poll."""

    def __init__(self):
        self.want = []

    def register(self, fd, events=3):
        f = conc(fd.fileno() if hasattr(fd, 'fileno') else fd)
        self.want = [w for w in self.want if w[0] != f] + [(f, conc(events))]

    def unregister(self, fd):
        self.want = [w for w in self.want if w[0] != conc(fd)]

    def modify(self, fd, events):
        self.register(fd, events)

    def poll(self, timeout=None):
        nospec()
        if timeout is not None:
            timeout = None if bool(timeout < 0) else timeout / 1000
        r, w, _ = CUR.select([f for f, e in self.want if e & 1], [f for f, e in self.want if e & 4], [], timeout)
        return [(f, (1 if f in r else 0) | (4 if f in w else 0)) for f, _ in self.want if f in r or f in w]


# -- the modules the package sees --------------------------------------------------------------------------------------
class FakeMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'no model for {self.__name__}.{n}')


class Socket:
    def __init__(self, fd, family=rsocket.AF_INET, type=rsocket.SOCK_STREAM, proto=0):
        self.fd = fd
        self.family, self.type, self.proto = family, type, proto

    def fileno(self):
        return -1 if self.fd is None else self.fd

    def __del__(self):
        if self.fd is not None and CUR is not None and self.fd in CUR.fds:
            del CUR.fds[self.fd]
            CUR.closed.append(self.fd)
        self.fd = None

    def close(self):
        nospec()
        if self.fd is not None:
            f, self.fd = self.fd, None
            CUR.close(f)

    def detach(self):
        nospec()
        f, self.fd = self.fd, None
        return -1 if f is None else f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def open(self):
        o = CUR.fd(self.fd)
        if o.sock is None:
            raise err(E.ENOTSOCK)
        return o

    def setblocking(self, b):
        nospec()
        o = self.open()
        if bool(b):
            o.flags = o.flags & ~ros.O_NONBLOCK
        else:
            o.flags = o.flags | ros.O_NONBLOCK
        CUR.ops.append('setfl')

    def accept(self):
        nospec()
        CUR.fault('accept')
        o = self.open()
        n = o.sock.pending()
        CUR.ops.append('accept')
        return Socket(CUR.newfd(n), self.family, self.type), ('127.0.0.1', 1)

    def recv(self, n, flags=0):
        nospec()
        CUR.fault('recv')
        return self.open().sock.recv(n, flags)

    def recvmsg(self, n, ancbufsize=0, flags=0):
        nospec()
        CUR.fault('recv')
        o = self.open()
        had = o.sock.have()
        r = o.sock.recv(n, flags)
        cut = o.sock.dgram and (conc(r.n) if isinstance(r, SBytes) else len(r)) < had
        return r, [], rsocket.MSG_TRUNC if cut else 0, None

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), None

    def recv_into(self, buf, n=0, flags=0):
        return scatter(self.recv(n or blen(buf), flags), [buf])

    def recvmsg_into(self, bufs, ancbufsize=0, flags=0):
        d, a, f, p = self.recvmsg(sum(blen(b) for b in bufs), ancbufsize, flags)
        return scatter(d, bufs), a, f, p

    def sendmsg(self, bufs, ancdata=(), flags=0, address=None):
        return self.send(gather(bufs), flags)

    def getblocking(self):
        return not bool(self.open().flags & ros.O_NONBLOCK)

    def settimeout(self, t):
        self.setblocking(t is None)

    def send(self, data, flags=0):
        nospec()
        CUR.fault('send')
        return self.open().sock.send(data, flags)

    def sendall(self, data, flags=0):
        n = blen(data)
        for _ in range(n + 1):
            if blen(data) == 0:
                return None
            data = mk(data, self.send(data, flags), None)
        raise err(E.EAGAIN)

    def shutdown(self, how):
        nospec()
        CUR.fault('shutdown')
        self.open()
        CUR.shut.append((self.open().sock.name, conc(how)))
        CUR.ops.append('shutdown')


class SockEnd:
    """A connected or listening socket: bytes to receive, bytes sent."""

    def __init__(self, name, inp=None, make=None, dgram=False):
        self.name = name
        self.dgram = dgram
        self.inp = inp if inp is not None else b''
        self.sent = b''
        self.make = make
        self.flags = []

    def pending(self):
        return self.make()

    def recv(self, n, flags):
        self.flags.append(('recv', flags))
        if bool(n < 0):
            raise ValueError('negative buffersize in recv')
        have = self.have()
        k = CUR.limit('recv', least(n, have))
        r = mk(self.inp, 0, k)
        if not bool(flags & rsocket.MSG_PEEK):
            self.inp = mk(self.inp, k if not self.dgram else have, None)
        return r

    def have(self):
        return conc(self.inp.n) if isinstance(self.inp, SBytes) else len(self.inp)

    def send(self, data, flags):
        self.flags.append(('send', flags))
        n = conc(data.n) if isinstance(data, SBytes) else len(data)
        k = conc(CUR.limit('send', n))
        self.sent = cat(self.sent, mk(data, 0, k))
        CUR.ops.append('send')
        return k


class Std:
    """sys.stdin / stdout / stderr."""

    def __init__(self, fd, name):
        self._fd, self.name = fd, name

    def fileno(self):
        return self._fd

    def write(self, s):
        CUR.write(self._fd, s.encode())
        return len(s)

    def flush(self):
        pass


CALLS = ['open', 'close', 'dup', 'stat', 'lstat', 'fstat', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'link', 'symlink',
         'readlink', 'listdir', 'utime', 'read', 'pread', 'write', 'pwrite', 'lseek', 'ftruncate', 'truncate', 'posix_fallocate',
         'posix_fadvise', 'readv', 'preadv', 'writev', 'pwritev', 'get_blocking', 'set_blocking', 'scandir', 'fsync', 'fdatasync', 'isatty', 'getcwd', 'access']


def deleg(name):
    def f(*a, **k):
        nospec()
        return getattr(CUR, name)(*a, **k)
    f.__name__ = name
    return f


def modules(sym):
    o = FakeMod('os')
    for k, v in vars(ros).items():
        if isinstance(v, (int, str)) and not k.startswith('_'):
            setattr(o, k, v)
    o.stat_result, o.PathLike, o.error = ros.stat_result, ros.PathLike, OSError
    o.fspath = lambda p: p
    o.fsencode = lambda p: p.encode('utf-8', 'surrogateescape') if isstr(p) else p
    o.fsdecode = lambda p: p if isstr(p) else p.decode('utf-8', 'surrogateescape')
    o.strerror = ros.strerror
    o.urandom = deleg('randbytes')
    o.environ = {}
    for c in CALLS:
        setattr(o, c, deleg(c))
    f = FakeMod('fcntl')
    for k, v in vars(rfcntl).items():
        if isinstance(v, int):
            setattr(f, k, v)
    f.fcntl = deleg('fcntl')
    s = FakeMod('select')
    s.select = deleg('select')
    s.error = OSError
    s.poll, s.POLLIN, s.POLLPRI, s.POLLOUT, s.POLLERR, s.POLLHUP, s.POLLNVAL = Poll, 1, 2, 4, 8, 16, 32
    k = FakeMod('socket')
    for n, v in vars(rsocket).items():
        if isinstance(v, int):
            setattr(k, n, v)
    k.fromfd = lambda fd, family, type, proto=0: Socket(CUR.dup(fd), family, type, proto)
    k.socket = lambda family=-1, type=-1, proto=-1, fileno=None: Socket(conc(fileno), family, type)
    k.error = OSError
    t = FakeMod('time')
    for n, c in (('time_ns', 'real'), ('monotonic_ns', 'mono'), ('process_time_ns', 'process'), ('thread_time_ns', 'thread')):
        setattr(t, n, (lambda c: lambda: CUR.clock(c))(c))
    for n, c in (('time', 'real'), ('monotonic', 'mono'), ('perf_counter', 'mono'), ('process_time', 'process'), ('thread_time', 'thread')):
        setattr(t, n, (lambda c: lambda: seconds(CUR.clock(c)))(c))
    t.perf_counter_ns = lambda: CUR.clock('mono')
    t.clock_gettime = lambda c: seconds(t.clock_gettime_ns(c))
    for n in ('CLOCK_REALTIME', 'CLOCK_MONOTONIC', 'CLOCK_PROCESS_CPUTIME_ID', 'CLOCK_THREAD_CPUTIME_ID'):
        setattr(t, n, getattr(rtime, n))
    t.clock_gettime_ns = lambda c: CUR.clock({rtime.CLOCK_REALTIME: 'real', rtime.CLOCK_MONOTONIC: 'mono',
                                              rtime.CLOCK_PROCESS_CPUTIME_ID: 'process', rtime.CLOCK_THREAD_CPUTIME_ID: 'thread'}[conc(c)])
    t.sleep = lambda n: None
    r = FakeMod('random')
    r.randbytes = deleg('randbytes')
    q = FakeMod('secrets')
    q.token_bytes = deleg('randbytes')
    y = FakeMod('sys')
    for n, v in vars(rsys).items():
        if not n.startswith('__') and n not in ('stdin', 'stdout', 'stderr', 'exit', 'modules'):
            setattr(y, n, v)
    y.stdin, y.stdout, y.stderr = Std(0, '<stdin>'), Std(1, '<stdout>'), Std(2, '<stderr>')

    def exit_(code=0):
        raise SystemExit(code)
    y.exit = exit_
    mods = {'os': o, 'fcntl': f, 'select': s, 'socket': k, 'time': t, 'random': r, 'secrets': q}
    # os.path: the standard library's own source over the model
    lib = ros.path.dirname(ros.__file__)
    stubs = {'os': o, 'sys': rsys}
    if sym:
        stubs['posix'] = None               # normpath in Python instead of C
    ld = instr.Loader if sym else instr.PlainLoader
    g = ld(lib, 'genericpath', stubs).load('genericpath')
    p = ld(lib, 'posixpath', dict(stubs, genericpath=g)).load('posixpath')
    o.path = p
    mods['posixpath'] = p
    mods['sys'] = y
    return mods


def seconds(ns):
    """A clock reading in seconds, rounded as CPython does it (PyTime_AsSecondsDouble)."""
    from sx.models import m_float
    if bool(ns % 1000000000 == 0):
        return m_float(ns // 1000000000)
    return m_float(ns) / 1e9


def sym_modules():
    return modules(True)


def plain_modules():
    return modules(False)


sym_modules.plain = plain_modules
