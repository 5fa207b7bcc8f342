"""Calling WASI functions as a guest does, over the modelled host."""
import z3
from sx import core, wb
from sx.core import SBytes, bvv
from . import host
from .util import PAGE

I, L = wb.I32, wb.I64
# parameter types, from the preview1 ABI; every function returns an errno except proc_exit
SIG = {
    'args_get': [I, I], 'args_sizes_get': [I, I], 'clock_res_get': [I, I], 'clock_time_get': [I, L, I], 'environ_get': [I, I],
    'environ_sizes_get': [I, I], 'fd_advise': [I, L, L, I], 'fd_allocate': [I, L, L], 'fd_close': [I], 'fd_datasync': [I],
    'fd_fdstat_get': [I, I], 'fd_fdstat_set_flags': [I, I], 'fd_fdstat_set_rights': [I, L, L], 'fd_filestat_get': [I, I],
    'fd_filestat_set_size': [I, L], 'fd_filestat_set_times': [I, L, L, I], 'fd_pread': [I, I, I, L, I], 'fd_prestat_dir_name': [I, I, I],
    'fd_prestat_get': [I, I], 'fd_pwrite': [I, I, I, L, I], 'fd_read': [I, I, I, I], 'fd_readdir': [I, I, I, L, I], 'fd_renumber': [I, I],
    'fd_seek': [I, L, I, I], 'fd_sync': [I], 'fd_tell': [I, I], 'fd_write': [I, I, I, I], 'path_create_directory': [I, I, I],
    'path_filestat_get': [I, I, I, I, I], 'path_filestat_set_times': [I, I, I, I, L, L, I], 'path_link': [I] * 7,
    'path_open': [I, I, I, I, I, L, L, I, I], 'path_readlink': [I] * 6, 'path_remove_directory': [I] * 3, 'path_rename': [I] * 6,
    'path_symlink': [I] * 5, 'path_unlink_file': [I] * 3, 'poll_oneoff': [I] * 4, 'proc_exit': [I], 'proc_raise': [I], 'random_get': [I, I],
    'sched_yield': [], 'sock_accept': [I] * 3, 'sock_recv': [I] * 6, 'sock_send': [I] * 5, 'sock_shutdown': [I, I],
}
E = dict(SUCCESS=0, ACCES=2, AGAIN=6, BADF=8, BUSY=10, EXIST=20, ILSEQ=25, INVAL=28, IO=29, ISDIR=31, LOOP=32, NAMETOOLONG=37, NOENT=44,
         NOTDIR=54, NOTEMPTY=55, NOTSOCK=57, PERM=63, PIPE=64, SPIPE=70, NOTCAPABLE=76)
# rights, from the ABI
R = {n: 1 << i for i, n in enumerate((
    'FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE PATH_CREATE_DIRECTORY PATH_CREATE_FILE '
    'PATH_LINK_SOURCE PATH_LINK_TARGET PATH_OPEN FD_READDIR PATH_READLINK PATH_RENAME_SOURCE PATH_RENAME_TARGET PATH_FILESTAT_GET '
    'PATH_FILESTAT_SET_SIZE PATH_FILESTAT_SET_TIMES FD_FILESTAT_GET FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES PATH_SYMLINK '
    'PATH_REMOVE_DIRECTORY PATH_UNLINK_FILE POLL_FD_READWRITE SOCK_SHUTDOWN SOCK_ACCEPT').split())}
ALL = (1 << 30) - 1
FD = sum(v for k, v in R.items() if k.startswith('FD_') or k == 'POLL_FD_READWRITE')
_mods = {}


def guest(names):
    """A module whose exports call the named WASI functions; memory exported as m."""
    k = tuple(names)
    if k not in _mods:
        m = wb.Mod()
        idx = [m.import_func('wasi_snapshot_preview1', n, SIG[n], [] if n == 'proc_exit' else [I]) for n in names]
        m.mem(1, export='m')
        for n, i in zip(names, idx):
            m.func(SIG[n], [] if n == 'proc_exit' else [I], b''.join(wb.lget(j) for j in range(len(SIG[n]))) + wb.call(i), export=n)
        _mods[k] = m.build()
    return _mods[k]


def stdio(h):
    for fd, n in enumerate(('stdin', 'stdout', 'stderr')):
        node = h.put('/dev/' + n, 'chr', data=b'')
        h.fds[fd] = host.Open(node, 2)
    return h


class World:
    """A Preview1 instance over a model host, bound to a guest instance."""

    def __init__(self, x, names, build, dirs=None, args=(), envs=None, mem=None):
        self.x = x
        self.h = host.use(stdio(host.Host()))
        if build:
            build(self.h)
        self.wasi = x.pw.wasi.Preview1(list(args), dict(dirs or {}), dict(envs or {}))
        self.rt = x.pw.Runtime()
        self.wasi.bind(self.rt)
        self.inst = self.rt.instance(x.module(guest(names)))
        self.mem = self.rt.exported_memory(self.inst, 'm')
        if mem is not None:
            self.mem.put(0, mem)

    def call(self, name, *a):
        o = self.x.attempt(self.rt.invocate, self.inst, name, list(a))
        if o[0] == 'ret' and len(o[1]) == 1:
            return ('ret', o[1][0])
        return o

    def ok(self, name, *a):
        """A call of the scenario's set-up, which must succeed."""
        o = self.call(name, *a)
        assert o[0] == 'ret' and not bool(o[1] != 0), (name, a, o, getattr(self.x, 'last_error', None))
        return o

    def poke(self, at, b):
        if isinstance(b, str):
            b = b.encode()
        if isinstance(b, SBytes):
            b = b.snap(True)
        self.mem.put(at, b if isinstance(b, SBytes) else bytearray(b))

    def peek(self, at, n):
        return self.mem.get(at, n)

    def u32(self, at):
        return self.mem.get_u32(at)

    def open(self, fd, name, oflags=0, base=ALL, root=ALL, fdflags=0, lookup=0):
        """path_open by the guest; the new descriptor."""
        self.poke(60000, name)
        self.ok('path_open', fd, lookup, 60000, len(name), oflags, base, root, fdflags, 60100)
        return core.conc(self.u32(60100))


def name_bytes(x, n):
    """Input n as a byte string."""
    return x.bytes(n)


def tree(h):
    """A small directory tree: files with contents, directories, a link, and something outside."""
    h.put('/h/p')
    h.put('/h/p/d/e')
    h.put('/h/p/d/f', 'file', data=bytearray(b'345'), times=(11, 12, 13))
    h.put('/h/p/f', 'file', data=bytearray(b'abcdef'), times=(21, 22, 23))
    h.put('/h/p/l', 'link', target='d/f', times=(31, 32, 33))
    h.put('/h/q/f', 'file', data=bytearray(b'xyz'))


DIRS = {'p': '/h/p', 'q': '/h/q'}


def state(w):
    """Everything a call could change on the host: files, descriptors with offsets and flags, what was done with them."""
    h = w.h
    socks = [[o.sock.name, host.obsbytes(o.sock.sent), host.obsbytes(o.sock.inp)] for _, o in sorted(h.fds.items()) if o.sock]
    return [h.snap(), h.fdsnap(), list(h.ops), list(h.closed), [list(s) for s in h.shut], socks, len(h.select_log)]


def same(a, b):
    """z3: two observations agree (both may be symbolic)."""
    from sx.harness import B
    F = z3.BoolVal(False)
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return F
        return z3.And([same(p, q) for p, q in zip(a, b)])
    if isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
        return B(SBytes.lift(a) == SBytes.lift(b))
    r = a == b
    return F if r is NotImplemented else B(r)


def pack(*fs):
    """Little-endian fields: pack((4, 100), (8, -1), ...)."""
    return b''.join((v & (1 << 8 * n) - 1).to_bytes(n, 'little') for n, v in fs)


def sock_file(w, fd, rights, kind='stream', flag=2, name='sock'):
    """The embedder adds a socket, as the repository's example does."""
    P = w.x.pw.wasi.Preview1
    w.wasi.fd.append(P.File(host_fd=fd, host_flag=flag, host_name=name, host_status=P.FILE_STATUS_OPENED, pipe=None, wasm_fd=len(w.wasi.fd),
                            wasm_flag=0, wasm_name=name, wasm_rights_base=rights, wasm_rights_root=rights, wasm_status=P.FILE_STATUS_OPENED,
                            wasm_type=P.FILETYPE_SOCKET_STREAM if kind == 'stream' else P.FILETYPE_SOCKET_DGRAM))
    return len(w.wasi.fd) - 1


class Pipe:
    """What an embedder puts in place of a standard stream (as io.BytesIO)."""

    def __init__(self, data=b''):
        self.data = data
        self.pos = 0
        self.out = b''

    def read(self, n=-1):
        from sx.models import nospec
        nospec()
        left = max(0, (core.conc(self.data.n) if isinstance(self.data, SBytes) else len(self.data)) - self.pos)
        end = self.pos + (left if bool(n < 0) else host.least(n, left))
        r = self.data[self.pos:end]
        self.pos = max(self.pos, end)
        return r

    def write(self, b):
        from sx.models import nospec
        nospec()
        n = core.conc(b.n) if isinstance(b, SBytes) else len(b)
        self.out = host.cat(self.out, b)
        return n

    def seek(self, n, whence=0):
        self.pos = n
        return n
