"""C27: host errors reach the WASI program as error numbers and never abort it."""
import errno as ER
import z3
from sx.harness import Case, B, tt
from sx.core import bvv, conc, SBytes
from . import host, wa
from .wa import R, ALL, pack, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system; any one of the first 16 operations that a call performs fails with any error number from 1 to 133 that has a name, '
    'except EINTR (retried by the Python runtime)',
    'one representative call per function and kind of descriptor; EACCES and EPERM may be reported as either; while a path is resolved, ENOENT, ENOTDIR and '
    'EINVAL for a component mean what they say about that component and are not passed on',
    'ill-formed names: all byte strings of up to 4 (thorough: 5) bytes that are not UTF-8 or contain a zero byte',
]
# error numbers, in the order of the ABI
NAMES = ('success 2big acces addrinuse addrnotavail afnosupport again already badf badmsg busy canceled child connaborted connrefused connreset deadlk '
         'destaddrreq dom dquot exist fault fbig hostunreach idrm ilseq inprogress intr inval io isconn isdir loop mfile mlink msgsize multihop '
         'nametoolong netdown netreset netunreach nfile nobufs nodev noent noexec nolck nolink nomem nomsg noprotoopt nospc nosys notconn notdir '
         'notempty notrecoverable notsock notsup notty nxio overflow ownerdead perm pipe proto protonosupport prototype range rofs spipe srch stale '
         'timedout txtbsy xdev notcapable').upper().split()
MAP = {}
for _i, _n in enumerate(NAMES):
    _c = getattr(ER, 'E' + _n, None)
    if _c is not None:
        MAP.setdefault(_c, set()).add(_i)
MAP[ER.EPERM] = MAP[ER.EACCES] = {2, 63}
CODES = [c for c in sorted(ER.errorcode) if c <= 133 and c != ER.EINTR]

SOFT = (ER.ENOENT, ER.ENOTDIR, ER.EINVAL)


def build(h):
    h.put('/h/p')
    h.put('/h/p/d')
    h.put('/h/p/e')
    h.put('/h/p/d/f', 'file', data=bytearray(b'345'))
    h.put('/h/p/f', 'file', data=bytearray(b'abcdef'), times=(21, 22, 23))
    h.put('/h/p/l', 'link', target='d/f')


AT = {'d': 500, 'f': 510, 'n': 520, 'l': 530, 'd/f': 540, 'e': 550}
IOV = 600


def N(n):
    return [AT[n], len(n)]


# name -> (function, arguments); F: an open file, D: an open directory, S: a stream socket, G: a datagram socket, L: a listening socket
CALLS = {
    'fd_advise': ('fd_advise', 'F', 0, 4, 0), 'fd_allocate': ('fd_allocate', 'F', 0, 20), 'fd_close': ('fd_close', 'F'), 'fd_close.dir': ('fd_close', 'D'),
    'fd_datasync': ('fd_datasync', 'F'), 'fd_fdstat_get': ('fd_fdstat_get', 'F', 100), 'fd_fdstat_set_flags': ('fd_fdstat_set_flags', 'F', 1),
    'fd_filestat_get': ('fd_filestat_get', 'F', 100), 'fd_filestat_get.dir': ('fd_filestat_get', 'D', 100),
    'fd_filestat_set_size': ('fd_filestat_set_size', 'F', 3), 'fd_filestat_set_times': ('fd_filestat_set_times', 'F', 1, 2, 5),
    'fd_pread': ('fd_pread', 'F', IOV, 2, 1, 100), 'fd_pwrite': ('fd_pwrite', 'F', IOV, 2, 1, 100), 'fd_read': ('fd_read', 'F', IOV, 2, 100),
    'fd_read.std': ('fd_read', 0, IOV, 2, 100), 'fd_readdir': ('fd_readdir', 'D', 1000, 200, 0, 100), 'fd_renumber': ('fd_renumber', 'F', 'D'),
    'fd_seek': ('fd_seek', 'F', 1, 1, 100), 'fd_sync': ('fd_sync', 'F'), 'fd_tell': ('fd_tell', 'F', 100), 'fd_write': ('fd_write', 'F', IOV, 2, 100),
    'fd_write.std': ('fd_write', 1, IOV, 2, 100), 'path_create_directory': ('path_create_directory', 3, *N('n')),
    'path_filestat_get': ('path_filestat_get', 3, 0, *N('f'), 100), 'path_filestat_get.link': ('path_filestat_get', 3, 1, *N('l'), 100),
    'path_filestat_set_times': ('path_filestat_set_times', 3, 1, *N('f'), 1, 2, 5), 'path_link': ('path_link', 3, 0, *N('f'), 3, *N('n')),
    'path_open': ('path_open', 3, 0, *N('f'), 0, ALL, ALL, 0, 100), 'path_open.deep': ('path_open', 3, 1, *N('d/f'), 0, ALL, ALL, 0, 100),
    'path_open.new': ('path_open', 3, 0, *N('n'), 1, ALL, ALL, 0, 100), 'path_open.dir': ('path_open', 3, 0, *N('d'), 2, ALL & ~R['FD_WRITE'], ALL, 0, 100),
    'path_open.trunc': ('path_open', 3, 0, *N('f'), 8, ALL, ALL, 0, 100), 'path_open.link': ('path_open', 3, 1, *N('l'), 0, ALL, ALL, 0, 100),
    'path_readlink': ('path_readlink', 3, *N('l'), 1000, 50, 100), 'path_remove_directory': ('path_remove_directory', 3, *N('e')),
    'path_rename': ('path_rename', 3, *N('f'), 3, *N('n')), 'path_symlink': ('path_symlink', *N('f'), 3, *N('n')),
    'path_unlink_file': ('path_unlink_file', 3, *N('f')), 'poll_oneoff': ('poll_oneoff', 2000, 2100, 1, 100), 'random_get': ('random_get', 1000, 9),
    'sock_accept': ('sock_accept', 'L', 0, 100), 'sock_accept.nonblock': ('sock_accept', 'L', 4, 100), 'sock_recv': ('sock_recv', 'S', IOV, 2, 0, 100, 110),
    'sock_recv.dgram': ('sock_recv', 'G', IOV, 2, 0, 100, 110), 'sock_send': ('sock_send', 'S', IOV, 2, 0, 100), 'sock_shutdown': ('sock_shutdown', 'S', 3),
}
RESOLVE = {'path_open', 'path_filestat_get', 'path_filestat_set_times', 'path_link', 'path_readlink', 'path_remove_directory', 'path_rename', 'path_symlink',
           'path_unlink_file', 'path_create_directory'}


def setup(x, fn, extra=()):
    w = wa.World(x, sorted({fn, 'path_open', 'fd_tell', *extra}), build, dirs={'p': '/h/p'})
    for n, at in AT.items():
        w.poke(at, n)
    w.poke(IOV, pack((4, 1000), (4, 2), (4, 1010), (4, 2)))
    w.poke(2000, pack((8, 77), (8, 1), (8, 6)) + bytes(24))
    for k in ('real', 'mono', 'process', 'thread'):
        w.h.clocks[k] = 1234567
    w.h.random = lambda n: bytes(conc(n))
    w.h.select_ready = lambda r, ww, t: (list(r), list(ww), [])
    fds = {}
    fds['F'] = w.open(3, 'f')
    fds['D'] = w.open(3, 'd', base=ALL & ~R['FD_WRITE'])
    for k, end, kind in (('S', host.SockEnd('s', b'abcdef'), 'stream'), ('G', host.SockEnd('g', b'abcdef', dgram=True), 'dgram'),
                         ('L', host.SockEnd('l', b'', make=lambda: host.SockEnd('c', b'')), 'stream')):
        h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
        fds[k] = wa.sock_file(w, h, ALL, kind)
    return w, fds


def fault_case(name):
    fn, *args = CALLS[name]

    def run(x):
        w, fds = setup(x, fn)
        a = [fds.get(v, v) if isinstance(v, str) else v for v in args]
        n, hit, code = 0, [], 0
        x.assume(z3.Or([x.t('code') == c for c in CODES]))

        def fail(op):
            nonlocal n, code
            n += 1
            if not hit and bool(x.u('at') == n - 1):
                hit.append(op)
                code = x.pick('code')
                return code
        table = len(w.wasi.fd)
        before = sorted(w.h.fds)
        was = wa.state(w)
        w.h.fail = fail
        o = w.call(fn, *a)
        w.h.fail = None
        if not hit:
            x.assume(z3.BoolVal(False))
        # the program goes on: any later call works
        more = w.call('fd_tell', fds['F'], 3000)
        return [o[0], o[1] if o[0] == 'ret' else repr(getattr(x, 'last_error', None))[:80], code, hit[0], sorted(w.h.fds) == before, more[0],
                list(w.h.closed), len(w.wasi.fd) - table]

    def check(x, obs):
        kind, no, code, op, fds, more, closed, grown = obs
        if kind != 'ret':
            return [('returns', z3.BoolVal(False))]
        no = tt(no, 32)
        out = [('the program goes on', B(more == 'ret'))]
        soft = op in ('readlink', 'stat') and fn in RESOLVE and code in SOFT
        if not soft:
            out.append(('the error is reported', z3.Or([no == c for c in MAP[code]]) if code in MAP else no != 0))
        if fn != 'fd_close' and fn != 'fd_renumber':
            out.append(('no descriptor is left behind', z3.Or(B(bool(fds)), no == 0)))
        return out
    return Case(name, {'code': 8, 'at': 4}, run, check, expect=() if name in NONE else ('ret',), stubs=host.sym_modules, max_paths=20000, seconds=400, nval=2)


# calls that need nothing from the host
NONE = {'fd_fdstat_get', 'random_get', 'fd_advise', 'fd_datasync', 'fd_sync', 'fd_renumber'}

# function -> arguments with the name as NAME (two arguments)
ILL = {
    'path_create_directory': [3, 'NAME'], 'path_filestat_get': [3, 0, 'NAME', 100], 'path_filestat_set_times': [3, 0, 'NAME', 1, 2, 5],
    'path_link': [3, 0, 'NAME', 3, *N('n')], 'path_link.to': [3, 0, *N('f'), 3, 'NAME'], 'path_open': [3, 0, 'NAME', 1, ALL, ALL, 0, 100],
    'path_readlink': [3, 'NAME', 1000, 50, 100], 'path_remove_directory': [3, 'NAME'], 'path_rename': [3, 'NAME', 3, *N('n')],
    'path_rename.to': [3, *N('f'), 3, 'NAME'], 'path_symlink': ['NAME', 3, *N('n')], 'path_symlink.to': [*N('f'), 3, 'NAME'], 'path_unlink_file': [3, 'NAME'],
}


def utf8(bs):
    """z3: the bytes are well-formed UTF-8 without a zero byte."""
    n = len(bs)

    def rng(b, lo, hi):
        return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))

    def cont(b):
        return rng(b, 0x80, 0xbf)
    ok = [z3.BoolVal(False)] * n + [z3.BoolVal(True)]
    for i in range(n - 1, -1, -1):
        b = bs[i]
        alts = [z3.And(rng(b, 1, 0x7f), ok[i + 1])]
        if i + 2 <= n:
            alts.append(z3.And(rng(b, 0xc2, 0xdf), cont(bs[i + 1]), ok[i + 2]))
        if i + 3 <= n:
            c = bs[i + 1]
            alts.append(z3.And(z3.Or(z3.And(b == 0xe0, rng(c, 0xa0, 0xbf)), z3.And(z3.Or(rng(b, 0xe1, 0xec), rng(b, 0xee, 0xef)), cont(c)),
                                     z3.And(b == 0xed, rng(c, 0x80, 0x9f))), cont(bs[i + 2]), ok[i + 3]))
        if i + 4 <= n:
            c = bs[i + 1]
            alts.append(z3.And(z3.Or(z3.And(b == 0xf0, rng(c, 0x90, 0xbf)), z3.And(rng(b, 0xf1, 0xf3), cont(c)), z3.And(b == 0xf4, rng(c, 0x80, 0x8f))),
                               cont(bs[i + 2]), cont(bs[i + 3]), ok[i + 4]))
        ok[i] = z3.Or(alts)
    return ok[0]


def ill_case(name, size):
    fn = name.split('.')[0]

    def run(x):
        bs = [z3.Extract(8 * k + 7, 8 * k, x.t('s')) for k in range(size)]
        x.assume(z3.Not(utf8(bs)))
        w, fds = setup(x, fn)
        w.poke(4000, x.bytes('s'))
        args = []
        for a in ILL[name]:
            args += [4000, size] if a == 'NAME' else [a]
        was = wa.state(w)
        o = w.call(fn, *args)
        more = w.call('fd_tell', fds['F'], 3000)
        return [o[0], o[1] if o[0] == 'ret' else repr(getattr(x, 'last_error', None))[:80], was, wa.state(w), more[0]]

    def check(x, obs):
        kind, no, was, now, more = obs
        if kind != 'ret':
            return [('returns', z3.BoolVal(False))]
        return [('refused', tt(no, 32) != 0), ('nothing changes', same(was, now)), ('the program goes on', B(more == 'ret'))]
    return Case(f'ill.{name}.{size}', {'s': 8 * size}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=20000, seconds=400, nval=2)


def odd_case(kind):
    """Names and values of the host that the ABI cannot express."""
    def build2(x):
        def f(h):
            build(h)
            if kind == 'times':
                h.at('/h/p/f').times[:] = [x.i('a'), x.i('b'), x.i('c')]
            elif kind == 'link':
                h.at('/h/p/l').target = 'a\udcff\udc80b'
            else:
                h.put('/h/p/d/a\udcff', 'file', data=bytearray(b''))
        return f

    def run(x):
        fn = {'times': ('fd_filestat_get', 'path_filestat_get')[x.pick('w')], 'link': 'path_readlink', 'entry': 'fd_readdir'}[kind]
        w = wa.World(x, sorted({fn, 'path_open', 'fd_tell'}), build2(x), dirs={'p': '/h/p'})
        for n, at in AT.items():
            w.poke(at, n)
        f = w.open(3, 'f')
        d = w.open(3, 'd', base=ALL & ~R['FD_WRITE'])
        args = {'fd_filestat_get': (f, 100), 'path_filestat_get': (3, 0, *N('f'), 100), 'path_readlink': (3, *N('l'), 1000, 50, 100),
                'fd_readdir': (d, 1000, 200, 0, 100)}[fn]
        o = w.call(fn, *args)
        more = w.call('fd_tell', f, 3000)
        return [o[0], o[1] if o[0] == 'ret' else repr(getattr(x, 'last_error', None))[:80], more[0]]

    def check(x, obs):
        return [('returns', B(obs[0] == 'ret')), ('the program goes on', B(obs[2] == 'ret'))]
    return Case(f'odd.{kind}', {'a': 64, 'b': 64, 'c': 64, 'w': 1}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=20000, seconds=400, nval=2)


def cases(tier):
    out = [fault_case(n) for n in CALLS if n not in NONE]
    out += [ill_case(n, k) for n in ILL for k in (range(1, 6) if tier != 'quick' else range(1, 5))]
    return out + [odd_case(k) for k in ('times', 'link', 'entry')]
