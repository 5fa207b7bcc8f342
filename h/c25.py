"""C25: hostile guest pointers cannot resize guest memory or leak past it."""
import z3
from sx.harness import Case, B, tt
from sx.core import bvv, conc, SBytes
from . import host, wa
from .c22 import MEM, a32, observe, terms, world, INS
from .wa import R, ALL, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system; the guest passes valid descriptors and, where a name is read from inside the memory, a valid name',
    'one page of guest memory with arbitrary contents; every 32-bit value for each output pointer and length, all of them at once; every 32-bit pair of pointer '
    'and length of a name that does not lie in the memory; lists of buffers and subscriptions at every address from the last two (thorough: three) '
    'entries of the memory on, with any contents and any 32-bit count',
    'accessors for host functions: memories of 0 and 1 pages, every address from -2^40 to 2^40, every length up to 2^40',
]


def case(name, ins, run, check, **k):
    k.setdefault('nval', 2)
    k.setdefault('expect', ('ret', 'trap'))
    return Case(name, {**INS, **ins}, run, check, stubs=host.sym_modules, max_paths=20000, seconds=500, **k)


# -- accessors --------------------------------------------------------------------------------------------------------
WIDTH = {'i32': 4, 'i64': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}


def memory(x, pages):
    c = x.pw.core
    m = c.MemInst(c.MemType(c.Limits(pages, pages))) if pages else c.MemInst(c.MemType(c.Limits(0, 0)))
    if pages:
        m.put(0, x.bytes('m').snap(True) if x.sym else bytearray(x.bytes('m')))
    return m


def span(x, size):
    a = z3.SignExt(23, x.t('a')) if x.t('a').size() == 41 else x.t('a')
    return a


def get_case(name, pages):
    size = MEM * pages
    n = WIDTH.get(name)

    def run(x):
        m = memory(x, pages)
        if n:
            o = x.attempt(getattr(m, 'get_' + name), x.i('a'))
            v = o[1] if o[0] == 'ret' else 0
        else:
            o = x.attempt(m.get, x.i('a'), x.i('n'))
            v = o[1] if o[0] == 'ret' else b''
            # the byte at k of what was read, and its length
            v = [x.length(v), x.at(v, x.u('k')) if o[0] == 'ret' and bool(x.u('k') < x.length(v)) else 0]
        a, k = x.i('a'), x.u('k')
        i = a if n else a + k
        src = [x.at(m.data, i + e) for e in range(n or 1)] if o[0] == 'ret' and (n or bool(k < x.i('n'))) else []
        return [o[0] if o[0] == 'ret' else 'trap', v, x.length(m.data), src]

    def check(x, obs):
        a = z3.SignExt(23, x.t('a'))
        ln = bvv(n, 64) if n else z3.SignExt(23, x.t('n'))
        ok = z3.And(a >= 0, ln >= 0, a + ln <= size)
        if obs[0] != 'ret':
            return [('refused only outside', z3.Not(ok)), ('size', tt(obs[2], 64) == size)]
        out = [('inside', ok), ('size', tt(obs[2], 64) == size)]
        if n:
            v = tt(obs[1], 8 * n)
            out.append(('value', v == (z3.Concat([tt(c, 8) for c in reversed(obs[3])]) if n > 1 else tt(obs[3][0], 8))))
        else:
            out.append(('length', tt(obs[1][0], 64) == ln))
            if obs[3]:
                out.append(('bytes', tt(obs[1][1], 8) == tt(obs[3][0], 8)))
        return out
    ins = {'a': 41, **({} if n else {'n': 41}), 'k': 16}
    return case(f'get_{name}.{pages}' if n else f'get.{pages}', ins, run, check, expect=('ret', 'trap') if pages or not n else ('trap',))


def put_case(name, pages):
    size = MEM * pages
    n = WIDTH.get(name)

    def run(x):
        m = memory(x, pages)
        j = x.u('j')
        b = x.at(m.data, j) if pages else 0
        if n:
            v = x.i('v') if name[0] == 'i' else x.u('v')
            o = x.attempt(getattr(m, 'put_' + name), x.i('a'), v)
        else:
            v = x.bytes('v')
            o = x.attempt(m.put, x.i('a'), v.snap(True) if x.sym else bytearray(v))
        return [o[0] if o[0] == 'ret' else 'trap', b, x.at(m.data, j) if pages and not bool(x.length(m.data) != size) else 0, x.length(m.data)]

    def check(x, obs):
        a = z3.SignExt(23, x.t('a'))
        v = x.t('v')
        k = v.size() // 8
        ok = z3.And(a >= 0, a + k <= size)
        j = z3.ZeroExt(48, x.t('j'))
        b, c = tt(obs[1], 8), tt(obs[2], 8)
        out = [('size', tt(obs[3], 64) == size)]
        if obs[0] != 'ret':
            return out + [('refused only outside', z3.Not(ok)), ('nothing written', b == c)]
        want = b
        for i in range(k):
            want = z3.If(j == a + i, z3.Extract(8 * i + 7, 8 * i, v), want)
        return out + [('inside', ok)] + ([('bytes', c == want)] if pages else [])
    return case(f'put_{name}.{pages}' if n else f'put.{pages}', {'a': 41, 'v': 8 * (n or 5)}, run, check,
                expect=('ret', 'trap') if pages else ('trap',))


# -- calls ------------------------------------------------------------------------------------------------------------
def lists(x, w, obs, ins, outs, changed):
    """The general statement.  ins, outs: (address, length) of 64-bit terms; changed: z3, whether the host's state changed."""
    kind, no, b, a, size = obs[:5]
    j = z3.ZeroExt(48, x.t('j'))
    b, a = tt(b, 8), tt(a, 8)
    inside = [z3.Or(n == 0, z3.And(z3.ULE(n, MEM), z3.ULE(p + n, MEM))) for p, n in ins + outs]
    mine = z3.Or([z3.BoolVal(False)] + [z3.And(z3.UGE(j, p), z3.ULT(j, p + n)) for p, n in outs])
    okay = tt(no, 32) == 0 if kind == 'ret' else z3.BoolVal(False)
    out = [('memory size', tt(size, 64) == MEM), ('other memory', z3.Or(mine, a == b)), ('only inside the memory', z3.Or(z3.Not(okay), z3.And([B(True), *inside])))]
    if changed is not None:
        out.append(('nothing is done with a bad input', z3.Or(z3.And([B(True), *[i for i in inside[:len(ins)]]]), z3.Not(changed))))
    return out


NAMES = {'d': 500, 'f': 510, 'n': 520, 'l': 530}
DATA = {'fd_prestat_dir_name': 1}


# fn -> arguments; an argument is a number, ('out', name, size), ('outlen', name of pointer, name of length), ('path', k) (two arguments), ('any', name, bits)
def P(k, n):
    return ('path', k, n)


def O(n, size):
    return ('out', n, size)


CALLS = {
    'args_get': [O('p', 12), O('q', 7)], 'args_sizes_get': [O('p', 4), O('q', 4)],
    'environ_get': [O('p', 8), O('q', 9)], 'environ_sizes_get': [O('p', 4), O('q', 4)],
    'clock_res_get': [1, O('p', 8)], 'clock_time_get': [0, 0, O('p', 8)],
    'fd_fdstat_get': ['F', O('p', 24)], 'fd_filestat_get': ['F', O('p', 64)],
    'fd_prestat_get': [3, O('p', 8)], 'fd_prestat_dir_name': [3, ('buf', 'p', 'n')],
    'fd_readdir': ['D', ('buf', 'p', 'n'), 0, O('q', 4)], 'fd_seek': ['F', 2, 0, O('p', 8)], 'fd_tell': ['F', O('p', 8)],
    'path_create_directory': [3, P(0, 'n')], 'path_filestat_get': [3, 0, P(0, 'f'), O('p', 64)],
    'path_filestat_set_times': [3, 0, P(0, 'f'), 5, 6, 5], 'path_link': [3, 0, P(0, 'f'), 3, P(1, 'n')],
    'path_open': [3, 0, P(0, 'f'), 0, ALL, ALL, 0, O('p', 4)], 'path_readlink': [3, P(0, 'l'), ('buf', 'p', 'n'), O('q', 4)],
    'path_remove_directory': [3, P(0, 'd')], 'path_rename': [3, P(0, 'f'), 3, P(1, 'n')], 'path_symlink': [P(0, 'f'), 3, P(1, 'n')],
    'path_unlink_file': [3, P(0, 'f')], 'random_get': [('buf', 'p', 'n')], 'sock_accept': ['L', 0, O('p', 4)],
}


def build(h):
    h.put('/h/p')
    h.put('/h/p/d')
    h.put('/h/p/f', 'file', data=bytearray(b'abcdef'), times=(21, 22, 23))
    h.put('/h/p/l', 'link', target='some/where')


def call_case(fn, bad=None, near=False):
    """bad: which name lies outside the memory; None: all output pointers are arbitrary;
    near: a good name is found where a mistaken address or length leads to."""
    spec = CALLS[fn]

    def run(x):
        names = sorted({fn, 'path_open'})
        w = world(x, names, build, dirs={'p': '/h/p'}, args=['a', '', 'bcd'], envs={'K': 'v', 'L': '12'})
        for n, at in NAMES.items():
            w.poke(at, n)
        for k in ('real', 'mono', 'process', 'thread'):
            w.h.clocks[k] = 1234567
        if fn == 'random_get':
            w.h.random = lambda n: x.zeros(n) if hasattr(x, 'zeros') else SBytes.zeros(n, False) if x.sym else bytes(n)
        args, ins, outs = [], [], []
        for e in spec:
            if e == 'F':
                args.append(w.open(3, 'f'))
            elif e == 'D':
                args.append(w.open(3, 'd', base=ALL & ~R['FD_WRITE']))
            elif e == 'L':
                end = host.SockEnd('l', b'', make=lambda: host.Open(w.h.node('sock'), 2, host.SockEnd('c', b'')))
                h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
                args.append(wa.sock_file(w, h, ALL, 'stream'))
            elif isinstance(e, int):
                args.append(e)
            elif e[0] == 'out':
                args.append(x.i(e[1]))
                outs.append((a32(x, e[1]), bvv(e[2], 64)))
            elif e[0] == 'buf':
                args += [x.i(e[1]), x.i(e[2])]
                outs.append((a32(x, e[1]), a32(x, e[2])))
            else:
                if bad == e[1]:
                    p, n = a32(x, 'ip'), a32(x, 'il')
                    x.assume(z3.UGT(p + n, MEM))
                    if near:
                        at = NAMES[e[2]]
                        w.poke(MEM - 1, e[2])
                        q = x.pick('way')
                        x.assume(z3.Or(p == MEM - 1, p == (1 << 32) - 1) if q == 0 else z3.And(p == at, n == (1 << 32) + 1 - MEM))
                    args += [x.i('ip'), x.i('il')]
                    ins.append((p, n))
                else:
                    args += [NAMES[e[2]], 1]
        before = wa.state(w)
        obs = observe(x, w, lambda: w.call(fn, *args))
        return obs + [before, wa.state(w)]

    def check(x, obs):
        outs, ins = [], []
        for e in spec:
            if isinstance(e, tuple) and e[0] == 'out':
                outs.append((a32(x, e[1]), bvv(e[2], 64)))
            elif isinstance(e, tuple) and e[0] == 'buf':
                # how much is written is up to the call (at most the length given); a buffer reaching outside may be refused or used up to there
                outs.append((a32(x, e[1]), a32(x, e[2])))
        if bad is not None:
            ins = [(a32(x, 'ip'), a32(x, 'il'))]
        changed = z3.Not(same(obs[5], obs[6])) if bad is not None else None
        loose = fn in ('fd_readdir', 'path_readlink', 'fd_prestat_dir_name')
        r = lists(x, None, obs, ins, outs, changed)
        if loose:
            # only the part of the buffer that is used has to lie in the memory
            r = [t for t in r if t[0] != 'only inside the memory']
            r += [t for t in lists(x, None, obs, ins, [o for o, e in zip(outs, [e for e in spec if isinstance(e, tuple) and e[0] != 'path']) if e[0] == 'out'], None) if t[0] == 'only inside the memory']
        return r
    ins = {}
    for e in spec:
        if isinstance(e, tuple) and e[0] == 'out':
            ins[e[1]] = 32
        elif isinstance(e, tuple) and e[0] == 'buf':
            ins[e[1]] = ins[e[2]] = 32
    if bad is not None:
        ins.update(ip=32, il=32)
        if near:
            ins['way'] = 1
    return case(fn + ('' if bad is None else f'.name{bad}') + ('.near' if near else ''), ins, run, check, expect=() if bad is not None else ('ret', 'trap'))


def iov_case(fn, most):
    """Lists of buffers with arbitrary contents, reaching up to or over the end of the memory."""
    reads = fn in ('fd_read', 'fd_pread', 'sock_recv')
    sock = fn.startswith('sock')

    def run(x):
        w = world(x, sorted({fn, 'path_open'}), build, dirs={'p': '/h/p'})
        if sock:
            end = host.SockEnd('s', b'abcdef')
            h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
            fd = wa.sock_file(w, h, ALL, 'stream')
        else:
            # opening writes the name and the descriptor below 60200; the list lies above
            fd = w.open(3, 'f')
        x.assume(z3.UGT(x.t('v'), MEM - 8 * (most + 1)))
        v = x.u('v')
        elems = []
        for k in range(most):
            at = v + 8 * k
            if bool(at + 8 <= MEM) and bool(x.u('n') > k):
                elems.append([w.mem.get_u32(at), w.mem.get_u32(at + 4)])
        for e in elems if reads else ():
            # the buffers do not overlap the list that describes them, nor the results
            p, n = tt(e[0], 64), tt(e[1], 64)
            x.assume(z3.Or(n == 0, p + n <= z3.ZeroExt(32, x.t('v')), p >= MEM))
            for r in ('p', 'q'):
                if r in x.case.inputs:
                    x.assume(z3.Or(n == 0, p + n <= a32(x, r), p >= a32(x, r) + 4))
        mid = {'fd_pread': [1], 'fd_pwrite': [1], 'sock_recv': [0], 'sock_send': [0]}.get(fn, [])
        args = [fd, x.i('v'), x.i('n'), *mid, x.i('p')] + ([x.i('q')] if fn == 'sock_recv' else [])
        if not reads:
            for e in elems:
                # at most 3 bytes each from inside the memory; outside: any length
                x.assume(z3.Or(z3.ULE(tt(e[1], 64), 3), z3.UGT(tt(e[0], 64) + tt(e[1], 64), MEM)))
        obs = observe(x, w, lambda: w.call(fn, *args))
        return obs + [elems, host.obsbytes(w.h.at('/h/p/f').data if not sock else end.sent)]

    def check(x, obs):
        elems, data = obs[5], obs[6]
        outs = [(a32(x, 'p'), bvv(4, 64))] + ([(a32(x, 'q'), bvv(2, 64))] if fn == 'sock_recv' else [])
        es = [(tt(p, 64), tt(n, 64)) for p, n in elems]
        lst = [(a32(x, 'v'), a32(x, 'n') << 3)]
        if reads:
            r = lists(x, None, obs, lst, outs + es, None)
            # bytes may be left unread for want of data: a buffer that stays unused may lie anywhere
            return r if not sock else [t for t in r if t[0] != 'only inside the memory'] + [t for t in lists(x, None, obs, lst, outs, None) if t[0] == 'only inside the memory']
        r = lists(x, None, obs, lst + es, outs, None)
        bad = z3.Or([z3.BoolVal(False)] + [z3.And(n != 0, z3.Not(z3.And(z3.ULE(n, MEM), z3.ULE(p + n, MEM)))) for p, n in lst + es])
        if isinstance(data, SBytes) or not sock:
            r.append(('nothing is written from a bad input', z3.Or(z3.Not(bad), same(data, b'abcdef' if not sock else b''))))
        return r
    return case(fn, {'v': 32, 'n': 32, 'p': 32, **({'q': 32} if fn == 'sock_recv' else {})}, run, check)


def poll_case(most):
    def run(x):
        w = world(x, ['poll_oneoff'], build, dirs={'p': '/h/p'})
        for k in ('real', 'mono', 'process', 'thread'):
            w.h.clocks[k] = 1 << 62
        w.h.select_ready = lambda r, ww, t: (list(r), list(ww), [])
        end = host.SockEnd('s', b'')
        h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
        wa.sock_file(w, h, ALL, 'stream')
        x.assume(z3.UGT(x.t('v'), MEM - 48 * (most + 1)))
        for k in range(most):
            at = x.u('v') + 48 * k
            if bool(at + 48 <= MEM):
                # a deadline that has passed, or a socket that is ready
                x.assume(z3.Or(tt(w.mem.get_u8(at + 8), 8) == 1, z3.And(tt(w.mem.get_u64(at + 24), 64) == 0, tt(w.mem.get_u16(at + 40), 16) == 1)))
        obs = observe(x, w, lambda: w.call('poll_oneoff', x.i('v'), x.i('o'), x.i('n'), x.i('p')))
        return obs + [w.mem.get_u32(x.u('p')) if obs[0] == 'ret' and not bool(obs[1] != 0) else 0]

    def check(x, obs):
        count = tt(obs[5], 64)
        n = a32(x, 'n')
        outs = [(a32(x, 'o'), n * 32), (a32(x, 'p'), bvv(4, 64))]
        r = lists(x, None, obs, [(a32(x, 'v'), n * 48)], outs, None)
        used = lists(x, None, obs, [(a32(x, 'v'), n * 48)], [(a32(x, 'o'), count * 32), outs[1]], None)
        return [t for t in r if t[0] != 'only inside the memory'] + [t for t in used if t[0] == 'only inside the memory']
    return case('poll_oneoff', {'v': 32, 'o': 32, 'n': 32, 'p': 32}, run, check)


def cases(tier):
    full = tier != 'quick'
    out = []
    for pages in (0, 1):
        out += [get_case(n, pages) for n in [*WIDTH, '']] + [put_case(n, pages) for n in [*WIDTH, '']]
    for fn, spec in CALLS.items():
        if any(isinstance(e, tuple) and e[0] in ('out', 'buf') for e in spec):
            out.append(call_case(fn))
        for e in spec:
            if isinstance(e, tuple) and e[0] == 'path':
                out += [call_case(fn, e[1], True), call_case(fn, e[1])]
    most = 3 if full else 2
    out += [iov_case(f, most) for f in ('fd_read', 'fd_pread', 'fd_write', 'fd_pwrite', 'sock_recv', 'sock_send')]
    return out + [poll_case(2 if full else 1)]
