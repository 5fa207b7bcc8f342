"""C23: WASI reads, writes and seeks move exactly the requested bytes and offset."""
import errno as ER
import z3
from sx.harness import Case, B, tt
from sx.core import bvv, conc, SBytes
from . import host, wa
from .c22 import MEM, a32, inside, observe, laid, field, terms, world, INS
from .wa import R, E, pack, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system: regular files, streams, sockets; it may transfer fewer bytes than asked and may fail any operation',
    'one page of guest memory with arbitrary contents; up to 2 (thorough: 3) buffers anywhere, apart from each other, from the list of buffers and from the result; '
    'reads of any length into them, writes of up to 3 bytes each',
    'files of 6 arbitrary bytes, any offset for reads, offsets up to 8 for writes; seeks by any 64-bit amount',
]
SIZE = 6
TAB, RES = 800, 900


def case(name, ins, run, check, **k):
    k.setdefault('nval', 2)
    return Case(name, {**INS, **ins}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=20000, seconds=500, **k)


def place(x, w, n, most=None, extra=()):
    """The list of buffers; n of them at p0.. with lengths l0.., all inside memory and apart."""
    reg = [(bvv(TAB, 64), 8 * n), (bvv(RES, 64), 8), *extra]
    for k in range(n):
        if most is not None:
            x.assume(z3.ULE(x.t(f'l{k}'), most))
        w.mem.put_u32(TAB + 8 * k, x.u(f'p{k}'))
        w.mem.put_u32(TAB + 8 * k + 4, x.u(f'l{k}'))
        reg.append((a32(x, f'p{k}'), a32(x, f'l{k}')))
    inside(x, *reg)


def bufs(n):
    return {k: 32 for i in range(n) for k in (f'p{i}', f'l{i}')}


def total(x, n):
    t = bvv(0, 64)
    for k in range(n):
        t = t + a32(x, f'l{k}')
    return t


def faults(x, w, mode):
    """short: each transfer may be cut; fail: one transfer fails; again: the first may be cut, and nothing more goes through."""
    calls = []
    if mode == 'short':
        def short(what, n):
            k = len(calls)
            calls.append(what)
            return n if k > 1 or n < 2 else max(1, n - x.pick(f's{k}'))
        w.h.short = short
    if mode == 'again':
        def once(what, n):
            calls.append(what)
            if len(calls) > 1:
                raise host.err(ER.EAGAIN)
            return n if n < 2 else max(1, n - x.pick('s0'))
        w.h.short = once
    if mode == 'fail':
        def fail(op):
            if op not in ('read', 'write', 'pread', 'pwrite', 'recv', 'send'):
                return None
            calls.append(op)
            return ER.EIO if len(calls) == x.pick('at') + 1 else None
        w.h.fail = fail
    return calls


FI = {'again': {'s0': 2}, 'short': {'s0': 2, 's1': 2}, 'fail': {'at': 1}, None: {}}


def source(src, kind, x, w, moved=False):
    """A descriptor to transfer through; (descriptor, host description or None, pipe or None)."""
    if kind == 'file':
        fd = w.open(3, 'f')
        if moved:
            w.h.aside('/h/p/f', '/h/p/d/moved')
        o = w.h.fds[max(w.h.fds)]
        return fd, o, None
    if kind == 'pipe':
        return src, None, w.wasi.fd[src].pipe
    if kind == 'std':
        return src, w.h.fds[src], None
    end = host.SockEnd('s', x.bytes('d').snap(True) if x.sym else bytearray(x.bytes('d')), dgram=kind == 'dgram')
    h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
    return wa.sock_file(w, h, wa.ALL, kind), w.h.fds[h], None


def content(o, kind, pipe):
    if kind == 'pipe':
        return pipe.out
    if kind in ('stream', 'dgram'):
        return o.sock.sent
    return o.node.data


def listed(x, data):
    return [x.at(data, i) for i in range(conc(x.length(data)))]


def build(x):
    def f(h):
        wa.tree(h)
        h.at('/h/p/f').data = x.bytes('d').snap(True) if x.sym else bytearray(x.bytes('d'))
    return f


def scatter(x, n, count, byte):
    """Expected regions: buffer k holds transferred bytes from its start offset on; byte(i) for a 64-bit index term."""
    j = z3.ZeroExt(48, x.t('j'))
    hit, val, off = z3.BoolVal(False), bvv(0, 8), bvv(0, 64)
    for k in range(n):
        p, l = a32(x, f'p{k}'), a32(x, f'l{k}')
        here = z3.And(z3.UGE(j, p), z3.ULT(j, p + l), z3.ULT(off + (j - p), count))
        val = z3.If(here, byte(off + (j - p)), val)
        hit = z3.Or(hit, here)
        off = off + l
    return hit, val


def read_case(fn, n, kind='file', mode=None, moved=False):
    pos_form = fn == 'fd_pread'
    sock = fn == 'sock_recv'

    def run(x):
        w = world(x, sorted({fn, 'path_open'}), build(x), dirs=wa.DIRS)
        if kind == 'pipe':
            d = bytes(x.bytes('d')) if not x.sym else x.bytes('d', False)
            w.wasi.fd[0].pipe = wa.Pipe(d)
        fd, o, pipe = source(0, kind, x, w, moved)
        if kind == 'std':
            o.node.data = x.bytes('d').snap(True) if x.sym else bytearray(x.bytes('d'))
        place(x, w, n, extra=[(bvv(RES + 8, 64), 2)] if sock else ())
        pos = 0
        if kind == 'file':
            x.assume(z3.ULT(x.t('pos'), 1 << 62))
            o.pos = pos = x.u('pos')
        calls = faults(x, w, mode)
        off = (x.i('off'),) if pos_form else ()
        args = (fd, TAB, n, x.pick('peek'), RES, RES + 8) if sock else (fd, TAB, n, *off, RES)
        obs = observe(x, w, lambda: w.call(fn, *args))
        w.h.fail = None
        after = o.pos if kind == 'file' else None
        left = x.length(o.sock.inp) if sock else x.length(o.node.data) if kind == 'std' else (len(pipe.data) if not x.sym else pipe.data.n) - pipe.pos if pipe else 0
        return obs + [pos, after, content(o, kind, pipe), left, len(calls), x.u('peek') if sock else 0]

    def check(x, obs):
        kind_, no, b, a, size, pos, after, data, left, calls, peek = obs
        j = z3.ZeroExt(48, x.t('j'))
        b, a = tt(b, 8), tt(a, 8)
        want = total(x, n)
        start = tt(x.t('off') if pos_form else pos, 64)
        have = z3.If(z3.ULT(start, SIZE), SIZE - start, bvv(0, 64))
        full = z3.If(z3.ULT(want, have), want, have)
        d = [z3.Extract(8 * k + 7, 8 * k, x.t('d')) for k in range(SIZE)]
        if kind_ != 'ret':
            return [('returns', z3.BoolVal(False))]
        no = tt(no, 32)
        res = (RES, RES + 4)
        # transferred according to the host
        if kind == 'file' and not pos_form:
            moved = tt(after, 64) - tt(pos, 64)
        elif pos_form:
            moved = full if mode is None else None
        else:
            moved = SIZE - tt(left, 64)
        out = [('memory size', tt(size, 64) == MEM)]
        if kind == 'file':
            out.append(('file unchanged', same(data, x.bytes('d'))))
        if pos_form:
            out.append(('offset unchanged', tt(after, 64) == tt(pos, 64)))
        quiet = z3.And(a == b, moved == 0 if not pos_form else z3.BoolVal(True))
        if sock and kind == 'dgram':
            out.append(('the rest of a datagram is dropped unless peeking', z3.Or(tt(no, 32) != 0, tt(left, 64) == z3.If(tt(peek, 64) & 1 == 1, bvv(SIZE, 64), bvv(0, 64)))))
            moved = full
        if sock and kind == 'stream':
            moved = z3.If(tt(peek, 64) & 1 == 1, full, moved)
            out.append(('peeking leaves the data', z3.Or(tt(peek, 64) & 1 == 0, tt(left, 64) == SIZE)))

        def byte(i):
            v = bvv(0, 8)
            for k in range(SIZE):
                v = z3.If(start + i == k, d[k], v)
            return v
        inres = z3.And(z3.UGE(j, RES), z3.ULT(j, RES + 4))

        def layout(count):
            hit, val = scatter(x, n, count, byte)
            v = z3.If(hit, val, b)
            for i, c in enumerate(field(z3.Extract(31, 0, count), 4)):
                v = z3.If(j == RES + i, c, v)
            if sock:
                cut = z3.If(z3.ULT(want, SIZE), 1, 0) if kind == 'dgram' else z3.IntVal(0)
                for i in range(2):
                    v = z3.If(j == RES + 8 + i, z3.If(z3.And(B(kind == 'dgram' and i == 0), z3.ULT(want, SIZE)), bvv(1, 8), bvv(0, 8)), v)
            return a == v
        failed = no != 0
        if pos_form:
            neg = x.t('off') < 0
            out.append(('a negative offset is refused', z3.Or(z3.Not(neg), failed)))
            if mode is None:
                out.append(('succeeds', z3.Or(neg, z3.Not(failed))))
        elif mode != 'fail':
            out.append(('succeeds', z3.Not(failed)))
        out.append(('a failing call changes nothing', z3.Or(z3.Not(failed), quiet)))
        if moved is None:
            # the count is the guest's: any prefix of what is there, as long as the host was cut or failed
            alts = [z3.And(layout(bvv(c, 64)), z3.ULE(bvv(c, 64), full)) for c in range(SIZE + 1)]
            out.append(('bytes in order and counted', z3.Or(failed, *alts)))
        else:
            cut = [z3.And(tt(peek, 64) & 1 == 1, layout(bvv(c, 64)), z3.ULE(bvv(c, 64), full)) for c in range(SIZE + 1)] if sock and mode in ('short', 'again') else []
            out.append(('bytes in order and counted', z3.Or(failed, layout(moved), *cut)))
            out.append(('no more than asked', z3.Or(failed, z3.ULE(moved, full))))
            if mode is None:
                out.append(('all that was asked', z3.Or(failed, moved == full)))
            else:
                out.append(('progress', z3.Or(failed, full == 0, moved != 0)))
        return out
    ins = {'d': 8 * SIZE, **bufs(n), **FI[mode]}
    if kind == 'file':
        ins['pos'] = 64
    if pos_form:
        ins['off'] = 64
    if sock:
        ins['peek'] = 1
    return case(f'{fn}.{kind}.{n}' + (f'.{mode}' if mode else '') + ('.moved' if moved else ''), ins, run, check)


def write_case(fn, n, kind='file', mode=None, append=False, moved=False):
    pos_form = fn == 'fd_pwrite'
    sock = fn == 'sock_send'

    def run(x):
        w = world(x, sorted({fn, 'path_open'}), build(x), dirs=wa.DIRS)
        if kind == 'pipe':
            w.wasi.fd[1].pipe = wa.Pipe()
        if kind == 'file':
            fd = w.open(3, 'f', fdflags=int(append))
            if moved:
                w.h.aside('/h/p/f', '/h/p/d/moved')
            o, pipe = w.h.fds[max(w.h.fds)], None
        else:
            fd, o, pipe = source(1, kind, x, w)
        place(x, w, n, most=3)
        gave = [[x.at(w.mem.data, x.u(f'p{k}') + i) if x.sym else (w.mem.data + bytes(4))[x.u(f'p{k}') + i] for i in range(3)] for k in range(n)]
        pos = 0
        if kind == 'file':
            x.assume(z3.ULE(x.t('pos'), 8))
            o.pos = pos = x.u('pos')
        calls = faults(x, w, mode)
        if pos_form:
            x.assume(z3.Or(x.t('off') < 0, x.t('off') <= 8))
        off = (x.i('off'),) if pos_form else ()
        args = (fd, TAB, n, 0, RES) if sock else (fd, TAB, n, *off, RES)
        obs = observe(x, w, lambda: w.call(fn, *args))
        w.h.fail = None
        return obs + [pos, o.pos if kind == 'file' else 0, listed(x, content(o, kind, pipe)), gave]

    def check(x, obs):
        kind_, no, b, a, size, pos, after, data, gave = obs
        j = z3.ZeroExt(48, x.t('j'))
        if kind_ != 'ret':
            return [('returns', z3.BoolVal(False))]
        no = tt(no, 32)
        failed = no != 0
        b, a = tt(b, 8), tt(a, 8)
        want = total(x, n)
        old = [z3.Extract(8 * k + 7, 8 * k, x.t('d')) for k in range(SIZE)] if kind == 'file' else []
        new = [tt(c, 8) for c in data]
        start = bvv(len(old), 64) if append or kind != 'file' else tt(x.t('off') if pos_form else pos, 64)

        def src(i):
            v, off = bvv(0, 8), bvv(0, 64)
            for k in range(n):
                l = a32(x, f'l{k}')
                for e in range(3):
                    v = z3.If(z3.And(i - off == e, z3.UGE(i, off), z3.ULT(i - off, l)), tt(gave[k][e], 8), v)
                off = off + l
            return v

        def file(count):
            """The file after writing the first count bytes at start."""
            end = start + count
            n1 = z3.If(count == 0, bvv(len(old), 64), z3.If(z3.UGT(end, len(old)), end, bvv(len(old), 64)))
            cs = [n1 == len(new)]
            for k, c in enumerate(new):
                was = old[k] if k < len(old) else bvv(0, 8)
                cs.append(c == z3.If(z3.And(z3.UGE(bvv(k, 64), start), z3.ULT(bvv(k, 64), end)), src(bvv(k, 64) - start), was))
            return z3.And(cs)

        def result(count):
            v = b
            for i, c in enumerate(field(z3.Extract(31, 0, count), 4)):
                v = z3.If(j == RES + i, c, v)
            return a == v
        same_file = file(bvv(0, 64))
        out = [('memory size', tt(size, 64) == MEM)]
        p0, p1 = tt(pos, 64), tt(after, 64)

        def did(count):
            move = p1 == p0 if pos_form or kind != 'file' else z3.If(B(append), z3.If(count == 0, z3.BoolVal(True), p1 == SIZE + count), p1 == p0 + count)
            return z3.And(file(count), result(count), move)
        if pos_form:
            neg = x.t('off') < 0
            out.append(('a negative offset is refused', z3.Or(z3.Not(neg), failed)))
            if mode != 'fail':
                out.append(('succeeds', z3.Or(neg, z3.Not(failed))))
        elif mode != 'fail':
            out.append(('succeeds', z3.Not(failed)))
        out.append(('a failing call changes nothing', z3.Or(z3.Not(failed), z3.And(a == b, same_file, p1 == p0))))
        if mode is None:
            out.append(('bytes in order and counted', z3.Or(failed, did(want))))
        else:
            out.append(('a prefix, counted', z3.Or(failed, *[z3.And(did(bvv(c, 64)), z3.ULE(bvv(c, 64), want)) for c in range(3 * n + 1)])))
            out.append(('progress', z3.Or(failed, want == 0, z3.Not(result(bvv(0, 64))), z3.Not(z3.And(z3.UGE(j, RES), z3.ULT(j, RES + 4))), b != a, b == 0)))
        return out
    ins = {'d': 8 * SIZE, **bufs(n), **FI[mode]}
    if kind == 'file':
        ins['pos'] = 64
    if pos_form:
        ins['off'] = 64
    return case(f'{fn}.{kind}.{n}' + ('.append' if append else '') + (f'.{mode}' if mode else '') + ('.moved' if moved else ''), ins, run, check)


def seek_case(fn, moved=False):
    def run(x):
        w = world(x, ['fd_seek', 'fd_tell', 'path_open'], build(x), dirs=wa.DIRS)
        fd, o, _ = source(0, 'file', x, w, moved)
        x.assume(z3.And(x.t('pos') >= 0))
        o.pos = x.u('pos')
        inside(x, (a32(x, 'p'), 8))
        args = (fd, x.i('o'), x.i('wh'), x.i('p')) if fn == 'fd_seek' else (fd, x.i('p'))
        return observe(x, w, lambda: w.call(fn, *args)) + [o.pos, o.node.data]

    def check(x, obs):
        kind_, no, b, a, size, after, data = obs
        if kind_ != 'ret':
            return [('returns', z3.BoolVal(False))]
        pos, after = x.t('pos'), tt(after, 64)
        if fn == 'fd_tell':
            return laid(x, obs, [(a32(x, 'p'), field(pos, 8), None)]) + [('offset', after == pos)]
        wh, d = x.t('wh'), x.t('o')
        base = z3.If(wh == 0, bvv(0, 64), z3.If(wh == 1, pos, bvv(SIZE, 64)))
        new = z3.SignExt(8, base) + z3.SignExt(8, d)
        okay = z3.And(z3.ULE(wh, 2), new >= 0, new < (1 << 63))
        to = z3.Extract(63, 0, new)
        good = laid(x, obs, [(a32(x, 'p'), field(to, 8), None)]) + [('offset', after == to)]
        quiet = laid(x, obs, []) + [('offset', after == pos)]
        no = tt(no, 32)
        bad = [(w, v if w != 'errno' else z3.Or(no == E['INVAL'], no == 61)) for w, v in quiet]
        return [(w, z3.If(okay, g, q)) for (w, g), (_, q) in zip(good, bad)] + [('file', same(data, x.bytes('d')))]
    return case(f'{fn}' + ('.moved' if moved else ''), {'d': 48, 'o': 64, 'pos': 64, 'wh': 32, 'p': 32} if fn == 'fd_seek' else {'d': 48, 'pos': 64, 'p': 32}, run, check)


def resize_case(fn, mode=None, moved=False):
    """fd_filestat_set_size and fd_allocate."""
    def run(x):
        w = world(x, sorted({fn, 'path_open'}), build(x), dirs=wa.DIRS)
        fd = w.open(3, 'f', fdflags=x.pick('app'))
        if moved:
            w.h.aside('/h/p/f', '/h/p/d/moved')
        o = w.h.fds[max(w.h.fds)]
        o.pos = 2
        n, off = x.t('n'), x.t('off')
        x.assume(z3.Or(z3.ULE(n, 12), n < 0) if fn != 'fd_allocate' else z3.And(z3.Or(z3.ULE(n, 12), n < 0), z3.Or(z3.ULE(off, 12), off < 0)))
        faults(x, w, mode)
        args = (fd, x.i('n')) if fn != 'fd_allocate' else (fd, x.i('off'), x.i('n'))
        return observe(x, w, lambda: w.call(fn, *args)) + [o.pos, o.node.data, o.flags]

    def check(x, obs):
        kind_, no, b, a, size, pos, data, flags = obs
        if kind_ != 'ret':
            return [('returns', z3.BoolVal(False))]
        n, off = x.t('n'), x.t('off')
        no = tt(no, 32)
        new = terms(data)
        if fn == 'fd_allocate':
            bad = z3.Or(n <= 0, off < 0)
            dont = n == 0               # zero length: refused, or nothing to do, or up to the offset
            to = z3.If(z3.UGT(off + n, SIZE), off + n, bvv(SIZE, 64))
        else:
            bad, dont, to = n < 0, z3.BoolVal(False), n
        old = [z3.Extract(8 * k + 7, 8 * k, x.t('d')) for k in range(SIZE)]
        bytes_ = z3.And([c == (old[k] if k < SIZE else bvv(0, 8)) for k, c in enumerate(new)])
        kept = z3.And(B(len(new) == SIZE), bytes_)
        out = [('no memory changes', tt(a, 8) == tt(b, 8)), ('offset kept', B(pos == 2)), ('contents', bytes_)]
        out.append(('size', z3.If(no == 0, z3.If(dont, z3.Or(B(len(new) == SIZE), to == len(new)), z3.And(z3.Not(bad), to == len(new))), kept)))
        if mode != 'fail':
            out.append(('carried out', z3.Or(bad, no == 0)))
        return out
    return case(f'{fn}' + (f'.{mode}' if mode else '') + ('.moved' if moved else ''), {'d': 48, 'n': 64, 'off': 64, 'app': 1, **FI[mode]}, run, check)


def sequence_case(steps):
    """Several calls on one descriptor: the offset each leaves is the one the next uses."""
    def run(x):
        w = world(x, ['fd_read', 'fd_write', 'fd_seek', 'fd_tell', 'path_open'], build(x), dirs=wa.DIRS)
        fd = w.open(3, 'f')
        log = []
        model = [x.at(x.bytes('d'), i) for i in range(SIZE)]
        pos = 0
        for k, s in enumerate(steps):
            n = x.pick(f'n{k}')
            if s == 'r':
                w.poke(TAB, pack((4, 1000), (4, n)))
                o = w.call('fd_read', fd, TAB, 1, RES)
                got = conc(w.u32(RES))
                want = model[pos:pos + n]
                log.append([o == ('ret', 0), got == len(want), [w.mem.get_u8(1000 + i) for i in range(len(want))], want])
                pos += len(want)
            elif s == 'w':
                w.poke(TAB, pack((4, 1100), (4, n)))
                data = [x.at(x.bytes(f'w{k}'), i) for i in range(n)]
                for i, c in enumerate(data):
                    w.mem.put_u8(1100 + i, c)
                o = w.call('fd_write', fd, TAB, 1, RES)
                if n:
                    model += [0] * (pos - len(model))
                model[pos:pos + n] = data
                pos += n
                log.append([o == ('ret', 0), conc(w.u32(RES)) == n, [], []])
            else:
                wh = {'s': 0, 'c': 1, 'e': 2}[s]
                d = n - 2
                base = [0, pos, len(model)][wh]
                o = w.call('fd_seek', fd, d, wh, RES)
                if base + d < 0:
                    log.append([o[0] == 'ret' and o[1] != 0, True, [], []])
                else:
                    pos = base + d
                    log.append([o == ('ret', 0), conc(w.mem.get_u64(RES)) == pos, [], []])
            w.ok('fd_tell', fd, RES)
            log[-1].append(conc(w.mem.get_u64(RES)) == pos)
        return 'ret', log, w.h.at('/h/p/f').data, model

    def check(x, obs):
        out = []
        for k, (ok, n, got, want, off) in enumerate(obs[1]):
            out += [(f'{k}: succeeds', B(ok)), (f'{k}: count', B(n)), (f'{k}: offset', B(off)), (f'{k}: bytes', z3.And([tt(p, 8) == tt(q, 8) for p, q in zip(got, want)]))]
        new = terms(obs[2])
        return out + [('file', z3.And(B(len(new) == len(obs[3])), *[p == tt(q, 8) for p, q in zip(new, obs[3])]))]
    ins = {f'n{k}': 2 for k in range(len(steps))}
    ins.update({f'w{k}': 24 for k, s in enumerate(steps) if s == 'w'})
    return Case(f'seq.{steps}', {'d': 8 * SIZE, 'm': ('mem', MEM), **ins}, run, check, expect=('ret',), stubs=host.sym_modules, max_paths=20000, seconds=400, nval=2)


def cases(tier):
    full = tier != 'quick'
    out = []
    ns = (0, 1, 2, 3) if full else (0, 1, 2)
    for n in ns:
        for fn in ('fd_read', 'fd_pread'):
            out += [read_case(fn, n, 'file', m) for m in (None, 'short', 'fail') if n or m is None]
        out += [read_case('fd_read', n, k) for k in ('pipe', 'std')]
        out += [read_case('sock_recv', n, k) for k in ('stream', 'dgram')]
        for fn in ('fd_write', 'fd_pwrite'):
            out += [write_case(fn, n, 'file', m) for m in (None, 'short', 'fail') if n or m is None]
        out += [write_case('fd_write', n, k) for k in ('pipe', 'std')] + [write_case('sock_send', n, 'stream', m) for m in (None, 'short', 'fail', 'again') if n or m is None]
    out += [read_case('fd_read', 2, 'std', m) for m in ('short', 'fail', 'again')] + [read_case('sock_recv', 2, 'stream', m) for m in ('short', 'fail', 'again')]
    out += [write_case('fd_write', 1, 'file', None, True), write_case('fd_write', 1, 'std', 'short'), write_case('fd_write', 2, 'std', 'again'), write_case('fd_write', 2, 'file', 'again')]
    out += [f(n, 1, moved=True) for n, f in (('fd_read', read_case), ('fd_pread', read_case), ('fd_write', write_case), ('fd_pwrite', write_case))]
    out += [write_case('fd_write', 1, 'file', None, True, True), seek_case('fd_seek', True)] + [resize_case(f, None, True) for f in ('fd_filestat_set_size', 'fd_allocate')]
    out += [seek_case('fd_seek'), seek_case('fd_tell')]
    out += [resize_case(f, m) for f in ('fd_filestat_set_size', 'fd_allocate') for m in (None, 'short', 'fail') if f == 'fd_allocate' or m is None]
    seqs = ['rr', 'rw', 'wr', 'ww', 'srs', 'ew', 'cwr', 'rcr', 'esr']
    if full:
        import itertools
        seqs += [''.join(s) for s in itertools.product('rwsce', repeat=3) if ''.join(s) not in seqs]
    return out + [sequence_case(s) for s in seqs]
