"""C07: bulk memory instructions, data segments, memory growth."""
import z3
from sx.harness import Case, eqv, tt, B
from sx.core import bvv, sext, zext
from sx import wb
from .util import leb5, Patch, z64, byte1, PAGE

ASSUMPTIONS = [
    'memory contents arbitrary (function from index to byte); effects are checked at an arbitrary symbolic index',
    'memory.fill writes byte by byte: lengths up to the stated loop bound, plus every length that must trap',
    'growth is required to succeed up to the declared maximum and 64 MiB (1024 pages, the documented limit)',
]
F = z3.BoolVal(False)


def mem_mod(pages, body, segs=(), mx=None, params=3, rets=()):
    m = wb.Mod()
    m.mem(pages, mx, export='m')
    for s in segs:
        m.data_passive(s)
    m.func([wb.I32] * params, list(rets), body, export='f')
    m.func([], [wb.I32], b'\x3f\0', export='size')
    return m


def probe_run(x, rt, inst, out, size):
    mem = rt.exported_memory(inst, 'm')
    x.assume(z3.ULT(z64(x.t('j')), size))
    return out[0], mem.get(x.u('j'), 1), mem.size


def common(x, obs, ok, want, pages):
    """Checks shared by the bulk operations: trap iff not ok; byte at j is want (old on a trap)."""
    new = byte1(obs[1])
    old = x.memat('mem', x.t('j'))
    if new is None or obs[2] != pages:
        return [('memory keeps its size', F)]
    if obs[0] == 'trap':
        return [('traps only when out of bounds', z3.Not(ok)), ('a trap writes nothing', new == old)]
    return [('out-of-bounds ranges trap', ok), ('memory afterwards', z3.Implies(ok, new == want))]


def copy_case(pages):
    base = mem_mod(pages, wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(10) + b'\0\0').build()
    size = pages * PAGE

    def run(x):
        rt, inst = x.instance(base)
        rt.exported_memory(inst, 'm').put(0, x.bytes('mem'))
        out = x.attempt(rt.invocate, inst, 'f', [x.i('d'), x.i('s'), x.i('n')])
        return probe_run(x, rt, inst, out, size)

    def check(x, obs):
        d, s, n, j = (z64(x.t(k)) for k in ('d', 's', 'n', 'j'))
        ok = z3.And(z3.ULE(s + n, size), z3.ULE(d + n, size))
        inside = z3.And(z3.UGE(j, d), z3.ULT(j, d + n))
        want = z3.If(inside, x.memat('mem', j - d + s), x.memat('mem', j))
        return common(x, obs, ok, want, pages)
    return Case(f'memory.copy.pages{pages}', {'d': 32, 's': 32, 'n': 32, 'j': 18, 'mem': ('mem', size)}, run, check,
                expect=('ret', 'trap'), bounds='memory.copy: every operand triple, every content, overlaps included')


def fill_case(name, limit, pages=1, pin=None, seconds=60):
    base = mem_mod(pages, wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(11) + b'\0').build()
    size = pages * PAGE

    def run(x):
        d, n = z64(x.t('d')), z64(x.t('n'))
        if pin is not None:
            x.assume(n == pin)
            num = pin
        else:
            x.assume(z3.Or(z3.ULE(n, limit), z3.UGT(d + n, size)))
            num = x.i('n')
        rt, inst = x.instance(base)
        rt.exported_memory(inst, 'm').put(0, x.bytes('mem'))
        out = x.attempt(rt.invocate, inst, 'f', [x.i('d'), x.i('v'), num])
        return probe_run(x, rt, inst, out, size)

    def check(x, obs):
        d, n, j = (z64(x.t(k)) for k in ('d', 'n', 'j'))
        ok = z3.ULE(d + n, size)
        inside = z3.And(z3.UGE(j, d), z3.ULT(j, d + n))
        return common(x, obs, ok, z3.If(inside, z3.Extract(7, 0, x.t('v')), x.memat('mem', j)), pages)
    return Case(f'memory.fill.{name}', {'d': 32, 'v': 32, 'n': 32, 'j': 18, 'mem': ('mem', size)}, run, check,
                expect=('ret', 'trap'), seconds=seconds,
                interesting={'n': [pin]} if pin is not None else {},
                bounds=f'memory.fill: every address and value; lengths 0..{limit} and every trapping length' if pin is None
                else f'memory.fill: length {pin}, every address and value')


def init_case(L, drop=False, pages=1):
    """memory.init of a segment of L symbolic bytes; drop: data.drop first (twice for idempotence)."""
    p = Patch()
    seg = p.hole(L) if L else b''
    m = mem_mod(pages, wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(8) + b'\1\0', segs=[b'other', seg, b'x'])
    m.func([], [], wb.fc(9) + b'\1', export='drop')
    m.func([wb.I32] * 3, [], wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(8) + b'\0\0', export='f0')
    p.seal(m.build())
    size = pages * PAGE

    def run(x):
        rt, inst = x.instance(p.fill(x, *([x.bytes('seg')] if L else [])))
        mem = rt.exported_memory(inst, 'm')
        mem.put(0, x.bytes('mem'))
        if drop:
            rt.invocate(inst, 'drop', [])
            rt.invocate(inst, 'drop', [])
        out = x.attempt(rt.invocate, inst, 'f', [x.i('d'), x.i('s'), x.i('n')])
        r = probe_run(x, rt, inst, out, size)
        # using or dropping one segment leaves the others alone
        rt.invocate(inst, 'f0', [8, 0, 5])
        return r + (mem.get(8, 5),)

    def check(x, obs):
        d, s, n, j = (z64(x.t(k)) for k in ('d', 's', 'n', 'j'))
        have = 0 if drop else L
        ok = z3.And(z3.ULE(s + n, have), z3.ULE(d + n, size))
        inside = z3.And(z3.UGE(j, d), z3.ULT(j, d + n))
        k = j - d + s
        v = bvv(0, 8)
        for i in range(L):
            v = z3.If(k == i, z3.Extract(8 * i + 7, 8 * i, x.t('seg')), v)
        from sx.harness import eqbytes
        return common(x, obs[:3], ok, z3.If(inside, v, x.memat('mem', j)), pages) + \
            [('other segments are unaffected', eqbytes(obs[3], list(b'other')))]
    inputs = {'d': 32, 's': 32, 'n': 32, 'j': 18, 'mem': ('mem', size)}
    if L:
        inputs['seg'] = 8 * L
    return Case(f'memory.init.len{L}' + ('.dropped' if drop else ''), inputs, run, check, expect=('ret', 'trap'),
                bounds='memory.init: every operand triple, every segment content of length 0, 1, 5, 12; data.drop')


def grow_case(name, steps, bounded, lo=2, mx=None, expect=('ret', 'trap')):
    """Grow `steps` times from a symbolic minimum below lo with a symbolic (or pinned) maximum."""
    p = Patch()
    h = [p.hole(5)] + ([p.hole(5)] if bounded else [])
    m = wb.Mod()
    m.mems.append((b'\1' if bounded else b'\0') + b''.join(h))
    m.export('m', 2, 0)
    m.func([wb.I32], [wb.I32], wb.lget(0) + b'\x40\0', export='grow')
    m.func([], [wb.I32], b'\x3f\0', export='size')
    m.func([wb.I32], [wb.I32], wb.lget(0) + b'\x2d\0\0', export='load')
    p.seal(m.build())
    deltas = [f'k{i}' for i in range(steps)]
    inputs = {'n': 32, 'j': 33}
    if bounded:
        inputs['m'] = 32
    inputs.update({d: 32 for d in deltas})
    inputs['mem'] = ('mem', lo * PAGE)

    def run(x):
        n = x.t('n')
        x.assume(z3.ULE(n, lo))
        if bounded:
            x.assume(z3.ULE(n, x.t('m')))
            x.assume(z3.ULE(x.t('m'), 65536))
            if mx is not None:
                x.assume(x.t('m') == mx)
        pages = x.pick('n')
        fill = [leb5(x, pages)] + ([leb5(x, 'm')] if bounded else [])
        rt, inst = x.instance(p.fill(x, *fill))
        mem = rt.exported_memory(inst, 'm')
        if pages:
            mem.put(0, x.bytes('mem') if pages == lo else x.bytes('mem')[0:pages * PAGE])
        res = []
        for d in deltas:
            res.append(rt.invocate(inst, 'grow', [x.i(d)])[0])
        res.append(rt.invocate(inst, 'size', [])[0])
        res.append(mem.size)
        x.assume(z3.ULT(z64(x.t('j')), 1 << 32))
        out = x.attempt(rt.invocate, inst, 'load', [to_i32(x.u('j'))])
        return out[0], res, (out[1][0] if out[0] == 'ret' else None)

    def check(x, obs):
        size = zext(x.t('n'), 40)
        mxt = zext(x.t('m'), 40) if bounded else bvv(65536, 40)
        out = []
        for i, d in enumerate(deltas):
            r = tt(obs[1][i], 32)
            new = size + zext(x.t(d), 40)
            fits = z3.ULE(new, mxt)
            success = r == z3.Extract(31, 0, size)
            fail = r == bvv(-1, 32)
            out.append((f'grow {i}: result is the old size or -1', z3.And(z3.Or(success, fail), eqv(obs[1][i], r, True))))
            out.append((f'grow {i}: fails beyond the maximum', z3.Implies(z3.Not(fits), fail)))
            out.append((f'grow {i}: succeeds within the limits',
                        z3.Implies(z3.And(fits, z3.ULE(new, 1024)), success)))
            size = z3.If(z3.And(success, z3.Not(fail)), new, size)
        out.append(('memory.size', eqv(obs[1][-2], z3.Extract(31, 0, size), True)))
        out.append(('reported size', eqv(obs[1][-1], z3.Extract(31, 0, size), False)))
        j = zext(x.t('j'), 64)
        inb = z3.ULT(j, zext(size, 64) << 16)
        if obs[0] == 'trap':
            return out + [('the new size is addressable', z3.Not(inb))]
        v = tt(obs[2], 32)
        first = z3.ULT(j, zext(x.t('n'), 64) << 16)
        out.append(('nothing beyond the size is addressable', inb))
        out.append(('contents kept, new pages zero',
                    v == zext(z3.If(first, x.memat('mem', j), bvv(0, 8)), 32)))
        return out
    return Case(f'memory.grow.{name}', inputs, run, check, expect=expect,
                bounds=f'memory.grow: minimum 0..{lo} pages, every maximum and increment, {steps} successive growths',
                seconds=120)


def to_i32(v):
    from sx.core import SymInt
    if isinstance(v, SymInt):
        return SymInt.of(v.low(32), True)
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def cases(tier):
    out = [copy_case(1), fill_case('bounded', 8), fill_case('len64', 64, pin=64), fill_case('len300', 300, pin=300)]
    for L in (0, 1, 5, 12):
        out.append(init_case(L))
    out += [init_case(0, True), init_case(5, True)]
    out += [grow_case('max', 1, True), grow_case('nomax', 1, False), grow_case('max.twice', 2, True),
            grow_case('nomax.twice', 2, False), grow_case('max0', 1, True, lo=1, mx=0, expect=('trap',))]
    if tier != 'quick':
        out += [copy_case(2), fill_case('bounded24', 24, seconds=300), fill_case('pages2', 8, pages=2),
                fill_case('len2000', 2000, pin=2000, seconds=300), init_case(40), init_case(12, True),
                grow_case('max.thrice', 3, True), grow_case('nomax.thrice', 3, False, lo=1)]
    return out
