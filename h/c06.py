"""C06: loads and stores, every address, static offset, value and memory content."""
import z3
from sx.harness import Case, eqv, tt, B
from sx.core import bvv, sext, zext
from sx import wb
from .vec import W, VT, IN, OUT, result, lanes, cat, arg

PAGE = 65536
ASSUMPTIONS = [
    'memory contents are an arbitrary function from index to byte, installed through MemInst.put; "no other byte '
    'changes" is checked at an arbitrary symbolic index',
    'memory of 0, 1 or 2 pages; the static offset is a symbolic 32-bit LEB128 immediate in its padded 5-byte form',
]
OFFMARK = b'\xd5\xaa\xd5\xaa\x05'


def off_bytes(x, n):
    """Padded 5-byte LEB128 of the 32-bit input n."""
    o = x.u(n)
    return [((o >> (7 * k)) & 0x7f) | 0x80 for k in range(4)] + [o >> 28]


def mk(name, op, kinds, ret, width, load=None, store=None, lane=None, pages=1, grow=0, seconds=60):
    """kinds: operand kinds after the address.  load(v, *operands) -> result term; store(*operands) -> width bytes."""
    names = 'bc'[:len(kinds)]
    inputs = {'a': 32, 'off': 32, 'mem': ('mem', max(1, (pages + grow)) * PAGE), 'j': 18}
    inputs.update({n: W[k] for n, k in zip(names, kinds)})
    if lane:
        inputs['lane'] = 8
    size = (pages + grow) * PAGE
    code = wb.lget(0) + b''.join(wb.lget(i + 1) + IN.get(k, b'') for i, k in enumerate(kinds))
    code += op + b'\0' + OFFMARK + (b'\xa5' if lane else b'') + (OUT.get(ret, b'') if ret else b'')
    m = wb.Mod()
    m.mem(pages, export='m')
    m.func([wb.I32] + [VT[k] for k in kinds], [VT[ret]] if ret else [], code, export='f')
    m.func([wb.I32], [wb.I32], wb.lget(0) + b'\x40\0', export='g')
    base = m.build()
    at = base.index(OFFMARK)

    def run(x):
        l = list(base)
        l[at:at + 5] = off_bytes(x, 'off')
        if lane:
            x.assume(z3.ULT(x.t('lane'), lane))
            l[at + 5] = x.u('lane')
        rt, inst = x.instance(x.buf(l))
        mem = rt.exported_memory(inst, 'm')
        if grow:
            rt.invocate(inst, 'g', [grow])
        if size:
            mem.put(0, x.bytes('mem'))
        code_args = [x.i('a')] + [arg(x, n, k) for n, k in zip(names, kinds)]
        out = x.attempt(rt.invocate, inst, 'f', code_args)
        if size:
            x.assume(z3.ULT(x.t('j'), size))
            probe = mem.get(x.u('j'), 1)
        else:
            probe = x.buf([0], True)
        return out[0], (out[1] if len(out) > 1 else None), probe, mem.size

    def check(x, obs):
        ea = zext(x.t('a'), 64) + zext(x.t('off'), 64)
        ok = z3.ULE(ea + width, bvv(size, 64))
        j = zext(x.t('j'), 64)
        ops = [x.t(n) for n in names] + ([x.t('lane')] if lane else [])
        old = x.memat('mem', x.t('j')) if size else bvv(0, 8)
        new = tt(obs[2][0], 8) if len(obs[2]) == 1 else None
        out = []
        if new is None:
            return [('memory keeps its size', z3.BoolVal(False))]
        if obs[3] != pages + grow:
            return [('memory size in pages is unchanged', z3.BoolVal(False))]
        if obs[0] == 'trap':
            return [('traps only outside memory', z3.Not(ok)), ('a trap changes nothing', new == old)]
        out.append(('every access outside memory traps', ok))
        if store:
            bs = store(*ops)
            want = old
            for k in range(width):
                want = z3.If(j == ea + k, bs[k], want)
            out.append(('exactly the addressed bytes change', z3.Implies(ok, new == want)))
            out.append(('no result', z3.BoolVal(obs[1] == [])))
        else:
            out.append(('a load changes nothing', new == old))
            if len(obs[1]) != 1:
                return [('one result', z3.BoolVal(False))]
            r = result(obs[1][0], ret)
            if r is None:
                return [('result type', z3.BoolVal(False))]
            v = cat([x.memat('mem', z3.simplify(ea + k)) for k in range(width)]) if size else bvv(0, 8 * width)
            out.append(('result', z3.Implies(ok, z3.And(r[0], r[1] == load(v, *ops)))))
        return out
    nm = name + (f'.pages{pages}' + (f'+{grow}' if grow else '') if (pages, grow) != (1, 0) else '')
    return Case(nm, inputs, run, check, expect=('ret', 'trap') if size else ('trap',),
                bounds='every 32-bit address and offset, every value, every memory content; 0, 1 and 2 pages',
                seconds=seconds)


def table():
    t = []
    for n, op, ret, w, sg in (
            ('i32.load', 0x28, 'i32', 4, 0), ('i64.load', 0x29, 'i64', 8, 0), ('f32.load', 0x2a, 'f32', 4, 0),
            ('f64.load', 0x2b, 'f64', 8, 0), ('i32.load8_s', 0x2c, 'i32', 1, 1), ('i32.load8_u', 0x2d, 'i32', 1, 0),
            ('i32.load16_s', 0x2e, 'i32', 2, 1), ('i32.load16_u', 0x2f, 'i32', 2, 0), ('i64.load8_s', 0x30, 'i64', 1, 1),
            ('i64.load8_u', 0x31, 'i64', 1, 0), ('i64.load16_s', 0x32, 'i64', 2, 1), ('i64.load16_u', 0x33, 'i64', 2, 0),
            ('i64.load32_s', 0x34, 'i64', 4, 1), ('i64.load32_u', 0x35, 'i64', 4, 0)):
        t.append((n, bytes([op]), (), ret, w, lambda v, sg=sg, ret=ret: (sext if sg else zext)(v, W[ret]), None, None))
    for n, op, k, w in (
            ('i32.store', 0x36, 'i32', 4), ('i64.store', 0x37, 'i64', 8), ('f32.store', 0x38, 'f32', 4),
            ('f64.store', 0x39, 'f64', 8), ('i32.store8', 0x3a, 'i32', 1), ('i32.store16', 0x3b, 'i32', 2),
            ('i64.store8', 0x3c, 'i64', 1), ('i64.store16', 0x3d, 'i64', 2), ('i64.store32', 0x3e, 'i64', 4)):
        t.append((n, bytes([op]), (k,), None, w, None, lambda b: lanes(b, 8), None))
    t.append(('v128.load', wb.fd(0), (), 'v', 16, lambda v: v, None, None))
    t.append(('v128.store', wb.fd(11), ('v',), None, 16, None, lambda b: lanes(b, 8), None))
    for k, (n, lw) in enumerate((('8x8', 8), ('16x4', 16), ('32x2', 32))):
        for j, x in enumerate((sext, zext)):
            t.append((f'v128.load{n}_{"su"[j]}', wb.fd(1 + 2 * k + j), (), 'v', 8,
                      lambda v, lw=lw, x=x: cat([x(l, 2 * lw) for l in lanes(v, lw)]), None, None))
    for k, lw in enumerate((8, 16, 32, 64)):
        t.append((f'v128.load{lw}_splat', wb.fd(7 + k), (), 'v', lw // 8,
                  lambda v, lw=lw: cat([v] * (128 // lw)), None, None))
        t.append((f'v128.load{lw}_lane', wb.fd(84 + k), ('v',), 'v', lw // 8,
                  lambda v, b, ln, lw=lw: cat([z3.If(ln == i, v, l) for i, l in enumerate(lanes(b, lw))]),
                  None, 128 // lw))

        def st(b, ln, lw=lw):
            ls = lanes(b, lw)
            r = ls[0]
            for i in range(1, len(ls)):
                r = z3.If(ln == i, ls[i], r)
            return lanes(r, 8) if lw > 8 else [r]
        t.append((f'v128.store{lw}_lane', wb.fd(88 + k), ('v',), None, lw // 8, None, st, 128 // lw))
    for k, lw in enumerate((32, 64)):
        t.append((f'v128.load{lw}_zero', wb.fd(92 + k), (), 'v', lw // 8, lambda v: zext(v, 128), None, None))
    return t


def cases(tier):
    out = []
    for n, op, kinds, ret, w, load, store, lane in table():
        out.append(mk(n, op, kinds, ret, w, load, store, lane))
        if tier != 'quick' or n in ('i32.load', 'i32.store', 'i64.load8_s', 'i64.store16', 'v128.load', 'v128.store',
                                    'v128.load32_lane', 'v128.store8_lane'):
            out.append(mk(n, op, kinds, ret, w, load, store, lane, pages=0))
            out.append(mk(n, op, kinds, ret, w, load, store, lane, pages=1, grow=1))
    return out
