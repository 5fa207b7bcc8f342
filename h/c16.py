"""C16: values cross the embedding boundary unchanged; ill-typed calls are refused."""
import random
import z3
from sx.harness import Case, eqv, eqbytes, tt, B, is_int
from sx.core import bvv, zext, SBytes, SymFloat, SUnion
from sx import core, wb
from .util import byte1, z64
from .c14 import exports, outcome

ASSUMPTIONS = [
    'integers given to an i32/i64 parameter or result: all 80-bit Python integers; floats: all 2^64 binary64 values (a binary32 '
    'parameter takes the nearest binary32, NaN payloads are kept in the top 23 bits and quieted); vectors of 0..20 bytes',
    'references: all 32-bit signed host references and null (None); function addresses within the store',
    'an integer in [2^31, 2^32) for i32 (or [2^63, 2^64) for i64) may be refused or taken modulo the width',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
I32, I64, F32, F64, V128, FN, EX = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128, wb.FUNCREF, wb.EXTERNREF
ALL = (I32, I64, F32, F64, V128, FN, EX)
NAME = {I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64', V128: 'v128', FN: 'funcref', EX: 'externref'}
W = {I32: 32, I64: 64, F32: 64, F64: 64, V128: 128, FN: 2, EX: 33}


def arg(x, n, t):
    """The Python value of input n for a parameter of type t."""
    if t in (I32, I64):
        return x.i(n)
    if t in (F32, F64):
        return fval(x, n)
    if t == V128:
        return x.bytes(n)
    if t == FN:                                    # function address 0..1, or null
        k = x.pick(n)
        return None if k > 1 else k
    if x.pick_bit(n, 32):
        return None
    return lowi(x, n)


def fval(x, n):
    if x.sym:
        return SymFloat.of_bits64(x.t(n))
    import struct
    return struct.unpack('<d', struct.pack('<Q', x.vals[n]))[0]


def lowi(x, n):
    if x.sym:
        return core.SymInt.of(z3.Extract(31, 0, x.t(n)), True)
    v = x.vals[n] & 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def fbits(o):
    """Observed Python float -> binary64 bits."""
    if isinstance(o, SymFloat):
        return o.bits64()
    return bvv(core.f64_bits(o), 64) if isinstance(o, float) else None


F64S, F32S = z3.Float64(), z3.Float32()


def is_nan64(t):
    return z3.And(z3.Extract(62, 52, t) == 0x7ff, z3.Extract(51, 0, t) != 0)


def is_nan32(t):
    return z3.And(z3.Extract(30, 23, t) == 0xff, z3.Extract(22, 0, t) != 0)


def demoted(t):
    """binary64 bits -> predicate on binary32 bits r: r is the nearest binary32 (NaN: sign and top payload kept, quiet)."""
    near = z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), z3.fpBVToFP(t, F64S), F32S))
    nan = z3.Concat(z3.Extract(63, 63, t), bvv(0xff, 8), bvv(1, 1), z3.Extract(50, 29, t))
    return z3.If(is_nan64(t), nan, near)


def promoted(b):
    """binary32 bits -> binary64 bits of the same number (NaN quiet)."""
    wide = z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), z3.fpBVToFP(b, F32S), F64S))
    nan = z3.Concat(z3.Extract(31, 31, b), bvv(0x7ff, 11), bvv(1, 1), z3.Extract(21, 0, b), bvv(0, 29))
    return z3.If(is_nan32(b), nan, wide)


def same(x, n, t, o):
    """Observed boundary value o is the value of input n of type t."""
    v = x.t(n)
    if t in (I32, I64):
        return eqv(o, v, True)
    if t == F64:
        b = fbits(o)
        return b == v if b is not None else F
    if t == F32:
        b = fbits(o)
        return b == promoted(demoted(v)) if b is not None else F
    if t == V128:
        return eqbytes(o, [z3.Extract(8 * k + 7, 8 * k, v) for k in range(16)])
    if t == FN:
        k = v
        if o is None:
            return z3.UGT(k, 1)
        return z3.And(z3.ULE(k, 1), eqv(o, zext(k, 32), True)) if is_int(o) else F
    if o is None:
        return z3.Extract(32, 32, v) == 1
    return z3.And(z3.Extract(32, 32, v) == 0, eqv(o, z3.Extract(31, 0, v), True)) if is_int(o) else F


def through_case(ts, perm, path):
    """Values given to an export come back permuted: through wasm, a host import, an exported host import, or globals."""
    n = len(ts)
    rts = [ts[i] for i in perm]
    m = wb.Mod()
    back = b''.join(wb.lget(i) for i in perm)
    if path == 'host':
        h = m.import_func('e', 'h', ts, rts)
    if path == 'reexport':
        h = m.import_func('e', 'h', ts, rts)
        m.export('f', 0, h)
    for _ in range(2):
        m.func([], [], b'')
    if path == 'wasm':
        m.func(ts, rts, back, export='f')
    if path == 'host':
        m.func(ts, rts, b''.join(wb.lget(i) for i in range(n)) + wb.call(h), export='f')
    if path == 'global':
        init = {I32: wb.i32c(0), I64: wb.i64c(0), F32: b'\x43' + bytes(4), F64: b'\x44' + bytes(8), V128: b'\xfd\x0c' + bytes(16),
                FN: b'\xd0\x70', EX: b'\xd0\x6f'}
        g = [m.glob(t, 1, init[t]) for t in ts]
        m.func(ts, [], b''.join(wb.lget(i) + b'\x24' + wb.uleb(g[i]) for i in range(n)), export='put')
        m.func([], rts, b''.join(b'\x23' + wb.uleb(g[i]) for i in perm), export='f')
    img = m.build()

    def run(x):
        got = []

        def imp(rt):
            V = x.pw.core

            def host(mach, a):
                got.append(list(a))
                r = [a[i] for i in perm]
                return r
            return {'e': {'h': rt.allocate_func_host(V.FuncType([V.ValType(t) for t in ts], [V.ValType(t) for t in rts]), host)}}
        rt, inst = x.instance(img, imp if path in ('host', 'reexport') else None)
        args = [arg(x, f'a{k}', t) for k, t in enumerate(ts)]
        keep = list(args)
        if path == 'global':
            rt.invocate(inst, 'put', args)
            o = x.attempt(rt.invocate, inst, 'f', [])
        else:
            o = x.attempt(rt.invocate, inst, 'f', args)
        untouched = len(args) == len(keep) and all(a is b for a, b in zip(args, keep))
        return outcome(o, list(o[1]) if o[0] == 'ret' else None, got[0] if got else None, len(got), untouched)

    def check(x, obs):
        if obs[0] != 'ret':
            return [('returns', F)]
        out = [('number of results', B(len(obs[1]) == len(perm))), ('the list of arguments is left alone', B(obs[4]))]
        for j, (o, i) in enumerate(zip(obs[1], perm)):
            out.append((f'result {j} is argument {i}', same(x, f'a{i}', ts[i], o)))
        if path in ('host', 'reexport'):
            out.append(('the host is called once', B(obs[3] == 1 and len(obs[2]) == n)))
            out += [(f'the host gets argument {i}', same(x, f'a{i}', t, o)) for i, (t, o) in enumerate(zip(ts, obs[2] or []))]
        return out
    return Case(f'through.{path}.{"-".join(NAME[t] for t in ts)}.{"".join(map(str, perm))}',
                {f'a{k}': W[t] for k, t in enumerate(ts)}, run, check, expect=('ret',),
                bounds='every value of every type through wasm, host functions, re-exported host functions and globals')


def range_case(t, path):
    """Integers of any size for an integer parameter or host result."""
    w = 32 if t == I32 else 64
    m = wb.Mod()
    if path != 'arg':
        h = m.import_func('e', 'h', [], [t])
    m.mem(1, export='m')
    if path == 'arg':
        m.func([t], [t], wb.i32c(0) + wb.i32c(1) + b'\x36\2\0' + wb.lget(0), export='f')
    elif path == 'result':
        m.func([], [t], wb.call(h) + wb.i32c(0) + wb.i32c(1) + b'\x36\2\0', export='f')
    else:
        m.export('f', 0, h)
    img = m.build()

    def run(x):
        def imp(rt):
            V = x.pw.core
            return {'e': {'h': rt.allocate_func_host(V.FuncType([], [V.ValType(t)]), lambda mach, a: [x.i('v')])}}
        rt, inst = x.instance(img, imp if path != 'arg' else None)
        o = x.attempt(rt.invocate, inst, 'f', [x.i('v')] if path == 'arg' else [])
        return outcome(o, o[1][0] if o[0] == 'ret' else None, rt.machine.store.mems[0].get(0, 1))

    def check(x, obs):
        v = x.t('v')
        inr = z3.And(v >= bvv(-(1 << (w - 1)), 80), v < bvv(1 << (w - 1), 80))
        unr = z3.And(v >= 0, v < bvv(1 << w, 80))
        ran = byte1(obs[2]) == 1
        if path == 'direct':
            ran = B(obs[0] == 'ret')
        if obs[0] == 'ret':
            return [('only integers of the type are taken', z3.Or(inr, unr)), ('unchanged', eqv(obs[1], z3.Extract(w - 1, 0, v), True)), ('runs', ran)]
        return [('integers of the type are taken', z3.Not(inr)), ('nothing runs', z3.Not(ran))]
    return Case(f'range.{path}.{NAME[t]}', {'v': 80}, run, check, expect=('ret', 'trap'),
                bounds='every integer of up to 80 bits as an argument or a host result')


def float_case(t, path):
    """Integers given where a float is declared: taken exactly as the nearest float or refused."""
    m = wb.Mod()
    if path == 'result':
        h = m.import_func('e', 'h', [], [t])
        m.func([], [t], wb.call(h), export='f')
    else:
        m.func([t], [t], wb.lget(0), export='f')
    img = m.build()

    def run(x):
        def imp(rt):
            V = x.pw.core
            return {'e': {'h': rt.allocate_func_host(V.FuncType([], [V.ValType(t)]), lambda mach, a: [x.i('v')])}}
        rt, inst = x.instance(img, imp if path == 'result' else None)
        o = x.attempt(rt.invocate, inst, 'f', [x.i('v')] if path == 'arg' else [])
        return outcome(o, o[1][0] if o[0] == 'ret' else None)

    def check(x, obs):
        if obs[0] != 'ret':
            return []
        b = fbits(obs[1])
        if b is None:
            return [('a float', F)]
        v = z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), x.t('v'), F64S))
        return [('nearest', b == (v if t == F64 else promoted(demoted(v))))]
    return Case(f'int-as-float.{path}.{NAME[t]}', {'v': 32}, run, check, expect=('ret',),
                bounds='every 32-bit integer given as a float')


BAD = {I32: (1.5, None, 'x', b'abcd', [1], float('nan'), 2.0), I64: (1.5, None, 'x', bytearray(8), 3.0), F32: (None, 'x', bytearray(4), [1.0]),
       F64: (None, 'x', bytearray(8)), V128: (None, 5, 1.5, 'x' * 16), FN: (1.5, 'x', bytearray(4)), EX: (1.5, 'x', bytearray(4))}


def illtyped_case(t, path):
    """Values of the wrong Python kind."""
    m = wb.Mod()
    h = m.import_func('e', 'h', [], [t]) if path == 'result' else None
    m.mem(1, export='m')
    mark = wb.i32c(0) + wb.i32c(1) + b'\x36\2\0'
    if path == 'result':
        m.func([], [], wb.call(h) + b'\x1a' + mark, export='f')
    else:
        m.func([t], [], mark, export='f')
    img = m.build()

    def run(x):
        x.assume(z3.ULT(x.t('k'), len(BAD[t])))
        k = x.pick('k')

        def imp(rt):
            V = x.pw.core
            return {'e': {'h': rt.allocate_func_host(V.FuncType([], [V.ValType(t)]), lambda mach, a: [BAD[t][k]])}}
        rt, inst = x.instance(img, imp if path == 'result' else None)
        o = x.attempt(rt.invocate, inst, 'f', [BAD[t][k]] if path == 'arg' else [])
        return outcome(o, rt.machine.store.mems[0].get(0, 1))

    def check(x, obs):
        return [('refused', B(obs[0] == 'trap')), ('nothing runs', byte1(obs[1]) == 0)]
    return Case(f'illtyped.{path}.{NAME[t]}', {'k': 8}, run, check, expect=('trap',),
                bounds='values of other Python types than the declared one')


def length_case(path):
    """Vectors of 0..20 bytes for a v128."""
    m = wb.Mod()
    h = m.import_func('e', 'h', [], [V128]) if path == 'result' else None
    m.func([], [V128], wb.call(h), export='f') if path == 'result' else m.func([V128], [V128], wb.lget(0), export='f')
    img = m.build()

    def run(x):
        x.assume(z3.ULE(x.t('n'), 20))
        n = x.pick('n')
        b = x.bytes('v')[:n]

        def imp(rt):
            V = x.pw.core
            return {'e': {'h': rt.allocate_func_host(V.FuncType([], [V.ValType(V128)]), lambda mach, a: [b])}}
        rt, inst = x.instance(img, imp if path == 'result' else None)
        o = x.attempt(rt.invocate, inst, 'f', [b] if path == 'arg' else [])
        return outcome(o, o[1][0] if o[0] == 'ret' else None)

    def check(x, obs):
        if obs[0] != 'ret':
            return [('16 bytes are taken', x.t('n') != 16)]
        return [('only 16 bytes are taken', x.t('n') == 16), ('unchanged', eqbytes(obs[1], [z3.Extract(8 * k + 7, 8 * k, x.t('v')) for k in range(16)]))]
    return Case(f'length.{path}', {'n': 8, 'v': 160}, run, check, expect=('ret', 'trap'), bounds='vectors of 0..20 bytes')


def count_case(ts, path):
    """Any number of arguments from 0 to len+2 (or of host results)."""
    n = len(ts)
    m = wb.Mod()
    if path == 'arg':
        m.mem(1, export='m')
        m.func(ts, [], wb.i32c(0) + wb.i32c(1) + b'\x36\2\0', export='f')
    elif path == 'direct':
        h = m.import_func('e', 'h', ts, [])
        m.export('f', 0, h)
        m.mem(1, export='m')
    else:
        h = m.import_func('e', 'h', [], ts)
        m.mem(1, export='m')
        # return discards what is below the results: a leftover would go unnoticed by the end of the function
        m.func([], ts, wb.i32c(5) + wb.call(h) + wb.i32c(0) + wb.i32c(1) + b'\x36\2\0' + b'\x0f', export='f')
    img = m.build()
    val = {I32: 7, I64: 8, F32: 1.5, F64: 2.5, V128: bytearray(range(16)), FN: 0, EX: 9}

    def run(x):
        x.assume(z3.ULE(x.t('k'), n + 2))
        k = x.pick('k')
        vals = ([val[t] for t in ts] + [7, 7, 7, 7])[:k]

        def imp(rt):
            V = x.pw.core
            vt = [V.ValType(t) for t in ts]

            def host(mach, a):
                rt.machine.store.mems[0].put_u8(0, 1)
                return vals
            if path == 'direct':
                return {'e': {'h': rt.allocate_func_host(V.FuncType(vt, []), lambda mach, a: rt.machine.store.mems[0].put_u8(0, 1) or [])}}
            return {'e': {'h': rt.allocate_func_host(V.FuncType([], vt), lambda mach, a: vals)}}
        rt, inst = x.instance(img, imp if path != 'arg' else None)
        args = [] if path == 'result' else vals
        o = x.attempt(rt.invocate, inst, 'f', args)
        return outcome(o, rt.machine.store.mems[0].get(0, 1), len(args))

    def check(x, obs):
        ok = x.t('k') == n
        return [('exactly the declared number is taken', ok == B(obs[0] == 'ret')), ('runs only then', ok == (byte1(obs[1]) == 1)),
                ('list left alone', B(path == 'result') if path == 'result' else x.t('k') == obs[2])]
    return Case(f'count.{path}.{"-".join(NAME[t] for t in ts)}', {'k': 8}, run, check,
                expect=('ret', 'trap'), bounds='0 to 2 more than the declared number of values')


def kind_case():
    """invocate of exports of every kind, and of names that are not exported."""
    m = wb.Mod()
    m.func([], [I32], wb.i32c(11))
    m.func([], [I32], wb.i32c(12), export='f')
    m.table(FN, 1, export='t')
    m.mem(1, export='m')
    m.glob(I32, 1, wb.i32c(3), export='g')
    img = m.build()
    names = ('f', 't', 'm', 'g', 'nope', '', 'F')

    def run(x):
        x.assume(z3.ULT(x.t('k'), len(names)))
        k = x.pick('k')
        rt, inst = x.instance(img)
        o = x.attempt(rt.invocate, inst, names[k], [])
        return outcome(o, o[1][0] if o[0] == 'ret' else None)

    def check(x, obs):
        return [('only exported functions can be invoked', (x.t('k') == 0) == B(obs[0] == 'ret')),
                ('the right function', eqv(obs[1], bvv(12, 32), True) if obs[0] == 'ret' else T)]
    return Case('kind', {'k': 8}, run, check, expect=('ret', 'trap'), bounds='exports of every kind')


def alias_case():
    """Buffers handed over are copied: later changes by either side are not seen by the other."""
    m = wb.Mod()
    h = m.import_func('e', 'h', [V128], [V128])
    m.glob(V128, 1, b'\xfd\x0c' + bytes(16), export='g')
    m.glob(V128, 1, b'\xfd\x0c' + bytes(16), export='g2')
    m.func([V128], [], wb.lget(0) + b'\x24\0', export='put')
    m.func([], [V128], b'\x23\0', export='get')
    m.func([], [V128, V128], b'\x23\0' + wb.call(h) + b'\x24\1\x23\0\x23\1', export='h')
    img = m.build()

    def run(x):
        kept = []

        def host(mach, a):
            r = x.bytes('v')
            kept.append(r)
            a[0][3] = x.u('b')
            return [r]

        def imp(rt):
            V = x.pw.core
            t = V.ValType.v128()
            return {'e': {'h': rt.allocate_func_host(V.FuncType([t], [t]), host)}}
        rt, inst = x.instance(img, imp)
        a = x.bytes('u')
        args = [a]
        rt.invocate(inst, 'put', args)
        a[5] = x.u('b')                                    # after the call: not seen
        r1 = rt.invocate(inst, 'get', [])[0]
        c1 = r1.copy()
        r1[7] = x.u('b')                                   # nor is a change of a result
        r2 = rt.invocate(inst, 'get', [])[0]
        o = rt.invocate(inst, 'h', [])
        kept[0][2] = x.u('b')
        o2 = rt.invocate(inst, 'get', [])
        r3 = rt.exported_global(inst, 'g2').data.into_v128()
        r3[1] = x.u('b')
        return 'ret', c1, r2, o[0], o[1], o2[0], rt.exported_global(inst, 'g2').data.into_v128()

    def check(x, obs):
        u = [z3.Extract(8 * k + 7, 8 * k, x.t('u')) for k in range(16)]
        v = [z3.Extract(8 * k + 7, 8 * k, x.t('v')) for k in range(16)]
        return [(f'{n} is a copy', eqbytes(o, w)) for n, o, w in zip(
            ('argument', 'result', 'argument of a host function', 'result of a host function', 'global', 'global view'),
            obs[1:], (u, u, u, v, u, v))]
    return Case('alias', {'u': 128, 'v': 128, 'b': 8}, run, check, expect=('ret',), bounds='vectors changed after the call')


def machine_case(ts):
    """Machine.invocate on typed values: wrong types and counts are refused, the caller's list is left alone."""
    n = len(ts)
    m = wb.Mod()
    m.mem(1, export='m')
    m.func(ts, ts, wb.i32c(0) + wb.i32c(1) + b'\x36\2\0' + b''.join(wb.lget(i) for i in range(n)), locals=[I32, I64], export='f')
    img = m.build()

    def run(x):
        x.assume(z3.ULE(x.t('k'), n + 1))
        for i in range(n):
            x.assume(z3.Or([x.t(f't{i}') == t for t in ALL]))
        rt, inst = x.instance(img)
        V = x.pw.core
        k = x.pick('k')
        args = [V.ValInst(V.ValType(x.u(f't{i}')) if i < n else V.ValType.i32(), x.bytes(f'v{i}') if i < n else bytearray(16)) for i in range(k)]
        keep = list(args)
        o = x.attempt(rt.machine.invocate, inst.exps[[e.name for e in inst.exps].index('f')].data.data, args)
        same = len(args) == len(keep) and all(a is b for a, b in zip(args, keep))
        return outcome(o, rt.machine.store.mems[0].get(0, 1), same, [e.data for e in o[1]] if o[0] == 'ret' else None)

    def check(x, obs):
        ok = z3.And([x.t('k') == n] + [x.t(f't{i}') == t for i, t in enumerate(ts)])
        out = [('exactly well-typed calls run', ok == B(obs[0] == 'ret')), ('others do nothing', ok == (byte1(obs[1]) == 1)),
               ('list left alone', B(obs[2]))]
        if obs[3] is not None:
            out += [('values', eqbytes(o, [z3.Extract(8 * b + 7, 8 * b, x.t(f'v{i}')) for b in range(16)])) for i, o in enumerate(obs[3])]
        return out
    return Case(f'machine.{"-".join(NAME[t] for t in ts)}', {'k': 8, **{f't{i}': 8 for i in range(n)}, **{f'v{i}': 128 for i in range(n)}},
                run, check, expect=('ret', 'trap'), bounds='Machine.invocate: every type of every argument, every count')


def cases(tier):
    out = []
    for t in ALL:
        for path in ('wasm', 'host', 'reexport', 'global'):
            out.append(through_case([t], [0], path))
    r = random.Random('c16')
    sets = [([I32, I64, F32, F64, V128, FN, EX], [6, 4, 5, 3, 0, 2, 1]), ([I32, I32, I32], [2, 0, 1]), ([EX, I64], [1, 0, 1]), ([F64, F32], [1, 0])]
    if tier != 'quick':
        for _ in range(12):
            ts = [r.choice(ALL) for _ in range(r.randrange(2, 6))]
            sets.append((ts, [r.randrange(len(ts)) for _ in range(r.randrange(0, 6))]))
    for ts, perm in sets:
        for path in ('wasm', 'host', 'reexport', 'global'):
            out.append(through_case(ts, perm, path))
    for t in (I32, I64):
        out += [range_case(t, p) for p in ('arg', 'result', 'direct')]
    for t in (F32, F64):
        out += [float_case(t, p) for p in ('arg', 'result')]
    for t in ALL:
        out += [illtyped_case(t, p) for p in ('arg', 'result')]
    out += [length_case('arg'), length_case('result'), kind_case(), alias_case()]
    for ts in ([], [I32], [I64, F32], [V128, EX, I32]):
        out += [count_case(ts, p) for p in ('arg', 'result', 'direct')]
    out += [machine_case([I32]), machine_case([I64, EX]), machine_case([])]
    return out
