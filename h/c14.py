"""C14: instantiation accepts exactly the imports that match."""
import z3
from sx.harness import Case, eqv, eqbytes, tt, B
from sx.core import bvv, zext
from sx import wb
from .util import Patch, leb5, byte1, PAGE

ASSUMPTIONS = [
    'function types of up to 2 parameters and 2 results over all value types; table sizes up to 4, memory sizes up to 3 pages, '
    'both also reached by growing; declared limits and actual maxima over all 32-bit values',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
I32, I64, F32, F64, V128, FN, EX = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128, wb.FUNCREF, wb.EXTERNREF
VT = (I32, I64, F32, F64, V128, FN, EX)


def valty(x, v):
    x.assume(z3.Or([x.t(v) == k for k in VT]))


def exports(inst):
    return {e.name: e.data for e in inst.exps}


def both(x, rt, provider, importer):
    """Instantiate the provider, then import its exports as module p."""
    a = rt.instance(x.module(provider))
    rt.imports['p'] = exports(a)
    return a, x.attempt(rt.instance, x.module(importer))


def verdict(ok, what):
    def check(x, obs):
        e = ok(x)
        return [(f'accepted: {what} match', z3.Implies(B(obs[0] == 'ret'), e)),
                (f'refused: {what} do not match', z3.Implies(B(obs[0] != 'ret'), z3.Not(e)))]
    return check


def outcome(o, *more):
    return (('ret',) if o[0] == 'ret' else ('trap',)) + more


# -- functions ----------------------------------------------------------------------------------------------------------
def func_case(a, r, b, q, host):
    """declared type: a parameters, r results; actual: b parameters, q results."""
    p = Patch()
    p.holes = [bytes([0xd1 + k]) for k in range(a + r)]
    p.make(lambda h: wb.MAGIC + wb.section(1, b'\2\x60\0\0\x60' + bytes([a]) + b''.join(h[:a]) + bytes([r]) + b''.join(h[a:])) +
           wb.section(2, b'\1\1p\1f\0\1'))
    o = Patch()
    o.holes = [bytes([0xd1 + k]) for k in range(b + q)]
    o.make(lambda h: wb.MAGIC + wb.section(1, b'\1\x60' + bytes([b]) + b''.join(h[:b]) + bytes([q]) + b''.join(h[b:])) +
           wb.section(3, b'\1\0') + wb.section(7, b'\1\1f\0\0') + wb.section(10, b'\1\3\0\0\x0b'))

    def run(x):
        for k in range(a + r):
            valty(x, f'd{k}')
        for k in range(b + q):
            valty(x, f'a{k}')
        rt = x.pw.Runtime()
        imp = p.fill(x, *[[x.u(f'd{k}')] for k in range(a + r)])
        if host:
            V = x.pw.core
            ty = [V.ValType(x.u(f'a{k}')) for k in range(b + q)]
            rt.imports['p'] = {'f': rt.allocate_func_host(V.FuncType(ty[:b], ty[b:]), lambda m, l: [])}
            return outcome(x.attempt(rt.instance, x.module(imp)))
        return outcome(both(x, rt, o.fill(x, *[[x.u(f'a{k}')] for k in range(b + q)]), imp)[1])

    def ok(x):
        if (a, r) != (b, q):
            return F
        return z3.And([x.t(f'd{k}') == x.t(f'a{k}') for k in range(a + r)]) if a + r else T
    return Case(f'func.{a}{r}.{b}{q}.{"host" if host else "wasm"}',
                {**{f'd{k}': 8 for k in range(a + r)}, **{f'a{k}': 8 for k in range(b + q)}, 'z': 1}, run,
                verdict(ok, 'function types'), expect=(('ret', 'trap') if a + r else ('ret',)) if (a, r) == (b, q) else ('trap',),
                bounds='every pair of signatures of up to 2 parameters and 2 results', max_paths=20000)


def global_case(host):
    p = Patch()
    p.holes = [b'\xd1', b'\xd2']
    p.make(lambda h: wb.MAGIC + wb.section(2, b'\1\1p\1g\3' + h[0] + h[1]))
    init = {I32: b'\x41\0', I64: b'\x42\0', F32: b'\x43\0\0\0\0', F64: b'\x44' + bytes(8), V128: b'\xfd\x0c' + bytes(16),
            FN: b'\xd0\x70', EX: b'\xd0\x6f'}

    def run(x):
        valty(x, 'd')
        valty(x, 'a')
        x.assume(z3.ULE(x.t('dm'), 1))
        x.assume(z3.ULE(x.t('am'), 1))
        rt = x.pw.Runtime()
        imp = p.fill(x, [x.u('d')], [x.u('dm')])
        t = x.pick('a')
        if host:
            V = x.pw.core
            rt.imports['p'] = {'g': rt.allocate_global(V.GlobalType(V.ValType(t), x.u('am')), V.ValInst.zero(V.ValType(t)))}
            return outcome(x.attempt(rt.instance, x.module(imp)))
        q = wb.MAGIC + wb.section(6, b'\1' + bytes([t, x.pick('am')]) + init[t] + b'\x0b') + wb.section(7, b'\1\1g\3\0')
        return outcome(both(x, rt, q, imp)[1])

    def ok(x):
        return z3.And(x.t('d') == x.t('a'), x.t('dm') == x.t('am'))
    return Case(f'global.{"host" if host else "wasm"}', {'d': 8, 'a': 8, 'dm': 8, 'am': 8}, run,
                verdict(ok, 'global type and mutability'), expect=('ret', 'trap'), bounds='every pair of global types')


# -- tables and memories ------------------------------------------------------------------------------------------------
def limits_bytes(flag, n, m):
    return [flag] + list(n) + (list(m) if flag else [])


def sized_case(kind, dflag, aflag, grow, host):
    """declared limits (dn, dm if dflag); actual size an (+ g grown), actual maximum am if aflag."""
    big = 4 if kind == 'table' else 3

    def image(x):
        l = limits_bytes(dflag, leb5(x, 'dn'), leb5(x, 'dm'))
        body = [1, 1, ord('p'), 1, ord('x')] + ([1, x.u('dt')] if kind == 'table' else [2]) + l
        return x.buf(list(wb.MAGIC) + [2, len(body)] + body)

    def run(x):
        x.assume(z3.ULE(x.t('an'), big))
        x.assume(z3.ULE(x.t('g'), 2 if grow else 0))
        if kind == 'table':
            for v in ('dt', 'at'):
                x.assume(z3.Or(x.t(v) == FN, x.t(v) == EX))
        if aflag:
            x.assume(z3.UGE(x.t('am'), zext(x.t('an'), 32)))
            if host:
                x.assume(x.t('am') != 0)
        rt = x.pw.Runtime()
        an, g = x.pick('an'), x.pick('g') if grow else 0
        V = x.pw.core
        if host:
            l = V.Limits(an, x.u('am') if aflag else 0)
            ext = rt.allocate_table(V.TableType(V.ValType(x.u('at')), l)) if kind == 'table' else rt.allocate_memory(V.MemType(l))
            rt.imports['p'] = {'x': ext}
        else:
            l = limits_bytes(aflag, wb.uleb0(an), leb5(x, 'am'))
            at = x.pick('at') if kind == 'table' else 0
            lb = [1] + ([at] if kind == 'table' else []) + l
            grw = b'\xd0' + bytes([at]) + wb.i32c(g) + b'\xfc\x0f\0\x1a' if kind == 'table' else wb.i32c(g) + b'\x40\0\x1a'
            q = list(wb.MAGIC + wb.section(1, b'\1\x60\0\0') + wb.section(3, b'\1\0')) + \
                [4 if kind == 'table' else 5, len(lb)] + lb + \
                list(wb.section(7, b'\2\1x' + bytes([1 if kind == 'table' else 2]) + b'\0\1g\0\0') +
                     wb.section(10, wb.vec([wb.Mod.body([], grw)])))
            a = rt.instance(x.module(x.buf(q)))
            rt.imports['p'] = exports(a)
            if grow:
                rt.invocate(a, 'g', [])
        return outcome(x.attempt(rt.instance, x.module(image(x))))

    def ok(x):
        size = zext(x.t('an'), 40)
        if grow:
            g = zext(x.t('g'), 40)
            size = z3.If(z3.ULE(size + g, zext(x.t('am'), 40)), size + g, size) if aflag else size + g
        c = [z3.UGE(size, zext(x.t('dn'), 40))]
        if dflag:
            c.append(z3.ULE(x.t('am'), x.t('dm')) if aflag else F)
        if kind == 'table':
            c.append(x.t('dt') == x.t('at'))
        return z3.And(c)
    inputs = {'dn': 32, 'dm': 32, 'an': 8, 'am': 32, 'g': 8}
    if kind == 'table':
        inputs.update(dt=8, at=8)
    return Case(f'{kind}.{"max" if dflag else "nomax"}.{"max" if aflag else "nomax"}{".grown" if grow else ""}.'
                f'{"host" if host else "wasm"}', inputs, run, verdict(ok, 'limits'),
                expect=('trap',) if dflag and not aflag else ('ret', 'trap'),
                bounds='every declared minimum and maximum, every actual maximum, actual sizes from 0 entries or pages')


# -- kinds, names -------------------------------------------------------------------------------------------------------
def kind_case():
    """Every kind of declaration against every kind of value."""
    m = wb.Mod()
    m.func([], [], b'', export='0')
    m.table(FN, 1, export='1')
    m.mem(1, export='2')
    m.glob(I32, 0, wb.i32c(1), export='3')
    prov = m.build()
    decl = [b'\0\0', b'\1\x70\0\0', b'\2\0\0', b'\3\x7f\0']

    def run(x):
        x.assume(z3.ULT(x.t('d'), 4))
        x.assume(z3.ULT(x.t('a'), 4))
        d, a = x.pick('d'), x.pick('a')
        rt = x.pw.Runtime()
        p = rt.instance(x.module(prov))
        rt.imports = {'p': {'x': exports(p)[str(a)]}}
        img = wb.MAGIC + wb.section(1, b'\1\x60\0\0') + wb.section(2, b'\1\1p\1x' + decl[d])
        return outcome(x.attempt(rt.instance, x.module(img)))
    return Case('kinds', {'d': 8, 'a': 8}, run, verdict(lambda x: x.t('d') == x.t('a'), 'kinds'), expect=('ret', 'trap'),
                bounds='every pair of kinds')


def name_case():
    """The import is resolved by both names exactly."""
    p = Patch()
    h = [p.hole(3), p.hole(3)]
    p.seal(wb.MAGIC + wb.section(2, b'\1\3' + h[0] + b'\3' + h[1] + b'\3\x7f\0') + wb.section(7, b'\1\1g\3\0'))

    def run(x):
        for v in 'mn':
            for j in range(3):
                x.assume(z3.ULT(z3.Extract(8 * j + 7, 8 * j, x.t(v)), 128))
        V = x.pw.core
        rt = x.pw.Runtime()
        g = [rt.allocate_global(V.GlobalType(V.ValType.i32(), 0), V.ValInst.from_i32(k)) for k in range(4)]
        rt.imports = {'abc': {'xyz': g[0], 'xy': g[1]}, 'abd': {'xyw': g[2], 'xyz': g[3]}}
        o = x.attempt(rt.instance, x.module(p.fill(x, x.bytes('m'), x.bytes('n'))))
        return outcome(o, rt.exported_global(o[1], 'g').data.into_i32() if o[0] == 'ret' else -1)

    def check(x, obs):
        def s(v, k):
            return x.t(v) == int.from_bytes(k, 'little')
        conds = [z3.And(s('m', b'abc'), s('n', b'xyz')), F, z3.And(s('m', b'abd'), s('n', b'xyw')), z3.And(s('m', b'abd'), s('n', b'xyz'))]
        if obs[0] == 'ret':
            return [('the named value', z3.Or([z3.And(c, eqv(obs[1], bvv(k, 32))) for k, c in enumerate(conds)]))]
        return [('a supplied import is found', z3.Not(z3.Or(conds)))]
    return Case('names', {'m': 24, 'n': 24}, run, check, expect=('ret', 'trap'), bounds='every pair of 3-character ASCII names')


def missing_case():
    """One of three imports is missing (or the list is short or long): nothing is instantiated, nothing changes."""
    def run(x):
        x.assume(z3.ULT(x.t('k'), 4))
        x.assume(z3.ULT(x.t('n'), 5))
        k, n = x.pick('k'), x.pick('n')
        V = x.pw.core
        rt = x.pw.Runtime()
        g = [rt.allocate_global(V.GlobalType(V.ValType.i32(), 1), V.ValInst.from_i32(x.i('v'))) for _ in range(4)]
        b = wb.Mod()
        for j in range(3):
            b.import_global('p', f'g{j}', I32, 1)
        f = b.func([], [], b''.join(wb.i32c(7) + b'\x24' + bytes([j]) for j in range(3)))
        b.start = f
        d = x.module(b.build())
        rt.imports = {'p': {f'g{j}': g[j] for j in range(3) if j != k}}
        o = outcome(x.attempt(rt.instance, d))
        rt2 = x.pw.Runtime()
        g2 = [rt2.allocate_global(V.GlobalType(V.ValType.i32(), 1), V.ValInst.from_i32(x.i('v'))) for _ in range(4)]
        o2 = outcome(x.attempt(rt2.machine.instance, d, g2[:n]))
        return o[0], k, n, o2[0], [e.data.into_i32() for e in rt.machine.store.glob], [e.data.into_i32() for e in rt2.machine.store.glob]

    def check(x, obs):
        o, k, n, o2, v, v2 = obs
        out = [('every import is required', B((o == 'ret') == (k == 3))), ('as many values as imports', B((o2 == 'ret') == (n == 3)))]
        for ok, vs in ((k == 3, v), (n == 3, v2)):
            for j in range(3):
                out.append(('globals', eqv(vs[j], bvv(7, 32) if ok else x.t('v'), True)))
        return out
    return Case('missing', {'k': 8, 'n': 8, 'v': 32}, run, check, expect=('ret', 'trap'), bounds='0..4 values for 3 imports')


def nochange_case():
    """Any of five imports mismatches: no segment is written, no initialiser observable, the start function does not run."""
    m = wb.Mod()
    m.mem(1, 2, export='m')
    m.table(FN, 4, 8, export='t')
    m.glob(I32, 1, wb.i32c(5), export='g')
    f = m.func([], [I32], wb.i32c(11), export='f')
    m.func([I32], [I32], wb.lget(0) + b'\x11' + wb.uleb(m.type([], [I32])) + b'\0', export='c')
    m.elem_active(wb.i32c(0), [f, f, f, f])
    prov = m.build()

    def run(x):
        x.assume(z3.ULT(x.t('k'), 6))
        x.assume(z3.ULT(x.t('o'), 5))
        k, o = x.pick('k'), x.pick('o')
        rt = x.pw.Runtime()
        hits = []
        V = x.pw.core
        h = rt.allocate_func_host(V.FuncType([], []), lambda mm, a: hits.append(1) or [])
        a = rt.instance(x.module(prov))
        mem = rt.exported_memory(a, 'm')
        mem.put(0, x.bytes('c'))
        rt.imports = {'p': exports(a), 'h': {'h': h}}
        b = wb.Mod()
        imps = [lambda: b.import_func('p', 'f', [], [I32] if k != 0 else [I64]),
                lambda: b.import_mem('p', 'm', 1 if k != 1 else 2, 2),
                lambda: b.import_table('p', 't', FN, 4, 8 if k != 2 else 7),
                lambda: b.import_global('p', 'g', I32 if k != 3 else F32, 1),
                lambda: b.import_func('h', 'h', [] if k != 4 else [I32], [])]
        for j in range(5):
            imps[(j + o) % 5]()
        hi, gi = (0, 1) if o == 4 else (1, 0)
        # function index of h depends on the order
        order = [(j + o) % 5 for j in range(5)]
        hf = [j for j in order if j in (0, 4)].index(4)
        own = b.func([], [I32], wb.i32c(22))
        st = b.func([], [], wb.i32c(33) + b'\x24\0' + wb.call(hf))
        b.start = st
        b.data_active(wb.i32c(1), b'XY')
        b.elem_active(wb.i32c(2), [own])
        r = outcome(x.attempt(rt.instance, x.module(b.build())))
        calls = [x.attempt(rt.invocate, a, 'c', [j]) for j in range(4)]
        return r[0], k, mem.get(0, 4), rt.exported_global(a, 'g').data.into_i32(), len(hits), [c[1][0] for c in calls]

    def check(x, obs):
        r, k, mem, g, hits, calls = obs
        ok = k == 5
        c = [z3.Extract(8 * j + 7, 8 * j, x.t('c')) for j in range(4)]
        return [('refused on any mismatch', B((r == 'ret') == ok)),
                ('memory', eqbytes(mem, [c[0], ord('X'), ord('Y'), c[3]] if ok else c)),
                ('global', eqv(g, bvv(33 if ok else 5, 32))), ('start', B(hits == (1 if ok else 0))),
                ('table', z3.And([eqv(v, bvv(22 if ok and j == 2 else 11, 32)) for j, v in enumerate(calls)]))]
    return Case('nochange', {'k': 8, 'o': 8, 'c': 32}, run, check, expect=('ret', 'trap'),
                bounds='one mismatch among five imports in every rotation of their order')


def cases(tier):
    out = [kind_case(), name_case(), missing_case(), nochange_case(), global_case(False), global_case(True)]
    shapes = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (2, 2)]
    for s in shapes:
        for q in shapes if tier != 'quick' else [s] + [t for t in shapes if abs(t[0] - s[0]) + abs(t[1] - s[1]) == 1 or
                                                       (t[0] + t[1] == s[0] + s[1] and t != s)]:
            for host in (False, True):
                out.append(func_case(*s, *q, host))
    for kind in ('table', 'memory'):
        for d in (0, 1):
            for a in (0, 1):
                out += [sized_case(kind, d, a, False, False), sized_case(kind, d, a, True, False),
                        sized_case(kind, d, a, False, True)]
    return out
