"""C08: table instructions, references, element segments and indirect calls."""
import z3
from sx.harness import Case, eqv, tt
from sx.core import bvv, zext
from sx import wb
from .util import leb5, Patch, z64

ASSUMPTIONS = [
    'tables of up to 6 entries with arbitrary 32-bit reference values and null patterns; every 32-bit operand',
    'table.grow must succeed up to the declared maximum and 1024 entries (the implementation limit)',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
EX, FN, I32 = wb.EXTERNREF, wb.FUNCREF, wb.I32


def tabmod(s0, s1, mx0=None, raw0=None):
    """Two externref tables with accessors for both."""
    m = wb.Mod()
    if raw0 is not None:
        m.tables.append(bytes([EX]) + raw0)
    else:
        m.table(EX, s0, mx0)
    m.table(EX, s1)
    for t in (0, 1):
        m.func([I32], [EX], wb.lget(0) + b'\x25' + bytes([t]), export=f'get{t}')
        m.func([I32, EX], [], wb.lget(0) + wb.lget(1) + b'\x26' + bytes([t]), export=f'set{t}')
        m.func([I32], [], wb.lget(0) + b'\xd0\x6f\x26' + bytes([t]), export=f'null{t}')
        m.func([I32], [I32], wb.lget(0) + b'\x25' + bytes([t]) + b'\xd1', export=f'isnull{t}')
        m.func([], [I32], wb.fc(16) + bytes([t]), export=f'size{t}')
        m.func([EX, I32], [I32], wb.lget(0) + wb.lget(1) + wb.fc(15) + bytes([t]), export=f'grow{t}')
        m.func([I32, EX, I32], [], wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(17) + bytes([t]), export=f'fill{t}')
        m.func([I32, I32], [], wb.lget(0) + b'\xd0\x6f' + wb.lget(1) + wb.fc(17) + bytes([t]), export=f'fillnull{t}')
        for u in (0, 1):
            m.func([I32] * 3, [], wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(14) + bytes([t, u]), export=f'copy{t}{u}')
    return m


def setup(x, rt, inst, sizes, nulls):
    for t, n in enumerate(sizes):
        for k in range(n):
            if (t, k) not in nulls:
                rt.invocate(inst, f'set{t}', [k, x.i(f'v{t}{k}')])


def initial(x, sizes, nulls):
    return [[((t, k) in nulls, x.t(f'v{t}{k}')) if (t, k) not in nulls else (True, bvv(0, 32)) for k in range(n)]
            for t, n in enumerate(sizes)]


def dump(rt, inst, t):
    n = rt.invocate(inst, f'size{t}', [])[0]
    out = []
    for k in range(n):
        out.append(None if rt.invocate(inst, f'isnull{t}', [k])[0] else rt.invocate(inst, f'get{t}', [k])[0])
    return out


def slot_is(o, want):
    nul, v = want
    nul = z3.BoolVal(nul) if isinstance(nul, bool) else nul
    if o is None:
        return nul
    return z3.And(z3.Not(nul), eqv(o, v, True))


def ite(c, a, b):
    f = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    return z3.If(c, f(a[0]), f(b[0])), z3.If(c, a[1], b[1])


def table_is(obs, want, name):
    if len(obs) != len(want):
        return [(f'{name}: size', F)]
    return [(f'{name}: entry {k}', slot_is(o, w)) for k, (o, w) in enumerate(zip(obs, want))]


def at(tab, i64):
    r = (True, bvv(0, 32))
    for k, w in enumerate(tab):
        r = ite(i64 == k, w, r)
    return r


def inputs_for(sizes, nulls, **kw):
    d = dict(kw)
    for t, n in enumerate(sizes):
        for k in range(n):
            if (t, k) not in nulls:
                d[f'v{t}{k}'] = 32
    return d


def get_case(t, sizes, nulls):
    base = tabmod(*sizes).build()

    def run(x):
        rt, inst = x.instance(base)
        setup(x, rt, inst, sizes, nulls)
        a = x.attempt(rt.invocate, inst, f'isnull{t}', [x.i('i')])
        if a[0] == 'ret' and a[1][0] == 0:
            b = x.attempt(rt.invocate, inst, f'get{t}', [x.i('i')])
            r = (a[0], a[1][0], b[0], b[1][0] if b[0] == 'ret' else None)
        elif a[0] == 'ret':
            r = (a[0], a[1][0], 'null', None)
        else:
            r = (a[0], None, None, None)
        return r + (dump(rt, inst, 0), dump(rt, inst, 1))

    def check(x, obs):
        w = initial(x, sizes, nulls)
        i = z64(x.t('i'))
        ok = z3.ULT(i, sizes[t])
        nul, v = at(w[t], i)
        out = table_is(obs[4], w[0], 'table 0') + table_is(obs[5], w[1], 'table 1')
        if obs[0] == 'trap':
            return out + [('traps only outside', z3.Not(ok))]
        out.append(('in bounds', ok))
        out.append(('ref.is_null', eqv(obs[1], z3.If(nul, bvv(1, 32), bvv(0, 32)), True)))
        if obs[2] == 'ret':
            out.append(('value', eqv(obs[3], v, True)))
        else:
            out.append(('get does not trap', z3.BoolVal(obs[2] == 'null')))
        return out
    return Case(f'table.get{t}', inputs_for(sizes, nulls, i=32), run, check, expect=('ret', 'trap'),
                bounds='table.get and ref.is_null: every index, every content')


def set_case(t, sizes, nulls, null):
    base = tabmod(*sizes).build()

    def run(x):
        rt, inst = x.instance(base)
        setup(x, rt, inst, sizes, nulls)
        a = x.attempt(rt.invocate, inst, f'null{t}' if null else f'set{t}', [x.i('i')] + ([] if null else [x.i('r')]))
        return a[0], dump(rt, inst, 0), dump(rt, inst, 1)

    def check(x, obs):
        w = initial(x, sizes, nulls)
        i = z64(x.t('i'))
        ok = z3.ULT(i, sizes[t])
        new = (True, bvv(0, 32)) if null else (False, x.t('r'))
        w[t] = [ite(i == k, new, e) for k, e in enumerate(w[t])]
        return [('traps exactly outside', ok == z3.BoolVal(obs[0] == 'ret'))] + \
            table_is(obs[1], w[0], 'table 0') + table_is(obs[2], w[1], 'table 1')
    kw = {'i': 32} if null else {'i': 32, 'r': 32}
    return Case(f'table.set{t}' + ('.null' if null else ''), inputs_for(sizes, nulls, **kw), run, check,
                expect=('ret', 'trap'), bounds='table.set: every index, value (null included) and content')


def fill_case(t, sizes, nulls, null):
    base = tabmod(*sizes).build()

    def run(x):
        rt, inst = x.instance(base)
        setup(x, rt, inst, sizes, nulls)
        a = x.attempt(rt.invocate, inst, ('fillnull' if null else 'fill') + str(t),
                      [x.i('d'), x.i('n')] if null else [x.i('d'), x.i('r'), x.i('n')])
        return a[0], dump(rt, inst, 0), dump(rt, inst, 1)

    def check(x, obs):
        w = initial(x, sizes, nulls)
        d, n = z64(x.t('d')), z64(x.t('n'))
        ok = z3.ULE(d + n, sizes[t])
        new = (True, bvv(0, 32)) if null else (False, x.t('r'))
        w[t] = [ite(z3.And(ok, z3.ULE(d, k), z3.UGT(d + n, k)), new, e) for k, e in enumerate(w[t])]
        return [('traps exactly outside', ok == z3.BoolVal(obs[0] == 'ret'))] + \
            table_is(obs[1], w[0], 'table 0') + table_is(obs[2], w[1], 'table 1')
    kw = dict(d=32, n=32) if null else dict(d=32, n=32, r=32)
    return Case(f'table.fill{t}' + ('.null' if null else ''), inputs_for(sizes, nulls, **kw), run, check,
                expect=('ret', 'trap'), bounds='table.fill: every start, length, value and content')


def copy_case(t, u, sizes, nulls):
    base = tabmod(*sizes).build()

    def run(x):
        rt, inst = x.instance(base)
        setup(x, rt, inst, sizes, nulls)
        a = x.attempt(rt.invocate, inst, f'copy{t}{u}', [x.i('d'), x.i('s'), x.i('n')])
        return a[0], dump(rt, inst, 0), dump(rt, inst, 1)

    def check(x, obs):
        w = initial(x, sizes, nulls)
        old = [list(l) for l in w]
        d, s, n = z64(x.t('d')), z64(x.t('s')), z64(x.t('n'))
        ok = z3.And(z3.ULE(d + n, sizes[t]), z3.ULE(s + n, sizes[u]))
        w[t] = [ite(z3.And(ok, z3.ULE(d, k), z3.UGT(d + n, k)), at(old[u], s + k - d), e) for k, e in enumerate(w[t])]
        return [('traps exactly outside', ok == z3.BoolVal(obs[0] == 'ret'))] + \
            table_is(obs[1], w[0], 'table 0') + table_is(obs[2], w[1], 'table 1')
    return Case(f'table.copy{t}{u}', inputs_for(sizes, nulls, d=32, s=32, n=32), run, check, expect=('ret', 'trap'),
                max_paths=4000, seconds=150,
                bounds='table.copy within and between tables: every operand triple and content')


def grow_case(name, bounded, small, mx=None, null=False, twice=False, pin=None):
    """Grow table 0 of symbolic minimum 0..2 and symbolic maximum; increments up to `small` or failing ones."""
    p = Patch()
    raw = (b'\1' if bounded else b'\0') + p.hole(5) + (p.hole(5) if bounded else b'')
    m = tabmod(0, 2, raw0=raw)
    m.func([I32], [I32], b'\xd0\x6f' + wb.lget(0) + wb.fc(15) + b'\0', export='grownull')
    p.seal(m.build())
    inputs = {'n': 32, 'k': 32, 'r': 32, 'i': 32}
    if bounded:
        inputs['m'] = 32
    if twice:
        inputs['k2'] = 32

    def run(x):
        x.assume(z3.ULE(x.t('n'), 2))
        if bounded:
            x.assume(z3.ULE(x.t('n'), x.t('m')))
            if mx is not None:
                x.assume(x.t('m') == mx)
        mxt = z64(x.t('m')) if bounded else bvv(0xffffffff, 64)
        size = z64(x.t('n'))
        for d in ('k', 'k2')[:2 if twice else 1]:
            k = z64(x.t(d))
            if pin is not None:
                x.assume(k == pin)
            else:
                x.assume(z3.Or(z3.ULE(k, small), z3.UGT(k + 2 * small, 0xffffffff), z3.UGT(k, 1024),
                               z3.UGT(size + k, mxt)))
        if pin is not None:     # a window of entries: the start, the end and everything beyond
            x.assume(z3.Or(z3.ULT(x.t('i'), 3), z3.UGE(x.t('i'), pin - 1)))
        n = x.pick('n')
        rt, inst = x.instance(p.fill(x, leb5(x, n), *([leb5(x, 'm')] if bounded else [])))
        for j in range(n):
            rt.invocate(inst, 'set0', [j, 100 + j])
        g = [pin if pin is not None else x.i('k')] + ([x.i('k2')] if twice else [])
        res = []
        for e in g:
            res.append(rt.invocate(inst, 'grownull', [e])[0] if null else rt.invocate(inst, 'grow0', [x.i('r'), e])[0])
        res.append(rt.invocate(inst, 'size0', [])[0])
        res.append(rt.invocate(inst, 'size1', [])[0])
        a = x.attempt(rt.invocate, inst, 'isnull0', [x.i('i')])
        if a[0] == 'ret':
            isn = a[1][0]
            return 'ret', res, None if isn else rt.invocate(inst, 'get0', [x.i('i')])[0]
        return 'trap', res, None

    def check(x, obs):
        size = zext(x.t('n'), 40)
        mxt = zext(x.t('m'), 40) if bounded else bvv(0xffffffff, 40)
        out = []
        for j, d in enumerate(('k', 'k2')[:2 if twice else 1]):
            r = tt(obs[1][j], 32)
            new = size + zext(x.t(d), 40)
            success, fail = r == z3.Extract(31, 0, size), r == bvv(-1, 32)
            out.append((f'grow {j}: old size or -1', z3.And(z3.Or(success, fail), eqv(obs[1][j], r, True))))
            out.append((f'grow {j}: fails beyond the maximum', z3.Implies(z3.UGT(new, mxt), fail)))
            out.append((f'grow {j}: succeeds within the limits',
                        z3.Implies(z3.And(z3.ULE(new, mxt), z3.ULE(new, 1024)), success)))
            size = z3.If(z3.And(success, z3.Not(fail)), new, size)
        out.append(('table.size', eqv(obs[1][-2], z3.Extract(31, 0, size), True)))
        out.append(('the other table', eqv(obs[1][-1], bvv(2, 32), True)))
        i = zext(x.t('i'), 40)
        if obs[0] == 'trap':
            return out + [('entries below the size exist', z3.UGE(i, size))]
        out.append(('no entries beyond the size', z3.ULT(i, size)))
        want = ite(z3.ULT(i, zext(x.t('n'), 40)), (False, z3.Extract(31, 0, i) + 100),
                   (True, bvv(0, 32)) if null else (False, x.t('r')))
        out.append(('entry', slot_is(obs[2], want)))
        return out
    return Case(f'table.grow.{name}', inputs, run, check, expect=('ret', 'trap') if mx != 0 else ('trap',), seconds=150,
                interesting={'k': [pin]} if pin is not None else {},
                bounds=f'table.grow: minimum 0..2, every maximum; increments 0..{small} and all that must fail'
                if pin is None else f'table.grow: increment {pin}')


# -- function tables --------------------------------------------------------------------------------------------------
KINDS = [  # (params, results, body): all total, distinguishable results
    ([I32], [I32], wb.lget(0) + wb.i32c(1) + b'\x6a'),
    ([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a'),
    ([I32], [wb.I64], wb.lget(0) + b'\xad'),
    ([wb.I64], [I32], wb.lget(0) + b'\xa7'),
    ([I32, I32], [I32], wb.lget(0) + wb.lget(1) + b'\x6b'),
    ([I32], [], b''),
    ([], [I32], wb.i32c(7)),
    ([I32, wb.I64], [I32], wb.lget(0)),
    ([wb.I64, I32], [I32], wb.lget(1)),
    ([I32], [I32, I32], wb.lget(0) + wb.i32c(9)),
    ([wb.F32], [I32], wb.lget(0) + b'\xbc'),
]


def indirect_case(tab):
    """call_indirect through table `tab` (size 4: slots picked among null and all KINDS, host included)."""
    m = wb.Mod()
    # the same signature under two type indices: equality is structural
    m.types.append(wb.functype([I32], [I32]))
    for a, r, _ in KINDS:
        t = wb.functype(a, r)
        m.types.append(t)
    h = m.import_func('e', 'h', [I32], [I32])
    m.table(FN, 4 if tab == 0 else 2)
    m.table(FN, 4 if tab == 1 else 2)
    fs = []
    for a, r, b in KINDS:
        # every function counts its activations
        fs.append(m.func(a, r, b'\x23\0\x41\1\x6a\x24\0' + b))
    m.glob(I32, 1, wb.i32c(0), export='ran')
    m.elem(b'\3\0' + wb.vec([wb.uleb(f) for f in fs + [h]]))
    for k, f in enumerate(fs + [h]):
        m.func([I32], [], wb.lget(0) + b'\xd2' + wb.uleb(f) + b'\x26' + bytes([tab]), export=f'put{k}')
    for k, (a, r, _) in enumerate(KINDS):
        # arguments: i32 p, i64 q
        args = b''.join({I32: wb.lget(0 if i == 0 or a[0] != I32 else 1), wb.I64: wb.lget(2), wb.F32: wb.lget(0) + b'\xbe'}[t]
                        for i, t in enumerate(a))
        m.func([I32, I32, wb.I64, I32], r, args + wb.lget(3) + b'\x11' + wb.uleb(k + 1) + bytes([tab]), export=f'call{k}')
    m.func([I32, I32, wb.I64, I32], [I32], wb.lget(0) + wb.lget(3) + b'\x11\x00' + bytes([tab]), export='callalt')
    base = m.build()
    H = len(KINDS)

    def results(k, p, p2, q):
        return [[p + 1], [p + 2], [zext(p, 64)], [z3.Extract(31, 0, q)], [p - p2], [], [bvv(7, 32)], [p], [p],
                [p, bvv(9, 32)], [p], [p ^ 0x55]][k]

    def make(kind, slots):
        exp = 'callalt' if kind is None else f'call{kind}'

        def run(x):
            def imp(rt):
                V = x.pw.core.ValType
                return {'e': {'h': rt.allocate_func_host(x.pw.core.FuncType([V.i32()], [V.i32()]),
                                                         lambda mach, a: [a[0] ^ 0x55])}}
            rt, inst = x.instance(base, imp)
            for j, s in enumerate(slots):
                if s is not None:
                    rt.invocate(inst, f'put{s}', [j])
            a = x.attempt(rt.invocate, inst, exp, [x.i('p'), x.i('p2'), x.i('q'), x.i('i')])
            return tuple(a) + (rt.exported_global(inst, 'ran').data.into_i32(),)

        def check(x, obs):
            i, p, p2, q = (x.t(k) for k in ('i', 'p', 'p2', 'q'))
            want = (KINDS[0] if kind is None else KINDS[kind])[:2]
            oks = []
            ran = [z3.And(i == j, z3.BoolVal(s != H)) for j, s in enumerate(slots) if s is not None and
                   (KINDS[0][:2] if s == H else KINDS[s][:2]) == want]
            out = [('nothing else runs', eqv(obs[-1], z3.If(z3.Or(ran), bvv(1, 32), bvv(0, 32)), True))]
            for j, s in enumerate(slots):
                if s is None:
                    continue
                sig = KINDS[0][:2] if s == H else KINDS[s][:2]
                if sig != want:
                    continue
                oks.append(i == j)
                if obs[0] == 'ret':
                    w = results(s, p, p2, q)
                    e = z3.And([eqv(o, v, True) for o, v in zip(obs[1], w)]) if len(w) == len(obs[1]) else F
                    out.append((f'result of entry {j}', z3.Implies(i == j, e)))
            ok = z3.Or(oks)
            return out + [('calls exactly matching non-null entries', ok == z3.BoolVal(obs[0] == 'ret'))]
        return Case(f'call_indirect{tab}.{exp}.{"-".join("n" if s is None else str(s) for s in slots)}',
                    {'p': 32, 'p2': 32, 'q': 64, 'i': 32}, run, check,
                    expect=('ret', 'trap'), bounds='call_indirect: every index and argument, every declared signature '
                    'against entries of every other signature, null entries, host functions')
    out = []
    allk = list(range(H + 1))
    for kind in [None] + list(range(len(KINDS))):
        k = kind or 0
        others = [o for o in allk if o != k and (KINDS[o][:2] if o < H else KINDS[0][:2]) != KINDS[k][:2]]
        # every other signature meets this one in some slot
        for g in range(0, len(others), 2):
            pair = others[g:g + 2]
            slots = [pair[0], None, k, pair[-1]]
            out.append(make(kind, slots))
        if kind is None or kind == 0:
            out.append(make(kind, [H, 1, None, 0]))
            out.append(make(kind, [None, None, H, None]))
    return out


def init_case(nseg, drop, tab=0):
    """table.init of a function segment with a null in it, then drop; other segments unaffected."""
    m = wb.Mod()
    sizes = (4, 3)
    m.table(FN, sizes[0])
    m.table(FN, sizes[1])
    fs = [m.func([], [I32], wb.i32c(10 + k)) for k in range(6)]
    items = [b'\xd2' + wb.uleb(fs[k]) + wb.END if k != 1 else b'\xd0\x70' + wb.END for k in range(nseg)]
    m.elem(b'\5\x70' + wb.vec([b'\xd2' + wb.uleb(fs[5]) + wb.END]))
    m.elem(b'\5\x70' + wb.vec(items))
    m.elem_passive([fs[4], fs[5]])
    m.elem(b'\3\0' + wb.vec([wb.uleb(f) for f in fs]))
    for t in (0, 1):
        m.func([I32], [I32], wb.lget(0) + b'\x25' + bytes([t]) + b'\xd1', export=f'isnull{t}')
        m.func([], [I32], wb.fc(16) + bytes([t]), export=f'size{t}')
        m.func([I32], [I32], wb.lget(0) + b'\x11' + wb.uleb(m.type([], [I32])) + bytes([t]), export=f'get{t}')
        m.func([I32, I32], [], wb.lget(0) + b'\xd2' + wb.uleb(fs[4]) + wb.lget(1) + wb.fc(17) + bytes([t]),
               export=f'fill{t}')
        for s in (0, 1, 2):
            m.func([I32] * 3, [], wb.lget(0) + wb.lget(1) + wb.lget(2) + wb.fc(12) + bytes([s, t]), export=f'init{s}{t}')
    m.func([], [], wb.fc(13) + b'\1', export='drop')
    base = m.build()

    def run(x):
        rt, inst = x.instance(base)
        for t in (0, 1):
            rt.invocate(inst, f'fill{t}', [1, sizes[t] - 2])
        if drop:
            rt.invocate(inst, 'drop', [])
            rt.invocate(inst, 'drop', [])
        a = x.attempt(rt.invocate, inst, f'init1{tab}', [x.i('d'), x.i('s'), x.i('n')])
        r = (a[0], dump(rt, inst, 0), dump(rt, inst, 1))
        b = x.attempt(rt.invocate, inst, 'init20', [0, 0, 2])
        return r + (b[0], dump(rt, inst, 0)[:2])

    def check(x, obs):
        d, s, n = (z64(x.t(k)) for k in 'dsn')
        have = 0 if drop else nseg
        ok = z3.And(z3.ULE(s + n, have), z3.ULE(d + n, sizes[tab]))
        seg = [(k == 1, bvv(10 + k, 32)) for k in range(have)]
        w = [[(True, bvv(0, 32))] + [(False, bvv(14, 32))] * (z - 2) + [(True, bvv(0, 32))] for z in sizes]
        w[tab] = [ite(z3.And(ok, z3.ULE(d, k), z3.UGT(d + n, k)), at(seg, s + k - d), e) for k, e in enumerate(w[tab])]
        return [('traps exactly outside', ok == z3.BoolVal(obs[0] == 'ret'))] + \
            table_is(obs[1], w[0], 'table 0') + table_is(obs[2], w[1], 'table 1') + \
            [('other segments are unaffected', z3.BoolVal(obs[3] == 'ret'))] + \
            table_is(obs[4], [(False, bvv(14, 32)), (False, bvv(15, 32))], 'other segment')
    return Case(f'table.init{tab}.len{nseg}' + ('.dropped' if drop else ''), {'d': 32, 's': 32, 'n': 32}, run, check,
                expect=('ret', 'trap'), bounds='table.init, elem.drop: every operand triple, segments of 0..4 entries',
                max_paths=4000)


def ref_case():
    """ref.func / ref.null / ref.is_null through locals, globals and select."""
    m = wb.Mod()
    m.table(FN, 1)
    f = [m.func([], [I32], wb.i32c(20 + k)) for k in range(3)]
    m.elem(b'\3\0' + wb.vec([wb.uleb(k) for k in f]))
    # c=0: null, c=1: f1, else f2; result is_null*1000 or the call result
    pick = b'\xd0\x70' + b'\xd2' + wb.uleb(f[1]) + wb.lget(0) + b'\x45' + b'\x1c\x01\x70'
    pick = pick + b'\xd2' + wb.uleb(f[2]) + wb.lget(0) + wb.i32c(2) + b'\x49' + b'\x1c\x01\x70'
    body = pick + wb.ltee(1) + b'\xd1\x04\x7f' + wb.i32c(1000) + b'\x05' + wb.i32c(0) + wb.lget(1) + b'\x26\0' + \
        wb.i32c(0) + b'\x11' + wb.uleb(m.type([], [I32])) + b'\0' + b'\x0b'
    m.func([I32], [I32], body, locals=[FN], export='f')
    # the default value of a reference local is null; is_null on externref argument is 0
    m.func([EX], [I32], wb.lget(1) + b'\xd1' + wb.lget(2) + b'\xd1\x6a' + wb.lget(0) + b'\xd1\x6a', locals=[EX, FN], export='g')
    base = m.build()

    def run(x):
        rt, inst = x.instance(base)
        return 'ret', rt.invocate(inst, 'f', [x.i('c')])[0], rt.invocate(inst, 'g', [x.i('r')])[0]

    def check(x, obs):
        c = x.t('c')
        return [('ref.func, ref.null, select', eqv(obs[1], z3.If(c == 0, bvv(1000, 32), z3.If(c == 1, bvv(21, 32),
                                                                                             bvv(22, 32))), True)),
                ('null locals', eqv(obs[2], bvv(2, 32), True))]
    return Case('ref', {'c': 32, 'r': 32}, run, check, bounds='ref.null, ref.func, ref.is_null, typed select')


def cases(tier):
    sz, nl = (4, 3), {(0, 2), (1, 0)}
    out = []
    for t in (0, 1):
        out += [get_case(t, sz, nl), set_case(t, sz, nl, False), set_case(t, sz, nl, True),
                fill_case(t, sz, nl, False), fill_case(t, sz, nl, True)]
        for u in (0, 1):
            out.append(copy_case(t, u, sz, nl))
    out += [grow_case('max', True, 3), grow_case('nomax', False, 3), grow_case('max.null', True, 2, null=True),
            grow_case('max0', True, 3, mx=0), grow_case('max.twice', True, 2, twice=True),
            grow_case('big', True, 0, pin=1022), grow_case('big1023', False, 0, pin=1023),
            grow_case('big1024', True, 0, mx=1024, pin=1024)]
    out += [init_case(k, False) for k in (0, 1, 3, 4)] + [init_case(3, True), init_case(4, False, 1)]
    out.append(ref_case())
    out += indirect_case(0) + (indirect_case(1) if tier != 'quick' else indirect_case(1)[:6])
    if tier != 'quick':
        sz, nl = (6, 6), {(0, 0), (1, 3), (1, 5)}
        for t in (0, 1):
            for c in (get_case(t, sz, nl), set_case(t, sz, nl, False), fill_case(t, sz, nl, False)):
                c.name += '.6'
                out.append(c)
            for u in (0, 1):
                c = copy_case(t, u, sz, nl)
                c.name += '.6'
                out.append(c)
        out += [grow_case('max8', True, 8), grow_case('nomax8', False, 8), grow_case('max4.twice', True, 4, twice=True)]
    return out
