"""C15: instantiation: initialisers, segments, start; repeated instantiation."""
import z3
from sx.harness import Case, eqv, eqbytes, tt, B
from sx.core import bvv, zext, SBytes
from sx import wb
from .util import Patch, leb5, sleb5, byte1, PAGE, z64
from .c14 import exports, outcome

ASSUMPTIONS = [
    'segment offsets: every 32-bit value (constant or imported global); segment contents arbitrary, lengths 0..6; prior '
    'contents of an imported memory arbitrary; tables of 5 entries',
    'up to 3 instantiations of one decoded module, with arbitrary writes in between',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
I32, I64, F32, F64, V128, FN, EX = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128, wb.FUNCREF, wb.EXTERNREF


def seg(off, b, kind='const'):
    return b'\0' + off + wb.END + wb.uleb(len(b)) + b


def i32g(x, rt, v, mut=0):
    V = x.pw.core
    return rt.allocate_global(V.GlobalType(V.ValType.i32(), mut), V.ValInst.from_i32(x.i(v)))


def byteterms(x, v, n):
    return [z3.Extract(8 * k + 7, 8 * k, x.t(v)) for k in range(n)]


# -- active data segments -----------------------------------------------------------------------------------------------
def data_case(n1, n2, imported, const):
    """Two active segments with arbitrary offsets and contents; the later one wins; an out-of-bounds one writes nothing."""
    size = PAGE
    m = wb.Mod()
    p = Patch()
    h = [p.hole(n1) if n1 else b'', p.hole(n2) if n2 else b''] + ([p.hole(5), p.hole(5)] if const else [])
    if not n1:
        p.holes.insert(0, b'')
    if not n2:
        p.holes.insert(1, b'')

    def build(hs):
        m = wb.Mod()
        if imported:
            m.import_mem('p', 'm', 1)
        if not const:
            m.import_global('p', 'o1', I32, 0)
            m.import_global('p', 'o2', I32, 0)
        if not imported:
            m.mem(1)
        m.export('m', 2, 0)
        offs = [b'\x41' + hs[2], b'\x41' + hs[3]] if const else [b'\x23\0', b'\x23\1']
        m.datas = [seg(offs[0], hs[0]), seg(offs[1], hs[1])]
        return m.build()
    p.make(build)

    def run(x):
        rt = x.pw.Runtime()
        V = x.pw.core
        ext = {}
        if imported:
            ext['m'] = rt.allocate_memory(V.MemType(V.Limits(1, 0)))
        if not const:
            ext['o1'], ext['o2'] = i32g(x, rt, 'o1'), i32g(x, rt, 'o2')
        rt.imports = {'p': ext}
        x.assume(z3.ULT(zext(x.t('j'), 32), size))
        if imported:
            mem = rt.machine.store.mems[0]
            mem.put(0, x.bytes('mem'))
        parts = [x.bytes('d1') if n1 else [], x.bytes('d2') if n2 else []]
        if const:
            parts += [sleb5(x, 'o1'), sleb5(x, 'o2')]
        o = x.attempt(rt.instance, x.module(p.fill(x, *parts)))
        mem = rt.machine.store.mems[0] if imported else rt.exported_memory(o[1], 'm') if o[0] == 'ret' else None
        return outcome(o, mem.get(x.u('j'), 1) if mem is not None else None)

    def check(x, obs):
        o1, o2, j = z64(x.t('o1')), z64(x.t('o2')), z64(x.t('j'))
        ok1, ok2 = z3.ULE(o1 + n1, size), z3.ULE(o2 + n2, size)
        old = x.memat('mem', x.t('j')) if imported else bvv(0, 8)
        out = [('succeeds iff both segments fit', z3.And(ok1, ok2) == B(obs[0] == 'ret'))]
        if obs[1] is None:
            return out
        v = byte1(obs[1])
        want = old
        for k in range(n1):
            want = z3.If(z3.And(ok1, j == o1 + k), byteterms(x, 'd1', n1)[k], want)
        for k in range(n2):
            want = z3.If(z3.And(ok1, ok2, j == o2 + k), byteterms(x, 'd2', n2)[k], want)
        return out + [('memory', v == want if v is not None else F)]
    inputs = {'o1': 32, 'o2': 32, 'j': 17}
    if n1:
        inputs['d1'] = 8 * n1
    if n2:
        inputs['d2'] = 8 * n2
    if imported:
        inputs['mem'] = ('mem', size)
    return Case(f'data.{n1}.{n2}.{"imported" if imported else "own"}.{"const" if const else "global"}', inputs, run, check,
                expect=('ret', 'trap'), bounds='two active data segments: every offset pair, every content')


def elem_case(kinds, const, tidx=0, na=2, nb=3):
    """Two active element segments (encodings `kinds`) at arbitrary offsets into a shared table of 5 entries."""
    n = 5
    prov = wb.Mod()
    prov.table(FN, n, export='t')
    fs = [prov.func([], [I32], wb.i32c(10 + k), export=f'f{k}') for k in range(n)]
    prov.table(FN, n + 4, export='u')
    prov.func([I32], [I32], wb.lget(0) + b'\x11' + wb.uleb(prov.type([], [I32])) + b'\0', export='c')
    prov.func([I32], [I32], wb.lget(0) + b'\x25\1\xd1', export='other')
    prov.func([I32], [I32], wb.lget(0) + b'\x25\0\xd1', export='null')
    prov.elem_active(wb.i32c(0), fs[:4])
    prov = prov.build()
    p = Patch()
    h = [p.hole(5), p.hole(5)] if const else []

    def build(hs):
        m = wb.Mod()
        for _ in range(tidx):
            m.import_table('p', 'u', FN, n + 4)
        m.import_table('p', 't', FN, n)
        if not const:
            m.import_global('p', 'o1', I32, 0)
            m.import_global('p', 'o2', I32, 0)
        a = [m.func([], [I32], wb.i32c(20 + k)) for k in range(na)]
        b = [m.func([], [I32], wb.i32c(30 + k)) for k in range(nb)]
        ti = bytes([tidx])
        for k, (kind, l) in enumerate(zip(kinds, (a, b))):
            off = (b'\x41' + hs[k] if const else b'\x23' + bytes([k])) + wb.END
            ex = [b'\xd2' + wb.uleb(f) + wb.END for f in l]
            ix = [wb.uleb(f) for f in l]
            m.elem({0: b'\0' + off + wb.vec(ix), 2: b'\2' + ti + off + b'\0' + wb.vec(ix), 4: b'\4' + off + wb.vec(ex),
                    6: b'\6' + ti + off + b'\x70' + wb.vec(ex), 40: b'\4' + off + wb.vec(ex[:1] + [b'\xd0\x70\x0b'] + ex[2:])}[kind])
        m.mem(1, export='m')
        m.data_active(wb.i32c(0), b'Z')
        return m.build()
    p.make(build)

    def run(x):
        rt = x.pw.Runtime()
        a = rt.instance(x.module(prov))
        ext = exports(a)
        if not const:
            ext['o1'], ext['o2'] = i32g(x, rt, 'o1'), i32g(x, rt, 'o2')
        rt.imports = {'p': ext}
        o = x.attempt(rt.instance, x.module(p.fill(x, *([sleb5(x, 'o1'), sleb5(x, 'o2')] if const else []))))
        nul = [rt.invocate(a, 'null', [j])[0] for j in range(n)]
        calls = [x.attempt(rt.invocate, a, 'c', [j]) for j in range(n)]
        other = all(B(rt.invocate(a, 'other', [j])[0] == 1).eq(T) for j in range(n + 4))
        return outcome(o, [-2 if not isinstance(k, int) else -1 if k else c[1][0] if c[0] == 'ret' else -3 for k, c in zip(nul, calls)], other)

    def check(x, obs):
        o1, o2 = z64(x.t('o1')), z64(x.t('o2'))
        ok1, ok2 = z3.ULE(o1 + na, n), z3.ULE(o2 + nb, n)
        out = [('succeeds iff both segments fit', z3.And(ok1, ok2) == B(obs[0] == 'ret')), ('other tables unchanged', B(obs[2]))]
        for j in range(n):
            want = bvv(10 + j if j < 4 else -1, 32)
            for k in range(na):
                want = z3.If(z3.And(ok1, o1 + k == j), bvv(-1 if kinds[0] == 40 and k == 1 else 20 + k, 32), want)
            for k in range(nb):
                want = z3.If(z3.And(ok1, ok2, o2 + k == j), bvv(-1 if kinds[1] == 40 and k == 1 else 30 + k, 32), want)
            out.append((f'table entry {j}', eqv(obs[1][j], want, True)))
        return out
    return Case(f'elem.{kinds[0]}.{kinds[1]}.{tidx}.{na}.{nb}.{"const" if const else "global"}', {'o1': 32, 'o2': 32}, run, check,
                expect=('ret', 'trap'), bounds='two active element segments: every offset pair, every encoding')


def many_case(nd, ne, big):
    """Many segments and globals, one long segment: all of them take effect, in order."""
    p = Patch()
    hs = [p.hole(2) for _ in range(nd)]

    def build(hs):
        m = wb.Mod()
        m.mem(1)
        m.table(FN, ne + 2)
        fs = [m.func([], [I32], wb.i32c(100 + k)) for k in range(3)]
        for k in range(ne):
            m.elem_active(wb.i32c(k), [fs[k % 3], fs[(k + 1) % 3]])
        m.data_active(wb.i32c(1000), bytes((k & 255) ^ 0x5a for k in range(big)))
        for k in range(nd):
            m.data_active(wb.i32c(k), hs[k])
        g = [m.glob(I32, 0, wb.i32c(k * 3)) for k in range(nd)]
        m.func([I32], [I32], wb.lget(0) + b'\x2d\0\0', export='byte')
        m.func([I32], [I32], wb.lget(0) + b'\x11' + wb.uleb(m.type([], [I32])) + b'\0', export='call')
        m.func([], [I32], wb.i32c(0) + b''.join(b'\x23' + wb.uleb(k) + b'\x6a' for k in g), export='sum')
        return m.build()
    p.make(build)

    def run(x):
        rt, inst = x.instance(p.fill(x, *[x.bytes(f'd{k}') for k in range(nd)]))
        out = [rt.invocate(inst, 'byte', [k])[0] for k in range(nd + 2)]
        x.assume(z3.ULT(zext(x.t('j'), 32), big + 1))
        j = rt.invocate(inst, 'byte', [x.u('j') + 1000])[0]
        return 'ret', out, j, [rt.invocate(inst, 'call', [k])[0] if k <= ne else 0 for k in range(ne + 1)], rt.invocate(inst, 'sum', [])[0]

    def check(x, obs):
        b = [byteterms(x, f'd{k}', 2) for k in range(nd)]
        out = [(f'byte {k}', eqv(o, zext(b[k][0] if k < nd else b[nd - 1][1] if k == nd else bvv(0, 8), 32), True))
               for k, o in enumerate(obs[1])]
        j = x.t('j')
        return out + [('long segment', eqv(obs[2], z3.If(z3.ULT(zext(j, 32), big), zext(z3.Extract(7, 0, j) ^ 0x5a, 32), bvv(0, 32)), True)),
                      ('table', z3.And([eqv(o, bvv(100 + k % 3, 32)) for k, o in enumerate(obs[3])])),
                      ('globals', eqv(obs[4], bvv(sum(3 * k for k in range(nd)), 32)))]
    return Case(f'many.{nd}.{ne}.{big}', dict({f'd{k}': 16 for k in range(nd)}, j=16), run, check,
                bounds='up to 40 (thorough: 150) segments of either kind, a segment of 700 bytes')


def order_case():
    """An out-of-bounds element segment stops instantiation before any data segment; an out-of-bounds data segment before start."""
    m = wb.Mod()
    m.import_func('p', 'h', [I32], [])
    m.import_mem('p', 'm', 1)
    m.import_table('p', 't', FN, 3)
    m.import_global('p', 'oe', I32, 0)
    m.import_global('p', 'od', I32, 0)
    f = m.func([], [I32], wb.i32c(1))
    # start: reports the byte the segment wrote and whether the table entry is set
    st = m.func([], [], wb.i32c(7) + b'\x2d\0\0' + b'\x10\0' + b'\x23\0\x25\0\xd1\x10\0')
    m.start = st
    m.elem(b'\0\x23\0\x0b' + wb.vec([wb.uleb(f)]))
    m.datas = [seg(wb.i32c(7), b'\x44'), seg(b'\x23\1', b'\x55')]
    img = m.build()

    def run(x):
        rt = x.pw.Runtime()
        V = x.pw.core
        log = []

        def host(mm, a):
            log.append(a[0])
            return []
        rt.imports = {'p': {'h': rt.allocate_func_host(V.FuncType([V.ValType.i32()], []), host),
                            'm': rt.allocate_memory(V.MemType(V.Limits(1, 0))),
                            't': rt.allocate_table(V.TableType(V.ValType.ref_func(), V.Limits(3, 0))),
                            'oe': i32g(x, rt, 'oe'), 'od': i32g(x, rt, 'od')}}
        o = x.attempt(rt.instance, x.module(img))
        return outcome(o, rt.machine.store.mems[0].get(7, 1), log)

    def check(x, obs):
        oke, okd = z3.ULT(x.t('oe'), 3), z3.ULT(x.t('od'), PAGE)
        seven = x.t('od') == 7
        b7 = byte1(obs[1])
        out = [('succeeds iff all fit', z3.And(oke, okd) == B(obs[0] == 'ret')),
               ('data after elements', b7 == z3.If(oke, z3.If(seven, bvv(0x55, 8), bvv(0x44, 8)), bvv(0, 8)))]
        if obs[0] == 'ret':
            out.append(('start once, after the segments', z3.And(eqv(obs[2][0], zext(b7, 32)), eqv(obs[2][1], bvv(0, 32)))
                        if len(obs[2]) == 2 else F))
        else:
            out.append(('no start', B(len(obs[2]) == 0)))
        return out
    return Case('order', {'oe': 32, 'od': 32}, run, check, expect=('ret', 'trap'), bounds='every pair of offsets')


# -- dropped and kept segments ------------------------------------------------------------------------------------------
def dropped_case():
    """memory.init / table.init with any (s, n) on active, passive and declarative segments after instantiation."""
    m = wb.Mod()
    m.mem(1, export='m')
    m.table(FN, 4)
    fs = [m.func([], [I32], wb.i32c(50 + k)) for k in range(3)]
    m.data_active(wb.i32c(100), b'abc')
    m.data_passive(b'def')
    m.datas.append(b'\2\0' + wb.i32c(200) + wb.END + b'\3ghi')
    m.elem_active(wb.i32c(0), fs)
    m.elem_passive(fs)
    m.elem(b'\3\0' + wb.vec([wb.uleb(f) for f in fs]))
    m.elem(b'\7\x70' + wb.vec([b'\xd2' + wb.uleb(f) + wb.END for f in fs]))
    m.elem(b'\5\x70' + wb.vec([b'\xd2' + wb.uleb(f) + wb.END for f in fs]))
    m.elem(b'\6\0' + wb.i32c(1) + wb.END + b'\x70' + wb.vec([b'\xd2' + wb.uleb(fs[0]) + wb.END]))
    nd, ne = 3, 6
    for k in range(nd):
        m.func([I32, I32], [I32], wb.i32c(0) + wb.lget(0) + wb.lget(1) + b'\xfc\x08' + bytes([k]) + b'\0' + wb.i32c(0) + b'\x28\0\0',
               export=f'd{k}')
    for k in range(ne):
        m.func([I32, I32], [], wb.i32c(0) + wb.lget(0) + wb.lget(1) + b'\xfc\x0c' + bytes([k]) + b'\0', export=f'e{k}')
    img = m.build()

    def run(x):
        rt, inst = x.instance(img)
        x.assume(z3.ULT(x.t('k'), nd + ne))
        k = x.pick('k')
        o = x.attempt(rt.invocate, inst, f'd{k}' if k < nd else f'e{k - nd}', [x.i('s'), x.i('n')])
        return outcome(o, k, o[1][0] if o[0] == 'ret' and k < nd else -1)

    def check(x, obs):
        k = obs[1]
        L = {1: 3, nd + 1: 3, nd + 4: 3}.get(k, 0)
        s, n = z64(x.t('s')), z64(x.t('n'))
        ok = z3.ULE(s + n, L)
        out = [('kept segments stay, others are empty', ok == B(obs[0] == 'ret'))]
        if obs[0] == 'ret' and k < nd:
            want = bvv(0, 32)
            for j in range(3):
                for o in range(3):
                    want = z3.If(z3.And(s == o, z3.UGT(n, j)) if o + j < 3 else F, want | (b'def'[(o + j) % 3] << 8 * j), want)
            out.append(('contents', eqv(obs[2], want, True)))
        return out
    return Case('dropped', {'k': 8, 's': 32, 'n': 32}, run, check, expect=('ret', 'trap'),
                bounds='every segment kind, every source offset and length')


# -- initialisers, start --------------------------------------------------------------------------------------------------
def init_case():
    """Globals initialised by imported globals of every type; funcref globals; offsets by imported globals."""
    m = wb.Mod()
    ts = [I32, I64, F32, F64, V128, EX]
    for k, t in enumerate(ts):
        m.import_global('p', f'g{k}', t, 0)
    m.import_func('p', 'h', [], [I32])
    m.table(FN, 4)
    n = len(ts)
    for k, t in enumerate(ts):
        m.glob(t, k & 1, b'\x23' + bytes([k]), export=f'd{k}')
    own = m.func([], [I32], wb.i32c(77))
    gf = m.glob(FN, 0, b'\xd2' + wb.uleb(own))
    gh = m.glob(FN, 0, b'\xd2\0')
    m.glob(FN, 1, b'\xd0\x70')
    call = b'\x11' + wb.uleb(m.type([], [I32])) + b'\0'
    m.func([], [I32, I32, I32], b''.join(wb.i32c(k) + b'\x23' + bytes([gf + k]) + b'\x26\0' for k in range(3)) + wb.i32c(0) + call +
           wb.i32c(1) + call + wb.i32c(2) + b'\x25\0\xd1', export='f')
    img = m.build()

    def run(x):
        rt = x.pw.Runtime()
        V = x.pw.core
        vals = [V.ValInst.from_i32(x.i('a')), V.ValInst.from_i64(x.i('b')), V.ValInst.from_f32_u32(x.u('c')),
                V.ValInst.from_f64_u64(x.u('d')), V.ValInst.from_v128(x.bytes('e')), V.ValInst.from_ref(V.ValType.ref_extern(), x.i('f'))]
        rt.imports = {'p': {f'g{k}': rt.allocate_global(V.GlobalType(v.type, 0), v) for k, v in enumerate(vals)}}
        rt.imports['p']['h'] = rt.allocate_func_host(V.FuncType([], [V.ValType.i32()]), lambda mm, a: [88])
        inst = rt.instance(x.module(img))
        g = [rt.exported_global(inst, f'd{k}') for k in range(n)]
        return 'ret', rt.invocate(inst, 'f', []), [e.data.into_v128() for e in g[:5]], g[5].data.into_ref(), [e.mut for e in g], \
            [e.data.type.data for e in g]

    def check(x, obs):
        ws = dict(zip('abcde', (4, 8, 4, 8, 16)))
        out = [(f'global {v}', eqbytes(b, byteterms(x, v, ws[v]) + [0] * (16 - ws[v]))) for v, b in zip('abcde', obs[2])]
        return out + [('external reference', eqv(obs[3], x.t('f'), True)), ('types', B(obs[4] == [0, 1] * 3 and obs[5] == ts)),
                      ('function references', z3.And([eqv(a, bvv(w, 32)) for a, w in zip(obs[1], (77, 88, 1))]))]
    return Case('initialisers', dict(a=32, b=64, c=32, d=64, e=128, f=32), run, check,
                bounds='globals initialised from imported globals of every type, every value')


def start_case(kind):
    """The start function runs exactly once per instantiation; a trap in it makes instantiation fail."""
    m = wb.Mod()
    h = m.import_func('p', 'h', [], [])
    m.import_global('p', 'g', I32, 1)
    m.import_global('p', 'a', I32, 0)
    f = m.func([], [], b'\x23\0' + wb.i32c(1) + b'\x6a\x24\0\x10\0' + b'\x23\1\x04\x40\0\x0b')
    w = m.func([], [], b'\x02\x40' + wb.call(f) + b'\x0b', locals=[I64])
    m.func([], [I32], b'\x23\0', export='get')
    m.start = {'host': h, 'own': f, 'nested': w}[kind]
    img = m.build()

    def run(x):
        rt = x.pw.Runtime()
        V = x.pw.core
        log = []
        rt.imports = {'p': {'h': rt.allocate_func_host(V.FuncType([], []), lambda mm, a: log.append(1) or []),
                            'g': i32g(x, rt, 'g', 1), 'a': i32g(x, rt, 'a')}}
        d = x.module(img)
        o = x.attempt(rt.instance, d)
        g1 = rt.machine.store.glob[0].data.into_i32()
        r1 = rt.invocate(o[1], 'get', [])[0] if o[0] == 'ret' else 0
        o2 = x.attempt(rt.instance, d)
        return outcome(o, g1, r1, len(log), o2[0] == 'ret', rt.machine.store.glob[0].data.into_i32())

    def check(x, obs):
        g, a = x.t('g'), x.t('a')
        if kind == 'host':
            return [('runs', B(obs[0] == 'ret' and obs[3] == 2 and obs[4])), ('global', eqv(obs[5], g, True))]
        ok = a == 0
        out = [('fails iff the start function traps', ok == B(obs[0] == 'ret')), ('again', ok == B(obs[4])),
               ('once', eqv(obs[1], g + 1, True)), ('twice', eqv(obs[5], g + 2, True)), ('host calls', B(obs[3] == 2))]
        if obs[0] == 'ret':
            out.append(('after', eqv(obs[2], g + 1, True)))
        return out
    return Case(f'start.{kind}', {'g': 32, 'a': 32}, run, check, expect=('ret',) if kind == 'host' else ('ret', 'trap'),
                bounds='every initial global value; start functions that trap or not')


# -- repeated instantiation ---------------------------------------------------------------------------------------------
def again_case(n, same_rt):
    """The same decoded module instantiated n times; between instantiations every kind of state of the previous instance
    is changed by a symbolically chosen operation.  Each instance starts out the same."""
    m = wb.Mod()
    p = Patch()
    hs = [p.hole(4), p.hole(3), p.hole(5)]
    m.mem(1, 3, export='m')
    m.table(FN, 3, 9)
    m.glob(I32, 1, b'\x41' + hs[2], export='g')
    m.glob(V128, 1, b'\xfd\x0c' + bytes(16))
    fs = [m.func([], [I32], wb.i32c(40 + k)) for k in range(3)]
    m.data_active(wb.i32c(8), hs[0])
    m.data_passive(hs[1])
    m.elem_active(wb.i32c(0), fs[:2])
    m.elem_passive(fs)
    call = b'\x11' + wb.uleb(m.type([], [I32])) + b'\0'
    ops = [b'', b'\xfc\x09\1', b'\xfc\x0d\1', wb.i32c(8) + wb.lget(0) + b'\x36\0\0', wb.lget(0) + b'\x24\0',
           wb.i32c(0) + b'\xd0\x70\x26\0', wb.i32c(1) + b'\x40\0\x1a', b'\xd0\x70' + wb.i32c(2) + b'\xfc\x0f\0\x1a',
           b'\xfc\x09\0\xfc\x0d\0', b'\x23\1' + wb.lget(0) + b'\xfd\x1c\0\x24\1']
    for k, o in enumerate(ops):
        m.func([I32], [], o, export=f'o{k}')
    probe = wb.i32c(8) + b'\x28\0\0' + b'\x23\0' + b'\x3f\0' + b'\xfc\x10\0' + wb.i32c(0) + call + wb.i32c(1) + call + \
        wb.i32c(2) + b'\x25\0\xd1' + wb.i32c(0) + wb.i32c(0) + wb.i32c(3) + b'\xfc\x08\1\0' + wb.i32c(0) + b'\x28\0\0' + \
        wb.i32c(0) + wb.i32c(2) + wb.i32c(1) + b'\xfc\x0c\1\0' + wb.i32c(0) + call + b'\x23\1\xfd\x1b\0'
    m.func([], [I32] * 10, probe, export='p')
    p.seal(m.build())

    def run(x):
        d = x.module(p.fill(x, x.bytes('d'), x.bytes('e'), sleb5(x, 'g')))
        rt = x.pw.Runtime()
        out = []
        for k in range(n):
            inst = rt.instance(d)
            if k == n - 1:
                out = x.attempt(rt.invocate, inst, 'p', [])
                break
            x.assume(z3.ULT(x.t(f'o{k}'), len(ops)))
            o = x.pick(f'o{k}')
            rt.invocate(inst, f'o{o}', [x.i('v')])
            if not same_rt:
                rt = x.pw.Runtime()
        return out

    def check(x, obs):
        if obs[0] != 'ret':
            return [('the next instance works', F)]
        d, e, g = x.t('d'), x.t('e'), x.t('g')
        want = [d, g, bvv(1, 32), bvv(3, 32), bvv(40, 32), bvv(41, 32), bvv(1, 32), zext(e, 32), bvv(42, 32), bvv(0, 32)]
        return [(f'initial state {k}', eqv(o, w, True)) for k, (o, w) in enumerate(zip(obs[1], want))] + \
            [('results', B(len(obs[1]) == 10))]
    inputs = {'d': 32, 'e': 24, 'g': 32, 'v': 32}
    for k in range(n - 1):
        inputs[f'o{k}'] = 8
    return Case(f'again.{n}.{"same" if same_rt else "other"}', inputs, run, check,
                bounds='repeated instantiation of one decoded module after changes through earlier instances')


def failed_case():
    """Instantiation fails on a segment; the same decoded module instantiates once the environment allows it."""
    m = wb.Mod()
    m.import_mem('p', 'm', 1)
    m.import_global('p', 'o', I32, 0)
    m.datas = [seg(wb.i32c(3), b'abc'), seg(b'\x23\0', b'xyz')]
    m.func([], [I32], wb.i32c(5) + b'\x28\0\0', export='f')
    img = m.build()

    def run(x):
        x.assume(z3.UGT(x.t('o'), PAGE - 3))
        rt = x.pw.Runtime()
        V = x.pw.core
        d = x.module(img)
        good = rt.allocate_global(V.GlobalType(V.ValType.i32(), 0), V.ValInst.from_i32(6))
        mem = rt.allocate_memory(V.MemType(V.Limits(1, 0)))
        rt.imports = {'p': {'m': mem, 'o': i32g(x, rt, 'o')}}
        a = x.attempt(rt.instance, d)
        b0 = rt.machine.store.mems[0].get(0, 12)
        rt.imports = {'p': {'m': rt.allocate_memory(V.MemType(V.Limits(1, 0))), 'o': good}}
        b = x.attempt(rt.instance, d)
        return ('trap' if a[0] == 'ret' else 'ret'), b0, x.attempt(rt.invocate, b[1], 'f', []) if b[0] == 'ret' else ('trap',), rt.machine.store.mems[1].get(0, 12)

    def check(x, obs):
        return [('the first fails', B(obs[0] == 'ret')),
                ('segments before it are written, it is not', eqbytes(obs[1], list(b'\0\0\0abc\0\0\0\0\0\0'))),
                ('the second succeeds', eqbytes(obs[3], list(b'\0\0\0abcxyz\0\0\0'))),
                ('and runs', eqv(obs[2][1][0], bvv(int.from_bytes(b'cxyz', 'little'), 32), True) if obs[2][0] == 'ret' else F)]
    return Case('failed', {'o': 32}, run, check, expect=('ret',), bounds='every out-of-bounds offset')


def cases(tier):
    out = [init_case(), order_case(), dropped_case(), failed_case()] + [start_case(k) for k in ('host', 'own', 'nested')]
    for n1, n2 in ((1, 2), (3, 2), (0, 4), (2, 0), (6, 6)) if tier != 'quick' else ((3, 2), (0, 2), (2, 0)):
        for imp in (True, False):
            for const in (True, False):
                out.append(data_case(n1, n2, imp, const))
    for kinds in ((0, 2), (4, 6), (6, 0), (40, 4), (2, 40)):
        for const in (True, False):
            out.append(elem_case(kinds, const))
    for kinds, tidx, na, nb in (((2, 6), 1, 2, 3), ((6, 2), 2, 1, 2), ((0, 4), 0, 0, 1), ((4, 0), 0, 2, 0), ((2, 6), 1, 0, 0)):
        out.append(elem_case(kinds, False, tidx, na, nb))
    out.append(many_case(40, 40, 700))
    if tier != 'quick':
        out.append(many_case(150, 150, 3000))
    out += [again_case(2, True), again_case(2, False), again_case(3, True)]
    if tier != 'quick':
        out.append(again_case(4, True))
    return out
