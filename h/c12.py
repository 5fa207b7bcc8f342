"""C12: decoding recovers exactly what the binary encodes."""
import z3
from sx.harness import Case, eqv, eqbytes, tt, B, is_int
from sx import core, wb
from sx.core import bvv, zext, sext, SBytes, Sym
from sx.strs import SStr
from .util import Patch, leb5, sleb5, z64

ASSUMPTIONS = [
    'one rich module (every section, every kind of definition) plus one module per instruction with immediates',
    'every LEB128 of those modules padded to every width up to 5 (10 for 64-bit constants); symbolic immediates, '
    'names, segment contents and custom section payloads',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
I32, I64, F32, F64, V128, FN, EX = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128, wb.FUNCREF, wb.EXTERNREF


# -- structural equality of decoded modules (independent of attribute names) ----------------------------------------------
def flat(a):
    """A decoded structure as nested lists of integers, bytes and strings."""
    if a is None or isinstance(a, (Sym, int, str, bytes, bytearray, SBytes, SStr, float)):
        return a
    if isinstance(a, (list, tuple)):
        return [flat(e) for e in a]
    if isinstance(a, dict):
        return [[flat(k), flat(a[k])] for k in a]
    if hasattr(a, '__dict__') and not isinstance(a, type):
        return [type(a).__name__] + [[k, flat(v)] for k, v in vars(a).items()]
    raise core.Unsupported(f'decoded {type(a).__name__}')


def same(a, b):
    """z3 Bool: two flattened structures are equal."""
    if isinstance(a, (bytes, bytearray)):
        a = SBytes.lift(a)
    if isinstance(b, (bytes, bytearray)):
        b = SBytes.lift(b)
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        if not isinstance(a, SBytes) or not isinstance(b, SBytes) or a.items is None or b.items is None or \
                len(a.items) != len(b.items):
            return F
        r = [core.bterm(p) == core.bterm(q) for p, q in zip(a.items, b.items)]
        return core.z_and(*r) if r else T
    if isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, str):
            a, b = b, a
        if not isinstance(b, (str, SStr)):
            return F
        return name_is(a, [bvv(ord(c), 32) for c in b] if isinstance(b, str) else
                       [bvv(c, 32) if isinstance(c, int) else zext(c, 32) for c in b.cs])
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
            return F
        r = [same(p, q) for p, q in zip(a, b)]
        r = [e for e in r if not z3.is_true(e)]
        return core.z_and(*r) if r else T
    if isinstance(a, Sym) or isinstance(b, Sym):
        return B(core.as_int(a) == core.as_int(b)) if is_int(a) and is_int(b) else F
    return z3.BoolVal(type(a) is type(b) and a == b)


def name_is(o, terms):
    cs = list(o.cs) if isinstance(o, SStr) else [ord(c) for c in o] if isinstance(o, str) else None
    if cs is None or len(cs) != len(terms):
        return F
    def wide(c):
        return bvv(c, 32) if isinstance(c, int) else zext(c, 32)
    return core.z_and(*[wide(c) == zext(t, 32) for c, t in zip(cs, terms)]) if cs else T


# -- a module with everything in it -----------------------------------------------------------------------------------
class Hook:
    """Overrides the width (or value) of the sel-th LEB128 the builder emits."""

    def __init__(self, sel=None, width=0, add=0, kinds=None):
        self.sel, self.width, self.add, self.kinds = sel, width, add, kinds
        self.n = 0
        self.seen = []

    def __call__(self, v, kind):
        if self.kinds is not None and kind not in self.kinds:
            return v, 0
        k = self.n
        self.n += 1
        self.seen.append((kind, v))
        if k == self.sel:
            return v + self.add, self.width
        return v, 0


def rich_build(holes, split=None, hook=None):
    """Build the rich module; holes: (data 6, v128 const 16, leb5 const 5) marker bytes."""
    wb.HOOK = hook
    try:
        m = wb.Mod()
        hi = m.import_func('env', 'h', [I32], [I32])
        gi = m.import_global('env', 'g', I64, 0)
        m.table(FN, 6, 9, export='t')
        m.table(EX, 1)
        m.mem(1, 2, export='mem')
        m.glob(I32, 1, wb.i32c(-5), export='gv')
        m.glob(I64, 0, b'\x23' + wb.uleb(gi), export='gc')
        m.glob(FN, 0, b'\xd0\x70')
        m.glob(F64, 0, b'\x44' + bytes(range(8)))
        t2 = m.type([I32, I64], [I64, I32])
        # control: block types (empty, value, index), br_table, nesting, if without else
        ctl = b'\x02\x40' + b'\x02\x40' + wb.lget(0) + b'\x0e' + wb.vec([wb.uleb(0), wb.uleb(1)]) + wb.uleb(1) + b'\x0b' + \
            wb.i32c(10) + b'\x0f' + b'\x0b' + wb.lget(0) + b'\x04\x40' + wb.i32c(20) + b'\x0f' + b'\x0b' + \
            wb.lget(0) + wb.i64c(-7) + b'\x02' + wb.sleb(t2, 'index') + b'\x1a\x1a' + wb.i64c(1) + wb.i32c(2) + b'\x0b' + \
            b'\x1a\xa7' + b'\x0c' + wb.uleb(0)
        f1 = m.func([I32], [I32], ctl, locals=[I64, I32, I32, V128], export='ctl')
        f2 = m.func([I32], [I32], b'\x41' + holes[2] + wb.lget(0) + b'\x6a' + wb.ltee(1) + b'\x24' + wb.uleb(1) +
                    b'\xfd' + wb.uleb(12, 'op') + holes[1] + b'\xfd' + wb.uleb(27, 'op') + b'\x03' + wb.lget(1) + b'\x6a',
                    locals=[(1, I32), (2, F64), (1, I32)], export='k')
        f3 = m.func([I32], [I32], wb.lget(0) + b'\x28' + wb.uleb(2, 'align') + wb.uleb(3, 'offset') +
                    wb.i32c(1) + b'\x45\x04\x7f' + wb.i32c(3) + b'\x05' + wb.lget(0) + b'\x0b\x6a' + wb.call(hi), export='ld')
        f4 = m.func([I32, I32], [I32], wb.lget(1) + wb.lget(0) + b'\x11' + wb.uleb(m.type([I32], [I32])) + wb.uleb(0) +
                    wb.i32c(0) + wb.i32c(0) + wb.i32c(2) + b'\xfc' + wb.uleb(8, 'op') + wb.uleb(1) + b'\0', export='ci')
        f5 = m.func([], [], wb.i32c(1) + b'\x24' + wb.uleb(1))
        m.export('k2', 0, f2)
        m.start = f5
        m.elem_active(wb.i32c(0), [f1, f2])
        m.elem(b'\2' + wb.uleb(0) + wb.i32c(2) + wb.END + b'\0' + wb.vec([wb.uleb(f3)]))
        m.elem(b'\4' + wb.i32c(3) + wb.END + wb.vec([b'\xd2' + wb.uleb(f3) + wb.END, b'\xd0\x70' + wb.END]))
        m.elem(b'\6' + wb.uleb(0) + wb.i32c(5) + wb.END + b'\x70' + wb.vec([b'\xd2' + wb.uleb(hi) + wb.END]))
        m.elem_passive([f1])
        m.elem(b'\5\x70' + wb.vec([b'\xd0\x70' + wb.END]))
        m.elem(b'\3\0' + wb.vec([wb.uleb(f4), wb.uleb(f5)]))
        m.elem(b'\7\x6f' + wb.vec([b'\xd0\x6f' + wb.END]))
        m.data_active(wb.i32c(3), holes[0])
        m.data_passive(b'pq')
        m.datas.append(b'\2' + wb.uleb(0) + wb.i32c(40) + wb.END + wb.uleb(3, 'data') + b'xyz')
        m.datacount = 3
        if split:
            secs = []
            for i, b in m.sections():
                secs.append(wb.section(i, b))
            return secs
        return m.build()
    finally:
        wb.HOOK = None


def rich(split=None, hook=None):
    p = Patch()
    holes = [p.hole(6), p.hole(16), p.hole(5)]
    img = rich_build(holes, split, hook)
    if split:
        img = split(img)
    p.seal(img)
    return p


RICH_IN = {'data': 48, 'vc': 128, 'kc': 32}


def fill(x, p, tail=()):
    return p.fill(x, x.bytes('data'), x.bytes('vc'), sleb5(x, 'kc'))


def pad_case(width, kinds):
    h = Hook(kinds=kinds)
    rich(hook=h)
    n = h.n

    def run(x):
        x.assume(z3.ULT(x.t('sel'), n))
        sel = x.pick('sel')
        a = x.module(fill(x, rich()))
        b = x.module(fill(x, rich(hook=Hook(sel, width, 0, kinds))))
        return 'ret', flat(a), flat(b)

    def check(x, obs):
        return [('padding a LEB128 changes nothing', same(obs[1], obs[2]))]
    return Case(f'padded.{"-".join(kinds)}.{width}', dict(RICH_IN, sel=8), run, check,
                bounds='every LEB128 of the rich module padded to every width: the decoded module is the same')


def custom_case(name, count, pad=0):
    """Custom sections between any two sections (symbolic position, name and payload): the module is the same."""
    nsec = len(rich_build([b'\x91' * 5 + b'\1', b'\x92' * 15 + b'\2', b'\x93' * 4 + b'\3'], True))

    def run(x):
        for k in range(count if count < 4 else 1):
            x.assume(z3.ULE(x.t(f'p{k}'), nsec))
        for b in range(3):
            x.assume(z3.ULT(z3.Extract(8 * b + 7, 8 * b, x.t('nm')), 128))
        pos = [x.pick(f'p{k}') for k in range(count if count < 4 else 1)]
        if count >= 4:
            pos = pos * count
        mark = Patch().hole(3)

        def place(secs):
            out = wb.MAGIC
            for j in range(len(secs) + 1):
                for k, q in enumerate(pos):
                    if q == j:
                        name_ = b'\x7e\x7e\x7e'
                        body = bytes([3]) + name_ + b'\x7d' * 4
                        out += b'\0' + wb.padto(wb.uleb0(len(body)), pad) + body
                if j < len(secs):
                    out += secs[j]
            return out
        p = rich(place)
        img = list(fill(x, p)) if not x.sym else fill(x, p).items
        # patch names and payloads
        sig = [3, 0x7e, 0x7e, 0x7e, 0x7d, 0x7d, 0x7d, 0x7d]
        nm, pl = x.bytes('nm'), x.bytes('pl')
        base = p.base
        i = 0
        img = list(img)
        new = list(nm.items if x.sym else nm) + list(pl.items if x.sym else pl)
        while True:
            i = base.find(bytes(sig), i)
            if i < 0:
                break
            img[i + 1:i + 8] = new
            i += 8
        b = SBytes.from_items(img) if x.sym else bytes(img)
        return 'ret', flat(x.module(fill(x, rich()))), flat(x.module(b))

    def check(x, obs):
        return [('custom sections change nothing', same(obs[1], obs[2]))]
    inputs = dict(RICH_IN, nm=24, pl=32)
    for k in range(count if count < 4 else 1):
        inputs[f'p{k}'] = 8
    return Case(f'custom.{name}', inputs, run, check, bounds='1, 2 or many custom sections at every position, every '
                'name and payload')


def behaviour_case():
    """The rich module behaves as encoded (canonical form; ties the structural checks to observable behaviour)."""
    p = rich()

    def run(x):
        V = x.pw.core

        def imp(rt):
            return {'env': {'h': rt.allocate_func_host(V.FuncType([V.ValType.i32()], [V.ValType.i32()]), lambda m, a: [a[0]]),
                            'g': rt.allocate_global(V.GlobalType(V.ValType.i64(), 0), V.ValInst.from_i64(x.i('g')))}}
        rt, inst = x.instance(fill(x, p), imp)
        out = [rt.exported_global(inst, 'gv').data.into_i32(), rt.exported_global(inst, 'gc').data.into_i64()]
        mem = rt.exported_memory(inst, 'mem')
        data = mem.get(0, 48)
        size = mem.size
        for n, a in (('ctl', [x.i('a')]), ('k', [x.i('a')]), ('k2', [x.i('a')]), ('ld', [0])):
            out.append(rt.invocate(inst, n, a)[0])
        tab = []
        for i in range(7):
            r = x.attempt(rt.invocate, inst, 'ci', [i, 0])
            tab.append(r[1][0] if r[0] == 'ret' else None)
        return 'ret', out, data, size, tab, mem.get(0, 3)

    def check(x, obs):
        a, kc = x.t('a'), x.t('kc')
        lane3 = z3.Extract(127, 96, x.t('vc'))
        d = [z3.Extract(8 * k + 7, 8 * k, x.t('data')) for k in range(6)]
        ld = z3.Concat(d[3], d[2], d[1], d[0]) + 0
        ctl = z3.If(a == 0, bvv(10, 32), bvv(20, 32))
        ctl0 = bvv(10, 32)
        out = [('mutable global', eqv(obs[1][0], bvv(1, 32), True)), ('imported initialiser', eqv(obs[1][1], x.t('g'), True)),
               ('control', eqv(obs[1][2], ctl, True)),
               ('constants', eqv(obs[1][3], kc + a + lane3, True)), ('second export', eqv(obs[1][4], kc + a + lane3, True)),
               ('load', eqv(obs[1][5], ld, True)),
               ('data', eqbytes(obs[2], [0, 0, 0] + d + [0] * 31 + list(b'xyz') + [0] * 5)), ('size', z3.BoolVal(obs[3] == 1)),
               ('memory.init', eqbytes(obs[5], [ord('p'), ord('q'), 0]))]
        # table: f1, f2, f3, f3, null, h
        pq = bvv(ord('p') | ord('q') << 8, 16)
        want = [ctl0, kc + lane3, None, None, 'null', bvv(0, 32), 'oob']
        for k, w in enumerate(want):
            o = obs[4][k]
            if w in ('null', 'oob') if isinstance(w, str) else False:
                out.append((f'entry {k}', z3.BoolVal(o is None)))
            elif w is not None:
                out.append((f'entry {k}', eqv(o, w, True)))
            else:
                out.append((f'entry {k}', z3.BoolVal(o is not None)))
        return out
    return Case('behaviour', dict(RICH_IN, g=64, a=32), run, check, bounds='the rich module runs as encoded')


# -- immediates ---------------------------------------------------------------------------------------------------------
def symleb(x, v, k, signed=False, bits=32):
    """The low 7*k (or `bits`) bits of input v as a k-byte LEB128; returns byte values."""
    o = x.i(v) if signed else x.u(v)
    out = []
    for j in range(k):
        b = (o >> (7 * j)) & 0x7f
        out.append(b | 0x80 if j < k - 1 else b)
    return out


def fits(x, v, k, signed, bits):
    t = x.t(v)
    n = 7 * k
    if n >= bits:
        return T
    return t == (sext if signed else zext)(z3.Extract(n - 1, 0, t), bits)


def const_case(bits, k):
    op, t = (b'\x41', I32) if bits == 32 else (b'\x42', I64)
    p = Patch()
    base = wb.single([], [t], op + p.hole(k))
    p.seal(base)

    def run(x):
        x.assume(fits(x, 'v', k, True, bits))
        out = x.call(p.fill(x, symleb(x, 'v', k, True, bits)), 'f', [])
        return out

    def check(x, obs):
        return [('constant', eqv(obs[1][0], x.t('v'), True) if obs[0] == 'ret' else F)]
    return Case(f'const.i{bits}.{k}', {'v': bits}, run, check, bounds='i32.const and i64.const of every width: every value')


def fconst_case():
    p = Patch()
    base = wb.single([], [I32, I64, V128, I32], b'\x43' + p.hole(4) + b'\xbc' + b'\x44' + p.hole(8) + b'\xbd' +
                     b'\xfd\x0c' + p.hole(16) + wb.i32c(5))
    p.seal(base)

    def run(x):
        return x.call(p.fill(x, x.bytes('f'), x.bytes('d'), x.bytes('v')), 'f', [])

    def check(x, obs):
        if obs[0] != 'ret':
            return [('runs', F)]
        return [('f32.const', eqv(obs[1][0], x.t('f'), True)), ('f64.const', eqv(obs[1][1], x.t('d'), True)),
                ('v128.const', eqbytes(obs[1][2], [z3.Extract(8 * k + 7, 8 * k, x.t('v')) for k in range(16)])),
                ('the next instruction', eqv(obs[1][3], bvv(5, 32), True))]
    return Case('const.float', {'f': 32, 'd': 64, 'v': 128}, run, check, bounds='f32, f64 and v128 constants: every bit pattern')


def memarg_case(ka, ko):
    p = Patch()
    m = wb.Mod()
    m.mem(1, export='m')
    ha, ho = p.hole(ka), p.hole(ko)
    m.func([], [I32], wb.i32c(0) + b'\x28' + ha + ho, export='f')
    p.seal(m.build())

    def run(x):
        x.assume(z3.ULE(x.t('a'), 2))
        x.assume(fits(x, 'o', ko, False, 32))
        rt, inst = x.instance(p.fill(x, symleb(x, 'a', ka), symleb(x, 'o', ko)))
        rt.exported_memory(inst, 'm').put(0, x.bytes('mem'))
        return x.attempt(rt.invocate, inst, 'f', [])

    def check(x, obs):
        o = z64(x.t('o'))
        ok = z3.ULE(o + 4, 65536)
        if obs[0] == 'trap':
            return [('in-range offsets load', z3.Not(ok))]
        w = z3.Concat(*[x.memat('mem', o + k) for k in (3, 2, 1, 0)])
        return [('out-of-range offsets trap', ok), ('offset', z3.Implies(ok, eqv(obs[1][0], w, True)))]
    return Case(f'memarg.{ka}.{ko}', {'a': 32, 'o': 32, 'mem': ('mem', 65536)}, run, check,
                expect=('ret', 'trap') if ko > 2 else ('ret',), bounds='alignment and offset immediates of every width: every value')


def index_cases():
    """Index immediates with every padding: executing shows which entity was named."""
    out = []

    def mod(make):
        def build(v, w):
            m = wb.Mod()
            for k in range(3):
                m.type([], [I32, I64, F32][k:k + 1])
            m.table(FN, 1)
            m.table(FN, 2)
            m.table(FN, 4)
            m.mem(1)
            gs = [m.glob(I32, 1, wb.i32c(50 + k)) for k in range(3)]
            fs = [m.func([], [I32], wb.i32c(60 + k)) for k in range(3)]
            m.func([], [I32], wb.i32c(0))
            m.elem(b'\3\0' + wb.vec([wb.uleb(f) for f in fs]))
            for t in range(3):
                m.elem_passive([fs[t]])
                m.data_passive(bytes([70 + t]))
                m.elem(b'\2' + wb.uleb(t) + wb.i32c(0) + wb.END + b'\0' + wb.vec([wb.uleb(fs[t])]))
            I = wb.padto(wb.uleb0(v), w)
            code, a, loc = make(m, I)
            m.func(a, [I32], code, locals=loc, export='f')
            return m.build()
        return build

    def calls(t):   # result of calling entry 0 of table t
        return wb.i32c(0) + b'\x11' + wb.uleb(0) + wb.uleb(t)

    z = wb.i32c(0)
    A = [I32, I32, I32]
    spec = {
        'local.get': (lambda m, I: (b'\x20' + I, A, []), lambda v, a: a[v]),
        'local.set': (lambda m, I: (wb.i32c(9) + b'\x21' + I + wb.lget(0) + wb.lget(1) + wb.i32c(7) + b'\x6c\x6a' +
                                    wb.lget(2) + wb.i32c(31) + b'\x6c\x6a', A, []),
                      lambda v, a: sum((bvv(9, 32) if v == k else a[k]) * [1, 7, 31][k] for k in range(3))),
        'local.tee': (lambda m, I: (wb.i32c(9) + b'\x22' + I + wb.lget(0) + b'\x6a' + wb.lget(1) + wb.i32c(7) + b'\x6c\x6a' +
                                    wb.lget(2) + wb.i32c(31) + b'\x6c\x6a', A, []),
                      lambda v, a: 9 + sum((bvv(9, 32) if v == k else a[k]) * [1, 7, 31][k] for k in range(3))),
        'global.get': (lambda m, I: (b'\x23' + I, [], []), lambda v, a: bvv(50 + v, 32)),
        'global.set': (lambda m, I: (wb.lget(0) + b'\x24' + I + b'\x23\0\x23\1' + wb.i32c(7) + b'\x6c\x6a\x23\2' + wb.i32c(31) +
                                     b'\x6c\x6a', A, []),
                       lambda v, a: sum((a[0] if v == k else bvv(50 + k, 32)) * [1, 7, 31][k] for k in range(3))),
        'call': (lambda m, I: (b'\x10' + I, [], []), lambda v, a: bvv(60 + v, 32)),
        'ref.func': (lambda m, I: (z + b'\xd2' + I + b'\x26\0' + calls(0), [], []), lambda v, a: bvv(60 + v, 32)),
        'call_indirect.table': (lambda m, I: (z + b'\x11\0' + I, [], []), lambda v, a: bvv(60 + v, 32)),
        'call_indirect.type': (lambda m, I: (z + b'\x11' + I + b'\1' + {0: b'', 1: b'\xa7', 2: b'\xbc'}.get(vof(I), b''), [], []),
                               lambda v, a: bvv(61, 32) if v == 0 else None),
        'table.get': (lambda m, I: (z + z + b'\x25' + I + b'\x26\0' + calls(0), [], []), lambda v, a: bvv(60 + v, 32)),
        'table.set': (lambda m, I: (z + b'\xd2' + wb.uleb(0) + b'\x26' + I + calls(2), [], []),
                      lambda v, a: bvv(60 if v == 2 else 62, 32)),
        'table.size': (lambda m, I: (b'\xfc\x10' + I, [], []), lambda v, a: bvv([1, 2, 4][v], 32)),
        'table.grow': (lambda m, I: (b'\xd0\x70' + wb.i32c(3) + b'\xfc\x0f' + I + b'\x1a\xfc\x10\0\xfc\x10\1' + wb.i32c(7) +
                                     b'\x6c\x6a\xfc\x10\2' + wb.i32c(31) + b'\x6c\x6a', [], []),
                       lambda v, a: bvv(sum(([1, 2, 4][k] + 3 * (v == k)) * [1, 7, 31][k] for k in range(3)), 32)),
        'table.fill': (lambda m, I: (z + b'\xd2' + wb.uleb(0) + wb.i32c(1) + b'\xfc\x11' + I + calls(2), [], []),
                       lambda v, a: bvv(60 if v == 2 else 62, 32)),
        'table.copy.dst': (lambda m, I: (z + z + wb.i32c(1) + b'\xfc\x0e' + I + b'\0' + calls(2), [], []),
                           lambda v, a: bvv(60 if v == 2 else 62, 32)),
        'table.copy.src': (lambda m, I: (z + z + wb.i32c(1) + b'\xfc\x0e\0' + I + calls(0), [], []),
                           lambda v, a: bvv(60 + v, 32)),
        'table.init.elem': (lambda m, I: (z + z + wb.i32c(1) + b'\xfc\x0c' + I + b'\2' + calls(2), [], []),
                            lambda v, a: None if v in (0, 2) else bvv(60, 32)),
        'table.init.table': (lambda m, I: (z + z + wb.i32c(1) + b'\xfc\x0c\1' + I + calls(2), [], []),
                             lambda v, a: bvv(60 if v == 2 else 62, 32)),
        'elem.drop': (lambda m, I: (b'\xfc\x0d' + I + z + z + wb.i32c(1) + b'\xfc\x0c\1\2' + calls(2), [], []),
                      lambda v, a: None if v == 1 else bvv(60, 32)),
        'memory.init': (lambda m, I: (z + z + wb.i32c(1) + b'\xfc\x08' + I + b'\0' + z + b'\x2d\0\0', [], []),
                        lambda v, a: bvv(70 + v, 32)),
        'data.drop': (lambda m, I: (b'\xfc\x09' + I + z + z + wb.i32c(1) + b'\xfc\x08\1\0' + z + b'\x2d\0\0', [], []),
                      lambda v, a: None if v == 1 else bvv(71, 32)),
        'br': (lambda m, I: (b'\x02\x7f\x02\x7f\x02\x7f' + wb.i32c(1) + b'\x0c' + I + b'\x0b' + wb.i32c(10) + b'\x6a\x0b' +
                             wb.i32c(100) + b'\x6a\x0b', [], []), lambda v, a: bvv([111, 101, 1][v], 32)),
        'br_if': (lambda m, I: (b'\x02\x7f\x02\x7f\x02\x7f' + wb.i32c(1) + wb.lget(0) + b'\x0d' + I + b'\x0b' + wb.i32c(10) +
                                b'\x6a\x0b' + wb.i32c(100) + b'\x6a\x0b', A, []),
                  lambda v, a: z3.If(a[0] == 0, bvv(111, 32), bvv([111, 101, 1][v], 32))),
        'br_table.first': (lambda m, I: (b'\x02\x7f\x02\x7f\x02\x7f' + wb.i32c(1) + wb.lget(0) + b'\x0e\1' + I + b'\0\x0b' +
                                         wb.i32c(10) + b'\x6a\x0b' + wb.i32c(100) + b'\x6a\x0b', A, []),
                           lambda v, a: z3.If(a[0] == 0, bvv([111, 101, 1][v], 32), bvv(111, 32))),
        'br_table.default': (lambda m, I: (b'\x02\x7f\x02\x7f\x02\x7f' + wb.i32c(1) + wb.lget(0) + b'\x0e\1\0' + I + b'\x0b' +
                                           wb.i32c(10) + b'\x6a\x0b' + wb.i32c(100) + b'\x6a\x0b', A, []),
                             lambda v, a: z3.If(a[0] == 0, bvv(111, 32), bvv([111, 101, 1][v], 32))),
    }

    def vof(I):
        return I[0] & 0x7f
    for name, (make, want) in spec.items():
        out.append(index_case(name, mod(make), want, call_type=name == 'call_indirect.type'))
    return out


def index_case(name, build, want, call_type=False):
    def run(x):
        x.assume(z3.ULE(x.t('v'), 2))
        x.assume(z3.ULE(x.t('w'), 4))
        v, w = x.pick('v'), x.pick('w')
        return x.call(build(v, w + 1), 'f', [x.i('a'), x.i('b'), x.i('c')][:nargs]) + (v,)

    nargs = 3 if name in ('local.get', 'local.set', 'local.tee', 'global.set', 'br_if', 'br_table.first', 'br_table.default') else 0

    def check(x, obs):
        w = want(obs[-1], [x.t('a'), x.t('b'), x.t('c')])
        if w is None:
            return [('a different entity: traps', z3.BoolVal(obs[0] == 'trap'))]
        return [('names the encoded entity', eqv(obs[1][0], w, True) if obs[0] == 'ret' else F)]
    return Case(f'index.{name}', {'v': 8, 'w': 8, 'a': 32, 'b': 32, 'c': 32}, run, check,
                bounds='every index immediate, values 0..2, padded to 1..5 bytes')


MEMOPS = list(range(0x28, 0x3f))
NAT = dict(zip(MEMOPS, [2, 3, 2, 3, 0, 0, 1, 1, 0, 0, 1, 1, 2, 2, 2, 3, 2, 3, 0, 1, 0, 1, 2]))
VMEM = {0: 4, 1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 0, 8: 1, 9: 2, 10: 3, 11: 4, 92: 2, 93: 3}
VLANEMEM = {84: (0, 16), 85: (1, 8), 86: (2, 4), 87: (3, 2), 88: (0, 16), 89: (1, 8), 90: (2, 4), 91: (3, 2)}
VLANE = {21: 16, 22: 16, 23: 16, 24: 8, 25: 8, 26: 8, 27: 4, 28: 4, 29: 2, 30: 2, 31: 4, 32: 4, 33: 2, 34: 2}


def all_immediates():
    """(name, opcode bytes, [immediate kinds]) of every instruction with immediates.
    kinds: ('u', limit) u32 below limit; 's32', 's64', ('raw', n) bytes; ('zero',) reserved; ('type',) value type"""
    out = []
    U = ('u', 1 << 32)
    for op in MEMOPS:
        out.append((f'{op:02x}', bytes([op]), [('u', NAT[op] + 1), U]))
    for n, a in VMEM.items():
        out.append((f'fd.{n}', wb.fd(n), [('u', a + 1), U]))
    for n, (a, l) in VLANEMEM.items():
        out.append((f'fd.{n}', wb.fd(n), [('u', a + 1), U, ('u8', l)]))
    for n, l in VLANE.items():
        out.append((f'fd.{n}', wb.fd(n), [('u8', l)]))
    out.append(('fd.12', wb.fd(12), [('raw', 16)]))
    out.append(('fd.13', wb.fd(13), [('u8', 32)] * 16))
    for op in (0x0c, 0x0d, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0xd2):
        out.append((f'{op:02x}', bytes([op]), [U]))
    out.append(('11', b'\x11', [U, U]))
    out.append(('0e', b'\x0e\3', [U, U, U, U]))
    out.append(('1c', b'\x1c\1', [('type',)]))
    out.append(('d0', b'\xd0', [('reftype',)]))
    out.append(('41', b'\x41', ['s32']))
    out.append(('42', b'\x42', ['s64']))
    out.append(('43', b'\x43', [('raw', 4)]))
    out.append(('44', b'\x44', [('raw', 8)]))
    out.append(('3f', b'\x3f', [('zero',)]))
    out.append(('40', b'\x40', [('zero',)]))
    out.append(('fc.8', wb.fc(8), [U, ('zero',)]))
    out.append(('fc.9', wb.fc(9), [U]))
    out.append(('fc.10', wb.fc(10), [('zero',), ('zero',)]))
    out.append(('fc.11', wb.fc(11), [('zero',)]))
    out.append(('fc.12', wb.fc(12), [U, U]))
    out.append(('fc.13', wb.fc(13), [U]))
    out.append(('fc.14', wb.fc(14), [U, U]))
    for n in (15, 16, 17):
        out.append((f'fc.{n}', wb.fc(n), [U]))
    return out


PLAIN = [0x00, 0x01, 0x0f, 0x1a, 0x1b, 0xd1] + list(range(0x45, 0xc5))
FCPLAIN = list(range(0, 8))
FDPLAIN = [n for n in range(14, 256) if n not in VLANE and n not in VLANEMEM and n not in VMEM and n not in
           (154, 162, 165, 166, 175, 176, 178, 179, 180, 187, 194, 197, 198, 207, 208, 210, 211, 212, 226, 238)]


def dead_module(op, holes):
    """f: the instruction sits in unreachable code; anything but exact consumption of its immediates derails the rest.
    g: a second function, to see that the rest of the section is intact."""
    m = wb.Mod()
    m.mem(1)
    body = b'\x02\x40\x0c\0' + op + b''.join(holes) + b'\0\x0b' + wb.i64c(123456789) + wb.lget(0) + b'\x7c'
    m.func([I64], [I64], body, export='f')
    m.func([], [I32], wb.i32c(99), export='g')
    return m.build()


def imm_case(name, op, kinds, w):
    """w: width of every LEB immediate."""
    p = Patch()
    sizes = []
    for k in kinds:
        sizes.append({'u': w, 'u8': 1, 'raw': k[1] if k[0] == 'raw' else 0, 'zero': 1, 'type': 1, 'reftype': 1}.get(k[0], 0)
                     if isinstance(k, tuple) else min(w, 5) if k == 's32' else 2 * w)
    holes = [p.hole(s) for s in sizes]
    p.make(lambda hs: dead_module(op, hs))
    inputs = {'q': 64}
    for j, (k, s) in enumerate(zip(kinds, sizes)):
        inputs[f'i{j}'] = 8 * s if isinstance(k, tuple) and k[0] == 'raw' else 64 if k == 's64' else 32

    def run(x):
        parts = []
        for j, (k, s) in enumerate(zip(kinds, sizes)):
            v = f'i{j}'
            t = x.t(v)
            if k in ('s32', 's64'):
                x.assume(fits(x, v, s, True, inputs[v]))
                parts.append(symleb(x, v, s, True, inputs[v]))
            elif k[0] == 'raw':
                parts.append(x.bytes(v).items if x.sym else list(x.bytes(v)))
            elif k[0] == 'zero':
                parts.append([0])
            elif k[0] in ('type', 'reftype'):
                x.assume(z3.Or([t == c for c in ((FN, EX) if k[0] == 'reftype' else (I32, I64, F32, F64, V128, FN, EX))]))
                parts.append([x.u(v)])
            else:
                if k[1] < 1 << 32:
                    x.assume(z3.ULT(t, k[1]))
                x.assume(fits(x, v, s, False, 32))
                parts.append(symleb(x, v, s))
        rt, inst = x.instance(p.fill(x, *parts))
        return x.attempt(rt.invocate, inst, 'f', [x.i('q')]) + x.attempt(rt.invocate, inst, 'g', [])

    def check(x, obs):
        if len(obs) != 4:
            return [('decodes and runs past the instruction', F)]
        return [('the code after the instruction', eqv(obs[1][0], x.t('q') + 123456789, True)),
                ('the next function', eqv(obs[3][0], bvv(99, 32), True))]
    return Case(f'imm.{name}.{w}', inputs, run, check, bounds='every instruction with immediates, every immediate value, '
                'LEB128 widths 1..5: exactly its bytes are consumed')


def plain_case(name, ops):
    """Instructions without immediates, opcode LEB padded: nothing else is consumed."""
    def run(x):
        x.assume(z3.ULT(x.t('sel'), len(ops)))
        x.assume(z3.ULT(x.t('w'), 4))
        k, w = x.pick('sel'), x.pick('w')
        pre, n = ops[k]
        op = bytes([n]) if pre is None else bytes([pre]) + wb.padto(wb.uleb0(n), w + 1)
        rt, inst = x.instance(dead_module(op, []))
        return x.attempt(rt.invocate, inst, 'f', [x.i('q')]) + x.attempt(rt.invocate, inst, 'g', [])

    def check(x, obs):
        if len(obs) != 4:
            return [('decodes and runs past the instruction', F)]
        return [('the code after the instruction', eqv(obs[1][0], x.t('q') + 123456789, True)),
                ('the next function', eqv(obs[3][0], bvv(99, 32), True))]
    return Case(f'plain.{name}', {'sel': 9, 'w': 3, 'q': 64}, run, check, max_paths=4000, seconds=150,
                bounds='every instruction without immediates, opcode padded to every width')


def inject_case(name, build, parts, bounds):
    """Decoding loses nothing: two images that differ only in the holes decode to the same module only if the holes agree.
    build(holes) -> image; parts: ('u',) 32-bit LEB of 5 bytes, ('u', w), ('s32',), ('s64',), ('raw', n), ('type', [allowed])."""
    p = Patch()
    width = {'s32': 5, 's64': 10, 'type': 1}
    sizes = [width.get(k[0]) or (k[1] if len(k) > 1 else 5) for k in parts]
    holes = [p.hole(n) for n in sizes]
    p.make(build)
    bits = [8 if k[0] == 'type' else 8 * n if k[0] == 'raw' else 64 if k[0] == 's64' else 32 for k, n in zip(parts, sizes)]

    def image(x, s):
        out = []
        for j, (k, n) in enumerate(zip(parts, sizes)):
            v = f'{s}{j}'
            if k[0] == 'type':
                x.assume(z3.Or([x.t(v) == c for c in k[1]]))
                out.append([x.u(v)])
            elif k[0] == 'raw':
                if len(k) > 2:
                    x.assume(x.t(v) & bvv(int('80' * n, 16), 8 * n) == 0)
                out.append(list(x.bytes(v)) if not x.sym else x.bytes(v).items)
            else:
                sg = k[0] != 'u'
                x.assume(fits(x, v, n, sg, bits[j]))
                out.append(symleb(x, v, n, sg, bits[j]))
        return p.fill(x, *out)

    def run(x):
        return 'ret', flat(x.module(image(x, 'a'))), flat(x.module(image(x, 'b')))

    def check(x, obs):
        eq = core.z_and(*[x.t(f'a{j}') == x.t(f'b{j}') for j in range(len(parts))])
        return [('different contents, different modules', z3.Or(z3.Not(same(obs[1], obs[2])), eq))]
    inputs = {f'{s}{j}': n for s in 'ab' for j, n in enumerate(bits)}
    return Case(f'exact.{name}', inputs, run, check, bounds=bounds)


def inject_cases(tier):
    out = []
    num = [I32, I64, F32, F64, V128, FN, EX]
    for name, op, kinds in all_immediates():
        ks, hs = [], []
        for k in kinds:
            if k in ('s32', 's64'):
                ks.append((k,))
            elif k[0] == 'raw':
                ks.append(('raw', k[1]))
            elif k[0] == 'reftype':
                ks.append(('type', [FN, EX]))
            elif k[0] == 'u' and k[1] == 1 << 32:
                ks.append(('u',))
            elif k[0] == 'u8':
                ks.append(('type', list(range(k[1]))))
            else:                       # alignment hints, select's annotation: no meaning at run time
                ks.append(None)
        if not any(ks):
            continue

        def build(holes, op=op, kinds=kinds, ks=ks):
            it = iter(holes)
            return dead_module(op, [next(it) if q else b'\x7f' if k[0] == 'type' else b'\0' for k, q in zip(kinds, ks)])
        out.append(inject_case('imm.' + name, build, [k for k in ks if k], 'the immediates of every instruction: two '
                               'different values never decode alike'))

    def code(decl):
        return wb.MAGIC + wb.section(1, wb.vec([wb.functype([], [])])) + wb.section(3, wb.vec([b'\0'])) + \
            wb.section(10, wb.vec([wb.uleb(len(decl) + 1) + decl + b'\x0b']))
    for n in (1, 2, 4, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 9):
        out.append(inject_case(f'locals.{n}', lambda h, n=n: code(bytes([n]) + b''.join(h)), [('u',), ('type', num)] * n,
                               'up to 6 groups of locals: every count and type'))

    def elem(b):
        return wb.MAGIC + wb.section(9, wb.vec([b]))

    def data(b):
        return wb.MAGIC + wb.section(11, wb.vec([b]))
    U, S, RT = ('u',), ('s32',), ('type', [FN, EX])
    f = lambda h: b'\xd2' + h + wb.END                                     # noqa: E731
    nul = lambda h: b'\xd0' + h + wb.END                                   # noqa: E731
    off = lambda h: b'\x41' + h + wb.END                                   # noqa: E731
    E = 'element segments of every kind: table, offset, type and contents'
    for name, make, parts in (
            ('0', lambda h: b'\0' + off(h[0]) + b'\3' + h[1] + h[2] + h[3], [S, U, U, U]),
            ('1', lambda h: b'\1\0\3' + h[0] + h[1] + h[2], [U, U, U]),
            ('2', lambda h: b'\2' + h[0] + off(h[1]) + b'\0\2' + h[2] + h[3], [U, S, U, U]),
            ('3', lambda h: b'\3\0\2' + h[0] + h[1], [U, U]),
            ('4', lambda h: b'\4' + off(h[0]) + b'\3' + f(h[1]) + nul(b'\x70') + f(h[2]), [S, U, U]),
            ('5', lambda h: b'\5' + h[0] + b'\2' + f(h[1]) + nul(h[2]), [RT, U, RT]),
            ('6', lambda h: b'\6' + h[0] + off(h[1]) + h[2] + b'\2' + f(h[3]) + nul(h[4]), [U, S, RT, U, RT]),
            ('7', lambda h: b'\7' + h[0] + b'\2' + f(h[1]) + b'\x23' + h[2] + wb.END, [RT, U, U])):
        out.append(inject_case('elem.' + name, lambda h, make=make: elem(make(h)), parts, E))
    D = 'data segments of every kind: offset and contents'
    out.append(inject_case('data.0', lambda h: data(b'\0' + off(h[0]) + b'\4' + h[1]), [S, ('raw', 4)], D))
    out.append(inject_case('data.0g', lambda h: data(b'\0\x23' + h[0] + wb.END + b'\4' + h[1]), [U, ('raw', 4)], D))
    out.append(inject_case('data.1', lambda h: data(b'\1\4' + h[0]), [('raw', 4)], D))
    out.append(inject_case('data.2', lambda h: data(b'\2\0' + off(h[0]) + b'\4' + h[1]), [S, ('raw', 4)], D))
    M = 'definitions: every limit, type, index and name'
    out.append(inject_case('table', lambda h: wb.MAGIC + wb.section(4, wb.vec([h[0] + b'\1' + h[1] + h[2], h[3] + b'\0' + h[4]])),
                           [RT, U, U, RT, U], M))
    out.append(inject_case('memory', lambda h: wb.MAGIC + wb.section(5, wb.vec([b'\1' + h[0] + h[1]])), [U, U], M))
    out.append(inject_case('memory.open', lambda h: wb.MAGIC + wb.section(5, wb.vec([b'\0' + h[0]])), [U], M))
    out.append(inject_case('globals', lambda h: wb.MAGIC + wb.section(6, wb.vec([
        b'\x7f' + h[0] + b'\x41' + h[1] + wb.END, b'\x7e' + h[2] + b'\x42' + h[3] + wb.END, b'\x7d\0\x43' + h[4] + wb.END,
        h[5] + b'\1\x23' + h[6] + wb.END])),
        [('type', [0, 1]), S, ('type', [0, 1]), ('s64',), ('raw', 4), ('type', num), U], M))
    nm = ('raw', 2, 'ascii')
    out.append(inject_case('imports', lambda h: wb.MAGIC + wb.section(2, wb.vec([
        b'\2' + h[0] + b'\2' + h[1] + b'\0' + h[2], b'\2' + h[3] + b'\2' + h[4] + b'\3' + h[5] + h[6]])),
        [nm, nm, U, nm, nm, ('type', num), ('type', [0, 1])], M))
    out.append(inject_case('exports', lambda h: wb.MAGIC + wb.section(7, wb.vec([
        b'\2' + h[0] + h[1] + h[2], b'\2' + h[3] + h[4] + h[5]])), [nm, ('type', [0, 1, 2, 3]), U, nm, ('type', [0, 1, 2, 3]), U], M))
    out.append(inject_case('start', lambda h: wb.MAGIC + wb.section(8, h[0]), [U], M))
    out.append(inject_case('funcs', lambda h: wb.MAGIC + wb.section(1, wb.vec([wb.functype([], [])])) +
                           wb.section(3, wb.vec([h[0], h[1], h[2]])) + wb.section(10, wb.vec([b'\2\0\x0b'] * 3)), [U, U, U], M))
    return out


SHAPES = [
    # (code with param 0 the condition, value when it is nonzero, when zero)
    (b'\x04\x40\x05' + wb.i32c(20) + b'\x0f\x0b' + wb.i32c(10), 10, 20),
    (b'\x04\x40' + wb.i32c(10) + b'\x0f\x05\x0b' + wb.i32c(20), 10, 20),
    (b'\x04\x40\x05\x0b' + wb.i32c(10), 10, 10),
    (b'\x04\x40\x0b' + wb.i32c(10), 10, 10),
    (b'\x04\x40\x02\x40\x0b\x05\x03\x40\x0b' + wb.i32c(20) + b'\x0f\x0b' + wb.i32c(10), 10, 20),
    (b'\x04\x7f' + wb.i32c(1) + wb.i32c(9) + b'\x6a\x05' + wb.i32c(1) + wb.i32c(1) + wb.i32c(18) + b'\x6a\x6a\x0b', 10, 20),
    (b'\x04\x40\x05' + wb.lget(0) + b'\x04\x40\x05' + wb.i32c(20) + b'\x0f\x0b\x0b' + wb.i32c(10), 10, 20),
    (b'\x04\x40' + wb.lget(0) + b'\x04\x40\x05\x00\x0b\x05' + wb.i32c(20) + b'\x0f\x0b' + wb.i32c(10), 10, 20),
    (b'\x02\x40' + wb.lget(0) + b'\x0d\0\x02\x40\x0b' + wb.i32c(20) + b'\x0f\x0b' + b'\x01' * 7 + wb.i32c(10), 10, 20),
    (b'\x03\x7f' + b'\x01' * 9 + b'\x02\x40\x0b' * 3 + wb.i32c(10) + b'\x0b\x03\x40\x0b', 10, 10),
    (b'\x02\x7f' + b'\x03\x7f' + b'\x04\x7f' * 0 + wb.i32c(10) + b'\x0b\x0b', 10, 10),
]


def shapes_case(pad):
    """Structured instructions with empty, missing, nested and long bodies."""
    m = wb.Mod()
    for k, (body, _, _) in enumerate(SHAPES):
        m.func([I32], [I32], (b'' if body[0] in (2, 3) else wb.lget(0)) + b'\x01' * pad + body, export=f'f{k}')
    img = m.build()

    def run(x):
        rt, inst = x.instance(img)
        return 'ret', [x.attempt(rt.invocate, inst, f'f{k}', [x.i('a')]) for k in range(len(SHAPES))]

    def check(x, obs):
        return [(f'shape {k}', eqv(o[1][0], z3.If(x.t('a') != 0, bvv(SHAPES[k][1], 32), bvv(SHAPES[k][2], 32)), True)
                 if o[0] == 'ret' else F) for k, o in enumerate(obs[1])]
    return Case(f'shapes.{pad}', {'a': 32}, run, check, bounds='blocks, loops and ifs with empty, missing, nested and '
                'long bodies')


NAMES = ['name', 'producers', 'target_features', '.debug_info', 'sourceMappingURL', 'dylink.0', 'linking', 'reloc.CODE',
         'external_debug_info', 'core', 'component-name', '', 'build_id', 'metadata.code.branch_hint', 'a', 'start', '\u03b1']


def named_case(name):
    """A custom section of a known name, anywhere, whatever it holds."""
    secs = rich_build([b'\x91' * 5 + b'\1', b'\x92' * 15 + b'\2', b'\x93' * 4 + b'\3'], True)
    nsec = len(secs)
    b = name.encode()

    def run(x):
        x.assume(z3.ULE(x.t('p'), nsec))
        q = x.pick('p')
        mark = b'\x7e\x7d' * 4

        def place(secs):
            return wb.MAGIC + b''.join(secs[:q]) + wb.section(0, bytes([len(b)]) + b + mark) + b''.join(secs[q:])
        p = rich(place)
        img = fill(x, p)
        i = p.base.find(mark)
        pl = x.bytes('pl')
        if x.sym:
            img = list(img.items)
            img[i:i + 8] = pl.items
            img = SBytes.from_items(img)
        else:
            img = img[:i] + bytes(pl) + img[i + 8:]
        return 'ret', flat(x.module(fill(x, rich()))), flat(x.module(img))

    def check(x, obs):
        return [('a custom section changes nothing', same(obs[1], obs[2]))]
    return Case(f'custom.named.{name or "empty"}', dict(RICH_IN, p=8, pl=64), run, check, bounds='custom sections of '
                f'{len(NAMES)} well known names at every position, every payload')


# -- module components --------------------------------------------------------------------------------------------------
def types_case(na, nr):
    p = Patch()
    p.holes = [bytes([0xd1 + k]) for k in range(na + nr)]
    p.make(lambda hs: wb.MAGIC + wb.section(1, b'\2\x60\0\0\x60' + bytes([na]) + b''.join(hs[:na]) + bytes([nr]) +
                                            b''.join(hs[na:])))
    VT = (I32, I64, F32, F64, V128, FN, EX)

    def run(x):
        for k in range(na + nr):
            x.assume(z3.Or([x.t(f't{k}') == v for v in VT]))
        m = x.module(p.fill(x, *[[x.u(f't{k}')] for k in range(na + nr)]))
        ty = m.type[1]
        return 'ret', len(m.type), [e.data for e in ty.args], [e.data for e in ty.rets], len(m.type[0].args) + len(m.type[0].rets)

    def check(x, obs):
        if len(obs[2]) != na or len(obs[3]) != nr or obs[1] != 2 or obs[4]:
            return [('arity', F)]
        return [(f'type {k}', eqv(o, x.t(f't{k}'))) for k, o in enumerate(obs[2] + obs[3])] + [('done', T)]
    return Case(f'types.{na}.{nr}', {f't{k}': 8 for k in range(na + nr)} or {'d': 1}, run, check,
                bounds='function types with up to 3 parameters and 2 results: every value type')


def fields_case():
    """Imports, functions, limits, globals, exports, start: symbolic 32-bit values and names."""
    p = Patch()
    h = [p.hole(5) for _ in range(9)]
    nm = [p.hole(3) for _ in range(4)]
    b = wb.MAGIC
    b += wb.section(1, wb.vec([wb.functype([], [])]))
    b += wb.section(2, wb.vec([b'\3' + nm[0] + b'\2' + b'ab' + b'\0' + h[0],
                               b'\1z\3' + nm[1] + b'\2\1' + h[1] + h[2],
                               b'\0\0\1\x6f\0' + h[3],
                               b'\1q\1q\3\x7d\1']))
    b += wb.section(3, wb.vec([h[4]]))
    b += wb.section(4, wb.vec([b'\x70\1' + h[5] + h[6]]))
    b += wb.section(7, wb.vec([b'\3' + nm[2] + b'\0' + h[7], b'\3' + nm[3] + b'\3\0', b'\6\xce\xb1\xe2\x82\xac!\2\1']))
    b += wb.section(8, h[8])
    b += wb.section(10, wb.vec([wb.uleb(len(b'\0\x0b')) + b'\0\x0b']))
    p.seal(b)

    def run(x):
        for k in range(4):
            for j in range(3):
                x.assume(z3.ULT(z3.Extract(8 * j + 7, 8 * j, x.t(f'n{k}')), 128))
        m = x.module(p.fill(x, *[leb5(x, f'v{k}') for k in range(9)], *[x.bytes(f'n{k}') for k in range(4)]))
        i = m.imps
        return ('ret', [len(i), len(m.func), len(m.tabl), len(m.mems), len(m.exps), i[0].kind, i[1].kind, i[2].kind, i[3].kind],
                [i[0].module, i[1].name, m.exps[0].name, m.exps[1].name],
                [i[0].name, i[1].module, i[2].module, i[2].name, i[3].module, i[3].name, m.exps[2].name],
                [i[0].desc, i[1].desc.limits.n, i[1].desc.limits.m, i[2].desc.limits.n, m.func[0].type, m.tabl[0].limits.n,
                 m.tabl[0].limits.m, m.exps[0].desc, m.star],
                [i[2].desc.limits.m, i[2].desc.type.data, i[3].desc.type.data, i[3].desc.mut, m.tabl[0].type.data,
                 m.exps[0].kind, m.exps[1].kind, m.exps[1].desc, m.exps[2].kind, m.exps[2].desc])

    def check(x, obs):
        out = [('shape', z3.BoolVal(obs[1] == [4, 1, 1, 0, 3, 0, 2, 1, 3])),
               ('fixed names', z3.BoolVal(obs[3] == ['ab', 'z', '', '', 'q', 'q', '\u03b1\u20ac!'])),
               ('fixed fields', z3.BoolVal(obs[5] == [0, 0x6f, 0x7d, 1, 0x70, 0, 3, 0, 2, 1]))]
        for k, o in enumerate(obs[2]):
            out.append((f'name {k}', name_is(o, [z3.Extract(8 * j + 7, 8 * j, x.t(f'n{k}')) for j in range(3)])))
        for k, o in enumerate(obs[4]):
            out.append((f'field {k}', eqv(o, x.t(f'v{k}'))))
        return out
    inputs = {f'v{k}': 32 for k in range(9)}
    inputs.update({f'n{k}': 24 for k in range(4)})
    return Case('fields', inputs, run, check, bounds='imports, functions, tables, memories, exports and start: every '
                'index, limit and (ASCII) name')


def global_case():
    """Globals of every type with symbolic initialisers; values seen by the embedder and by global.get."""
    p = Patch()
    m = wb.Mod()
    h = [p.hole(5), p.hole(10), p.hole(4), p.hole(8), p.hole(16)]
    op = [b'\x41', b'\x42', b'\x43', b'\x44', b'\xfd\x0c']
    ts = [I32, I64, F32, F64, V128]
    for k in range(5):
        m.glob(ts[k], k & 1, op[k] + h[k], export=f'g{k}')
    back = {F32: b'\xbc', F64: b'\xbd'}
    m.func([], [{F32: I32, F64: I64}.get(t, t) for t in ts], b''.join(b'\x23' + bytes([k]) + back.get(t, b'')
                                                                   for k, t in enumerate(ts)), export='f')
    p.seal(m.build())

    def run(x):
        rt, inst = x.instance(p.fill(x, sleb5(x, 'a'), symleb(x, 'b', 10, True, 64), x.bytes('c'), x.bytes('d'), x.bytes('e')))
        g = [rt.exported_global(inst, f'g{k}') for k in range(5)]
        return x.attempt(rt.invocate, inst, 'f', []) + ([e.mut for e in g], [e.data.type.data for e in g])

    def check(x, obs):
        if obs[0] != 'ret':
            return [('runs', F)]
        return [(f'global {k}', eqv(obs[1][k], x.t('abcd'[k]), True)) for k in range(4)] + \
            [('global 4', eqbytes(obs[1][4], [z3.Extract(8 * j + 7, 8 * j, x.t('e')) for j in range(16)])),
             ('mutability and types', z3.BoolVal(obs[2] == [0, 1, 0, 1, 0] and obs[3] == ts))]
    return Case('globals', {'a': 32, 'b': 64, 'c': 32, 'd': 64, 'e': 128}, run, check,
                bounds='globals of every numeric type: every initial value')


def cases(tier):
    out = [behaviour_case(), fields_case(), global_case(), fconst_case()]
    for w in (2, 3, 4, 5) if tier != 'quick' else (2, 5):
        for kinds in (['index', 'const'], ['count', 'section', 'body', 'locals', 'datacount'],
                      ['name', 'limit', 'op', 'data', 'align', 'offset']):
            out.append(pad_case(w, kinds))
    out += [custom_case('one', 1), custom_case('one.padded', 1, 5), custom_case('many', 40)]
    if tier != 'quick':
        out += [custom_case('two', 2), custom_case('many.300', 300)]
    out += [const_case(32, k) for k in range(1, 6)] + [const_case(64, k) for k in range(1, 11)]
    out += [memarg_case(a, o) for a, o in ((1, 1), (1, 2), (1, 3), (2, 4), (3, 5), (5, 5))]
    out += index_cases() + inject_cases(tier) + [shapes_case(0), shapes_case(3)] + [named_case(n) for n in NAMES]
    ws = (1, 2, 5) if tier == 'quick' else (1, 2, 3, 4, 5)
    for name, op, kinds in all_immediates():
        out += [imm_case(name, op, kinds, w) for w in ws
                if w == 1 or any(isinstance(k, str) or k[0] == 'u' for k in kinds)]
    out.append(plain_case('one', [(None, n) for n in PLAIN]))
    out.append(plain_case('fc', [(0xfc, n) for n in FCPLAIN]))
    out.append(plain_case('fd', [(0xfd, n) for n in FDPLAIN]))
    out += [types_case(a, r) for a, r in ((0, 0), (1, 0), (0, 1), (2, 1), (3, 2))]
    return out
