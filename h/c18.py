"""C18: instances share exactly what they import; values are never changed through a copy."""
import itertools
import random
import z3
from sx.harness import Case, eqv, eqbytes, tt, B, word_of
from sx.core import bvv, zext, SBytes
from sx import wb
from . import optable
from .util import PAGE, byte1, z64
from .c14 import exports, outcome

ASSUMPTIONS = [
    'histories of up to 3 (thorough: 4) operations by 4 instances of 2 modules plus the embedder, all operand values, addresses within '
    'one page, tables of 3 references; every operation is followed by reads through every instance',
    'aliasing: every numeric and vector instruction on operands also held in a local, a global and elsewhere on the stack',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
I32, I64, F32, F64, V128, FN, EX = wb.I32, wb.I64, wb.F32, wb.F64, wb.V128, wb.FUNCREF, wb.EXTERNREF
ZERO = {I32: wb.i32c(0), I64: wb.i64c(0), F32: b'\x43' + bytes(4), F64: b'\x44' + bytes(8), V128: b'\xfd\x0c' + bytes(16), EX: b'\xd0\x6f'}
IN = {F32: (I32, b'\xbe', b'\xbc'), F64: (I64, b'\xbf', b'\xbd')}
BITLOOPS = ('67', '68', '69', '79', '7a', '7b')           # one path per bit
W = {I32: 32, I64: 64, F32: 32, F64: 64, V128: 128, EX: 32}


def valeq(x, n, t, o):
    v = x.t(n)
    if t == V128:
        return eqbytes(o, [z3.Extract(8 * k + 7, 8 * k, v) for k in range(16)])
    return eqv(o, v, True)


def alias_cases(ops, size, tag):
    """Groups of instructions run one after the other on the same operand objects (local, global and stack copies), which must keep
    their values."""
    out = []
    by = {}
    for o in ops:
        by.setdefault(tuple(o[2]), []).append(o)
    for ps, l in by.items():
        bits = [o for o in l if o[0] in BITLOOPS]
        l = [o for o in l if o[0] not in BITLOOPS]
        for g in [[o] for o in bits] + [l[g:g + size] for g in range(0, len(l), size)]:
            out.append(alias_case(list(ps), g, f'{tag}.{g[0][0]}'))
    return out


def alias_case(ps, ops, name):
    m = wb.Mod()
    gs = [m.glob(t, 1, ZERO[t]) for t in ps]
    ext = [IN.get(t, (t, b'', b'')) for t in ps]
    n = len(ps)
    body = b''
    for k, e in enumerate(ext):                         # one value object per operand: a local and a global
        body += wb.lget(k) + e[1] + wb.ltee(n + k) + b'\x24' + wb.uleb(gs[k])
    body += b''.join(wb.lget(n + k) for k in range(n))  # and copies on the stack
    for i, (_, code, _, r) in enumerate(ops):
        body += b''.join(wb.lget(n + k) if (i + k) % 2 else b'\x23' + wb.uleb(gs[k]) for k in range(n)) + code + b'\x1a'
    outs = []
    for k in range(n - 1, -1, -1):
        body += wb.lset(2 * n + k)
    for k, e in enumerate(ext):
        body += wb.lget(n + k) + e[2] + b'\x23' + wb.uleb(gs[k]) + e[2] + wb.lget(2 * n + k) + e[2]
        outs += [e[0]] * 3
    m.func([e[0] for e in ext], outs, body, locals=ps + ps, export='f')
    img = m.build()

    def run(x):
        rt, inst = x.instance(img)
        return x.attempt(rt.invocate, inst, 'f', [x.bytes(f'a{k}') if t == V128 else x.i(f'a{k}') for k, t in enumerate(ps)])

    def check(x, obs):
        if obs[0] != 'ret':
            return []                                   # trapping operands
        return [(f'operand {k // 3} in a {("local", "global", "stack copy")[k % 3]}', valeq(x, f'a{k // 3}', ps[k // 3], o))
                for k, o in enumerate(obs[1])]
    return Case(f'alias.{name}', {f'a{k}': W[t] for k, t in enumerate(ps)}, run, check, expect=('ret',), seconds=120, max_paths=5000, nval=2,
                bounds='every operand of every numeric and vector instruction')


def store_alias_case(kind):
    """Objects read from one container and written over there (or elsewhere) keep their values in all others."""
    m = wb.Mod()
    t = {'v128': V128, 'i64': I64, 'ref': EX, 'i32': I32}[kind]
    g1, g2 = m.glob(t, 1, ZERO[t]), m.glob(t, 1, ZERO[t])
    m.mem(1)
    ops = {V128: (b'\xfd\0\4\0', b'\xfd\x0b\4\0'), I64: (b'\x29\3\0', b'\x37\3\0'), I32: (b'\x28\2\0', b'\x36\2\0')}
    a, b = wb.lget(0), wb.lget(1)
    s = lambda g: b'\x24' + wb.uleb(g)
    G = lambda g: b'\x23' + wb.uleb(g)
    if kind == 'ref':
        m.table(EX, 4)
        body = wb.i32c(0) + a + wb.i32c(4) + b'\xfc\x11\0'                      # fill all with one object
        body += wb.i32c(1) + b + b'\x26\0' + wb.i32c(0) + b'\x25\0' + s(g1)      # overwrite one
        body += wb.i32c(0) + b + b'\x26\0'
        body += wb.i32c(2) + wb.i32c(1) + wb.i32c(1) + b'\xfc\x0e\0\0' + wb.i32c(1) + a + b'\x26\0'   # copy, overwrite the source
        body += G(g1) + s(g2) + b + s(g1)
        res = G(g1) + G(g2) + b''.join(wb.i32c(k) + b'\x25\0' for k in range(4)) + a + b
        want = ['b', 'a', 'b', 'a', 'b', 'a', 'a', 'b']
    else:
        ld, st = ops[t]
        body = wb.i32c(0) + a + st + wb.i32c(0) + ld + wb.ltee(2) + s(g1)         # load, then overwrite memory
        body += wb.i32c(0) + b + st + G(g1) + s(g2) + b + s(g1)
        body += wb.lget(2) + wb.lset(3) + b + wb.lset(2)
        body += wb.i32c(16) + G(g2) + st + wb.i32c(16) + wb.i32c(0) + wb.i32c(16) + b'\xfc\x0a\0\0'   # memory.copy over the stored copy
        res = G(g1) + G(g2) + wb.lget(2) + wb.lget(3) + wb.i32c(0) + ld + wb.i32c(16) + ld + a + b
        want = ['b', 'a', 'b', 'a', 'b', 'b', 'a', 'b']
    m.func([t, t], [t] * 8, body + res, locals=[t, t], export='f')
    # globals and arguments across calls
    m.func([t], [t], b + wb.lset(0) + wb.lget(0), locals=[t], export='clobber')
    k = 1
    m.func([t], [t, t, t], a + s(g1) + G(g1) + wb.call(k) + G(g1) + a, export='pass')
    img = m.build()

    def run(x):
        rt, inst = x.instance(img)
        v = lambda n: x.bytes(n) if t == V128 else x.i(n)
        o = x.attempt(rt.invocate, inst, 'f', [v('a'), v('b')])
        o2 = x.attempt(rt.invocate, inst, 'pass', [v('a')])
        return outcome(o, list(o[1]) if o[0] == 'ret' else None, list(o2[1]) if o2[0] == 'ret' else None)

    def check(x, obs):
        if obs[1] is None or obs[2] is None:
            return [('returns', F)]
        out = [(f'cell {i}', valeq(x, w, t, o)) for i, (w, o) in enumerate(zip(want, obs[1]))]
        if kind == 'ref':
            return out + [('passed', z3.And([valeq(x, 'a', t, o) for o in obs[2][1:]]))]
        z = obs[2][0]
        return out + [('callee', eqbytes(z, [0] * 16) if t == V128 else eqv(z, bvv(0, W[t]), True)), ('passed', z3.And([valeq(x, 'a', t, o) for o in obs[2][1:]]))]
    return Case(f'copies.{kind}', {'a': W[t], 'b': W[t]}, run, check, expect=('ret',), bounds='values copied between locals, globals, memory and tables')


def segment_alias_case():
    """Segments are not changed by writes to the memory or table they were copied into."""
    m = wb.Mod()
    m.mem(1, export='m')
    m.table(FN, 4)
    m.datas = [b'\1\4abcd']
    f0, f1 = m.func([], [I32], wb.i32c(10)), m.func([], [I32], wb.i32c(11))
    m.elem(b'\1\0' + wb.vec([wb.uleb(f0), wb.uleb(f1)]))
    init = wb.i32c(0) + wb.i32c(0) + wb.i32c(4) + b'\xfc\x08\0\0'
    tin = wb.i32c(0) + wb.i32c(0) + wb.i32c(2) + b'\xfc\x0c\0\0'
    body = init + wb.i32c(1) + wb.lget(0) + b'\x3a\0\0' + wb.i32c(4) + wb.i32c(0) + wb.i32c(4) + b'\xfc\x08\0\0'
    body += tin + wb.i32c(0) + wb.i32c(1) + b'\x25\0\x26\0' + wb.i32c(2) + wb.i32c(0) + wb.i32c(2) + b'\xfc\x0c\0\0'
    body += wb.i32c(3) + b'\xd0\x70\x26\0' + wb.i32c(1) + wb.i32c(0) + wb.i32c(2) + b'\xfc\x0c\0\0'
    t = wb.uleb(m.type([], [I32]))
    m.func([I32], [I32] * 3, body + b''.join(wb.i32c(k) + b'\x11' + t + b'\0' for k in range(3)), export='f')
    img = m.build()

    def run(x):
        rt, inst = x.instance(img)
        o = x.attempt(rt.invocate, inst, 'f', [x.i('v')])
        o2 = x.attempt(rt.invocate, inst, 'f', [x.i('v')])
        return outcome(o, list(o[1]) if o[0] == 'ret' else None, list(o2[1]) if o2[0] == 'ret' else None, rt.exported_memory(inst, 'm').get(0, 8))

    def check(x, obs):
        if obs[1] is None or obs[2] is None:
            return [('returns', F)]
        w = [11, 10, 11]
        return [('table', z3.And([eqv(o, bvv(k, 32), True) for l in (obs[1], obs[2]) for o, k in zip(l, w)])),
                ('memory', eqbytes(obs[3], [97, z3.Extract(7, 0, x.t('v')), 99, 100, 97, 98, 99, 100]))]
    return Case('segments', {'v': 32}, run, check, expect=('ret',), bounds='segments copied twice with writes in between')


def drop_case(acts, ops=2):
    """Segments with the same contents, in one module, in two instances of it and in another module, are dropped one by one."""
    def module(extra):
        m = wb.Mod()
        if extra:
            m.glob(I32, 0, wb.i32c(1))
        m.mem(1)
        m.table(FN, 2)
        m.table(EX, 2)
        m.datas = [b'\1\2ab', b'\1\2ab']
        f0 = m.func([], [I32], wb.i32c(10))
        m.elem(b'\1\0' + wb.vec([wb.uleb(f0)]))
        m.elem(b'\1\0' + wb.vec([wb.uleb(f0)]))
        m.elem(b'\5\x6f' + wb.vec([b'\xd0\x6f\x0b']))
        t = wb.uleb(m.type([], [I32]))
        arms = [b'\xfc\x09\0', b'\xfc\x09\1', b'\xfc\x0d\0', b'\xfc\x0d\1', b'\xfc\x0d\2']
        head = b'\x02\x40' * (len(arms) + 1) + wb.lget(0) + b'\x0e' + wb.vec([wb.uleb(k) for k in range(len(arms))]) + wb.uleb(len(arms))
        m.func([I32], [], head + b''.join(b'\x0b' + a + b'\x0f' for a in arms) + b'\x0b', export='drop')
        z = wb.i32c(0)
        uses = [z + z + wb.i32c(2) + b'\xfc\x08' + wb.uleb(k) + b'\0' + z + b'\x2f\0\0' for k in range(2)]
        uses += [z + z + wb.i32c(1) + b'\xfc\x0c' + wb.uleb(k) + b'\0' + z + b'\x11' + t + b'\0' for k in range(2)]
        uses += [z + z + wb.i32c(1) + b'\xfc\x0c\2\1' + z + b'\x25\1\xd1']
        for k, u in enumerate(uses):
            m.func([], [I32], u, export=f'use{k}')
        return m.build()
    P, Q = module(False), module(True)

    def run(x):
        rt = x.pw.Runtime()
        d = x.module(P)
        insts = [rt.instance(d), rt.instance(d), rt.instance(x.module(P)), rt.instance(x.module(Q))]
        for k in range(len(acts)):
            x.assume(z3.ULT(x.t(f'o{k}'), 5))
        done = []
        for k, w in enumerate(acts):
            o = x.pick(f'o{k}')
            done.append((w, o))
            rt.invocate(insts[w], 'drop', [o])
        seen = []
        for i in insts:
            for k in range(5):
                o = x.attempt(rt.invocate, i, f'use{k}', [])
                seen.append(o[1][0] if o[0] == 'ret' else -1)
        return 'ret', done, seen

    def check(x, obs):
        gone = {(int(w), int(o)) for w, o in obs[1]}
        full = [97 + 98 * 256] * 2 + [10] * 2 + [1]
        return [(f'instance {i} segment {k}', B(obs[2][5 * i + k] == (-1 if (i, k) in gone else full[k]))) for i in range(4) for k in range(5)]
    return Case('drops.' + ''.join(map(str, acts)), {f'o{k}': 8 for k in range(len(acts))}, run, check, expect=('ret',), seconds=200, nval=1,
                bounds='segments with equal contents dropped by several instances')


# -- histories over several instances -----------------------------------------------------------------------------------
OPS = ('store', 'gset', 'tset', 'grow', 'tfill', 'pset', 'via', 'tgrow')


def share_case(actors):
    """actors: which instance performs step k: A (provider), B, C (two instances of an importing module), D (a second provider)."""
    steps = len(actors)

    def module(shared):
        m = wb.Mod()
        if shared:
            m.import_mem('p', 'm', 1)
            m.import_table('p', 't', EX, 3)
            m.import_global('p', 'g', I64, 1)
            m.import_global('p', 'k', I32, 0)
            m.import_func('p', 'do', [I32, I32, I64, EX], [])
        else:
            m.mem(1, 3, export='m')
            m.table(EX, 3, 5, export='t')
            m.glob(I64, 1, wb.i64c(7), export='g')
            m.glob(I32, 0, wb.i32c(33), export='k')
            m.func([I32, I32, I64, EX], [], b'')
        m.glob(I64, 1, wb.i64c(5))
        m.glob(I32, 1, b'\x23\1' if shared else wb.i32c(33))
        at = wb.lget(1) + wb.i32c(3) + b'\x70'
        arms = [wb.lget(1) + wb.lget(2) + b'\x3c\0\0',
                wb.lget(2) + b'\x24\0',
                at + wb.lget(3) + b'\x26\0',
                wb.i32c(1) + b'\x40\0\x1a',
                wb.i32c(1) + wb.lget(3) + wb.i32c(2) + b'\xfc\x11\0',
                wb.lget(2) + b'\x24\2' + wb.lget(2) + b'\xa7\x24\3',
                wb.i32c(1) + wb.lget(1) + wb.lget(2) + wb.lget(3) + wb.call(0),
                wb.lget(3) + wb.i32c(1) + b'\xfc\x0f\0\x1a']
        body = b'\x02\x40' * (len(arms) + 1) + wb.lget(0) + b'\x0e' + wb.vec([wb.uleb(k) for k in range(len(arms))]) + wb.uleb(len(arms))
        for a in arms:
            body += b'\x0b' + a + b'\x0f'
        body += b'\x0b'
        m.func([I32, I32, I64, EX], [], body, export='do')
        m.func([I32], [I32, I64, I32, I64, I32, I32, I32], wb.lget(0) + b'\x2d\0\0\x23\0\x23\1\x23\2\x23\3\x3f\0\xfc\x10\0', export='look')
        m.func([I32], [EX], wb.lget(0) + b'\x25\0', export='ref')
        return m.build()
    P, Q = module(False), module(True)

    def run(x):
        rt = x.pw.Runtime()
        dp, dq = x.module(P), x.module(Q)
        a = rt.instance(dp)
        rt.imports['p'] = exports(a)
        b, c = rt.instance(dq), rt.instance(dq)
        d = rt.instance(dp)
        inst = {'A': a, 'B': b, 'C': c, 'D': d}
        for k in range(steps):
            x.assume(z3.ULT(x.t(f'o{k}'), len(OPS)))
        outs, ops = [], []
        for k, w in enumerate(actors):
            o = x.pick(f'o{k}')
            ops.append(o)
            if w == 'E':                                # the embedder, through the objects the runtime hands out
                mem, g = rt.exported_memory(a, 'm'), rt.exported_global(a, 'g')
                if o == 0:
                    mem.put_u8(x.u(f'x{k}'), x.u(f'y{k}') & 255)
                elif o == 1:
                    g.data = x.pw.core.ValInst.from_i64(x.i(f'y{k}'))
                outs.append(('ret',))
                continue
            outs.append(x.attempt(rt.invocate, inst[w], 'do', [o, x.u(f'x{k}'), x.i(f'y{k}'), x.i(f'r{k}')])[0:1])
        seen = []
        for w in 'ABCD':
            v = rt.invocate(inst[w], 'look', [x.u('j')])
            n = v[6]
            seen.append((list(v), [rt.invocate(inst[w], 'ref', [i])[0] for i in range(n)]))
        return 'ret', outs, seen, ops

    def check(x, obs):
        js = x.t('j')
        mem, glob, size, tab = [[], []], [bvv(7, 64)] * 2, [1, 1], [[None] * 3, [None] * 3]
        priv, cop = [bvv(5, 64)] * 4, [bvv(33, 32)] * 4
        for k, w in enumerate(actors):
            o = int(obs[3][k])                          # fixed on the path
            X, Y, R = z3.Extract(15, 0, x.t(f'x{k}')), x.t(f'y{k}'), x.t(f'r{k}')
            i = 'ABCD'.find(w)
            s = 1 if w == 'D' else 0
            if w == 'E':
                if o == 0:
                    mem[0].append((x.t(f'x{k}'), z3.Extract(7, 0, Y)))
                elif o == 1:
                    glob = [Y, glob[1]]
                continue
            if o == 6:
                if w in 'AD':
                    continue
                o, i, s = 1, 0, 0
            if o == 0:
                mem[s].append((x.t(f'x{k}'), z3.Extract(7, 0, Y)))
            elif o == 1:
                glob = [Y if q == s else g for q, g in enumerate(glob)]
            elif o == 2:
                m3 = z3.URem(zext(x.t(f'x{k}'), 32), bvv(3, 32))
                tab[s] = [[(m3 == q, R)] if e is None else e + [(m3 == q, R)] if isinstance(e, list) else [(T, e), (m3 == q, R)]
                          if q < 3 else e for q, e in enumerate(tab[s])]
            elif o == 3:
                size[s] = min(size[s] + 1, 3)
            elif o == 4:
                tab[s] = [tab[s][0], R, R] + tab[s][3:]
            elif o == 5:
                priv = [Y if q == i else p for q, p in enumerate(priv)]
                cop = [z3.Extract(31, 0, Y) if q == i else p for q, p in enumerate(cop)]
            elif o == 7 and len(tab[s]) < 5:
                tab[s] = tab[s] + [R]
        out = []
        for i, (v, refs) in enumerate(obs[2]):
            s = 1 if i == 3 else 0
            byte = bvv(0, 8)
            for at, y in mem[s]:
                byte = z3.If(at == js, y, byte)
            who = 'ABCD'[i]
            out += [(f'{who} memory', eqv(v[0], zext(byte, 32), True)), (f'{who} global', eqv(v[1], glob[s], True)),
                    (f'{who} immutable global', eqv(v[2], bvv(33, 32), True)), (f'{who} private global', eqv(v[3], priv[i], True)),
                    (f'{who} initialised global', eqv(v[4], cop[i], True)), (f'{who} memory size', eqv(v[5], bvv(size[s], 32), True)),
                    (f'{who} table size', eqv(v[6], bvv(len(tab[s]), 32), True))]
            for q, (o, w) in enumerate(zip(refs, tab[s])):
                out.append((f'{who} table entry {q}', refeq(o, w)))
        return out

    inputs = {'j': 16}
    for k in range(steps):
        inputs.update({f'o{k}': 8, f'x{k}': 16, f'y{k}': 64, f'r{k}': 32})
    return Case(f'share.{"".join(actors)}', inputs, run, check, expect=('ret',), seconds=300, max_paths=10000, nval=1,
                bounds='histories of operations by several instances and the embedder')


def refeq(o, w):
    if w is None:
        return B(o is None)
    if not isinstance(w, list):
        return eqv(o, w, True) if o is not None else F
    # a list of conditional writes, oldest first
    isnull, v = T, bvv(0, 32)
    for c, r in w:
        isnull, v = z3.And(isnull, z3.Not(c)), z3.If(c, r, v)
    return isnull if o is None else z3.And(z3.Not(isnull), eqv(o, v, True))


def cases(tier):
    full = tier != 'quick'
    out = []
    out += alias_cases(optable.numeric(), 4, 'num') + alias_cases(optable.vector(), 6, 'vec')
    out += [store_alias_case(k) for k in ('v128', 'i64', 'i32', 'ref')]
    out.append(segment_alias_case())
    out += [drop_case(a) for a in ((0,), (1, 2), (3, 0))]
    for acts in itertools.product('ABCDE', repeat=2):
        out.append(share_case(acts))
    r = random.Random('c18')
    l = [a for a in itertools.product('ABCDE', repeat=3) if a[0] != a[1] != a[2]]
    r.shuffle(l)
    if full:
        out += [share_case(a) for a in l]
    return out
