"""C10: calls, arguments, locals, globals, recursion."""
import random
import z3
from sx.harness import Case, eqv, eqbytes, tt
from sx.core import bvv, zext, SBytes
from sx import wb
from . import prog
from .prog import I32, I64, F32, F64
from .util import Patch

ASSUMPTIONS = [
    'program shapes: the listed cases and generated call graphs of up to 4 functions; every argument value',
    'recursion: depths 0..8 and every depth beyond the supported 1024 frames',
]
F = z3.BoolVal(False)
IN = {'c': 32, 't': 32, 'p': 32, 'q': 64, 's': 32, 'd': 64}


def gen_case(k, n=3, size=8, conds=2):
    """A call graph: function j may call every function below it; the driver calls the last one."""
    r = random.Random(f'c10-{k}')
    fs = []
    for j in range(n):
        g = prog.Gen(f'c10-{k}-{j}', size=size, depth=2, conds=conds, callee=[(i, f) for i, f in enumerate(fs)],
                     start=0.95 if j else None)
        fs.append(g.func())
    fs.append(prog.wrapper(fs[-1], n - 1, r))
    m = wb.Mod()
    prog.build(m, fs, {'w': n})
    base = m.build()
    ref = prog.Ref(fs)

    def run(x):
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, 'w', [x.i(v) for v in 'ctpqsd'])

    def check(x, obs):
        return prog.check_paths(obs, ref.paths(n, [x.t(v) for v in 'ctpqsd']), None)
    return Case(f'graph.{k}', IN, run, check, expect=(), seconds=120,
                bounds='generated call graphs: arguments, locals, operand stacks and results across calls')


def shuffle_case(k):
    """caller(args) -> callee(permuted args) -> permuted results; mixed types, v128 and references included."""
    r = random.Random(f'shuffle{k}')
    types = [I32, I64, F32, F64, wb.V128, wb.EXTERNREF]
    n = r.randrange(2, 7)
    ts = [r.choice(types) for _ in range(n)]
    p1 = list(range(n))
    r.shuffle(p1)
    p2 = list(range(n))
    r.shuffle(p2)
    m = wb.Mod()
    cts = [ts[i] for i in p1]                       # callee parameter types
    rts = [cts[i] for i in p2]                      # callee result types
    ind = k % 2
    ext = b''.join(wb.lget(i) for i in p2)
    # the callee destroys its own parameters and locals after reading them
    z = {I32: wb.i32c(-1), I64: wb.i64c(-1), F32: b'\x43\0\0\0\x41', F64: b'\x44' + bytes(7) + b'\x40',
         wb.V128: b'\xfd\x0c' + bytes([255] * 16), wb.EXTERNREF: b'\xd0\x6f'}
    kill = b''.join(z[t] + wb.lset(i) for i, t in enumerate(cts + ts))
    m.func(cts, rts, ext + kill, locals=ts)
    # the exported function: integer views of floats; returns own locals again
    body = b''.join(wb.lget(i) for i in p1)
    if ind:
        m.table(wb.FUNCREF, 1)
        m.elem_active(wb.i32c(0), [0])
        body += wb.i32c(0) + b'\x11' + wb.uleb(m.type(cts, rts)) + b'\0'
    else:
        body += wb.call(0)
    m.func(ts, rts + ts, body + b''.join(wb.lget(i) for i in range(n)))
    io = {F32: I32, F64: I64}
    front = b''.join(wb.lget(i) + {F32: b'\xbe', F64: b'\xbf'}.get(t, b'') for i, t in enumerate(ts)) + wb.call(1)
    outs = rts + ts
    back = b''.join(wb.lset(n + i) for i in range(len(outs) - 1, -1, -1))
    back += b''.join(wb.lget(n + i) + {F32: b'\xbc', F64: b'\xbd'}.get(t, b'') for i, t in enumerate(outs))
    m.func([io.get(t, t) for t in ts], [io.get(t, t) for t in outs], front + back, locals=outs, export='f')
    base = m.build()
    wd = {I32: 32, F32: 32, I64: 64, F64: 64, wb.V128: 128, wb.EXTERNREF: 32}
    inputs = {f'a{i}': wd[t] for i, t in enumerate(ts)}

    def run(x):
        args = [x.bytes(f'a{i}') if t == wb.V128 else x.i(f'a{i}') for i, t in enumerate(ts)]
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, 'f', args)

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != 2 * n:
            return [('returns', F)]
        idx = [p1[i] for i in p2] + list(range(n))
        out = []
        for j, (o, i) in enumerate(zip(obs[1], idx)):
            t = x.t(f'a{i}')
            if ts[i] == wb.V128:
                c = eqbytes(o, [z3.Extract(8 * b + 7, 8 * b, t) for b in range(16)])
            else:
                c = eqv(o, t, True)
            out.append((f'result {j} is argument {i}', c))
        return out
    return Case(f'shuffle.{k}', inputs, run, check,
                bounds='argument and result order for mixed types (v128 and references included), direct and indirect')


def locals_case(order):
    """Declared locals: symbolic run lengths; each is zero of its type in every activation, even after being dirtied."""
    p = Patch()
    m = wb.Mod()
    h = [p.hole(2), p.hole(2), p.hole(2)]
    types = order
    # f(n, i): recursion once: first activation dirties local X, second activation reads its own X
    zero = {I32: b'', I64: b'', F32: b'\xbc', F64: b'\xbd'}
    one = {I32: wb.i32c(-1), I64: wb.i64c(-1), F32: wb.i32c(-1) + b'\xbe', F64: wb.i64c(-1) + b'\xbf'}
    t = types[1]
    rt_ = I32 if t in (I32, F32) else I64
    H = p.hole(2)
    H2, H3, H4 = p.hole(2), p.hole(2), p.hole(2)
    body = b'\x20' + H + zero[t] + b'\x21' + H2       # read X, keep the bits in the last local
    body += one[t] + b'\x21' + H3                      # dirty X
    body += wb.lget(0) + b'\x04' + bytes([rt_]) + wb.i32c(0) + wb.lget(1) + wb.call(0) + b'\x05\x20' + H4 + b'\x0b'
    code = bytes([4]) + h[0] + bytes([types[0]]) + h[1] + bytes([types[1]]) + h[2] + bytes([types[2]]) + b'\1' + \
        bytes([rt_]) + body + wb.END
    m.func([I32, I64], [rt_], b'', export='f')
    secs = m.sections()
    raw = wb.MAGIC
    for i, b in secs:
        if i == 10:
            b = wb.vec([wb.uleb(len(code)) + code])
        raw += wb.section(i, b)
    p.seal(raw)

    def leb2(v):
        return [(v & 0x7f) | 0x80, v >> 7]

    def run(x):
        for n in ('n0', 'n1', 'n2', 'k'):
            x.assume(z3.ULE(x.t(n), 3))
        x.assume(z3.ULT(x.t('k'), x.t('n1')))
        n0, n1, n2, k = (x.pick(n) for n in ('n0', 'n1', 'n2', 'k'))
        if not k < n1:
            return ('skip',)
        X = 2 + n0 + k
        last = 2 + n0 + n1 + n2
        rt, inst = x.instance(p.fill(x, leb2(n0), leb2(n1), leb2(n2), leb2(X), leb2(last), leb2(X), leb2(last)))
        return x.attempt(rt.invocate, inst, 'f', [x.i('r'), x.i('q')])

    def check(x, obs):
        if obs[0] == 'skip':
            return []
        if obs[0] != 'ret' or len(obs[1]) != 1:
            return [('returns', F)]
        return [('declared locals start as zero in every activation', eqv(obs[1][0], bvv(0, 32 if rt_ == I32 else 64), True))]
    return Case('locals.' + '.'.join('%02x' % t for t in order), {'n0': 2, 'n1': 2, 'n2': 2, 'k': 2, 'r': 32, 'q': 64},
                run, check, bounds='declared local runs of every length 0..3: zero of the right type in each activation')


def bulk_case(t, n, path):
    """Many locals of one declaration: the first, the last and one between start as zero, hold their own values, and survive a call."""
    m = wb.Mod()
    W = {I32: 32, I64: 64, F32: 32, F64: 64}[t]
    zero = {I32: b'', I64: b'', F32: b'\xbc', F64: b'\xbd'}[t]
    conv = {I32: b'', I64: b'', F32: b'\xbe', F64: b'\xbf'}[t]
    it = I32 if W == 32 else I64
    at = sorted({1, 1 + n // 2, n})                 # local 0 is the parameter
    h = m.func([it], [it], b'', locals=[])
    # callee: reads, then overwrites, then reads again
    one = wb.i32c(1) if it == I32 else wb.i64c(1)
    add = b'\x6a' if it == I32 else b'\x7c'
    body = b''.join(wb.lget(i) + zero for i in at)
    for k, i in enumerate(at):
        body += wb.lget(0) + (wb.i32c(k) if it == I32 else wb.i64c(k)) + add + conv + wb.lset(i)
    body += wb.lget(0) + wb.call(2) + b'\x1a'
    body += b''.join(wb.lget(i) + zero for i in at) + wb.lget(n + 1)
    rets = [it] * (2 * len(at)) + [I64]
    m.funcs[0] = (m.funcs[0][0], [], wb.lget(0))
    m.func([it], rets, body, locals=[(n, t), I64], export='f')
    m.func([it], [it], wb.lget(0) + one + add + wb.ltee(0), locals=[(n, t)])
    m.func([it], rets, wb.lget(0) + wb.call(1), locals=[(3, t)], export='g')
    base = m.build()

    def run(x):
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, path, [x.i('a')])

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != len(rets):
            return [('returns', F)]
        k = len(at)
        out = [(f'local {i} starts as zero', eqv(o, bvv(0, W), True)) for i, o in zip(at, obs[1])]
        out += [(f'local {i} keeps its value', eqv(o, x.t('a') + j, True)) for j, (i, o) in enumerate(zip(at, obs[1][k:]))]
        return out + [('the next declaration starts as zero', eqv(obs[1][-1], bvv(0, 64), True))]
    return Case(f'bulk.{t:02x}.{n}.{path}', {'a': W}, run, check, bounds='declarations of up to 300 (thorough: 20000) locals')


def host_case(k):
    """Arguments to and results from a host function, in order, with operands below."""
    r = random.Random(f'host{k}')
    n = r.randrange(2, 6)
    ts = [r.choice([I32, I64]) for _ in range(n)]
    perm = list(range(n))
    r.shuffle(perm)
    rts = [ts[i] for i in perm]
    m = wb.Mod()
    h = m.import_func('e', 'h', ts, rts)
    ind = k % 2
    call = wb.call(h)
    if ind:
        m.table(wb.FUNCREF, 2)
        m.elem_active(wb.i32c(1), [h])
        call = wb.i32c(1) + b'\x11' + wb.uleb(m.type(ts, rts)) + b'\0'
    m.func(ts, [I64] + rts + ts, wb.i64c(77) + b''.join(wb.lget(i) for i in range(n)) + call + b''.join(wb.lget(i) for i in range(n)), export='f')
    base = m.build()
    W = {I32: 32, I64: 64}

    def run(x):
        V = x.pw.core
        vt = {t: V.ValType(t) for t in (I32, I64)}
        rt, inst = x.instance(base, lambda rt: {'e': {'h': rt.allocate_func_host(V.FuncType([vt[t] for t in ts], [vt[t] for t in rts]),
                                                                              lambda mach, a: [a[i] for i in perm])}})
        return x.attempt(rt.invocate, inst, 'f', [x.i(f'a{i}') for i in range(n)])

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != 1 + 2 * n:
            return [('returns', F)]
        want = [x.t(f'a{i}') for i in perm + list(range(n))]
        return [('operand below', eqv(obs[1][0], bvv(77, 64), True))] + [(f'value {j}', eqv(o, w, True)) for j, (o, w) in enumerate(zip(obs[1][1:], want))]
    return Case(f'host.{k}', {f'a{i}': W[t] for i, t in enumerate(ts)}, run, check, bounds='calls of host functions, direct and indirect')


def rec_case(kind):
    """Recursion: f(n) = n == 0 ? p : f(n-1) + 1, directly, mutually, or through the table."""
    m = wb.Mod()
    t = m.type([I32, I32], [I32])
    m.table(wb.FUNCREF, 2)
    m.elem_active(wb.i32c(0), [0, 1])

    def body(callee):
        c = wb.call(callee) if kind != 'indirect' else wb.i32c(callee) + b'\x11' + wb.uleb(t) + b'\0'
        return wb.lget(0) + b'\x45\x04\x7f' + wb.lget(1) + b'\x05' + wb.lget(0) + wb.i32c(1) + b'\x6b' + wb.ltee(2) + \
            wb.lget(1) + c + wb.lget(2) + b'\x6a' + wb.lget(0) + b'\x6b' + wb.i32c(2) + b'\x6a' + b'\x0b'
    other = 1 if kind == 'mutual' else 0
    m.func([I32, I32], [I32], body(other), locals=[I32], export='f')
    m.func([I32, I32], [I32], body(0), locals=[I32])
    base = m.build()

    def run(x):
        x.assume(z3.Or(z3.ULE(x.t('n'), 8), x.t('n') == 300, z3.UGE(x.t('n'), 1100)))
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, 'f', [x.i('n'), x.i('p')])

    def check(x, obs):
        small = z3.ULE(x.t('n'), 300)
        if obs[0] == 'trap':
            return [('traps only when exhausted', z3.Not(small))]
        # each level adds (n-1) - n + 2 = 1
        return [('exhaustion traps', small), ('result', z3.Implies(small, eqv(obs[1][0], x.t('p') + x.t('n'), True)))]
    return Case(f'recursion.{kind}', {'n': 32, 'p': 32}, run, check, expect=('ret', 'trap'), seconds=150,
                bounds='recursion to depths 0..8, 300 and beyond 1100 (must trap)')


def cross_case():
    """A function imported from another instance runs in its own module: every index space is its own."""
    b = wb.Mod()
    b.type([I64], [])                       # shift type indices
    ty = b.type([I32], [I32])
    b.mem(1, export='m')
    b.table(wb.FUNCREF, 3)
    g = b.glob(I32, 1, wb.i32c(0), export='g')
    b.glob(I64, 0, wb.i64c(5))
    b.data_passive(b'BBBB')
    b.func([I32], [], wb.lget(0) + b'\x24' + wb.uleb(g), export='setg')
    f3 = b.func([I32], [I32], wb.lget(0) + wb.i32c(300) + b'\x6a')
    b.elem_active(wb.i32c(1), [f3])
    b.elem_passive([f3])
    # h(x): mem[0] = x; init mem[4..8]; (loop type index) global + load + indirect + sizes
    body = wb.i32c(0) + wb.lget(0) + b'\x36\x02\0' + wb.i32c(4) + wb.i32c(0) + wb.i32c(4) + wb.fc(8) + b'\0\0' + \
        wb.i32c(2) + wb.i32c(0) + wb.i32c(1) + wb.fc(12) + b'\1\0' + \
        wb.i32c(0) + b'\x28\x02\0' + wb.i32c(2) + b'\x11' + wb.uleb(ty) + b'\0' + \
        b'\x23' + wb.uleb(g) + b'\x6a' + wb.i32c(4) + b'\x2d\0\0' + b'\x6a' + wb.fc(16) + b'\0\x6a' + \
        b'\x02' + wb.uleb(ty) + wb.call(f3) + b'\x0b'
    b.func([I32], [I32], body, export='h')
    bb = b.build()
    a = wb.Mod()
    a.type([F64], [F64])
    a.type([F32], [])               # type indices that mean something else in the other module
    a.type([F32], [F64])
    h = a.import_func('b', 'h', [I32], [I32])
    a.mem(2, export='m')
    a.table(wb.FUNCREF, 7)
    a.glob(I64, 0, wb.i64c(9))
    ga = a.glob(I32, 1, wb.i32c(0))
    a.data_passive(b'AAAA')
    f1 = a.func([I32], [I32], wb.lget(0) + wb.i32c(1) + b'\x6a')
    a.elem_active(wb.i32c(2), [f1, h])
    ta = a.type([I32], [I32])
    # f(x, v): ga = v; mem[0] = v; r = h(x) via call or table; returns r, ga, mem[0], memory.size, table.size, f1(x)
    for nm, c in (('f', wb.call(h)), ('fi', wb.i32c(3) + b'\x11' + wb.uleb(ta) + b'\0')):
        body = wb.lget(1) + b'\x24' + wb.uleb(ga) + wb.i32c(0) + wb.lget(1) + b'\x36\x02\0' + wb.i32c(77) + wb.lget(0) + c + \
            b'\x23' + wb.uleb(ga) + wb.i32c(0) + b'\x28\x02\0' + b'\x3f\0' + wb.fc(16) + b'\0' + wb.lget(0) + wb.call(f1) + \
            wb.lget(1)
        a.func([I32, I32], [I32] * 8, body, export=nm)
    ab = a.build()

    def run(x):
        rt, bi = x.instance(bb)
        rt.imports = {'b': {e.name: e.data for e in bi.exps}}
        ai = rt.instance(x.module(ab))
        rt.invocate(bi, 'setg', [x.i('g')])
        out = []
        for nm in ('f', 'fi'):
            out.append(x.attempt(rt.invocate, ai, nm, [x.i('x'), x.i('v')]))
        mb = rt.exported_memory(bi, 'm').get(0, 8)
        return 'ret', out, mb, rt.exported_global(bi, 'g').data.into_i32()

    def check(x, obs):
        xx, v, g = x.t('x'), x.t('v'), x.t('g')
        want = [bvv(77, 32), xx + 300 + g + 0x42 + 3 + 300, v, v, bvv(2, 32), bvv(7, 32), xx + 1, v]
        out = []
        for k, o in enumerate(obs[1]):
            if o[0] != 'ret' or len(o[1]) != len(want):
                out.append((f'call {k} returns', F))
                continue
            out += [(f'call {k} value {j}', eqv(e, w, True)) for j, (e, w) in enumerate(zip(o[1], want))]
        out.append(('callee memory', eqbytes(obs[2], [z3.Extract(8 * b + 7, 8 * b, xx) for b in range(4)] + list(b'BBBB'))))
        out.append(('callee global', eqv(obs[3], g, True)))
        return out
    return Case('cross.module', {'x': 32, 'v': 32, 'g': 32}, run, check,
                bounds='a call into another instance uses that instance for every index space, and returns to the caller\'s')


def vars_case():
    """local/global get, set, tee for every type: values unaltered, in place and independent."""
    m = wb.Mod()
    ts = [I32, I64, F32, F64, wb.V128, wb.EXTERNREF]
    zero = {I32: wb.i32c(0), I64: wb.i64c(0), F32: b'\x43\0\0\0\0', F64: b'\x44' + bytes(8),
            wb.V128: b'\xfd\x0c' + bytes(16), wb.EXTERNREF: b'\xd0\x6f'}
    gs = [[m.glob(t, 1, zero[t]) for t in ts] for _ in range(2)]
    io = {F32: I32, F64: I64}
    n = len(ts)
    conv = {F32: b'\xbe', F64: b'\xbf'}
    back = {F32: b'\xbc', F64: b'\xbd'}
    # params: bits; locals: two copies of every type
    code = b''
    for k, t in enumerate(ts):
        code += wb.lget(k) + conv.get(t, b'') + wb.ltee(n + k) + wb.ltee(2 * n + k) + b'\x24' + wb.uleb(gs[0][k])
    for k, t in enumerate(ts):      # overwrite the first copy of the local, read back the others
        code += zero[t] + wb.lset(n + k) + b'\x23' + wb.uleb(gs[0][k]) + b'\x24' + wb.uleb(gs[1][k])
        code += zero[t] + b'\x24' + wb.uleb(gs[0][k])
    for k, t in enumerate(ts):
        code += wb.lget(2 * n + k) + back.get(t, b'') + b'\x23' + wb.uleb(gs[1][k]) + back.get(t, b'')
        code += wb.lget(k)
    m.func([io.get(t, t) for t in ts], [io.get(t, t) for t in ts for _ in range(3)], code, locals=ts + ts, export='f')
    base = m.build()
    wd = {I32: 32, F32: 32, I64: 64, F64: 64, wb.V128: 128, wb.EXTERNREF: 32}

    def run(x):
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, 'f', [x.bytes(f'a{i}') if t == wb.V128 else x.i(f'a{i}') for i, t in enumerate(ts)])

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != 3 * n:
            return [('returns', F)]
        out = []
        for j, o in enumerate(obs[1]):
            t = x.t(f'a{j // 3}')
            c = eqbytes(o, [z3.Extract(8 * b + 7, 8 * b, t) for b in range(16)]) if ts[j // 3] == wb.V128 else eqv(o, t, True)
            out.append((f'variable {j // 3} copy {j % 3}', c))
        return out
    return Case('variables', {f'a{i}': wd[t] for i, t in enumerate(ts)}, run, check,
                bounds='local and global get/set/tee for every value type: every bit pattern')


def cases(tier):
    out = [vars_case(), cross_case()] + [rec_case(k) for k in ('direct', 'mutual', 'indirect')]
    out += [bulk_case(t, n, p) for t in (I32, I64, F32, F64) for n in (5, 33, 300) + ((20000,) if tier != 'quick' else ()) for p in 'fg']
    out += [host_case(k) for k in range(6)]
    out += [shuffle_case(k) for k in range(12 if tier == 'quick' else 60)]
    T = [I32, I64, F32, F64]
    out += [locals_case((T[k], T[(k + d) % 4], T[(k + 2 * d) % 4])) for k in range(4) for d in (1, 2, 3)]
    out += [gen_case(k) for k in range(150 if tier == 'quick' else 1500)]
    if tier != 'quick':
        out += [gen_case(k, 4, 14, 2) for k in range(2000, 2300)]
    return out
