"""C17: a trap leaves the runtime usable and keeps completed effects only."""
import random
import z3
from sx.harness import Case, eqv, eqbytes, tt, B
from sx.core import bvv, zext
from sx import wb
from . import prog
from .prog import I32, I64, F32, F64
from .util import PAGE, byte1, z64
from .c14 import exports, outcome

ASSUMPTIONS = [
    'histories of up to 6 invocations over up to 3 instances; trap sites at nesting depth up to 4 in up to 4 activations, generated '
    'programs with up to 3 trap sites and 6 effects; every argument value and every position of the trap they select',
    'exceptions of host functions: every exception class derived from Exception, and SystemExit',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
FN = wb.FUNCREF


# -- generated histories ------------------------------------------------------------------------------------------------
OOB = {'unreachable': b'\0', 'div': wb.i32c(7) + wb.i32c(0) + b'\x6d\x1a', 'load': wb.i32c(-4) + b'\x28\2\0\x1a',
       'store': wb.i32c(PAGE - 3) + wb.i32c(-1) + b'\x36\2\0', 'store64': wb.i32c(PAGE - 1) + wb.i64c(-1) + b'\x37\3\0',
       'fill': wb.i32c(8) + wb.i32c(1) + wb.i32c(PAGE) + b'\xfc\x0b\0', 'copy': wb.i32c(0) + wb.i32c(16) + wb.i32c(PAGE - 15) + b'\xfc\x0a\0\0',
       'tget': wb.i32c(9) + b'\x25\0\x1a', 'tset': wb.i32c(9) + b'\xd2\0\x26\0', 'null': wb.i32c(1) + b'\x11\x7e\0',
       'trunc': b'\x43\0\0\xc0\x7f\xa8\x1a', 'overflow': b'\x42\x80\x80\x80\x80\x80\x80\x80\x80\x80\x7f\x42\x7f\x7f\x1a'}


def effect(r):
    n = r.randrange(3)
    k = r.randrange(1, 100)
    three = wb.i32c(3) + b'\x6c' + wb.i32c(k) + b'\x6a'
    if n == 0:
        code = b'\x23\0' + three + b'\x24\0'
    else:
        at = wb.i32c(4 * n) + wb.i32c(4 * n) + b'\x28\2\0' if n == 1 else wb.i32c(PAGE - 4) + wb.i32c(PAGE - 4) + b'\x28\2\0'
        code = at + three + b'\x36\2\0'
    return ('eff', n, k, code)


def inject(r, seq, traps, effs, bits):
    """Insert effects and conditional traps at random places of a body (also nested ones)."""
    spots = []

    def walk(s):
        for k in range(len(s) + 1):
            spots.append((s, k))
        for i in s:
            if i[0] in ('block', 'loop'):
                walk(i[3])
            elif i[0] == 'if':
                walk(i[3])
                if i[4] is not None:
                    walk(i[4])
    walk(seq)
    todo = [('e', None)] * effs + [('t', r.choice(bits)) for _ in range(traps)]
    r.shuffle(todo)
    picked = sorted((r.randrange(len(spots)) for _ in todo), reverse=True)
    for at, (k, bit) in zip(picked, todo):
        s, i = spots[at]
        if k == 'e':
            s.insert(i, effect(r))
        else:
            t = r.choice(list(OOB))
            body = [effect(r), ('trap', OOB[t]), ('unreachable',)] if r.random() < 0.5 else [('trap', OOB[t]), ('unreachable',)]
            s[i:i] = [('get', 0), ('const', I32, bit), ('bin', 0x71), ('if', [], [], body, None)]
    return seq


def thaw(seq):
    """Sequences of a body as mutable lists, shared with nothing."""
    out = []
    for i in seq:
        if i[0] in ('block', 'loop'):
            i = (i[0], i[1], i[2], thaw(i[3]))
        elif i[0] == 'if':
            i = (i[0], i[1], i[2], thaw(i[3]), None if i[4] is None else thaw(i[4]))
        out.append(i)
    return out


def history_case(k, calls=3, n=2, conds=1, traps=1, limit=64):
    r = random.Random(f'c17-{k}')
    fs = []
    bits = [1 << b for b in (0, 4)]
    for j in range(n):
        g = prog.Gen(f'c17-{k}-{j}', size=8, depth=3, conds=conds, callee=[(i, f) for i, f in enumerate(fs)], start=0.95 if j else None)
        f = g.func()
        f['body'] = inject(r, thaw(f['body']), traps, 3, bits)
        fs.append(f)
    ws = [prog.wrapper(f, i, r) for i, f in enumerate(fs)]
    allf = fs + ws
    m = wb.Mod()
    m.mem(1, export='mem')
    m.table(FN, 2)
    m.glob(I32, 1, wb.i32c(1), export='g')
    m.datas = [b'\0' + wb.i32c(4) + wb.END + b'\4\2\0\0\0', b'\0' + wb.i32c(PAGE - 4) + wb.END + b'\4\3\0\0\0']
    prog.build(m, allf, {f'w{i}': n + i for i in range(n)})
    # type 0x7e of OOB['null'] does not exist: give every null call a real type
    base = m.build()
    ref = prog.Ref(allf, globs=[bvv(1, 32), bvv(2, 32), bvv(3, 32)])
    order = [r.randrange(n) for _ in range(calls)]
    try:
        ref.history([(n + order[c], [z3.BitVec(f'{v}{c}', w) for v, w in zip('ctpqsd', (32, 32, 32, 64, 32, 64))]) for c in range(calls)], limit=limit)
    except AssertionError:                  # too many histories: fewer invocations
        return history_case(k, calls - 1, n, conds, traps, limit) if calls > 1 else None
    inputs = {}
    for c in range(calls):
        inputs.update({f'c{c}': 32, f'p{c}': 32, f'q{c}': 64})
    inputs.update({'t': 32, 's': 32, 'd': 64})
    names = [[f'c{c}', 't', f'p{c}', f'q{c}', 's', 'd'] for c in range(calls)]

    def run(x):
        rt, inst = x.instance(base)
        out = []
        for c in range(calls):
            o = x.attempt(rt.invocate, inst, f'w{order[c]}', [x.i(v) for v in names[c]])
            mem = rt.exported_memory(inst, 'mem')
            out.append((o[0], list(o[1]) if o[0] == 'ret' else None, rt.exported_global(inst, 'g').data.into_i32(), mem.get_i32(4), mem.get_i32(PAGE - 4)))
        return 'ret', out

    memo = []

    def histories(x):
        if not x.sym or not memo:
            h = ref.history([(n + order[c], [x.t(v) for v in names[c]]) for c in range(calls)], limit=3000)
            if not x.sym:
                return h
            memo.append(h)
        return memo[0]

    def check(x, obs):
        out = []
        for k, (cond, rs) in enumerate(histories(x)):
            ok = []
            for (kind, vals, gl), o in zip(rs, obs[1]):
                if (kind == 'trap') != (o[0] == 'trap') or (kind == 'ret' and len(vals) != len(o[1])):
                    ok.append(F)
                    break
                ok += [eqv(a, v, True) for a, v in zip(o[1] or [], vals or [])] + [eqv(a, v, True) for a, v in zip(o[2:], gl)]
            out.append(z3.Implies(cond, z3.And(ok)))
        return [('agrees with the reference history', z3.And(out))]
    return Case(f'history.{k}', inputs, run, check, expect=('ret',), seconds=120,
                bounds='generated programs with effects and traps at every depth, invoked several times; every argument')


# -- each trapping instruction, in each surrounding --------------------------------------------------------------------
def kinds():
    """name -> (code with locals 0 (i32 a) and 1 (i32 b), condition(a, b) under which it traps, effect)."""
    a, b = wb.lget(0), wb.lget(1)
    return {
        'unreachable': b'\0', 'div_s': a + b + b'\x6d\x1a', 'rem_u': a + b + b'\x70\x1a', 'load': a + b'\x28\2\x10\x1a', 'load8': a + b'\x2d\0\0\x1a',
        'store': a + b + b'\x36\2\0', 'store16': a + b + b'\x3b\1\3', 'v128.store': a + b + b'\xfd\x11\xfd\x0b\4\0', 'store_lane': a + b + b'\xfd\x11\xfd\x5a\2\0\1',
        'fill': a + wb.i32c(0x77) + b + b'\xfc\x0b\0', 'copy': a + wb.i32c(8) + b + b'\xfc\x0a\0\0', 'init': a + wb.i32c(0) + b + b'\xfc\x08\0\0',
        'tget': a + b'\x25\0\x1a', 'tset': a + b'\xd2\0\x26\0', 'tfill': a + b'\xd2\0' + b + b'\xfc\x11\0', 'tcopy': a + wb.i32c(1) + b + b'\xfc\x0e\0\0',
        'tinit': a + wb.i32c(0) + b + b'\xfc\x0c\1\0', 'call_indirect': b + a + b'\x11\x00\0\x1a', 'trunc': a + b'\xbe\xa8\x1a',
        'host': a + b + b'\x10\0',
    }


WRAPS = ('plain', 'block', 'loop', 'ifelse', 'callee', 'indirect', 'operands', 'deep')


def site_case(kind, wrap):
    """store; global.set; <trap?>; store in surroundings `wrap`.  Then: read everything, run other functions, trap again."""
    code = kinds()[kind]
    m = wb.Mod()
    m.types = [wb.functype([I32], [I32])]
    h = m.import_func('e', 'h', [I32, I32], [])
    m.mem(1, 2, export='mem')
    m.table(FN, 4, export='tab')
    m.glob(I32, 1, wb.i32c(0), export='g')
    m.datas = [b'\1' + b'\x08abcdefgh']
    two = m.func([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a')
    # function 0 (the host) in the table has another type; entry 1 holds `two`, 0 and 3 are null
    m.elem(b'\2\0' + wb.i32c(1) + b'\x0b\0' + wb.vec([wb.uleb(two), wb.uleb(h)]))
    m.elem(b'\1\0' + wb.vec([wb.uleb(two), wb.uleb(two)]))
    before = wb.i32c(100) + wb.lget(2) + b'\x36\2\0' + wb.lget(2) + b'\x24\0'
    after = wb.i32c(104) + wb.lget(2) + b'\x36\2\0' + b'\x23\0' + wb.i32c(1) + b'\x6a\x24\0'
    P = [I32, I32, I32]
    get3 = wb.lget(0) + wb.lget(1) + wb.lget(2)
    if wrap == 'plain':
        body = before + code + after
    elif wrap == 'block':
        body = wb.i64c(5) + b'\x02\x40\x02\x40' + before + code + after + b'\x0b\x0b\x1a'
    elif wrap == 'loop':
        body = wb.i64c(5) + b'\x03\x40' + before + code + after + b'\x0b\x1a'
    elif wrap == 'ifelse':
        body = before + wb.lget(2) + b'\x04\x40' + code + b'\x05\x02\x40' + code + b'\x0b\x0b' + after
    elif wrap in ('callee', 'deep', 'indirect'):
        f = m.func(P, [I64], before + code + after + wb.i64c(9), locals=[I64, F64])
        for _ in range(3 if wrap == 'deep' else 0):
            f = m.func(P, [I64], wb.i64c(4) + b'\x02\x7e\x02\x7e' + get3 + wb.call(f) + b'\x0b\x0b\x7c', locals=[I32])
        if wrap == 'indirect':
            m.table(FN, 1)
            m.elem(b'\2\1' + wb.i32c(0) + b'\x0b\0' + wb.vec([wb.uleb(f)]))
            body = wb.i64c(1) + get3 + wb.i32c(0) + b'\x11' + wb.uleb(m.type(P, [I64])) + b'\1\x1a\x1a'
        else:
            body = wb.i64c(1) + get3 + wb.call(f) + b'\x1a\x1a'
    else:
        body = wb.i32c(1) + wb.i64c(2) + b'\x02\x7f' + wb.i32c(3) + before + code + after + b'\x0b\x1a\x1a\x1a'
    m.func(P, [], body, export='f')
    m.func([I32], [I32, I32], wb.lget(1) + b'\x02\x7f' + wb.lget(0) + wb.call(two) + b'\x0b', locals=[I32], export='probe')
    m.func([I32], [I32], wb.lget(0) + b'\x25\0\xd1', export='null')
    img = m.build()
    o2 = wb.Mod()
    o2.import_func('p', 'f', P, [])
    o2.import_func('p', 'probe', [I32], [I32, I32])
    o2.func(P, [I32], wb.i32c(3) + wb.i64c(4) + b'\x02\x40' + get3 + wb.call(0) + b'\x0b\x1a', export='f2')
    o2.func([I32], [I32, I32], wb.lget(0) + wb.call(1), export='probe2')
    img2 = o2.build()
    S = PAGE

    def run(x):
        x.assume(z3.ULT(zext(x.t('j'), 32), S))
        x.assume(z3.Or(z3.ULE(x.t('j') + 0, 99), z3.UGE(x.t('j'), 108)))
        if kind in ('fill', 'tfill', 'tcopy', 'tinit', 'init'):      # lengths: small, or too large for sure
            x.assume(z3.Or(z3.ULE(x.t('b'), 9), z3.UGE(x.t('b'), 0xfffffff0)))
            if x.truth(x.u('b') < 10):
                x.pick('b')

        def host(mach, a):
            if a[0] == 7:
                raise KeyError('host')
            return []

        def imp(rt):
            V = x.pw.core
            t = V.ValType.i32()
            return {'e': {'h': rt.allocate_func_host(V.FuncType([t, t], []), host)}}
        rt, inst = x.instance(img, imp)
        rt.imports['p'] = exports(inst)
        second = rt.instance(x.module(img2))
        mem = rt.exported_memory(inst, 'mem')
        mem.put(0, x.bytes('mem'))
        a, b, v = x.i('a'), x.i('b'), x.i('v')
        o = x.attempt(rt.invocate, second, 'f2', [a, b, v])
        one = (o[0], mem.get(x.u('j'), 1), mem.get(100, 8), rt.exported_global(inst, 'g').data.into_i32(), rt.invocate(inst, 'probe', [v]))
        nul = [rt.invocate(inst, 'null', [k])[0] for k in range(4)]
        o2 = x.attempt(rt.invocate, inst, 'f', [a, b, v])
        return ('ret' if o[0] == 'ret' else 'trap', one, nul, o2[0], rt.invocate(second, 'probe2', [v]), list(o[1]) if o[0] == 'ret' else None,
                rt.invocate(inst, 'probe', [b]), mem.get(104, 4))

    def check(x, obs):
        a, b, v, j = x.t('a'), x.t('b'), x.t('v'), x.t('j')
        A, N = z64(a), z64(b)
        ok = {
            'unreachable': F, 'div_s': z3.And(b != 0, z3.Not(z3.And(a == bvv(1 << 31, 32), b == bvv(-1, 32)))), 'rem_u': b != 0,
            'load': z3.ULE(A + 20, S), 'load8': z3.ULE(A + 1, S), 'store': z3.ULE(A + 4, S), 'store16': z3.ULE(A + 5, S),
            'v128.store': z3.ULE(A + 16, S), 'store_lane': z3.ULE(A + 4, S), 'fill': z3.ULE(A + N, S), 'copy': z3.And(z3.ULE(A + N, S), z3.ULE(8 + N, S)),
            'init': z3.And(z3.ULE(A + N, S), z3.ULE(N, 8)), 'tget': z3.ULT(A, 4), 'tset': z3.ULT(A, 4), 'tfill': z3.ULE(A + N, 4),
            'tcopy': z3.And(z3.ULE(A + N, 4), z3.ULE(N + 1, 4)), 'tinit': z3.And(z3.ULE(A + N, 4), z3.ULE(N, 2)), 'call_indirect': a == 1,
            'trunc': trunc_ok(a), 'host': a != 7}[kind]
        out = [('traps exactly when the instruction does', ok == B(obs[0] == 'ret')), ('and so does a second run', ok == B(obs[3] == 'ret'))]
        o, got, cell, g, pr = obs[1]
        out.append(('probe', pair(pr, v)))
        out.append(('probe through another instance', pair(obs[4], v)))
        out.append(('probe again', pair(obs[6], b)))
        if obs[0] == 'ret':
            return out + [('result', eqv(obs[5][0], bvv(3, 32), True) if len(obs[5]) == 1 else F), ('global', eqv(g, v + 1, True))]
        vb = [z3.Extract(8 * k + 7, 8 * k, v) for k in range(4)]
        old = [x.memat('mem', 104 + k) for k in range(4)]
        # a trap: what was stored before stays, nothing else changed
        out.append(('effects before the trap', z3.And(eqv(g, v, True), eqbytes(cell, vb + old))))
        out.append(('no effect of the trapping instruction or after it', z3.And(byte1(got) == x.memat('mem', j), eqbytes(obs[7], old))))
        out += [(f'table entry {k}', eqv(n, bvv(0 if k in (1, 2) else 1, 32), True)) for k, n in enumerate(obs[2])]
        return out
    return Case(f'site.{kind}.{wrap}', {'a': 32, 'b': 32, 'v': 32, 'j': 17, 'mem': ('mem', S)}, run, check, nval=3,
                expect=('trap',) if kind == 'unreachable' else ('ret', 'trap'), seconds=120,
                bounds='every operand of every trapping instruction in every surrounding; every memory contents')


def trunc_ok(a):
    f = z3.fpBVToFP(a, z3.Float32())
    lim = z3.FPVal(2147483648.0, z3.Float32())
    return z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpLT(f, lim), z3.fpGEQ(f, z3.fpNeg(lim)))


def pair(o, v):
    return z3.And(eqv(o[0], bvv(0, 32), True), eqv(o[1], v + 2, True)) if isinstance(o, (list, tuple)) and len(o) == 2 else F


# -- host functions: exceptions and re-entrance -------------------------------------------------------------------------
def nested_case(catch, depth):
    """wasm -> host -> invocate -> wasm (traps or not) ...; the host catches or not; the outer activation continues intact."""
    m = wb.Mod()
    h = m.import_func('e', 'h', [I32, I64], [I32])
    m.glob(I32, 1, wb.i32c(0), export='g')
    m.mem(1, export='mem')
    # inner(n): traps if n == t, counting its completed runs in g
    m.func([I32], [I32], b'\x23\0' + wb.i32c(1) + b'\x6a\x24\0' + wb.lget(0) + wb.i32c(0) + b'\x28\2\0\x46\x04\x40' + wb.i32c(9) + b'\0\x0b' +
           b'\x23\0' + wb.i32c(16) + b'\x6a\x24\0' + wb.lget(0), export='inner')
    # outer(n, q): operands and locals of its own around a call of the host
    m.func([I32, I64], [I64, I32, I64, I32], wb.i64c(21) + b'\x02\x7f' + wb.i32c(5) + b'\x1a' + wb.lget(0) + wb.lget(1) + wb.call(h) + b'\x0b' +
           wb.lset(2) + wb.lget(2) + wb.lget(1) + wb.lget(0), locals=[I32], export='outer')
    m.func([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a', export='probe')
    img = m.build()

    def run(x):
        n, q = x.i('n'), x.i('q')
        seen = []

        def host(mach, a):
            seen.append(list(a))
            if len(seen) < depth:
                o = x.attempt(rt.invocate, inst, 'outer', [a[0], a[1]])
            else:
                o = x.attempt(rt.invocate, inst, 'inner', [a[0]])
            if o[0] == 'ret':
                return [o[1][0] if len(seen) < depth + 1 and len(o[1]) == 1 else o[1][1]]
            if not catch:
                raise ValueError('no')
            p = rt.invocate(inst, 'probe', [5])
            return [p[0]]

        def imp(rt):
            V = x.pw.core
            return {'e': {'h': rt.allocate_func_host(V.FuncType([V.ValType.i32(), V.ValType.i64()], [V.ValType.i32()]), host)}}
        rt, inst = x.instance(img, imp)
        rt.exported_memory(inst, 'mem').put_i32(0, x.i('t'))
        o = x.attempt(rt.invocate, inst, 'outer', [n, q])
        g = rt.exported_global(inst, 'g').data.into_i32()
        p = rt.invocate(inst, 'probe', [n])[0]
        return outcome(o, list(o[1]) if o[0] == 'ret' else None, g, p, seen)

    def check(x, obs):
        n, q, t = x.t('n'), x.t('q'), x.t('t')
        hit = n == t
        out = [('probe afterwards', eqv(obs[3], n + 2, True)), ('effects', eqv(obs[2], z3.If(hit, bvv(1, 32), bvv(17, 32)), True)),
               ('host arguments', z3.And([z3.And(eqv(a[0], n, True), eqv(a[1], q, True)) for a in obs[4]] + [B(len(obs[4]) == depth)]))]
        if not catch:
            out.append(('the trap reaches the embedder', hit == B(obs[0] == 'trap')))
        else:
            out.append(('returns', B(obs[0] == 'ret')))
        if obs[0] == 'ret':
            w = [bvv(21, 64), z3.If(hit, bvv(7, 32), n), q, n]
            out.append(('the outer activation is intact', z3.And([eqv(a, b, True) for a, b in zip(obs[1], w)] + [B(len(obs[1]) == 4)])))
        return out
    return Case(f'nested.{"catch" if catch else "pass"}.{depth}', {'n': 32, 'q': 64, 't': 32}, run, check,
                expect=('ret',) if catch else ('ret', 'trap'), bounds='host functions that invoke exports, which trap or not')


class Custom(Exception):
    pass


EXC = (AssertionError('a'), KeyError('k'), ValueError('v'), ZeroDivisionError(), IndexError(), RuntimeError('r'), OSError(2, 'x'), StopIteration(),
       Custom('c'), SystemExit(3), SystemExit(0), EOFError(), TypeError('t'), RecursionError())


def exception_case(start):
    """An exception raised by a host function reaches the embedder as the same object; the runtime stays usable."""
    m = wb.Mod()
    h = m.import_func('e', 'h', [I32], [])
    m.glob(I32, 1, wb.i32c(0), export='g')
    f = m.func([I32], [I32], wb.i32c(6) + b'\x24\0\x02\x7f' + wb.lget(0) + wb.call(h) + wb.i32c(1) + b'\x0b\x24\0' + wb.i32c(8), export='f')
    m.func([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a', export='probe')
    if start:
        s = m.func([], [], wb.i32c(-1) + wb.call(f) + b'\x1a')
        m.start = s
    img = m.build()
    p2 = wb.Mod()
    p2.func([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a', export='probe')
    p2 = p2.build()

    def run(x):
        x.assume(z3.ULT(x.t('k'), len(EXC)))
        k = x.pick('k')
        e = EXC[k]

        def host(mach, a):
            if a[0] == x.i('n') or start and x.truth(x.i('n') == 0):
                raise e
            return []
        rt = x.pw.Runtime()
        other = rt.instance(x.module(p2))
        V = x.pw.core
        rt.imports['e'] = {'h': rt.allocate_func_host(V.FuncType([V.ValType.i32()], []), host)}
        what, err, g = 'ret', None, None
        try:
            inst = rt.instance(x.module(img))
            rt.invocate(inst, 'f', [x.i('a')])
            g = rt.exported_global(inst, 'g').data.into_i32()
        except BaseException as q:
            if q is not e:
                if not isinstance(q, Exception) or type(q).__module__.startswith('sx'):
                    raise
            what, err = 'trap', q
        return what, err is e, rt.invocate(other, 'probe', [x.i('a')])[0], g

    def check(x, obs):
        a, n = x.t('a'), x.t('n')
        hit = z3.Or(a == n, n == 0, n == bvv(-1, 32)) if start else a == n
        out = [('raised to the embedder', hit == B(obs[0] == 'trap')), ('the same exception', z3.Implies(hit, B(obs[1]))),
               ('usable', eqv(obs[2], a + 2, True))]
        if obs[0] == 'ret':
            out.append(('runs to the end', eqv(obs[3], bvv(1, 32), True)))
        return out
    return Case(f'exception.{"start" if start else "call"}', {'k': 8, 'a': 32, 'n': 32}, run, check, expect=('ret', 'trap'),
                bounds='every exception class of a fixed list, every argument')


# -- exhausted call stack -----------------------------------------------------------------------------------------------
def depth_case():
    """Unbounded recursion traps; afterwards recursion of the depth that was possible before is still possible."""
    m = wb.Mod()
    m.glob(I32, 1, wb.i32c(0), export='g')
    f = m.nfunc() if hasattr(m, 'nfunc') else 0
    m.func([I32], [I32], b'\x23\0' + wb.i32c(1) + b'\x6a\x24\0' + wb.lget(0) + b'\x04\x7f' + wb.lget(0) + wb.i32c(1) + b'\x6b' + wb.call(0) +
           wb.i32c(1) + b'\x6a\x05' + wb.i32c(0) + b'\x0b', export='f')
    img = m.build()

    def run(x):
        x.assume(z3.Or(x.t('n') == 5, x.t('n') == 900, x.t('n') == 5000, x.t('n') == 0xffffffff))
        n = x.pick('n')
        rt, inst = x.instance(img)
        o = x.attempt(rt.invocate, inst, 'f', [n if n < 6000 else -1])
        g = rt.exported_global(inst, 'g').data.into_i32()
        o2 = x.attempt(rt.invocate, inst, 'f', [900])
        o3 = x.attempt(rt.invocate, inst, 'f', [-1])
        o4 = x.attempt(rt.invocate, inst, 'f', [900])
        return outcome(o, o2[1][0] if o2[0] == 'ret' else -1, o3[0], o4[1][0] if o4[0] == 'ret' else -1, g)

    def check(x, obs):
        return [('deep recursion traps', z3.UGT(x.t('n'), 900) == B(obs[0] == 'trap')), ('usable after it', B(obs[1] == 900 and obs[2] == 'trap' and obs[3] == 900)),
                ('effects of completed calls remain', B(obs[4] > 900) if obs[0] == 'trap' else eqv(obs[4], x.t('n') + 1, True))]
    return Case('depth', {'n': 32}, run, check, expect=('ret', 'trap'), seconds=200, weight=30, nval=2, bounds='recursion of 5, 900 and unbounded depth')


# -- failing instantiation ----------------------------------------------------------------------------------------------
def instance_case(kind):
    """Instantiation that traps (segment, start, import mismatch): existing instances work on, later instantiation works."""
    prov = wb.Mod()
    prov.mem(1, export='m')
    prov.table(FN, 4, export='t')
    prov.glob(I32, 1, wb.i32c(0), export='g')
    two = prov.func([I32], [I32], wb.lget(0) + wb.i32c(2) + b'\x6a', export='probe')
    prov.func([I32], [I32], wb.lget(0) + b'\x25\0\xd1', export='null')
    prov = prov.build()
    from .util import Patch, sleb5
    p = Patch()
    p.hole(5)

    def build(hs):
        m = wb.Mod()
        m.import_mem('p', 'm', 1)
        m.import_table('p', 't', FN, 4)
        m.import_global('p', 'g', I32, 1)
        pr = m.import_func('p', 'probe', [I32], [I32])
        g2 = m.func([I32], [I32], wb.lget(0) + wb.call(pr), export='f')
        off = b'\x41' + hs[0] + wb.END
        if kind == 'data':
            m.datas = [b'\0' + wb.i32c(0) + wb.END + b'\2AB', b'\0' + off + b'\3xyz']
        elif kind == 'elem':
            m.elem(b'\0' + wb.i32c(0) + wb.END + wb.vec([wb.uleb(pr)]))
            m.elem(b'\0' + off + wb.vec([wb.uleb(pr)] * 3))
            m.datas = [b'\0' + wb.i32c(0) + wb.END + b'\2AB']
        else:
            m.datas = [b'\0' + wb.i32c(0) + wb.END + b'\2AB']
            body = b'\x41' + hs[0] + b'\x24\0' + wb.i64c(3) + b'\x02\x40\x41' + hs[1] + b'\x28\2\0\x1a\x0b\x1a' + wb.i32c(-1) + b'\x24\0'
            m.start = m.func([], [], body)
        return m.build()
    if kind == 'start':
        p.hole(5)
    p.make(build)

    def run(x):
        rt = x.pw.Runtime()
        a = rt.instance(x.module(prov))
        rt.imports['p'] = exports(a)
        d = x.module(p.fill(x, *([sleb5(x, 'o')] * (2 if kind == 'start' else 1))))
        o = x.attempt(rt.instance, d)
        mem = rt.exported_memory(a, 'm')
        c = mem.get(0, 2)
        g = rt.exported_global(a, 'g').data.into_i32()
        nul = [rt.invocate(a, 'null', [k])[0] for k in range(4)]
        p1 = rt.invocate(a, 'probe', [x.i('v')])
        o2 = x.attempt(rt.instance, d)
        p2 = rt.invocate(a, 'probe', [x.i('v')])
        b = rt.invocate(o[1], 'f', [x.i('v')]) if o[0] == 'ret' else None
        return outcome(o, c, g, nul, p1, o2[0], p2, b)

    def check(x, obs):
        o, v = z64(x.t('o')), x.t('v')
        ok = {'data': z3.ULE(o + 3, PAGE), 'elem': z3.ULE(o + 3, 4), 'start': z3.ULE(o + 4, PAGE)}[kind]
        one = lambda r: eqv(r[0], v + 2, True) if len(r) == 1 else F
        out = [('fails exactly when it must', ok == B(obs[0] == 'ret')), ('a second time too', ok == B(obs[5] == 'ret')), ('others are usable', z3.And(one(obs[4]), one(obs[6])))]
        if obs[7] is not None:
            out.append(('the new instance is usable', one(obs[7])))
        if obs[0] != 'ret':
            out.append(('completed segments remain', eqbytes(obs[1], list(b'AB' if kind != 'elem' else b'\0\0'))))
            if kind == 'start':
                out.append(('effects of start before the trap', eqv(obs[2], x.t('o'), True)))
            if kind == 'elem':
                out += [(f'entry {k}', eqv(n, bvv(0 if k == 0 else 1, 32), True)) for k, n in enumerate(obs[3])]
        return out
    return Case(f'instance.{kind}', {'o': 32, 'v': 32}, run, check, expect=('ret', 'trap'), bounds='every segment offset / start operand')


def cases(tier):
    out = [depth_case()]
    full = tier != 'quick'
    ks = list(kinds())
    for i, k in enumerate(ks):
        for j, w in enumerate(WRAPS):
            if full or (i + j) % 4 == 0:
                out.append(site_case(k, w))
    out += [nested_case(c, d) for c in (True, False) for d in (1, 2, 3)]
    out += [exception_case(False), exception_case(True)]
    out += [instance_case(k) for k in ('data', 'elem', 'start')]
    for k in range(60 if not full else 600):
        out.append(history_case(k, limit=64 if not full else 200))
    return out
