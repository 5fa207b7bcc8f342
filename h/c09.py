"""C09: structured control flow."""
import random
import z3
from sx.harness import Case
from sx.core import bvv
from sx import wb
from . import c16, prog
from .prog import I32, I64, F32, F64

ASSUMPTIONS = [
    'program shapes: the listed branch matrix and generated well-typed programs (nesting up to 4, loops up to 2 extra '
    'iterations); every condition, table index and operand value',
]
IN = {'c': 32, 't': 32, 'p': 32, 'q': 64, 's': 32, 'd': 64}


def args_of(x, names='ctpqsd'):
    return [x.i(n) for n in names]


def prog_case(name, f, r, bounds, direct=False):
    m = wb.Mod()
    w = prog.wrapper(f, 0, r)
    fs = [f, w]
    prog.build(m, fs, {'f': 0, 'w': 1})
    base = m.build()
    ref = prog.Ref(fs)
    entry, rets = ('f', f['rets']) if direct else ('w', w['rets'])

    def run(x):
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, entry, args_of(x))

    def check(x, obs):
        paths = ref.paths(0 if direct else 1, [x.t(n) for n in 'ctpqsd'])
        return prog.check_paths(obs, paths, rets)
    return Case(name, IN, run, check, expect=(), bounds=bounds, seconds=120)


def gen_case(k, direct=False, **kw):
    g = prog.Gen(f'c09-{k}', floats=not direct, **kw)
    return prog_case(f'prog.{"direct" if direct else "called"}.{k}', g.func(), random.Random(k),
                     'generated programs: nested block/loop/if with parameters and results, br, br_if, br_table, return, '
                     'select, drop, unreachable', direct)


def matrix():
    """Innermost branch of every kind to every depth, with leftovers, for every stack of enclosing constructs."""
    out = []
    kinds = ['block', 'loop', 'if', 'else']
    ins = ['br', 'br_if', 'br_table', 'return', 'fall']
    r = random.Random(99)
    n = 0
    for outer in kinds:
        for inner in kinds:
            for i in ins:
                for direct in (False, True):
                    out.append(matrix_case(outer, inner, i, r.choice([0, 1, 2]), r.choice([0, 1, 2]), r.choice([1, 2]),
                                           r, direct, n))
                    n += 1
    return out


def matrix_case(outer, inner, ins, ja, jb, nret, r, direct, n):
    """f: two nested constructs; the site in the inner one; target depth chosen at run time over all three labels for
    br_table, and by nested ifs for br/br_if."""
    rets = [I32, I64][:nret]
    tag = iter(range(1, 1000))

    def vals(ts):
        return [('const', t, next(tag)) for t in ts]

    def site(depth, targets):
        # targets: label depth -> types expected
        junk = vals([I64, I32, I32][:ja])
        body = []
        for d, ts in enumerate(targets):
            bit = [('get', 0), ('const', I32, 1 << (31 - d)), ('bin', 0x71)]
            same = [k for k in range(len(targets)) if targets[k] == ts]
            pre = []
            if isloop[d] or ins == 'br_table' and any(isloop[k] for k in same):
                # back to a loop only while there is fuel
                pre = [('get', 6), ('get', 6), ('bin', 0x45), ('bin', 0x45), ('bin', 0x6b), ('set', 6)]
                bit = bit + [('const', I32, 0), ('get', 6), ('select', None)]
            if ins == 'br':
                body += pre + bit + [('if', [], [], junk + vals(ts) + [('br', d + 1)], None)]
            elif ins == 'br_if':
                body += pre + junk + vals(ts) + bit + [('br_if', d)] + [('drop',)] * (len(ts) + len(junk))
            elif ins == 'br_table':
                l = [r.choice(same) for _ in range(r.choice([1, 2, 4]))]
                body += pre + bit + [('if', [], [], junk + vals(ts) + [('get', 1), ('br_table', [k + 1 for k in l], d + 1)], None)]
            elif ins == 'return' and d == 0:
                body += bit + [('if', [], [], junk + vals(rets) + [('return',)], None)]
        return body

    ip, ir = ([I32] if jb else []), [I64, I32][:1 + (jb == 2)]
    op, orr = ([I64] if ja else []), [I32, I32][:1 + (ja == 2)]
    isloop = [inner == 'loop', outer == 'loop', False]
    targets = [ip if inner == 'loop' else ir, op if outer == 'loop' else orr, rets]

    def wrap(kind, p, rr, body, bit):
        if kind in ('block', 'loop'):
            return [(kind, p, rr, body)]
        c = [('get', 0), ('const', I32, bit), ('bin', 0x71)]
        other = [('drop',)] * len(p) + vals(rr)
        return c + [('if', p, rr, body if kind == 'if' else other, other if kind == 'if' else body)]
    ib = [('drop',)] * len(ip) + site(0, targets) + vals(ir)
    ob = [('drop',)] * len(op) + vals([F64 if not direct else I64]) + vals(ip) + wrap(inner, ip, ir, ib, 1) + \
        [('drop',)] * (len(ir) + 1) + vals(orr)
    fb = [('const', I32, 3), ('set', 6)] + vals([I32]) + vals(op) + wrap(outer, op, orr, ob, 2) + \
        [('drop',)] * (len(orr) + 1) + vals(rets)
    g = prog.Gen('x', rets, size=0, floats=not direct)
    f = {'params': g.PARAMS, 'rets': rets, 'locals': g.LOCALS, 'body': fb}
    return prog_case(f'matrix.{outer}.{inner}.{ins}.{"direct" if direct else "called"}', f, r,
                     'branch matrix: two nested constructs of every kind, every branch instruction to every label', direct)


def typed_case(t):
    """Blocks, loops, conditionals, selects and returns of a value of each type, by their short block types."""
    b = bytes([t])
    get, keep, put = wb.lget(0), wb.lget(2), wb.lset(2)

    def bit(k):
        return wb.lget(1) + wb.i32c(1 << k) + b'\x71'
    junk = wb.i64c(9)
    body = b''
    # block left by br_if over an operand, or by falling through
    body += b'\x02' + b + wb.i32c(5) + get + bit(0) + b'\x0d\0' + put + b'\x1a' + keep + b'\x0b'
    # loop left through an enclosing block, or by falling through
    body += b'\x02' + b + wb.i32c(6) + b'\x03' + b + wb.i32c(7) + get + bit(1) + b'\x0d\1' + put + b'\x1a' + keep + b'\x0b' + put + b'\x1a' + keep + b'\x0b'
    # conditional with an exit from either side
    body += bit(2) + b'\x04' + b + get + b'\x05' + junk + get + b'\x0c\0' + b'\x0b'
    # table
    body += b'\x02' + b + b'\x02' + b + junk + get + wb.lget(1) + b'\x0e\1\0\1' + b'\x0b\x0b'
    zero = {wb.I32: wb.i32c(0), wb.I64: wb.i64c(0), wb.F32: b'\x43' + bytes(4), wb.F64: b'\x44' + bytes(8), wb.V128: b'\xfd\x0c' + bytes(16),
            wb.FUNCREF: b'\xd0\x70', wb.EXTERNREF: b'\xd0\x6f'}[t]
    body += get + zero + bit(3) + b'\x45\x45' + b'\x1c\1' + b
    body += bit(4) + b'\x04\x40' + junk + wb.lset(3) + b'\x05' + junk + get + get + get + get + get + b'\x0f\x0b'
    m = wb.Mod()
    m.func([t, I32], [t] * 5, body, locals=[t, I64], export='f')
    m.func([], [], b'')
    m.func([], [], b'')
    base = m.build()

    def run(x):
        rt, inst = x.instance(base)
        return x.attempt(rt.invocate, inst, 'f', [c16.arg(x, 'a', t), x.i('c')])

    def check(x, obs):
        if obs[0] != 'ret' or len(obs[1]) != 5:
            return [('returns', z3.BoolVal(False))]
        out = [(f'value {k}', c16.same(x, 'a', t, o)) for k, o in enumerate(obs[1]) if k != 4]
        o = obs[1][4]
        c = z3.Or(z3.Extract(3, 3, x.t('c')) == 1, z3.Extract(4, 4, x.t('c')) == 0)
        none = {wb.V128: lambda: c16.eqbytes(o, [bvv(0, 8)] * 16), wb.F32: lambda: c16.fbits(o) == 0, wb.F64: lambda: c16.fbits(o) == 0}
        z = none[t]() if t in none else z3.BoolVal(o is None) if t in (wb.FUNCREF, wb.EXTERNREF) else c16.eqv(o, bvv(0, c16.W[t]), True)
        out.append(('selected value', z3.If(c, c16.same(x, 'a', t, o), z)))
        return out
    return Case('typed.' + c16.NAME[t], {'a': c16.W[t], 'c': 32}, run, check, bounds='blocks, loops, conditionals, tables and selects of every value type',
                seconds=120)


def cases(tier):
    out = [typed_case(t) for t in c16.ALL]
    out += matrix()
    n = 500 if tier == 'quick' else 4000
    for k in range(n):
        out.append(gen_case(k, direct=k % 3 == 0, size=14, depth=3, conds=5))
    for k in range(5000, 5100 if tier == 'quick' else 6000):
        out.append(gen_case(k, direct=k % 3 == 0, size=30, depth=5, conds=7))
    return out
