"""Generated structured programs: one description, two readings -- wasm bytes and an independent reference semantics.

A program is a tree of instructions (tuples); values are z3 bit-vector terms or Python ints (tags).  The reference
evaluator forks on symbolic conditions and yields every (path condition, outcome)."""
import random
import z3
from sx.core import bvv, zext, sext
from sx import wb

I32, I64, F32, F64 = wb.I32, wb.I64, wb.F32, wb.F64
W = {I32: 32, I64: 64, F32: 32, F64: 64}


class Trap(Exception):
    pass


class Br(Exception):
    def __init__(self, d, vals):
        self.d = d
        self.vals = vals


class Ret(Exception):
    def __init__(self, vals):
        self.vals = vals


# -- encoding ---------------------------------------------------------------------------------------------------------
def const(t, v):
    if t == I32:
        return wb.i32c(v)
    if t == I64:
        return wb.i64c(v)
    if t == F32:
        return b'\x43' + v.to_bytes(4, 'little')
    return b'\x44' + v.to_bytes(8, 'little')


def bt(m, a, r):
    if not a and not r:
        return b'\x40'
    if not a and len(r) == 1:
        return bytes([r[0]])
    return wb.sleb(m.type(a, r))


def enc(m, seq):
    out = b''
    for i in seq:
        k = i[0]
        if k == 'const':
            out += const(i[1], i[2])
        elif k == 'get':
            out += wb.lget(i[1])
        elif k == 'set':
            out += wb.lset(i[1])
        elif k == 'tee':
            out += wb.ltee(i[1])
        elif k == 'gget':
            out += b'\x23' + wb.uleb(i[1])
        elif k == 'gset':
            out += b'\x24' + wb.uleb(i[1])
        elif k == 'drop':
            out += b'\x1a'
        elif k == 'select':
            out += b'\x1b' if i[1] is None else b'\x1c\x01' + bytes([i[1]])
        elif k == 'bin':
            out += bytes([i[1]])
        elif k in ('block', 'loop'):
            out += (b'\x02' if k == 'block' else b'\x03') + bt(m, i[1], i[2]) + enc(m, i[3]) + b'\x0b'
        elif k == 'if':
            out += b'\x04' + bt(m, i[1], i[2]) + enc(m, i[3])
            if i[4] is not None:
                out += b'\x05' + enc(m, i[4])
            out += b'\x0b'
        elif k == 'br':
            out += b'\x0c' + wb.uleb(i[1])
        elif k == 'br_if':
            out += b'\x0d' + wb.uleb(i[1])
        elif k == 'br_table':
            out += b'\x0e' + wb.vec([wb.uleb(d) for d in i[1]]) + wb.uleb(i[2])
        elif k == 'return':
            out += b'\x0f'
        elif k == 'unreachable':
            out += b'\0'
        elif k == 'nop':
            out += b'\1'
        elif k == 'call':
            out += wb.call(i[1])
        elif k == 'trap':
            out += i[1]
        elif k == 'eff':
            out += i[3]
        elif k == 'callind':
            out += b'\x11' + wb.uleb(i[1]) + b'\0'
        else:
            raise KeyError(k)
    return out


BIN = {0x6a: lambda a, b: a + b, 0x6b: lambda a, b: a - b, 0x71: lambda a, b: a & b, 0x73: lambda a, b: a ^ b,
       0x7c: lambda a, b: a + b, 0x7d: lambda a, b: a - b}
UN = {0x45: lambda a: z3.If(a == 0, bvv(1, 32), bvv(0, 32)), 0xa7: lambda a: z3.Extract(31, 0, a),
      0xad: lambda a: zext(a, 64), 0xbc: lambda a: a, 0xbd: lambda a: a, 0xbe: lambda a: a, 0xbf: lambda a: a}


# -- reference semantics ------------------------------------------------------------------------------------------------
class Ref:
    """funcs: list of dicts(params, rets, locals, body).  globals: list of terms.  host: list of callables."""

    def __init__(self, funcs, globs=(), table=(), depth=64, fuel=4000):
        self.funcs = funcs
        self.init_globs = list(globs)
        self.table = table
        self.depth = depth
        self.fuel = fuel

    def paths(self, f, args, limit=400):
        """Every (condition, outcome): ('ret', values, globals) or ('trap', None, globals)."""
        return [(c, r[0]) for c, r in self.history([(f, args)], limit)]

    def history(self, calls, limit=400):
        """Every (condition, [outcome of each call]) of a sequence of invocations; globals persist, also after a trap."""
        out, todo = [], [[]]
        while todo:
            self.dec = todo.pop()
            base = len(self.dec)
            self.n = 0
            self.conds = []
            self.globs = list(self.init_globs)
            self.steps = 0
            r = []
            for f, args in calls:
                try:
                    r.append(('ret', self.call(f, list(args), 0), list(self.globs)))
                except Trap:
                    r.append(('trap', None, list(self.globs)))
            out.append((z3.And(self.conds) if self.conds else z3.BoolVal(True), r))
            for k in range(self.n - 1, base - 1, -1):
                todo.append(self.dec[:k] + [not self.dec[k]])
            assert len(out) <= limit, 'too many reference paths'
        return out

    def cond(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for p in self.conds:            # repeated conditions
            if p.eq(c):
                return True
            if p.eq(z3.simplify(z3.Not(c))):
                return False
        if self.n == len(self.dec):
            self.dec = self.dec + [True]
        v = self.dec[self.n]
        self.n += 1
        self.conds.append(c if v else z3.simplify(z3.Not(c)))
        return v

    def call(self, f, args, depth):
        fn = self.funcs[f]
        if depth >= self.depth:
            raise Trap()
        if callable(fn.get('host')):
            return fn['host'](args)
        loc = list(args) + [bvv(0, W[t]) for t in fn['locals']]
        st = []
        try:
            self.seq(fn['body'], st, loc, depth, 0)
        except Br as b:
            return b.vals[len(b.vals) - len(fn['rets']):]
        except Ret as r:
            return r.vals[len(r.vals) - len(fn['rets']):]
        assert len(st) == len(fn['rets']), (st, fn)
        return st

    def seq(self, seq, st, loc, depth, base):
        for i in seq:
            self.steps += 1
            if self.steps > self.fuel:
                raise AssertionError('reference program runs too long')
            self.one(i, st, loc, depth, base)

    def one(self, i, st, loc, depth, base):
        k = i[0]
        if k == 'const':
            st.append(bvv(i[2], W[i[1]]))
        elif k == 'get':
            st.append(loc[i[1]])
        elif k == 'set':
            loc[i[1]] = st.pop()
        elif k == 'tee':
            loc[i[1]] = st[-1]
        elif k == 'gget':
            st.append(self.globs[i[1]])
        elif k == 'gset':
            self.globs[i[1]] = st.pop()
        elif k == 'drop':
            st.pop()
        elif k == 'select':
            c, b, a = st.pop(), st.pop(), st.pop()
            st.append(z3.simplify(z3.If(c != 0, a, b)))
        elif k == 'bin':
            if i[1] in UN:
                st.append(z3.simplify(UN[i[1]](st.pop())))
            else:
                b, a = st.pop(), st.pop()
                st.append(z3.simplify(BIN[i[1]](a, b)))
        elif k in ('block', 'loop', 'if'):
            a, r, body = i[1], i[2], i[3]
            if k == 'if':
                if not self.cond(st.pop() != 0):
                    body = i[4] or []
            ins = st[len(st) - len(a):]
            del st[len(st) - len(a):]
            while True:
                inner = list(ins)
                try:
                    self.seq(body, inner, loc, depth, 0)
                except Br as b:
                    if b.d:
                        raise Br(b.d - 1, b.vals)
                    if k == 'loop':
                        ins = b.vals[len(b.vals) - len(a):]
                        continue
                    st.extend(b.vals[len(b.vals) - len(r):])
                    return
                assert len(inner) == len(r), (i, inner)
                st.extend(inner)
                return
        elif k == 'br':
            raise Br(i[1], list(st))
        elif k == 'br_if':
            if self.cond(st.pop() != 0):
                raise Br(i[1], list(st))
        elif k == 'br_table':
            x = st.pop()
            for n, d in enumerate(i[1]):
                if self.cond(x == n):
                    raise Br(d, list(st))
            raise Br(i[2], list(st))
        elif k == 'return':
            raise Ret(list(st))
        elif k in ('unreachable', 'trap'):
            raise Trap()
        elif k == 'eff':                # every global of the reference is one observable cell
            n = i[1]
            self.globs[n] = z3.simplify(self.globs[n] * 3 + i[2])
        elif k == 'nop':
            pass
        elif k == 'call':
            n = len(self.funcs[i[1]]['params'])
            args = st[len(st) - n:]
            del st[len(st) - n:]
            st.extend(self.call(i[1], args, depth + 1))
        elif k == 'callind':
            x = st.pop()
            for n, f in enumerate(self.table):
                if self.cond(x == n):
                    if f is None or (self.funcs[f]['params'], self.funcs[f]['rets']) != i[2]:
                        raise Trap()
                    self.one(('call', f), st, loc, depth, base)
                    return
            raise Trap()
        else:
            raise KeyError(k)


# -- generator --------------------------------------------------------------------------------------------------------
class Gen:
    """Random well-typed function bodies over parameters [c:i32 condition bits, t:i32 table index, p:i32, q:i64,
    s:f32, d:f64] plus locals [fuel:i32, a:i32, b:i64, e:f32, g:f64]; with floats=False s,d,e,g are integers."""
    FUEL = 6

    def __init__(self, seed, rets=None, size=14, depth=3, conds=5, callee=None, start=None, floats=True):
        self.r = random.Random(seed)
        x, y = (F32, F64) if floats else (I32, I64)
        self.PARAMS = [I32, I32, I32, I64, x, y]
        self.LOCALS = [I32, I32, I64, x, y]
        self.types = [I32, I32, I64, F32, F64] if floats else [I32, I64]
        all_ = self.PARAMS + self.LOCALS
        self.locof = {t: [k for k in range(2, len(all_)) if all_[k] == t and k != self.FUEL] for t in self.types}
        self.varof = {t: [k for k in self.locof[t] if k > self.FUEL] for t in self.types}
        if rets is None:
            rets = [self.r.choice(self.types) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
        self.rets = rets
        self.size = size
        self.maxdepth = depth
        self.conds = conds
        self.tag = 1
        self.callee = callee or []
        body = [('const', I32, 3), ('set', self.FUEL)]
        self.labels = [(tuple(rets), 'func')]
        body += self.seq([], list(rets), 0, start)
        self.body = body

    def func(self):
        return {'params': list(self.PARAMS), 'rets': list(self.rets), 'locals': list(self.LOCALS), 'body': self.body}

    def bit(self):
        if self.conds <= 0:
            return None
        self.conds -= 1
        b = self.r.choice([31, 30, 16, 8, 7, self.r.randrange(31), self.r.randrange(31)])
        return [('get', 0), ('const', I32, 1 << b), ('bin', 0x71)]

    def push(self, t):
        r = self.r.random()
        loc = self.locof[t]
        if r < 0.4:
            return [('get', self.r.choice(loc))]
        self.tag += 1
        v = self.tag * 0x01010101 % (1 << 32) if self.r.random() < 0.3 else self.tag
        return [('const', t, v)]

    def want(self, st, types):
        """Instructions that put `types` on top of the stack, keeping what is already there when it fits."""
        out = []
        n = len(types)
        while n and st[len(st) - n:] != list(types[:n]) or n > len(st):
            n -= 1
        for t in types[n:]:
            out += self.push(t)
            st.append(t)
        return out

    def junk(self, st):
        out = []
        for _ in range(self.r.choice([0, 0, 1, 2])):
            t = self.r.choice(self.types)
            out += self.push(t)
            st.append(t)
        return out

    def spend(self):
        """One unit of fuel less, not below none: jumps back to a loop happen only while there is some left."""
        f = self.FUEL
        return [('get', f), ('get', f), ('bin', 0x45), ('bin', 0x45), ('bin', 0x6b), ('set', f)]

    def fuelled(self, ts, jump):
        """jump (with the label depths seen from inside the if) while there is fuel; then execution goes on behind it."""
        return self.spend() + [('get', self.FUEL), ('if', [], [], self.junk([]) + sum((self.push(t) for t in ts), []) + jump, None)]

    def ltypes(self, d):
        return list(self.labels[-1 - d][0])

    def dead(self):
        """Unreachable code after a branch (stack-polymorphic)."""
        c = self.r.random()
        if c < 0.5:
            return []
        if c < 0.65:
            return [('nop',), ('unreachable',)]
        if c < 0.8:
            return [('const', I32, 77), ('drop',), ('unreachable',)]
        if c < 0.9:
            return [('block', [], [], [('br', 0)]), ('unreachable',)]
        return [('const', I64, 1), ('drop',), ('return',)]

    def seq(self, st, outs, depth, start=None):
        out = []
        n = self.r.randrange(1, 5) if depth else self.r.randrange(3, 7)
        for step in range(n):
            if self.size <= 0:
                break
            self.size -= 1
            c = self.r.random()
            if start and step == 0:
                c = start
            if c < 0.14:
                t = self.r.choice(self.types)
                out += self.push(t)
                st.append(t)
            elif c < 0.19 and st:
                out.append(('drop',))
                st.pop()
            elif c < 0.27:
                t = self.r.choice(self.types)
                l = self.r.choice(self.varof[t])
                out += self.want(st, [t])
                if self.r.random() < 0.5:
                    out.append(('set', l))
                    st.pop()
                else:
                    out.append(('tee', l))
            elif c < 0.33:
                b = self.bit()
                if b:
                    t = self.r.choice(self.types)
                    out += self.want(st, [t, t]) + b + [('select', self.r.choice([None, t]))]
                    st.pop()
            elif c < 0.62 and depth < self.maxdepth:
                k = self.r.choice(['block', 'loop', 'if', 'if', 'ifelse'])
                a = st[len(st) - self.r.choice([0, 0, 1, 1, 2, 3]):] if st else []
                if len(a) > 3:
                    a = a[-3:]
                a = list(a)
                r = [self.r.choice(self.types) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
                if k == 'if':
                    r = list(a)
                cond = []
                if k.startswith('if'):
                    cond = self.bit()
                    if not cond:
                        k = 'block'
                out += cond or []
                self.labels.append((tuple(a) if k == 'loop' else tuple(r), k))
                body = self.seq(list(a), list(r), depth + 1)
                if k == 'ifelse':
                    out.append(('if', a, r, body, self.seq(list(a), list(r), depth + 1)))
                elif k == 'if':
                    out.append(('if', a, r, body, None))
                else:
                    out.append((k, a, r, body))
                self.labels.pop()
                del st[len(st) - len(a):]
                st += r
            elif c < 0.77:
                d = self.r.randrange(len(self.labels))
                b = self.bit()
                if b:
                    if self.labels[-1 - d][1] == 'loop':
                        out += self.spend()
                        b += [('const', I32, 0), ('get', self.FUEL), ('select', None)]
                    out += self.junk(st) + self.want(st, self.ltypes(d)) + b + [('br_if', d)]
            elif c < 0.84:
                d0 = self.r.randrange(len(self.labels))
                same = [d for d in range(len(self.labels)) if self.ltypes(d) == self.ltypes(d0)]
                if self.conds >= 2:
                    self.conds -= 2
                    ds = [self.r.choice(same) for _ in range(self.r.choice([0, 1, 2, 2, 3]))]
                    df = self.r.choice(same)
                    if any(self.labels[-1 - d][1] == 'loop' for d in ds + [df]):
                        out += self.fuelled(self.ltypes(d0), [('get', 1), ('br_table', [d + 1 for d in ds], df + 1)])
                        continue
                    out += self.junk(st) + self.want(st, self.ltypes(d0)) + [('get', 1), ('br_table', ds, df)]
                    return out + self.dead()
            elif c < 0.9:
                d = self.r.randrange(len(self.labels))
                if self.labels[-1 - d][1] == 'loop':
                    out += self.fuelled(self.ltypes(d), [('br', d + 1)])
                    continue
                out += self.junk(st) + self.want(st, self.ltypes(d)) + [('br', d)]
                return out + self.dead()
            elif c < 0.93 and depth:
                out += self.junk(st) + self.want(st, self.rets) + [('return',)]
                return out + self.dead()
            elif c < 0.94 and depth:
                b = self.bit()
                if b:
                    out += b + [('if', [], [], [('unreachable',)], None)]
            elif self.callee and c < 0.99:
                k, f = self.r.choice(self.callee)
                out += self.want(st, f['params']) + [('call', k)]
                del st[len(st) - len(f['params']):]
                st += f['rets']
        # leave exactly outs
        if st != outs:
            while st and st != outs[:len(st)]:
                out.append(('drop',))
                st.pop()
            for t in outs[len(st):]:
                out += self.push(t)
        return out


def wrapper(f, idx, r, mark=True):
    """Exported driver of generated function f (index idx): parameters c,t,p:i32, q:i64, s:i32, d:i64 (bit patterns);
    keeps operands of its own below the call and reads its own locals afterwards.  Returns the function dict."""
    loc = [t for t in f['rets']]
    body = []
    conv = {F32: [('bin', 0xbe)], F64: [('bin', 0xbf)], I32: [], I64: []}
    back = {F32: [('bin', 0xbc)], F64: [('bin', 0xbd)], I32: [], I64: []}
    outt = {F32: I32, F64: I64, I32: I32, I64: I64}
    params = [I32, I32, I32, I64, I32, I64]
    call = []
    for k, t in enumerate(f['params']):
        call += [('get', k)] + conv[t]
    call += [('call', idx)]
    style = r.randrange(4)
    if style == 1:
        call = [('block', [], f['rets'], call + [('br', 0)])]
    elif style == 2:
        call = [('loop', [], f['rets'], [('const', I64, 3), ('drop',)] + call)]
    elif style == 3:
        call = [('const', I32, 1), ('if', [], f['rets'], call, [('unreachable',)])]
    body = [('const', I64, 0x1111), ('const', I32, 5)] + call
    base = len(params)
    for k in range(len(f['rets']) - 1, -1, -1):
        body.append(('set', base + k))
    for k, t in enumerate(f['rets']):
        body += [('get', base + k)] + back[t]
    body += [('get', 2), ('get', 3)]
    return {'params': params, 'rets': [I64, I32] + [outt[t] for t in f['rets']] + [I32, I64], 'locals': loc,
            'body': body}


def build(m, funcs, exports):
    """Add the functions to module m (indices must match); exports: name -> index."""
    base = m.nimp[0] + len(m.funcs)
    for k, f in enumerate(funcs):
        code = enc(m, f['body'])
        m.func(f['params'], f['rets'], code, f['locals'])
    for n, i in exports.items():
        m.export(n, 0, i)


def check_paths(obs, paths, rets):
    """obs is an attempt() outcome; every reference path's condition implies the same outcome."""
    from sx.harness import eqv
    out = []
    for n, (cond, (kind, vals, _)) in enumerate(paths):
        if kind == 'trap':
            c = z3.BoolVal(obs[0] == 'trap')
        elif obs[0] != 'ret' or len(obs[1]) != len(vals):
            c = z3.BoolVal(False)
        else:
            c = z3.And([eqv(o, v, True) for o, v in zip(obs[1], vals)] + [z3.BoolVal(True)])
        out.append(z3.Implies(cond, c))
    return [('agrees with the reference', z3.And(out))]
