"""Abstraction of hard operators by uninterpreted functions: unsat of the abstraction implies unsat of the original."""
import z3

BV_HARD = {z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem',
           z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BSREM_I: 'srem'}
FP_HARD = {getattr(z3, 'Z3_OP_FPA_' + n): n.lower() for n in
           ('ADD', 'SUB', 'MUL', 'DIV', 'SQRT', 'FMA', 'REM', 'ROUND_TO_INTEGRAL')}


class Abs:
    def __init__(self):
        self.cache = {}
        self.ufs = {}
        self.side = []
        self.n = 0
        self.keep = []

    def uf(self, name, args, rng):
        key = (name,) + tuple(a.sort().sexpr() for a in args) + (rng.sexpr(),)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function(f'uf_{name}_{len(self.ufs)}', *[a.sort() for a in args], rng)
        return f

    def go(self, e):
        stack = [e]
        cache = self.cache
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in cache:
                stack.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            args = [cache[c.get_id()] for c in ch]
            cache[i] = self.node(t, ch, args)
            self.keep.append(t)
        return cache[e.get_id()]

    def neg(self, x, depth):
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ITE and depth:
            c, a, b = x.children()
            return z3.If(c, self.neg(a, depth - 1), self.neg(b, depth - 1))
        if k == z3.Z3_OP_BNEG:
            return x.children()[0]
        return -x

    def node(self, t, ch, args):
        if not ch:
            return t
        k = t.decl().kind()
        if k in BV_HARD:
            self.n += 1
            nm = BV_HARD[k]
            r = self.uf(nm, args, t.sort())(*args)
            if nm == 'urem':
                self.side.append(z3.Implies(args[1] != 0, z3.And(z3.ULT(r, args[1]), z3.ULE(r, args[0]))))
            elif nm == 'udiv':
                self.side.append(z3.Implies(args[1] != 0, z3.ULE(r, args[0])))
            return r
        if k == z3.Z3_OP_BNEG:
            return self.neg(args[0], 6)
        if k == z3.Z3_OP_BMUL:
            if len(args) == 2 and z3.is_bv_value(args[0]) and args[0].as_long() == (1 << t.size()) - 1:
                return self.neg(args[1], 6)
            sym = [a for a in args if not z3.is_bv_value(a)]
            if len(sym) >= 2 and t.size() > 8:
                self.n += 1
                con = [a for a in args if z3.is_bv_value(a)]
                sym.sort(key=lambda a: a.get_id())
                r = sym[0]
                for a in sym[1:]:
                    r = self.uf('mul', [r, a], t.sort())(r, a)
                for c in con:
                    r = r * c
                return r
        if k in FP_HARD:
            self.n += 1
            fs = [a for a in args if not z3.is_fprm(a)]
            rm = [a for a in args if z3.is_fprm(a)]
            nm = FP_HARD[k] + (rm[0].sexpr() if rm else '')
            if FP_HARD[k] in ('add', 'mul'):
                fs.sort(key=lambda a: a.get_id())
            return self.uf(nm, fs, t.sort())(*fs)
        if k == z3.Z3_OP_FPA_TO_FP and len(args) == 2 and not z3.is_bv_value(args[1]):
            self.n += 1
            return self.uf('tofp' + args[0].sexpr() + str(z3.is_fp(args[1])), [args[1]], t.sort())(args[1])
        if k == z3.Z3_OP_FPA_TO_FP_UNSIGNED:
            self.n += 1
            return self.uf('tofpu' + args[0].sexpr(), [args[1]], t.sort())(args[1])
        if all(a.eq(c) for a, c in zip(args, ch)):
            return t
        return t.decl()(*args)


def abstract(exprs):
    """(abstracted expressions + side facts) or None when there is nothing hard to abstract."""
    a = Abs()
    out = [a.go(e) for e in exprs]
    if not a.n:
        return None
    return out + a.side
