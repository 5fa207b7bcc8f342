"""Run-time support called by instrumented code, and exact models of the builtins and library functions it uses."""
import builtins
import ctypes
import io
import math
import operator
import struct
import types
import z3

from . import core
from .core import (Sym, SymBool, SymInt, SymFloat, SBytes, SUnion, BSlice, SpecFail, Unsupported, eng, mkbool, zbool,
                   merge, truth, sx_not, as_int, under, lift1, conc, spec_begin, spec_end, nospec, word, RNE, RTZ, RTP,
                   RTN)
from . import strs
from .strs import SStr

UNBOUND = type('UNBOUND', (), {'__repr__': lambda s: '<unbound>'})()
Catch = (Exception, SpecFail)


# ---------------------------------------------------------------------------------------------------------------
# control flow helpers
# ---------------------------------------------------------------------------------------------------------------
def sx_isplain(c):
    if isinstance(c, (SymBool, SymInt, SymFloat, SUnion)):
        t = truth(c)
        if not isinstance(t, SymBool):
            return True
        s = z3.simplify(t.t)
        return z3.is_true(s) or z3.is_false(s)
    return True


class Merger:
    def __init__(self, c):
        self.c = zbool(truth(c))
        self.state = 0
        self.om = None
        self.vals = None

    def next(self):
        if self.state == 0:
            self.state = 1
            self.then = True
            self.om = spec_begin(self.c)
            return True
        if self.state == 2:
            self.state = 3
            self.then = False
            self.om = spec_begin(z3.Not(self.c))
            return True
        if self.state == 5:         # fork for real
            self.then = eng().fork(self.c)
            self.state = 6
            return True
        return False

    def done(self, vals):
        if self.state == 1:
            spec_end(self.om)
            self.v1 = vals
            self.state = 2
        elif self.state == 3:
            spec_end(self.om)
            self.state = 4
            try:
                self.vals = tuple(merge(self.c, a, b) for a, b in zip(self.v1, vals))
                eng().stats.merges += 1
            except SpecFail:
                if eng().spec:
                    raise
                self.state = 5
        else:
            self.vals = vals
            self.state = 7

    def fail(self, e):
        if self.state in (1, 3):
            spec_end(self.om)
            if eng().spec:
                self.state = 8
                raise SpecFail()
            self.state = 5
            return
        raise e


def sx_merger(c):
    return Merger(c)


def sx_isunbound(v):
    return v is UNBOUND


def sx_ifexp(c, a, b):
    if not isinstance(c, Sym):
        return a() if c else b()
    c = truth(c)
    if not isinstance(c, SymBool):
        return a() if c else b()
    t = z3.simplify(c.t)
    if z3.is_true(t):
        return a()
    if z3.is_false(t):
        return b()
    try:
        r = merge(t, under(t, a), under(z3.Not(t), b))
        eng().stats.merges += 1
        return r
    except SpecFail:
        if eng().spec:
            raise
    return a() if eng().fork(t) else b()


def boolish(x):
    return isinstance(x, (bool, SymBool))


def sx_and(a, b):
    if not isinstance(a, Sym):
        return a and b()
    t = truth(a)
    if not isinstance(t, SymBool):
        return b() if t else a
    try:
        v = under(t.t, b)
        if boolish(a) and boolish(v):
            return mkbool(z3.simplify(core.z_and(t.t, zbool(v))))
        return merge(t.t, v, a)
    except SpecFail:
        if eng().spec:
            raise
    return b() if eng().fork(t.t) else a


def sx_or(a, b):
    if not isinstance(a, Sym):
        return a or b()
    t = truth(a)
    if not isinstance(t, SymBool):
        return a if t else b()
    try:
        v = under(z3.Not(t.t), b)
        if boolish(a) and boolish(v):
            return mkbool(z3.simplify(core.z_or(t.t, zbool(v))))
        return merge(t.t, a, v)
    except SpecFail:
        if eng().spec:
            raise
    return a if eng().fork(t.t) else b()


def sx_is(a, b):
    if a is b:
        return True
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    if isinstance(a, SUnion):
        return lift1(sx_is, a, b)
    return False


def sx_eq(a, b):
    return a == b


def sx_ne(a, b):
    return a != b


def sx_in(x, c):
    if isinstance(c, SUnion):
        c = c.force()
    if isinstance(x, SUnion):
        return lift1(sx_in, x, c)
    if isinstance(c, SStr) or (isinstance(x, SStr) and isinstance(c, str)):
        return strs.contains(SStr.lift(c), x)
    if isinstance(c, (dict, set, frozenset, types.MappingProxyType)) or type(c).__name__ in ('dict_keys',):
        if isinstance(x, Sym):
            if isinstance(x, SymInt) and isinstance(c, dict) or isinstance(x, SymInt):
                ks = [k for k in c if isinstance(k, (int, float)) or isinstance(k, Sym)]
                return sx_any_eq(x, ks)
            return sx_any_eq(x, list(c))
        if any(isinstance(k, Sym) for k in c):
            return sx_any_eq(x, list(c))
        return x in c
    if isinstance(c, (list, tuple)):
        if isinstance(x, Sym) or any(isinstance(k, Sym) for k in c):
            return sx_any_eq(x, c)
        r = False
        for k in c:         # objects whose __eq__ may be symbolic
            if k is x:
                return True
            e = k == x
            if e is True:
                return True
            if e is False or e is NotImplemented:
                continue
            r = core.mkor(r, truth(e))
        return r
    if isinstance(c, range) and isinstance(x, SymInt):
        if len(c) == 0:
            return False
        lo, hi = min(c), max(c)
        r = core.mkand(x >= lo, x <= hi)
        if abs(c.step) != 1:
            r = core.mkand(r, (x - c.start) % abs(c.step) == 0)
        return r
    if isinstance(c, SymRange):
        return core.mkand(x >= c.start, x < c.stop) if c.step == 1 else x in list(c)
    if isinstance(c, SBytes):
        if isinstance(x, (int, SymInt)):
            if c.items is None:
                raise Unsupported('membership in a symbolic buffer')
            return sx_any_eq(x, list(c))
        return c.__contains__(x)
    if isinstance(c, (bytes, bytearray)) and isinstance(x, Sym):
        return sx_in(x, SBytes.lift(c))
    return x in c


ANY_EQ = {}


def sx_any_eq(x, ks):
    if isinstance(x, SymInt) and x._bv is not None and len(ks) > 16 and all(type(k) is int for k in ks):
        p = x.pin()
        if p is not None:
            return p in ks
        key = (x._bv.get_id(), x.sg, x.lo, x.hi, tuple(ks))
        r = ANY_EQ.get(key)
        if r is None:
            if len(ANY_EQ) > 4000:
                ANY_EQ.clear()
            r = ANY_EQ[key] = (x._bv, any_eq(x, ks))        # the term is kept alive: its id stays its own
        return r[1]
    return any_eq(x, ks)


def any_eq(x, ks):
    r = False
    ts = []
    for k in ks:
        e = (x == k)
        if e is NotImplemented:
            continue
        if e is True or (not isinstance(e, Sym) and e):
            return True
        if isinstance(e, SymBool):
            ts.append(e.t)
    if not ts:
        return False
    return mkbool(z3.simplify(z3.Or(*ts)))


# ---------------------------------------------------------------------------------------------------------------
# subscripts and attributes
# ---------------------------------------------------------------------------------------------------------------
def sx_slice(a, b, c):
    return slice(a, b, c)


def sl_conc(k):
    f = lambda x: conc(x.force() if isinstance(x, SUnion) else x)
    return slice(f(k.start), f(k.stop), f(k.step))


def seq_index(o, i):
    """Concretise a symbolic index into a native sequence."""
    n = len(o)
    if bool(i < 0):
        i = i + n
        if bool(core.mkbool(zbool(i < 0))):
            raise IndexError('index out of range')
    if bool(i >= n):
        raise IndexError('index out of range')
    return conc(i)


def sx_getitem(o, k):
    if isinstance(o, Sym):
        if isinstance(o, SUnion):
            o = o.force()
            return sx_getitem(o, k)
        if isinstance(k, SUnion):
            k = k.force()
        return o[k]
    if isinstance(k, SUnion):
        k = k.force()
    if isinstance(k, slice):
        if isinstance(k.start, Sym) or isinstance(k.stop, Sym) or isinstance(k.step, Sym):
            if isinstance(o, (bytes, bytearray)):
                return SBytes.lift(o)[k]
            if isinstance(o, str):
                return SStr.lift(o)[k]
            if isinstance(o, (list, tuple)):
                return o[list_slice(o, k)]
            k = sl_conc(k)
        return o[k]
    if isinstance(k, Sym):
        if isinstance(o, (bytes, bytearray)):
            return SBytes.lift(o)[k]
        if isinstance(o, (list, tuple)):
            i = as_int(k)
            if i is None or isinstance(i, SymFloat):
                raise TypeError('list indices must be integers or slices')
            if isinstance(i, SymInt):
                if 0 < len(o) <= 1024 and all(isinstance(e, (int, SymInt)) and not isinstance(e, bool) for e in o):
                    return table_lookup(o, i)
                i = seq_index(o, i)
            return o[i]
        if isinstance(o, str):
            return SStr.lift(o)[k]
        if isinstance(o, dict):
            return dict_get(o, k)
        if isinstance(o, range):
            return o[seq_index(o, k)]
        if hasattr(type(o), '__class_getitem__') and isinstance(o, type):
            return o
        return o[k]
    if isinstance(o, dict) and any(isinstance(x, Sym) for x in o):
        return dict_get(o, k)
    return o[k]


def list_slice(o, k):
    n = len(o)

    def cl(i, d):
        if i is None:
            return d
        i = as_int(i)
        if isinstance(i, int):
            return i
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                return 0
        if bool(i > n):
            return n
        return conc(i)
    if k.step is not None and conc(k.step) != 1:
        return sl_conc(k)
    return slice(cl(k.start, None), cl(k.stop, None), None)


def table_lookup(o, i):
    n = len(o)
    if bool(i < 0):
        i = i + n
        if bool(i < 0):
            raise IndexError('list index out of range')
    if bool(i >= n):
        raise IndexError('list index out of range')
    if isinstance(i, int):
        return o[i]
    r = o[n - 1]
    for j in range(n - 2, -1, -1):
        r = merge(zbool(i == j), o[j], r)
    return r


def dict_get(o, k):
    if isinstance(k, SymInt) and len(o) > 16 and all(type(a) is int and type(b) is str for a, b in o.items()):
        p = k.pin()
        if p is not None:
            return o[p]
        if not bool(truth(sx_any_eq(k, list(o)))):
            raise KeyError(k)
        ks = sorted(o)
        return core.LazyMap(k, ks, [o[x] for x in ks])
    for x in list(o):
        if isinstance(x, Sym) or isinstance(k, Sym):
            e = (x == k)
            if e is NotImplemented:
                continue
            if bool(e):
                return loosely(o, x, lambda: o[x])
        elif x == k:
            return o[x]
    raise KeyError(k)


def sx_setitem(o, k, v):
    nospec()
    if isinstance(o, SUnion):
        o = o.force()
    if isinstance(k, SUnion):
        k = k.force()
    if isinstance(o, Sym):
        o[k] = v
        return
    if isinstance(o, bytearray):
        raise Unsupported('native bytearray in instrumented code')
    if isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        k = list_slice(o, k)
    elif isinstance(k, (SymInt, SymBool)):
        if isinstance(o, list):
            k = as_int(k)
            if isinstance(k, SymInt):
                if 0 < len(o) <= 64 and all(isinstance(e, (int, SymInt)) and not isinstance(e, bool) for e in [v] + o):
                    n = len(o)
                    if bool(k < 0):
                        k = k + n
                        if bool(k < 0):
                            raise IndexError('list assignment index out of range')
                    if bool(k >= n):
                        raise IndexError('list assignment index out of range')
                    if isinstance(k, SymInt):
                        for j in range(n):
                            o[j] = merge(zbool(k == j), v, o[j])
                        return
                    o[k] = v
                    return
                k = seq_index(o, k)
        elif isinstance(o, dict):
            for x in list(o):
                if bool(x == k):
                    o[x] = v
                    return
            k = conc(k)
    elif isinstance(o, dict) and (isinstance(k, SStr) or isinstance(k, str) and any(isinstance(x, SStr) for x in o)):
        for x in list(o):
            if bool(x == k):
                loosely(o, x, lambda: o.__setitem__(x, v))
                return
        strs.LOOSE[0] = True
        try:
            o[k] = v
        finally:
            strs.LOOSE[0] = False
        return
    o[k] = v


def loosely(o, x, f):
    """f(), which looks up the very key x of o."""
    if isinstance(x, SStr):
        strs.LOOSE[0] = True
        try:
            if x in o:
                return f()
        finally:
            strs.LOOSE[0] = False
    return f()


def sx_dictcomp(pairs):
    d = {}
    for k, v in pairs:
        sx_setitem(d, k, v)
    return d


def m_dict(*args, **kw):
    if len(args) == 1 and not kw and not isinstance(args[0], dict) and hasattr(args[0], '__iter__'):
        return sx_dictcomp(args[0])
    return dict(*args, **kw)


def sx_delitem(o, k):
    nospec()
    if isinstance(o, SBytes):
        if not isinstance(k, slice):
            k = o.norm_index(k)
            k = slice(k, k + 1)
        o[k] = b''
        return
    if isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        k = list_slice(o, k)
    elif isinstance(k, SymInt):
        k = seq_index(o, k) if isinstance(o, list) else conc(k)
    del o[k]


FRESH = None


def sx_setattr(o, n, v):
    e = core.Engine.cur
    if e is not None and e.spec:
        raise SpecFail()
    setattr(o, n, v)


AUG = {'Add': (operator.iadd, operator.add), 'Sub': (operator.isub, operator.sub), 'Mult': (operator.imul, operator.mul),
       'Div': (operator.itruediv, operator.truediv), 'FloorDiv': (operator.ifloordiv, operator.floordiv),
       'Mod': (operator.imod, operator.mod), 'LShift': (operator.ilshift, operator.lshift),
       'RShift': (operator.irshift, operator.rshift), 'BitAnd': (operator.iand, operator.and_),
       'BitOr': (operator.ior, operator.or_), 'BitXor': (operator.ixor, operator.xor),
       'Pow': (operator.ipow, operator.pow)}


def sx_aug(x, op, v):
    if isinstance(x, (list, bytearray, set, dict, SBytes)):
        nospec()
    return AUG[op][0](x, v)


def sx_augitem(o, k, op, v):
    nospec()
    sx_setitem(o, k, AUG[op][0](sx_getitem(o, k), v))


def sx_augattr(o, n, op, v):
    nospec()
    setattr(o, n, AUG[op][0](getattr(o, n), v))


def sx_exctypes(t):
    """`except BaseException` must not swallow the executor's control exceptions."""
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for x in ts:
        if x is BaseException:
            out += [Exception, SystemExit, KeyboardInterrupt, GeneratorExit]
        else:
            out.append(x)
    return tuple(out)


def sx_fstr(*parts):
    out = SStr.lift('')
    plain = True
    acc = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, SUnion):
                v = '<union>'
            if isinstance(v, SStr) and conv in (-1, 115) and not spec:
                acc.append(v)
                plain = False
                continue
            if isinstance(v, Sym):
                s = strs.to_str(v, conv, spec)
                if isinstance(s, SStr):
                    plain = False
                acc.append(s)
                continue
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            acc.append(format(v, spec))
        else:
            acc.append(p)
    if plain:
        return ''.join(acc)
    for a in acc:
        out = out + a
    return out


# ---------------------------------------------------------------------------------------------------------------
# ranges
# ---------------------------------------------------------------------------------------------------------------
class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) == 3 else 1
        self.step = conc(self.step)
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        i = self.start
        n = 0
        while True:
            c = i < self.stop if self.step > 0 else i > self.stop
            if not bool(c):
                return
            n += 1
            if n > 70000:
                raise core.Budget('loop bound')
            yield i
            i = i + self.step
            if isinstance(i, SymInt):
                i = i.simp()

    def __reversed__(self):
        return iter(list(self)[::-1])


def m_range(*a):
    a = [as_int(x) if isinstance(x, Sym) else x for x in a]
    return SymRange(*a)


# ---------------------------------------------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------------------------------------------
def m_len(x):
    if isinstance(x, SUnion):
        x = x.force()
    if isinstance(x, (SBytes, SStr)):
        return x.n
    return len(x)


def m_int(x=0, base=None):
    if base is not None:
        if isinstance(x, SStr):
            return strs.to_int(x, conc(base))
        return int(x, base)
    if isinstance(x, SUnion):
        return lift1(m_int, x)
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return x.int()
    if isinstance(x, SymFloat):
        return x.to_int(RTZ)
    if isinstance(x, SStr):
        return strs.to_int(x, 10)
    if isinstance(x, SBytes):
        return int(bytes(x))
    return int(x)


def m_float(x=0.0):
    if isinstance(x, SUnion):
        return lift1(m_float, x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat.of_int(x)
    if isinstance(x, SStr):
        return m_float(strs.to_int(x, 10, 'float'))             # decimal digits only; -0 and fractions are outside the model
    return float(x)


def m_bool(x=False):
    if isinstance(x, Sym):
        return truth(x)
    return bool(x)


def m_bytearray(x=b'', *a):
    return mk_bytes(x, True, *a)


def m_bytes(x=b'', *a):
    return mk_bytes(x, False, *a)


def mk_bytes(x, mutable, *a):
    if isinstance(x, SUnion):
        x = x.force()
    if isinstance(x, str):
        return SBytes.from_items(list(x.encode(*a)), mutable)
    if isinstance(x, SStr):
        return strs.encode(x, *a).snap(mutable)
    if isinstance(x, (SymInt, SymBool)):
        x = as_int(x)
        return SBytes.zeros(x, mutable)
    if isinstance(x, int):
        return SBytes.zeros(int(x), mutable)
    if isinstance(x, SBytes):
        return x.snap(mutable)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SBytes.from_items(list(bytes(x)), mutable)
    if hasattr(x, '__bytes__') and not isinstance(x, (list, tuple)):
        return mk_bytes(x.__bytes__(), mutable)
    return SBytes.of_iter(x, mutable)


def m_ord(x):
    if isinstance(x, SBytes):
        n = x.n
        if not isinstance(n, int):
            n = conc(n)
        if n != 1:
            raise TypeError(f'ord() expected a character, but string of length {n} found')
        return core.byte_sym(x.items[0])
    if isinstance(x, SStr):
        return strs.ord_(x)
    return ord(x)


def m_chr(x):
    if isinstance(x, SymInt):
        return strs.chr_(x)
    return chr(x)


def m_abs(x):
    return abs(x)


def m_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for u in ts:
        if isinstance(u, types.UnionType):
            flat += list(u.__args__)
        elif isinstance(u, tuple):
            flat += list(u)
        else:
            flat.append(u)
    k = sym_type(x)
    if k is None:
        return isinstance(x, t)
    return any(issubclass(k, u) for u in flat if isinstance(u, type))


def sym_type(x):
    if isinstance(x, SUnion):
        return None if False else sym_type(x.force())
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, SBytes):
        return bytearray if x.mutable else bytes
    if isinstance(x, SStr):
        return str
    return None


def m_type(x, *a):
    if a:
        return type(x, *a)
    return sym_type(x) or type(x)


def minmax(lt, args, key, default):
    """Python's rule: keep the first unless a later one compares strictly smaller/greater."""
    it = list(args)
    if not it:
        if default is not UNBOUND:
            return default
        raise ValueError('arg is an empty sequence')
    best = it[0]
    bk = key(best) if key else best
    for x in it[1:]:
        xk = key(x) if key else x
        c = truth(lt(xk, bk))
        if isinstance(c, SymBool):
            t = z3.simplify(c.t)
            if z3.is_true(t):
                best, bk = x, xk
                continue
            if z3.is_false(t):
                continue
            try:
                b2 = merge(t, x, best)
                bk = merge(t, xk, bk) if key else b2
                best = b2
                continue
            except SpecFail:
                if eng().spec:
                    raise
            c = eng().fork(t)
        if c:
            best, bk = x, xk
    return best


def m_min(*a, key=None, default=UNBOUND):
    return minmax(operator.lt, a[0] if len(a) == 1 else a, key, default)


def m_max(*a, key=None, default=UNBOUND):
    return minmax(operator.gt, a[0] if len(a) == 1 else a, key, default)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_any(it):
    r = False
    for x in it:
        t = truth(x)
        if t is True:
            return True
        r = core.mkor(r, t)
    return r


def m_all(it):
    r = True
    for x in it:
        t = truth(x)
        if t is False:
            return False
        r = core.mkand(r, t)
    return r


def m_sorted(it, key=None, reverse=False):
    xs = list(it)
    import functools
    lt = (lambda a, b: bool(key(a) < key(b))) if key else (lambda a, b: bool(a < b))
    out = []
    for x in xs:            # stable insertion sort
        i = len(out)
        while i > 0 and (lt(x, out[i - 1]) if not reverse else lt(out[i - 1], x)):
            i -= 1
        out.insert(i, x)
    return out


def m_pow(a, b, m=None):
    if m is not None:
        raise Unsupported('pow with modulus')
    return a ** b


def m_round(x, n=None):
    if isinstance(x, SUnion):
        return lift1(m_round, x)
    return x.__round__(n) if n is not None else x.__round__()


def m_divmod(a, b):
    return (a // b, a % b)


def m_str(x='', *a):
    if isinstance(x, SBytes) and a:
        return x.decode(*a)
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym):
        return strs.to_str(x, -1, '')
    return str(x, *a)


def m_repr(x):
    return repr(x)


def m_bin(x):
    raise Unsupported('bin/hex/oct of a symbolic integer')


def m_hex(x):
    return '<symhex>'


def m_print(*a, **k):
    return None


def m_list(x=()):
    return list(x)


def m_tuple(x=()):
    return tuple(x)


def m_memoryview(x):
    if isinstance(x, SBytes):
        if isinstance(x.n, int) and x.mutable:
            raise Unsupported('memoryview of a mutable symbolic buffer')
        return x
    return memoryview(x)


def m_hash(x):
    return hash(x)


# struct ---------------------------------------------------------------------------------------------------------
SZ = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'x': 1, 'c': 1,
      '?': 1, 'n': 8, 'N': 8, 's': 1}
INTS = 'bBhHiIlLqQnN'


def fmt_parse(fmt):
    if isinstance(fmt, (bytes,)):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    out = []
    n = ''
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            n += ch
            continue
        if ch not in SZ:
            raise Unsupported(f'struct format {ch!r}')
        size = SZ[ch]
        if order in '<>=!' and ch in 'lL':
            size = 4
        if order in '<>=!' and ch in 'nN':
            raise struct.error('bad char in struct format')
        if ch in 's':
            out.append((ch, int(n) if n else 1))
        else:
            for _ in range(int(n) if n else 1):
                out.append((ch, size))
        n = ''
    # native alignment
    if order == '@':
        off, res = 0, []
        for ch, size in out:
            if ch not in 'xcs?bB' and off % size:
                pad = size - off % size
                res += [('x', 1)] * pad
                off += pad
            res.append((ch, size))
            off += size
        out = res
    return order, out


def m_pack(fmt, *vals):
    order, fs = fmt_parse(fmt)
    big = order in '>!'
    items = []
    vals = list(vals)
    need = sum(1 for c, _ in fs if c != 'x')
    if need != len(vals):
        raise struct.error(f'pack expected {need} items for packing (got {len(vals)})')
    for ch, size in fs:
        if ch == 'x':
            items.append(0)
            continue
        v = vals.pop(0)
        if isinstance(v, SUnion):
            v = v.force()
        if ch in INTS:
            x = as_int(v)
            if x is None or isinstance(x, SymFloat):
                raise struct.error('required argument is not an integer')
            if ch.islower():
                lo, hi = -1 << (8 * size - 1), (1 << (8 * size - 1)) - 1
            else:
                lo, hi = 0, (1 << (8 * size)) - 1
            if not bool(core.mkand(x >= lo, x <= hi)):
                raise struct.error('argument out of range')
            if isinstance(x, int):
                bs = list((x & ((1 << 8 * size) - 1)).to_bytes(size, 'little'))
            else:
                t = x.low(8 * size)
                bs = [BSlice(t, 8 * i) for i in range(size)]
        elif ch in 'fd':
            x = as_int(v)
            if x is None:
                raise struct.error('required argument is not a float')
            if not isinstance(x, SymFloat):
                x = SymFloat.of_int(x)
            if ch == 'f':
                y = x.to_f32()
                if order in '<>=!' and not x.is32:
                    # standard sizes: overflow is an error
                    ov = core.z_and(z3.fpIsInf(y.fp32()), z3.Not(z3.fpIsInf(x.fp64())))
                    if eng().fork(ov):
                        raise OverflowError('float too large to pack with f format')
                t = y.bits32()
            else:
                t = x.bits64()
            bs = [BSlice(t, 8 * i) for i in range(size)]
        elif ch == '?':
            bs = [core.byte_of(as_int(truth(v)))]
        elif ch == 's':
            v = SBytes.lift(v)
            if v.items is None:
                raise Unsupported('struct s of symbolic length')
            bs = v.items[:size] + [0] * (size - len(v.items))
            items += bs
            continue
        elif ch == 'c':
            bs = SBytes.lift(v).items
        if big:
            bs = bs[::-1]
        items += bs
    return SBytes.from_items(items, False)


def calcsize(fs):
    return sum(s for _, s in fs)


def m_calcsize(fmt):
    return struct.calcsize(fmt)


def m_unpack(fmt, data):
    order, fs = fmt_parse(fmt)
    data = SBytes.lift(data)
    need = calcsize(fs)
    same = as_int(data.n) == need
    if not bool(same):
        raise struct.error(f'unpack requires a buffer of {need} bytes')
    items = data.items if data.items is not None else [data.get(i) for i in range(need)]
    return unpack_items(order, fs, items)


def unpack_items(order, fs, items):
    big = order in '>!'
    out = []
    off = 0
    for ch, size in fs:
        bs = items[off:off + size]
        off += size
        if ch == 'x':
            continue
        if ch in 's':
            out.append(SBytes.from_items(bs, False))
            continue
        if ch == 'c':
            out.append(SBytes.from_items(bs, False))
            continue
        if big:
            bs = bs[::-1]
        w = word(bs)
        if ch == '?':
            out.append(w != 0 if isinstance(w, int) else mkbool(w != 0))
        elif ch in INTS:
            if isinstance(w, int):
                out.append(w - (1 << 8 * size) if ch.islower() and w >> (8 * size - 1) else w)
            else:
                out.append(SymInt.of(w, ch.islower()))
        elif ch == 'f':
            if isinstance(w, int):
                out.append(struct.unpack('<f', struct.pack('<I', w))[0])
            else:
                out.append(SymFloat.of_bits32(w))
        elif ch == 'd':
            if isinstance(w, int):
                out.append(struct.unpack('<d', struct.pack('<Q', w))[0])
            else:
                out.append(SymFloat.of_bits64(w))
    return tuple(out)


def m_unpack_from(fmt, data, offset=0):
    order, fs = fmt_parse(fmt)
    data = SBytes.lift(data)
    need = calcsize(fs)
    if bool(as_int(offset) < 0):
        offset = offset + data.n
    if not bool(as_int(offset) + need <= data.n):
        raise struct.error('unpack_from requires a larger buffer')
    return m_unpack(fmt, data[slice(offset, offset + need)])


def m_pack_into(fmt, buf, offset, *vals):
    b = m_pack(fmt, *vals)
    n = len(b.items)
    if bool(as_int(offset) < 0):
        offset = offset + buf.n
    if not bool(as_int(offset) + n <= buf.n):
        raise struct.error('pack_into requires a larger buffer')
    buf[slice(offset, offset + n)] = b


# math -----------------------------------------------------------------------------------------------------------
def fl(x):
    if isinstance(x, SUnion):
        raise SpecFail()
    x = as_int(x)
    if x is None:
        raise TypeError('must be real number')
    if isinstance(x, SymFloat):
        return x
    return SymFloat.of_int(x)


def un(f):
    def g(x):
        if isinstance(x, SUnion):
            return lift1(g, x)
        return f(x)
    return g


def m_copysign(a, b):
    if isinstance(a, SUnion):
        return lift1(lambda x: m_copysign(x, b), a)
    if isinstance(b, SUnion):
        return lift1(lambda x: m_copysign(a, x), b)
    return fl(a).copysign(fl(b))


@un
def m_isnan(x):
    return mkbool(z3.simplify(fl(x).isnan()))


@un
def m_isinf(x):
    return mkbool(z3.simplify(z3.fpIsInf(fl(x).cmp())))


@un
def m_isfinite(x):
    f = fl(x)
    return mkbool(z3.simplify(z3.And(z3.Not(f.isnan()), z3.Not(z3.fpIsInf(f.cmp())))))


@un
def m_sqrt(x):
    f = fl(x)
    if bool(f < 0.0):
        raise ValueError('math domain error')
    return core.fop('sqrt', f)


@un
def m_fabs(x):
    return abs(fl(x))


def to_int(rm):
    @un
    def g(x):
        if isinstance(x, (SymInt, SymBool)):
            return as_int(x)
        return fl(x).to_int(rm)
    return g


def m_math_trunc(x):
    return to_int(RTZ)(x)


class SymCFloat:
    """ctypes.c_float / c_double holding a symbolic value."""

    def __init__(self, v):
        self.value = v


def m_c_float(x=0.0):
    if isinstance(x, SUnion):
        x = x.force()
    return SymCFloat(fl(x).to_f32())


def m_c_double(x=0.0):
    return SymCFloat(fl(x))


def m_cint(bits, signed):
    def g(x=0):
        x = as_int(x)
        t = core.lowk(x, bits)
        return SymCFloat(SymInt.of(t, signed))
    return g


# io -------------------------------------------------------------------------------------------------------------
class SymBytesIO:
    """io.BytesIO over a buffer with concrete or symbolic content and concrete length."""

    def __init__(self, b=b''):
        b = SBytes.lift(b)
        if b.items is None:
            n = conc(b.n)
            b = SBytes.from_items([b.get(i) for i in range(n)], False)
        self.items = list(b.items)
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        nospec()
        if n is None:
            n = -1
        rem = max(0, len(self.items) - self.pos)
        if isinstance(n, (SymInt, SymBool)):
            n = as_int(n)
            if isinstance(n, SymInt):
                if bool(n < 0) or bool(n >= rem):
                    n = rem
                else:
                    n = conc(n)
        if n < 0 or n > rem:
            n = rem
        r = self.items[self.pos:self.pos + n]
        self.pos += n
        return SBytes.from_items(r, False)

    read1 = read

    def seek(self, off, whence=0):
        nospec()
        off = conc(off)
        whence = conc(whence)
        if whence == 0:
            if off < 0:
                raise ValueError('negative seek value')
            self.pos = off
        elif whence == 1:
            self.pos = max(0, self.pos + off)
        else:
            self.pos = max(0, len(self.items) + off)
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return SBytes.from_items(list(self.items), False)

    def getbuffer(self):
        return self.getvalue()

    def write(self, b):
        nospec()
        b = SBytes.lift(b)
        if b.items is None:
            raise Unsupported('BytesIO.write of symbolic length')
        if self.pos > len(self.items):
            self.items += [0] * (self.pos - len(self.items))
        self.items[self.pos:self.pos + len(b.items)] = b.items
        self.pos += len(b.items)
        return len(b.items)

    def readinto(self, b):
        r = self.read(b.n)
        b[slice(0, len(r.items))] = r
        return len(r.items)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


# ---------------------------------------------------------------------------------------------------------------
# dispatcher
# ---------------------------------------------------------------------------------------------------------------
ALWAYS = {
    bytearray: m_bytearray,
    dict: m_dict,
    io.BytesIO: SymBytesIO,
    print: m_print,
    memoryview: m_memoryview,
    isinstance: m_isinstance,
    type: m_type,
}

SYM = {
    len: m_len, int: m_int, float: m_float, bool: m_bool, bytes: m_bytes, ord: m_ord, chr: m_chr, abs: m_abs,
    min: m_min, max: m_max, sum: m_sum, any: m_any, all: m_all, sorted: m_sorted, range: m_range, pow: m_pow,
    round: m_round, divmod: m_divmod, str: m_str, repr: m_repr, bin: m_bin, oct: m_bin, hex: m_hex, list: m_list,
    tuple: m_tuple, hash: m_hash,
    struct.pack: m_pack, struct.unpack: m_unpack, struct.unpack_from: m_unpack_from, struct.pack_into: m_pack_into,
    struct.calcsize: m_calcsize,
    math.copysign: m_copysign, math.isnan: m_isnan, math.isinf: m_isinf, math.isfinite: m_isfinite,
    math.sqrt: m_sqrt, math.fabs: m_fabs, math.floor: to_int(RTN), math.ceil: to_int(RTP), math.trunc: m_math_trunc,
    ctypes.c_float: m_c_float, ctypes.c_double: m_c_double,
    ctypes.c_int8: m_cint(8, True), ctypes.c_uint8: m_cint(8, False), ctypes.c_int16: m_cint(16, True),
    ctypes.c_uint16: m_cint(16, False), ctypes.c_int32: m_cint(32, True), ctypes.c_uint32: m_cint(32, False),
    ctypes.c_int64: m_cint(64, True), ctypes.c_uint64: m_cint(64, False),
    operator.index: lambda x: x, operator.eq: lambda a, b: a == b, operator.ne: lambda a, b: a != b,
    operator.lt: lambda a, b: a < b, operator.le: lambda a, b: a <= b, operator.gt: lambda a, b: a > b,
    operator.ge: lambda a, b: a >= b, operator.add: lambda a, b: a + b, operator.sub: lambda a, b: a - b,
    operator.mul: lambda a, b: a * b, operator.neg: lambda a: -a, operator.and_: lambda a, b: a & b,
    operator.or_: lambda a, b: a | b, operator.xor: lambda a, b: a ^ b, operator.getitem: sx_getitem,
}

# native callables that are exact on proxies as they are (they only move references around)
PASSIVE_TYPES = (types.FunctionType, types.MethodType, type)
PASSIVE = {enumerate, zip, map, filter, reversed, list, tuple, dict, set, frozenset, iter, next, getattr, setattr,
           hasattr, callable, id, print, isinstance, issubclass, type, object, property, super, slice, format, vars}
PASSIVE_METHODS = {
    list: {'append', 'extend', 'pop', 'insert', 'clear', 'copy', 'reverse', 'remove', 'index', 'count', 'sort'},
    dict: {'get', 'setdefault', 'update', 'keys', 'values', 'items', 'pop', 'clear', 'copy', 'popitem'},
    set: {'add', 'discard', 'remove', 'clear', 'copy', 'update'},
    tuple: {'index', 'count'},
}
MUTATING = {'append', 'extend', 'pop', 'insert', 'clear', 'reverse', 'remove', 'sort', 'setdefault', 'update', 'popitem',
            'add', 'discard', 'write', 'seek', 'read', 'close', 'truncate', 'readinto'}
PURE_BUILTINS = {len, int, float, bool, bytes, bytearray, ord, chr, abs, min, max, sum, any, all, sorted, range, pow, round,
                 divmod, str, repr, hex, bin, oct, list, tuple, dict, set, frozenset, enumerate, zip, map, filter, reversed,
                 isinstance, issubclass, type, getattr, hasattr, callable, hash, id, iter, slice, format}


def symarg(a):
    if isinstance(a, Sym):
        return True
    if type(a) in (list, tuple):
        for x in a:
            if isinstance(x, Sym):
                return True
    return False


HOOKS = {}      # callable -> replacement, set by harness stubs


def sx_call(f, *args, **kw):
    if isinstance(f, SUnion):
        f = f.force()
    try:
        h = ALWAYS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    tf = type(f)
    if tf is types.FunctionType:
        if f is print:
            return None
        return f(*args, **kw)
    e = core.Engine.cur
    if tf is types.MethodType:
        if e is not None and e.spec and f.__name__ in MUTATING:
            raise SpecFail()
        return f(*args, **kw)
    sym = False
    for a in args:
        if symarg(a):
            sym = True
            break
    else:
        for a in kw.values():
            if symarg(a):
                sym = True
                break
    if tf is type:
        if sym or f is range and sym:
            h = SYM.get(f)
            if h is not None:
                return h(*args, **kw)
        elif f is bytes or f is bytearray:
            return f(*args, **kw)
        if f in (dict, set, frozenset) and sym:
            return f(*args, **kw)
        return f(*args, **kw)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if e is not None and e.spec and f not in PURE_BUILTINS and f not in SYM:
                raise SpecFail()
            if sym:
                h = SYM.get(f)
                if h is not None:
                    return h(*args, **kw)
                if f in PASSIVE:
                    return f(*args, **kw)
                raise Unsupported(f'no model for {getattr(f, "__module__", "")}.{f.__name__}')
            # generators handed to any/all/sum/min/max/sorted may produce symbolic values
            if f in (any, all, sum, min, max, sorted):
                args = [list(a) if isinstance(a, types.GeneratorType) or type(a) in (map, filter) else a for a in args]
                if any(symarg(a) for a in args):
                    return SYM[f](*args, **kw)
                if f in (any, all):
                    return SYM[f](*args, **kw)
            return f(*args, **kw)
        return call_method(f, s, args, kw, sym, e)
    if sym:
        h = None
        try:
            h = SYM.get(f)
        except TypeError:
            pass
        if h is not None:
            return h(*args, **kw)
        if tf is struct.Struct:
            pass
    if isinstance(f, type):
        h = SYM.get(f) if sym else None
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)
    return f(*args, **kw)


def call_method(f, s, args, kw, sym, e):
    n = f.__name__
    if e is not None and e.spec and n in MUTATING:
        raise SpecFail()
    if isinstance(s, type):
        if s is int and n == 'from_bytes':
            a = args[0] if args else kw.get('bytes')
            if isinstance(a, SBytes) or sym:
                return core.from_bytes(*args, **kw)
            return f(*args, **kw)
        if s is bytearray and n == 'fromhex':
            if isinstance(args[0], SStr):
                raise Unsupported('fromhex of a symbolic string')
            return SBytes.from_items(list(bytes.fromhex(args[0])), True)
        if s is dict and n == 'fromkeys':
            return f(*args, **kw)
        if sym:
            if s is int and n in ('bit_length', 'to_bytes', 'bit_count'):
                return getattr(args[0], n)(*args[1:], **kw)
            raise Unsupported(f'no model for {s.__name__}.{n}')
        return f(*args, **kw)
    if isinstance(s, (int, float)) and sym:
        if n == 'to_bytes':
            args = [conc(a) for a in args]
            kw = {k: conc(v) for k, v in kw.items()}
            return f(*args, **kw)
        raise Unsupported(f'no model for {type(s).__name__}.{n}')
    if isinstance(s, (bytes, bytearray)):
        if sym or n == 'join':
            return getattr(SBytes.lift(s), n)(*args, **kw)
        return f(*args, **kw)
    if isinstance(s, str):
        if n == 'join':
            a = [('<union>' if isinstance(x, core.LazyMap) else x.force() if isinstance(x, SUnion) else x) for x in args[0]]
            if any(isinstance(x, Sym) for x in a):
                return SStr.lift(s).join(a)
            return s.join(a)
        if sym:
            if n == 'format':
                return '<symfmt>'
            return getattr(SStr.lift(s), n)(*args, **kw)
        return f(*args, **kw)
    if isinstance(s, list):
        if n == 'sort':
            s[:] = m_sorted(s, **kw)
            return None
        if n in ('pop', 'insert') and sym and args and isinstance(args[0], Sym):
            i = as_int(args[0])
            if isinstance(i, SymInt):
                i = seq_index(s, i)
            return f(i, *args[1:])
        if n in ('index', 'count', 'remove'):
            if n == 'index':
                rest = [conc(a) for a in args[1:]]
                for i in range(*(rest + [len(s)] if len(rest) == 1 else rest or [0, len(s)])):
                    if s[i] is args[0] or bool(s[i] == args[0]):
                        return i
                raise ValueError('not in list')
            if n == 'remove':
                for i, x in enumerate(s):
                    if x is args[0] or bool(x == args[0]):
                        del s[i]
                        return None
                raise ValueError('list.remove(x): x not in list')
            return builtins.sum(1 for x in s if x is args[0] or bool(x == args[0]))
        return f(*args, **kw)
    if isinstance(s, dict):
        if n in ('get', 'pop', 'setdefault') and (sym or any(isinstance(k, Sym) for k in s)):
            for x in list(s):
                q = x == args[0]
                if q is not NotImplemented and bool(q):
                    return loosely(s, x, lambda: s[x] if n != 'pop' else s.pop(x))
            if n == 'setdefault':
                sx_setitem(s, args[0], args[1] if len(args) > 1 else None)
                return args[1] if len(args) > 1 else None
            if len(args) > 1:
                return args[1]
            if n == 'pop':
                raise KeyError(args[0])
            return None
        if n == 'update' and (len(args) == 1 and not isinstance(args[0], dict) or sym) or \
                n == 'update' and args and any(isinstance(k, Sym) for k in args[0]):
            for k, v in (args[0].items() if isinstance(args[0], dict) else args[0]):
                sx_setitem(s, k, v)
            s.update(**kw)
            return None
        return f(*args, **kw)
    if isinstance(s, (set, tuple, frozenset)):
        return f(*args, **kw)
    if isinstance(s, struct.Struct):
        if n == 'pack':
            return m_pack(s.format, *args) if sym else f(*args)
        if n == 'unpack':
            return m_unpack(s.format, *args) if sym else f(*args)
        if n == 'unpack_from':
            return m_unpack_from(s.format, *args, **kw) if sym else f(*args, **kw)
        if n == 'pack_into':
            return m_pack_into(s.format, *args)
    if sym:
        raise Unsupported(f'no model for {type(s).__name__}.{n}')
    return f(*args, **kw)


def install(d):
    for k, v in list(globals().items()):
        if k.startswith('sx_'):
            d['_' + k] = v
    d['_sx_UNBOUND'] = UNBOUND
    d['_sx_Catch'] = Catch
