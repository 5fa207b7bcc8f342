"""Symbolic values and path exploration for the Python executor.

Real pywasm code (AST-instrumented by sx.instr, but otherwise executed by CPython as is) runs over the proxy values
defined here.  A proxy stands for *every* value an input can take; the engine follows every feasible path and keeps
the exact path condition, so what a path returns is a closed-form term over the inputs.

SymInt     exact Python integer: a z3 bit-vector wide enough never to wrap, plus an interval
SymBool    z3 Bool (also usable as the ints 0/1, as in Python)
SymFloat   Python float (binary64) with exact NaN payload tracking and knowledge of a binary32 origin
SBytes     bytes/bytearray, concrete or symbolic content, concrete or symbolic length
"""
import itertools
import math
import operator
import struct
import time
import z3

z3.set_param('smt.random_seed', 0)


# ---------------------------------------------------------------------------------------------------------------
# control exceptions: BaseException so the code under test cannot catch them
# ---------------------------------------------------------------------------------------------------------------
class SxControl(BaseException):
    pass


class Unsupported(SxControl):
    """The executor met something it has no exact model for: the case is inconclusive, never a success."""


class Infeasible(SxControl):
    pass


class SpecFail(SxControl):
    """Speculative (merged) execution of a branch is not possible; fall back to forking."""


class Budget(SxControl):
    pass


# ---------------------------------------------------------------------------------------------------------------
# small z3 helpers
# ---------------------------------------------------------------------------------------------------------------
RNE = z3.RNE()
RTZ = z3.RTZ()
RTP = z3.RTP()
RTN = z3.RTN()
F32 = z3.Float32()
F64 = z3.Float64()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
IW = 40             # width of byte-index terms


def bvv(v, w):
    return z3.BitVecVal(v, w)


def zext(t, w):
    n = t.size()
    return t if n == w else z3.ZeroExt(w - n, t)


def sext(t, w):
    n = t.size()
    return t if n == w else z3.SignExt(w - n, t)


def z_not(c):
    if z3.is_true(c):
        return FALSE
    if z3.is_false(c):
        return TRUE
    return z3.Not(c)


def z_and(*cs):
    r = [c for c in cs if not z3.is_true(c)]
    for c in r:
        if z3.is_false(c):
            return FALSE
    if not r:
        return TRUE
    return r[0] if len(r) == 1 else z3.And(*r)


def z_or(*cs):
    r = [c for c in cs if not z3.is_false(c)]
    for c in r:
        if z3.is_true(c):
            return TRUE
    if not r:
        return FALSE
    return r[0] if len(r) == 1 else z3.Or(*r)


def z_if(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.branches = 0
        self.merges = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)

    def dict(self):
        return dict(self.__dict__)


class Engine:
    cur = None

    def __init__(self, timeout_ms=20000, max_paths=4000, max_decisions=20000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.stats = Stats()
        self.spec = 0
        self.fresh_n = 0
        self.notes = set()
        self.funcs = set()
        self.pins = {}
        self.unknown_feas = 0

    # -- exploration ------------------------------------------------------------------------------------------
    def explore(self, fn):
        """Run fn() over every feasible path.  Yields (constraints, kind, value) per completed path, where kind is
        'ret' or 'exc'."""
        work = [[]]
        prev = Engine.cur
        Engine.cur = self
        try:
            while work:
                prefix = work.pop()
                if self.stats.paths >= self.max_paths:
                    raise Budget(f'more than {self.max_paths} paths')
                if self.deadline and time.time() > self.deadline:
                    raise Budget('deadline')
                self.prefix = prefix
                self.trace = []
                self.work = work
                self.solver = z3.Solver()
                self.solver.set('timeout', self.timeout_ms)
                self.cons = []
                self.pins = {}
                self.model = None
                self.fresh_n = 0
                self.spec = 0
                self.stats.paths += 1
                try:
                    try:
                        v = fn()
                        kind = 'ret'
                    except Exception as e:
                        v = e
                        kind = 'exc'
                    except SystemExit as e:
                        v = e
                        kind = 'exc'
                except Infeasible:
                    continue
                if len(self.trace) < len(prefix):
                    raise Unsupported('non-deterministic re-execution')
                Engine.cur = None
                yield list(self.cons), kind, v
                Engine.cur = self
        finally:
            Engine.cur = prev

    # -- solver -----------------------------------------------------------------------------------------------
    def check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, c):
        self.cons.append(c)
        self.solver.add(c)
        self.note_pin(c)

    def note_pin(self, c):
        # remember terms that the path condition fixes to one value
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                self.pins[a.get_id()] = b.as_long()
        elif z3.is_and(c):
            for k in c.children():
                self.note_pin(k)

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self.model = self.solver.model()
        return self.model

    def fork(self, cond):
        """Decide a branch condition: returns a bool, having recorded the constraint."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.spec:
            # inside a merged branch: only conditions that are already decided can be followed
            if self.entails(cond):
                return True
            if self.entails(z3.Not(cond)):
                return False
            raise SpecFail()
        if len(self.trace) < len(self.prefix):
            d = self.prefix[len(self.trace)]
            self.trace.append(d)
            if d[0] != 'b':
                raise Unsupported('non-deterministic re-execution')
            if d[2]:
                self.add(cond if d[1] else z3.Not(cond))
                self.model = None
            return d[1]
        if len(self.trace) > self.max_decisions:
            raise Budget('too many decisions on one path')
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        ncond = z3.Not(cond)
        m = self.get_model()
        if m is None:
            ct = cf = None
        else:
            v = m.eval(cond, model_completion=True)
            ct = True if z3.is_true(v) else None
            cf = True if z3.is_false(v) else None
        if ct is None:
            r = self.check(cond)
            ct = r != z3.unsat
            if r == z3.unknown:
                self.unknown_feas += 1
            elif r == z3.sat and not cf:
                self.model = self.solver.model()
        if cf is None:
            r = self.check(ncond)
            cf = r != z3.unsat
            if r == z3.unknown:
                self.unknown_feas += 1
        if not ct and not cf:
            raise Infeasible()
        if ct and cf:
            self.stats.branches += 1
            self.work.append(self.trace + [('b', False, True)])
            self.trace.append(('b', True, True))
            self.add(cond)
            m = self.model
            if m is not None and not z3.is_true(m.eval(cond, model_completion=True)):
                self.model = None
            return True
        # implied by the path condition: nothing to add
        self.trace.append(('b', bool(ct), False))
        return bool(ct)

    def entails(self, cond):
        """True if the path condition implies cond (False when not, or not decided in time)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        m = self.get_model() if self.model is not None else None
        if m is not None and z3.is_false(m.eval(cond, model_completion=True)):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def pick(self, term):
        """Concretise a bit-vector term: fork over its feasible values, returns a Python int (unsigned)."""
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_long()
        if self.spec:
            raise SpecFail()
        n = 0
        while True:
            if len(self.trace) < len(self.prefix):
                d = self.prefix[len(self.trace)]
                self.trace.append(d)
                if d[0] != 'v':
                    raise Unsupported('non-deterministic re-execution')
                c = term == d[1]
                self.add(c if d[2] else z3.Not(c))
                self.model = None
                if d[2]:
                    return d[1]
                continue
            m = self.get_model()
            if m is None:
                raise Unsupported('cannot concretise: solver gave up')
            v = m.eval(term, model_completion=True).as_long()
            c = term == v
            self.stats.branches += 1
            if self.check(z3.Not(c)) != z3.unsat:
                self.work.append(self.trace + [('v', v, False)])
            self.trace.append(('v', v, True))
            self.add(c)
            return v

    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec(f'{name}!{self.fresh_n}', w)


def eng():
    e = Engine.cur
    if e is None:
        raise Unsupported('symbolic operation outside an exploration')
    return e


def nospec():
    """Called before any side effect: a merged branch must not have any."""
    if Engine.cur is not None and Engine.cur.spec:
        raise SpecFail()


# ---------------------------------------------------------------------------------------------------------------
# SymBool
# ---------------------------------------------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()

    def __reduce__(self):
        raise Unsupported('copying a symbolic value through pickle')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().fork(self.t)

    def int(self):
        return SymInt(z3.If(self.t, bvv(1, 1), bvv(0, 1)), False, 0, 1)

    def __repr__(self):
        return '<symbool>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symbool>'

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0

    def to_bytes(self, *a, **k):
        return self.int().to_bytes(*a, **k)

    def __and__(self, o):
        if isinstance(o, bool):
            o = SymBool(z3.BoolVal(o))
        if isinstance(o, SymBool):
            return mkbool(z_and(self.t, o.t))
        return self.int() & o

    def __or__(self, o):
        if isinstance(o, bool):
            o = SymBool(z3.BoolVal(o))
        if isinstance(o, SymBool):
            return mkbool(z_or(self.t, o.t))
        return self.int() | o

    def __xor__(self, o):
        if isinstance(o, bool):
            o = SymBool(z3.BoolVal(o))
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.t, o.t))
        return self.int() ^ o

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.t if o else z_not(self.t))
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        return self.int() == o

    def __ne__(self, o):
        return sx_not(self == o)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zbool(x):
    """z3 Bool of a Python truth value / SymBool."""
    if isinstance(x, SymBool):
        return x.t
    return TRUE if x else FALSE


def sx_not(x):
    if isinstance(x, SymBool):
        return mkbool(z_not(x.t))
    if isinstance(x, SymInt):
        return x == 0
    if isinstance(x, Sym):
        return sx_not(truth(x))
    return not x


def truth(x):
    """Truth value of any object as bool or SymBool (no forking for ints and floats)."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymFloat):
        return x != 0.0
    if isinstance(x, SUnion):
        return lift1(truth, x)
    if isinstance(x, SBytes):
        n = x.n
        return n != 0
    return bool(x)


# ---------------------------------------------------------------------------------------------------------------
# SymInt
# ---------------------------------------------------------------------------------------------------------------
def nbits(lo, hi):
    """(signed, width) sufficient for [lo, hi]."""
    if lo >= 0:
        return False, max(hi.bit_length(), 1)
    return True, max(hi.bit_length() if hi >= 0 else 0, (-lo - 1).bit_length() if lo < 0 else 0) + 1


MAXW = 4200


class SymInt(Sym):
    __slots__ = ('_bv', 'sg', 'w', 'lo', 'hi', 'op', 'a', 'b', 'lc')

    def __init__(self, bv, sg, lo, hi, op=None, a=None, b=None):
        self._bv = bv
        self.lo = lo
        self.hi = hi
        self.op = op
        self.a = a
        self.b = b
        self.lc = None
        if bv is not None:
            self.sg = sg
            self.w = bv.size()
        else:
            self.sg, self.w = nbits(lo, hi)

    @staticmethod
    def var(name, w, signed=False):
        t = z3.BitVec(name, w)
        return SymInt.of(t, signed)

    @staticmethod
    def of(t, signed=False):
        w = t.size()
        if signed:
            return SymInt(t, True, -1 << (w - 1), (1 << (w - 1)) - 1)
        return SymInt(t, False, 0, (1 << w) - 1)

    def pin(self):
        """The value the path condition fixes this integer to, if that is known."""
        e = Engine.cur
        if e is None or not e.pins or self._bv is None:
            return None
        v = e.pins.get(self._bv.get_id())
        if v is None:
            return None
        if self.sg and v >> (self.w - 1):
            v -= 1 << self.w
        return v

    # -- term access ------------------------------------------------------------------------------------------
    @property
    def bv(self):
        if self._bv is None:
            if self.w > MAXW:
                raise Unsupported(f'{self.w}-bit integer term')
            self._bv = self._build(self.w)
        return self._bv

    def _build(self, k):
        op, a, b = self.op, self.a, self.b
        if op == 'add':
            return lowk(a, k) + lowk(b, k)
        if op == 'sub':
            return lowk(a, k) - lowk(b, k)
        if op == 'mul':
            return lowk(a, k) * lowk(b, k)
        if op == 'neg':
            return -lowk(a, k)
        if op == 'inv':
            return ~lowk(a, k)
        if op == 'shl':
            # a << b, b non-negative
            if isinstance(b, int):
                if b >= k:
                    return bvv(0, k)
                return lowk(a, k) << b
            kk = max(k, b.w)
            t = lowk(a, kk) << lowk(b, kk)
            return t if kk == k else z3.Extract(k - 1, 0, t)
        if op == 'fint':
            return fint_low(a, k)
        raise AssertionError(op)

    def low(self, k):
        """The value modulo 2^k as a k-bit term (exact for any k)."""
        if self._bv is not None and k == self.w:
            return self._bv
        lc = self.lc
        if lc is None:
            lc = self.lc = {}
        r = lc.get(k)
        if r is None:
            r = lc[k] = self._low(k)
        return r

    def _low(self, k):
        if self.op in ('add', 'sub', 'mul', 'neg', 'inv', 'shl', 'fint'):
            if k > self.w and self._bv is not None and self.op in ('mul', 'shl', 'fint'):
                pass
            else:
                return self._build(k)
        if self.op in ('and', 'or', 'xor') and k < self.w:
            x, y = lowk(self.a, k), lowk(self.b, k)
            return x & y if self.op == 'and' else (x | y if self.op == 'or' else x ^ y)
        bv = self.bv
        if k == self.w:
            return bv
        if k < self.w:
            return z3.Extract(k - 1, 0, bv)
        return sext(bv, k) if self.sg else zext(bv, k)

    def idx(self):
        """As a byte index term (IW bits)."""
        if self.lo < 0 or self.hi >= 1 << (IW - 1):
            e = eng()
            if e.entails(zbool((self >= 0) & (self < (1 << (IW - 1))))):
                return self.low(IW)
            raise Unsupported('index term out of the modelled range')
        return self.low(IW)

    def simp(self):
        """Simplify: returns an int if the term is constant."""
        if self.lo == self.hi:
            return self.lo
        if self.w > MAXW:
            return self
        t = z3.simplify(self.bv)
        if z3.is_bv_value(t):
            return t.as_signed_long() if self.sg else t.as_long()
        return self

    # -- misc -------------------------------------------------------------------------------------------------
    def __repr__(self):
        return '<symint>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symint>'

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.w > MAXW:
            raise Unsupported('concretising a huge integer')
        v = self.pin()
        if v is not None:
            return v
        v = eng().pick(self.bv)
        if self.sg and v >> (self.w - 1):
            v -= 1 << self.w
        return v

    def __int__(self):
        return self.__index__()

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_length()
        r = 0
        t = a.bv
        rw = a.w.bit_length()
        acc = bvv(0, rw)
        for i in range(a.w):
            acc = z3.If(z3.Extract(i, i, t) == 1, bvv(i + 1, rw), acc)
        return SymInt(acc, False, 0, a.w)

    def bit_count(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_count()
        rw = a.w.bit_length()
        acc = bvv(0, rw)
        for i in range(a.w):
            acc = acc + zext(z3.Extract(i, i, a.bv), rw)
        return SymInt(acc, False, 0, a.w)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = conc(length)
        if signed:
            ok = mkand(self >= (-1 << (8 * length - 1)), self <= (1 << (8 * length - 1)) - 1)
        else:
            if not ge(self, 0):
                raise OverflowError("can't convert negative int to unsigned")
            ok = self <= (1 << (8 * length)) - 1
        if not ok:
            raise OverflowError('int too big to convert')
        t = self.low(8 * length) if length else None
        items = [BSlice(t, 8 * i) for i in range(length)]
        if byteorder == 'big':
            items.reverse()
        return SBytes.from_items(items, mutable=False)

    # -- comparisons ------------------------------------------------------------------------------------------
    def __eq__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return o == self
        if self is o:
            return True
        p = self.pin()
        if p is not None:
            return o == p
        olo, ohi = rng(o)
        if self.hi < olo or self.lo > ohi:
            return False
        if self.op == 'fint' or (isinstance(o, SymInt) and o.op == 'fint'):
            return fint_cmp(self, o, 'eq')
        if self.op == 'mul' and isinstance(o, int) and o == 0:
            return mkor(self.a == 0, self.b == 0)
        x, y = align(self, o)
        return mkbool(x == y)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sx_not(r)

    def __lt__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return o > self
        p = self.pin()
        if p is not None:
            return o > p
        olo, ohi = rng(o)
        if self.hi < olo:
            return True
        if self.lo >= ohi:
            return False
        if self.op == 'fint' or (isinstance(o, SymInt) and o.op == 'fint'):
            return fint_cmp(self, o, 'lt')
        if self.op == 'mul' and isinstance(o, int) and o == 0:
            return mkor(mkand(self.a < 0, self.b > 0), mkand(self.a > 0, self.b < 0))
        x, y = align(self, o)
        if self.lo < 0 or olo < 0:
            return mkbool(x < y)
        return mkbool(z3.ULT(x, y))

    def __gt__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return o < self
        p = self.pin()
        if p is not None:
            return o < p
        if isinstance(o, int):
            if self.op == 'mul' and o == 0:
                return mkor(mkand(self.a > 0, self.b > 0), mkand(self.a < 0, self.b < 0))
            if self.lo > o:
                return True
            if self.hi <= o:
                return False
            if self.op == 'fint':
                return fint_cmp(self, o, 'gt')
            x, y = align(self, o)
            if self.lo < 0 or o < 0:
                return mkbool(x > y)
            return mkbool(z3.UGT(x, y))
        return o.__lt__(self)

    def __le__(self, o):
        r = self.__gt__(o)
        if r is NotImplemented or isinstance(as_int(o), SymFloat):
            o = as_int(o)
            return NotImplemented if o is None else o >= self
        return sx_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        if r is NotImplemented or isinstance(as_int(o), SymFloat):
            o = as_int(o)
            return NotImplemented if o is None else o <= self
        return sx_not(r)

    # -- arithmetic -------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return o + self
        if isinstance(o, int) and o == 0:
            return self
        lo, hi = rng(o)
        # x + (-x % y)  is  -(-x // y) * y : remembered for an exact division by y
        return SymInt(None, None, self.lo + lo, self.hi + hi, 'add', self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return SymFloat.of_int(self) - o
        if isinstance(o, int) and o == 0:
            return self
        if o is self:
            return 0
        # n - ((n & s) << 1) with 0 <= n < 2s, s a power of two: two-s complement reinterpretation
        if isinstance(o, SymInt) and o.op == 'shl' and isinstance(o.b, int) and o.b == 1 and isinstance(o.a, SymInt) \
                and o.a.op == 'and' and self.lo >= 0:
            x, y = o.a.a, o.a.b
            if isinstance(x, int):
                x, y = y, x
            if x is self and isinstance(y, int) and y > 0 and y & (y - 1) == 0 and self.hi < 2 * y:
                k = y.bit_length()
                return SymInt(self.low(k), True, -y, y - 1)
        lo, hi = rng(o)
        return SymInt(None, None, self.lo - hi, self.hi - lo, 'sub', self, o)

    def __rsub__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return -self
        lo, hi = rng(o)
        return SymInt(None, None, lo - self.hi, hi - self.lo, 'sub', o, self)

    def __neg__(self):
        return SymInt(None, None, -self.hi, -self.lo, 'neg', self)

    def __pos__(self):
        return self

    def __invert__(self):
        return SymInt(None, None, -1 - self.hi, -1 - self.lo, 'inv', self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        m = max(-self.lo, self.hi)
        return merge(zbool(self < 0), -self, self, (0, m))

    def __mul__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            return o * self
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            if o == -1:
                return -self
        lo, hi = rng(o)
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return SymInt(None, None, min(c), max(c), 'mul', self, o)

    __rmul__ = __mul__

    def _divmod(self, o):
        """floor (q, r) terms; o non-zero on this path."""
        olo, ohi = rng(o)
        m = max(abs(self.lo), abs(self.hi), abs(olo), abs(ohi))
        W = max(m.bit_length(), 1)
        A, an = uabs(self, W)
        B, bn = uabs(o, W)
        q = z3.UDiv(A, B)
        r = z3.URem(A, B)
        return W, A, an, B, bn, q, r

    def __floordiv__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymFloat):
            raise Unsupported('float floor division')
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0 and o & (o - 1) == 0:
                return self >> (o.bit_length() - 1)
        elif o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        # (x + (-x % o)) // o  ==  -(-x // o)         (exact: the numerator is a multiple of o)
        # (x - x % o) // o     ==  x // o
        if self.op == 'add':
            for x, m in ((self.a, self.b), (self.b, self.a)):
                if isinstance(m, SymInt) and m.op == 'mod' and m.b is o and isinstance(m.a, SymInt) \
                        and m.a.op == 'neg' and m.a.a is x:
                    return -(m.a // o)
        if self.op == 'sub' and isinstance(self.b, SymInt) and self.b.op == 'mod' and self.b.b is o \
                and self.b.a is self.a:
            return self.a // o
        x = self
        if x.op == 'neg' and isinstance(x.a, SymInt):
            pass
        W, A, an, B, bn, q, r = self._divmod(o)
        diff = z3.simplify(z3.Xor(an, bn))
        if z3.is_false(diff):
            hi = max(abs(self.lo), abs(self.hi))
            return SymInt(q, False, 0, min(hi, (1 << W) - 1), 'fdiv', self, o)
        q1 = zext(q, W + 1)
        t = z_if(diff, -(q1 + z3.If(r != 0, bvv(1, W + 1), bvv(0, W + 1))), q1)
        m = max(abs(self.lo), abs(self.hi))
        olo, ohi = rng(o)
        lo, hi = -m, m
        if self.lo >= 0 and olo >= 0:
            lo = 0
        return SymInt(t, True, lo, hi, 'fdiv', self, o)

    def __rfloordiv__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        return lift_int(o).__floordiv__(self)

    def __mod__(self, o):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer modulo by zero')
            if o > 0 and o & (o - 1) == 0:
                return self & (o - 1)
        elif o == 0:
            raise ZeroDivisionError('integer modulo by zero')
        W, A, an, B, bn, q, r = self._divmod(o)
        # magnitude of the floor remainder (has the sign of o)
        diff = z3.simplify(z3.Xor(an, bn))
        mag = z_if(diff, z3.If(r == 0, r, B - r), r)
        olo, ohi = rng(o)
        M = max(abs(olo), abs(ohi))
        if olo > 0:
            return SymInt(mag, False, 0, min(M - 1, (1 << W) - 1), 'mod', self, o)
        m1 = zext(mag, W + 1)
        t = z_if(bn, -m1, m1)
        return SymInt(t, True, -(M - 1) if olo < 0 else 0, (M - 1) if ohi > 0 else 0, 'mod', self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return '<symfmt>'
        o = as_int(o)
        if o is None:
            return NotImplemented
        return lift_int(o).__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        f = as_int(o)
        if isinstance(f, SymFloat):
            if f.opinfo and f.opinfo[0] == 'const' and f.opinfo[1] >= 1 and f.opinfo[1] == int(f.opinfo[1]) and self.op != 'fint':
                return int_truediv(self, int(f.opinfo[1]))
            return SymFloat.of_int(self) / f
        return int_truediv(self, o)

    def __rtruediv__(self, o):
        return int_truediv(o, self)

    def __pow__(self, o, mod=None):
        if mod is None and isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('pow')

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2:
            return 1 << self
        raise Unsupported('pow')

    # -- bit operations ---------------------------------------------------------------------------------------
    def __and__(self, o):
        o = as_int(o)
        if o is None or isinstance(o, SymFloat):
            return NotImplemented
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == -1:
                return self
            if o > 0:
                k = o.bit_length()
                if o == (1 << k) - 1:
                    if self.lo >= 0 and self.hi <= o:
                        return self
                    t = self.low(k)
                    return SymInt(t, False, 0, o)
                return SymInt(self.low(k) & bvv(o, k), False, 0, o, 'and', self, o)
        lo, hi = rng(o)
        if self.lo >= 0 or lo >= 0:
            if self.lo >= 0 and lo >= 0:
                m = min(self.hi, hi)
            elif self.lo >= 0:
                m = self.hi
            else:
                m = hi
            k = max(m.bit_length(), 1)
            return SymInt(self.low(k) & lowk(o, k), False, 0, m, 'and', self, o)
        x, y = align(self, o)
        k = x.size()
        return SymInt(x & y, True, -1 << (k - 1), (1 << (k - 1)) - 1, 'and', self, o)

    __rand__ = __and__

    def _orx(self, o, op):
        o = as_int(o)
        if o is None or isinstance(o, SymFloat):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        lo, hi = rng(o)
        x, y = align(self, o)
        k = x.size()
        t = (x | y) if op == 'or' else (x ^ y)
        if self.lo >= 0 and lo >= 0:
            m = (1 << max(self.hi.bit_length(), hi.bit_length())) - 1
            return SymInt(t, False, max(self.lo, lo) if op == 'or' else 0, m, op, self, o)
        if op == 'or' and (self.hi < 0 or hi < 0):
            return SymInt(t, True, -1 << (k - 1), -1, op, self, o)
        return SymInt(t, True, -1 << (k - 1), (1 << (k - 1)) - 1, op, self, o)

    def __or__(self, o):
        return self._orx(o, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._orx(o, 'xor')

    __rxor__ = __xor__

    def __lshift__(self, o):
        return shl(self, o)

    def __rlshift__(self, o):
        return shl(o, self)

    def __rshift__(self, o):
        return shr(self, o)

    def __rrshift__(self, o):
        return shr(o, self)

    def __float__(self):
        raise Unsupported('implicit float()')

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


def as_int(o):
    """Normalise an operand: int, SymInt, or SymFloat (float); None if not numeric."""
    if isinstance(o, SymInt):
        return o
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if isinstance(o, SymBool):
        return o.int()
    if isinstance(o, SymFloat):
        return o
    if isinstance(o, float):
        return SymFloat.const(o)
    return None


def conc(x):
    """Concrete int (forks over values when symbolic)."""
    if isinstance(x, (SymInt, SymBool)):
        return x.__index__()
    return x


def rng(o):
    return (o, o) if isinstance(o, int) else (o.lo, o.hi)


def lift_int(o):
    if isinstance(o, SymInt):
        return o
    sg, w = nbits(o, o)
    return SymInt(bvv(o, w), sg, o, o)


def lowk(x, k):
    if isinstance(x, int):
        return bvv(x & ((1 << k) - 1), k)
    return x.low(k)


def align(a, b):
    """Terms of a and b at a common width in which both are exact (signed if either may be negative)."""
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    sg, w = nbits(min(alo, blo), max(ahi, bhi))
    if isinstance(a, SymInt):
        w = max(w, a.w + (1 if sg and not a.sg else 0)) if a._bv is not None else w
    if isinstance(b, SymInt):
        w = max(w, b.w + (1 if sg and not b.sg else 0)) if b._bv is not None else w
    if w > MAXW:
        raise Unsupported(f'{w}-bit comparison')
    return lowk(a, w), lowk(b, w)


def uabs(x, W):
    """(|x| as W-bit unsigned term, negative? z3 Bool)"""
    if isinstance(x, int):
        return bvv(abs(x), W), z3.BoolVal(x < 0)
    if x.lo >= 0:
        return x.low(W), FALSE
    if x.op == 'neg' and isinstance(x.a, SymInt):
        # |-a| = |a|
        t, n = uabs(x.a, W)
        return t, zbool(x.a > 0)
    t = x.low(W)
    n = zbool(x < 0)
    return z_if(n, -t, t), n


def ge(a, b):
    return bool(a >= b)


def mkand(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return mkbool(z_and(a.t, b.t))


def mkor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return mkbool(z_or(a.t, b.t))


def shl(a, b):
    a, b = as_int(a), as_int(b)
    if a is None or b is None or isinstance(a, SymFloat) or isinstance(b, SymFloat):
        return NotImplemented
    if isinstance(b, int):
        if b < 0:
            raise ValueError('negative shift count')
        if b == 0:
            return a
        return SymInt(None, None, a.lo << b, a.hi << b, 'shl', a, b)
    if b.lo < 0:
        if b < 0:
            raise ValueError('negative shift count')
    lo, hi = rng(a)
    bhi = b.hi
    blo = max(b.lo, 0)
    if bhi > 2100:
        if eng().entails(zbool(b <= 2100)):
            bhi = 2100
        else:
            raise Unsupported('left shift by a large symbolic count')
    c = [lo << blo, lo << bhi, hi << blo, hi << bhi]
    return SymInt(None, None, min(c), max(c), 'shl', a, b)


def shr(a, b):
    a, b = as_int(a), as_int(b)
    if a is None or b is None or isinstance(a, SymFloat) or isinstance(b, SymFloat):
        return NotImplemented
    if isinstance(b, int):
        if b < 0:
            raise ValueError('negative shift count')
        if b == 0:
            return a
        lo, hi = a.lo >> b, a.hi >> b
        if lo == hi:
            return lo
        if a.op == 'fint':
            raise Unsupported('shift of a huge float-derived integer')
        if a.w <= b:
            return SymInt(z3.If(a.bv < 0, bvv(1, 1), bvv(0, 1)), True, -1, 0)
        return SymInt(z3.Extract(a.w - 1, b, a.bv), a.sg, lo, hi)
    if b.lo < 0:
        if b < 0:
            raise ValueError('negative shift count')
    lo, hi = rng(a)
    blo, bhi = max(b.lo, 0), b.hi
    bb = min(bhi, 5000)
    c = [lo >> blo, lo >> bb, hi >> blo, hi >> bb]
    if bhi > bb:
        c += [0, -1] if lo < 0 else [0]
    a_ = lift_int(a)
    sg = lo < 0
    W = max(a_.w + (1 if sg and not a_.sg else 0), b.w)
    x, y = a_.low(W), b.low(W)
    t = (x >> y) if sg else z3.LShR(x, y)
    lo, hi = min(c), max(c)
    s2, w2 = nbits(lo, hi)
    if w2 < W:
        t = z3.Extract(w2 - 1, 0, t)
    return SymInt(t, s2 if w2 < W else sg, lo, hi)


def int_truediv(a, b):
    """int / int: exact when both fit 53 bits (one correctly rounded division)."""
    if bool(as_int(b) == 0):
        raise ZeroDivisionError('division by zero')
    big = False
    for x in (a, b):
        lo, hi = rng(as_int(x))
        big = big or max(abs(lo), abs(hi)) > 1 << 53
    if big and not (isinstance(as_int(b), int) and as_int(b) > 0):
        raise Unsupported('true division of integers beyond 53 bits')
    # beyond 53 bits: the quotient of the rounded operands (Python rounds once); such values are only passed on as ratios
    r = SymFloat.of_int(as_int(a)) / SymFloat.of_int(as_int(b))
    if isinstance(as_int(b), int) and isinstance(as_int(a), SymInt):
        r.ratio = (as_int(a), as_int(b))
        r.rough = big
    return r


# ---------------------------------------------------------------------------------------------------------------
# SymFloat
# ---------------------------------------------------------------------------------------------------------------
QUIET64 = 0x0008000000000000
QUIET32 = 0x00400000
CANON64 = 0x7ff8000000000000
CANON32 = 0x7fc00000


def isnan_bits(t):
    w = t.size()
    m = 23 if w == 32 else 52
    inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
    return z3.UGT(t & bvv((1 << (w - 1)) - 1, w), bvv(inf, w))


def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


class SymFloat(Sym):
    """A binary64 value.  Two representations, each built on demand:
       bits64 (z3 BV64, exact incl. NaN payload) and fp64 (z3 FP).
       f32: (bits32, fp32) if the value is known to be exactly representable in binary32 (NaN: quiet, payload in the
       top 23 bits)."""
    __slots__ = ('_bits', '_fp', '_b32', '_fp32', 'is32', 'opinfo', 'args', '_isnan', 'ratio', 'rough')

    def __init__(self):
        self.ratio = None           # (SymInt n, int d): the float nearest to n/d; rough: its bits may be off by one ulp
        self.rough = False
        self._bits = self._fp = self._b32 = self._fp32 = None
        self.is32 = False
        self.opinfo = None
        self.args = ()
        self._isnan = None

    # -- constructors -----------------------------------------------------------------------------------------
    @staticmethod
    def const(x):
        r = SymFloat()
        b = f64_bits(x)
        r._bits = bvv(b, 64)
        r.opinfo = ('const', x)
        if x != x or math.isinf(x):
            if (b & ((1 << 29) - 1)) == 0:
                r.is32 = True
        else:
            try:
                if struct.unpack('<f', struct.pack('<f', x))[0] == x:
                    r.is32 = True
            except OverflowError:
                pass
        if r.is32:
            if x != x:
                r._b32 = bvv(((b >> 63) << 31) | 0x7f800000 | ((b >> 29) & 0x7fffff), 32)
            else:
                r._b32 = bvv(struct.unpack('<I', struct.pack('<f', x))[0], 32)
        return r

    @staticmethod
    def of_bits64(t):
        r = SymFloat()
        r._bits = t
        return r

    @staticmethod
    def of_bits32(t):
        """Widening load of a binary32: signalling NaNs become quiet (hardware conversion)."""
        r = SymFloat()
        r.is32 = True
        r._b32 = z_if(isnan_bits(t), t | bvv(QUIET32, 32), t)
        r._fp32 = z3.fpBVToFP(t, F32)
        r._isnan = isnan_bits(t)
        return r

    @staticmethod
    def of_fp64(fp, nanbits):
        """Result of an FP operation; nanbits: BV64 term giving the NaN result bits."""
        r = SymFloat()
        r._fp = fp
        r.args = (nanbits,)
        return r

    @staticmethod
    def of_int(x):
        """float(int): correctly rounded; OverflowError for huge."""
        x = as_int(x)
        if isinstance(x, int):
            return SymFloat.const(float(x))
        if x.op == 'fint':
            # exact: an integral float; zero is +0
            f = x.a
            r = SymFloat()
            z = zbool(f == 0.0)
            r._fp = z3.If(z, z3.FPVal(0.0, F64), f.fp64())
            r._bits = z3.If(z, bvv(0, 64), f.bits64())
            if f.is32:
                r.is32 = True
                r._b32 = z3.If(z, bvv(0, 32), f.bits32())
                r._fp32 = z3.If(z, z3.FPVal(0.0, F32), f.fp32())
            r._isnan = FALSE
            return r
        if x.hi >= 1 << 1023 or x.lo <= -(1 << 1023):
            raise Unsupported('float() of a huge integer')
        r = SymFloat()
        t = x.bv
        if x.sg:
            r._fp = z3.fpSignedToFP(RNE, t, F64)
        else:
            r._fp = z3.fpUnsignedToFP(RNE, t, F64)
        r._isnan = FALSE
        m = max(abs(x.lo), abs(x.hi))
        if m <= 1 << 24:
            r.is32 = True
            r._fp32 = z3.fpSignedToFP(RNE, t, F32) if x.sg else z3.fpUnsignedToFP(RNE, t, F32)
        elif m <= 1 << 53:
            # exact in binary64: one rounding step to binary32 = direct conversion
            r.opinfo = ('exactint', x)
        return r

    @staticmethod
    def ite(c, a, b):
        r = SymFloat()
        r.opinfo = ('ite', c, a, b)
        r.is32 = a.is32 and b.is32
        return r

    # -- representations --------------------------------------------------------------------------------------
    def fp64(self):
        if self.rough:
            raise Unsupported('bits of a quotient of integers beyond 53 bits')
        if self._fp is None:
            if self.opinfo and self.opinfo[0] == 'ite':
                _, c, a, b = self.opinfo
                self._fp = z_if(c, a.fp64(), b.fp64())
            elif self.opinfo and self.opinfo[0] == 'const':
                x = self.opinfo[1]
                self._fp = z3.fpNaN(F64) if x != x else z3.fpBVToFP(self._bits, F64)
            elif self.is32:
                self._fp = z3.fpFPToFP(RNE, self.fp32(), F64)
            else:
                self._fp = z3.fpBVToFP(self._bits, F64)
        return self._fp

    def bits64(self):
        if self.rough:
            self.fp64()
        if self._bits is None:
            if self.opinfo and self.opinfo[0] == 'ite':
                _, c, a, b = self.opinfo
                self._bits = z_if(c, a.bits64(), b.bits64())
            elif self.is32 and self._b32 is not None:
                b = self._b32
                nb = z3.Concat(z3.Extract(31, 31, b), bvv(0x7ff, 11), z3.Extract(22, 0, b), bvv(0, 29))
                self._bits = z_if(self.isnan(), nb, z3.fpToIEEEBV(self.fp64()))
            else:
                n = self.isnan()
                if z3.is_false(n):
                    self._bits = z3.fpToIEEEBV(self._fp)
                else:
                    self._bits = z3.If(n, self.args[0], z3.fpToIEEEBV(self._fp))
        return self._bits

    def fp32(self):
        assert self.is32
        if self._fp32 is None:
            if self.opinfo and self.opinfo[0] == 'ite':
                _, c, a, b = self.opinfo
                self._fp32 = z_if(c, a.fp32(), b.fp32())
            else:
                self._fp32 = z3.fpBVToFP(self._b32, F32)
        return self._fp32

    def bits32(self):
        """Exact binary32 bits (only when is32)."""
        assert self.is32
        if self._b32 is None:
            if self.opinfo and self.opinfo[0] == 'ite':
                _, c, a, b = self.opinfo
                self._b32 = z_if(c, a.bits32(), b.bits32())
            else:
                n = self.isnan()
                t = z3.fpToIEEEBV(self._fp32)
                self._b32 = t if z3.is_false(n) else z3.If(n, self.args[1], t)
        return self._b32

    def isnan(self):
        if self._isnan is None:
            if self.opinfo and self.opinfo[0] == 'const':
                self._isnan = z3.BoolVal(self.opinfo[1] != self.opinfo[1])
            elif self.opinfo and self.opinfo[0] == 'ite':
                _, c, a, b = self.opinfo
                self._isnan = z_if(c, a.isnan(), b.isnan())
            elif self._fp32 is not None:
                self._isnan = z3.fpIsNaN(self._fp32)
            elif self._fp is not None:
                self._isnan = z3.fpIsNaN(self._fp)
            elif self.is32:
                self._isnan = isnan_bits(self._b32)
            else:
                self._isnan = isnan_bits(self._bits)
        return self._isnan

    def cmp(self):
        """FP term for comparisons/classification (binary32 one if exact)."""
        return self.fp32() if self.is32 else self.fp64()

    # -- narrowing --------------------------------------------------------------------------------------------
    def to_f32(self):
        """Rounding to binary32 (C cast): returns a SymFloat with is32."""
        if self.is32:
            return self
        r = SymFloat()
        r.is32 = True
        oi = self.opinfo
        if oi and oi[0] == 'ite':
            return SymFloat.ite(oi[1], oi[2].to_f32(), oi[3].to_f32())
        if oi and oi[0] == 'op32':
            # op in + - * / sqrt on exact binary32 operands: rounding the binary64 result once more equals the
            # binary32 operation (Figueroa 1995: 53 >= 2*24+2)
            eng().notes.add('figueroa')
            op, xs = oi[1], oi[2]
            f = [x.fp32() for x in xs]
            r._fp32 = FPOPS[op](*f)
            nb = self.args[0]
        elif oi and oi[0] == 'exactint':
            x = oi[1]
            r._fp32 = z3.fpSignedToFP(RNE, x.bv, F32) if x.sg else z3.fpUnsignedToFP(RNE, x.bv, F32)
            r._isnan = FALSE
            return r
        elif oi and oi[0] == 'const':
            x = oi[1]
            if x != x:
                b = f64_bits(x)
                return SymFloat.of_bits32(bvv(((b >> 63) << 31) | 0x7fc00000 | ((b >> 29) & 0x3fffff), 32))
            import ctypes
            return SymFloat.const(ctypes.c_float(x).value)
        else:
            r._fp32 = z3.fpFPToFP(RNE, self.fp64(), F32)
            nb = self.bits64() if self._bits is not None else (self.args[0] if self.args else self.bits64())
        nb32 = z3.Concat(z3.Extract(63, 63, nb), bvv(0xff, 8), bvv(1, 1), z3.Extract(50, 29, nb))
        r.args = (None, nb32)
        r._isnan = self.isnan() if not (oi and oi[0] == 'op32') else None
        return r

    # -- python protocol --------------------------------------------------------------------------------------
    def __repr__(self):
        return '<symfloat>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symfloat>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __bool__(self):
        return bool(self != 0.0)

    def __float__(self):
        raise Unsupported('implicit float()')

    def is_integer(self):
        return mkbool(z_and(z_not(self.isnan()), z3.Not(z3.fpIsInf(self.cmp())),
                            z3.fpEQ(self.cmp(), z3.fpRoundToIntegral(RTZ, self.cmp()))))

    def _cmp(self, o, zop):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if self.ratio is not None:
            # n/d against 0: by sign; two ratios over the same d: by n (quotients equal only after rounding are told apart)
            k = 0 if (isinstance(o, int) and o == 0) or (isinstance(o, SymFloat) and o.opinfo and o.opinfo[0] == 'const' and o.opinfo[1] == 0) else None
            if k is None and isinstance(o, SymFloat) and o.ratio is not None and o.ratio[1] == self.ratio[1]:
                k = o.ratio[0]
            if k is not None:
                return RATIOCMP[zop](self.ratio[0], k)
        elif isinstance(o, SymFloat) and o.ratio is not None and self.opinfo and self.opinfo[0] == 'const' and self.opinfo[1] == 0:
            return RATIOCMP[zop](0, o.ratio[0])
        if isinstance(o, int):
            return cmp_int(self, o, zop)
        if isinstance(o, SymInt):
            if o.op == 'fint':
                o = SymFloat.of_int(o)
            elif max(abs(o.lo), abs(o.hi)) <= 1 << 53:
                o = SymFloat.of_int(o)
            else:
                raise Unsupported('comparison of a float with a wide symbolic integer')
        if self.is32 and o.is32:
            return mkbool(z3.simplify(zop(self.fp32(), o.fp32())))
        return mkbool(z3.simplify(zop(self.fp64(), o.fp64())))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def _bin(self, o, op, swap=False):
        o = as_int(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SymFloat):
            o = SymFloat.of_int(o)
        a, b = (o, self) if swap else (self, o)
        if op == 'div' and bool(b == 0.0):
            raise ZeroDivisionError('float division by zero')
        return fop(op, a, b)

    def __add__(self, o):
        return self._bin(o, 'add')

    def __radd__(self, o):
        return self._bin(o, 'add', True)

    def __sub__(self, o):
        return self._bin(o, 'sub')

    def __rsub__(self, o):
        return self._bin(o, 'sub', True)

    def __mul__(self, o):
        return self._bin(o, 'mul')

    def __rmul__(self, o):
        return self._bin(o, 'mul', True)

    def __truediv__(self, o):
        return self._bin(o, 'div')

    def __rtruediv__(self, o):
        return self._bin(o, 'div', True)

    def __floordiv__(self, o):
        raise Unsupported('float //')

    __rfloordiv__ = __mod__ = __rmod__ = __pow__ = __rpow__ = __floordiv__

    def __neg__(self):
        return self._sign(lambda t, s: t ^ s)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._sign(lambda t, s: t & ~s)

    def _sign(self, f, f32=None):
        """New value whose sign bit is changed by f(bits, signmask); the rest of the bits unchanged."""
        r = SymFloat()
        if self.is32:
            r.is32 = True
            r._b32 = f(self.bits32(), bvv(1 << 31, 32))
        else:
            r._bits = f(self.bits64(), bvv(1 << 63, 64))
        r._isnan = self.isnan()
        return r

    def signbit(self):
        if self.is32:
            return z3.Extract(31, 31, self.bits32())
        return z3.Extract(63, 63, self.bits64())

    def copysign(self, o):
        sb = o.signbit()
        r = SymFloat()
        if self.is32:
            r.is32 = True
            r._b32 = z3.Concat(sb, z3.Extract(30, 0, self.bits32()))
        else:
            r._bits = z3.Concat(sb, z3.Extract(62, 0, self.bits64()))
        r._isnan = self.isnan()
        return r

    def to_int(self, rm):
        """math.floor/ceil/trunc/round, int(): integer with the value of the float rounded to integral by rm."""
        n = self.isnan()
        if eng().fork(n):
            raise ValueError('cannot convert float NaN to integer')
        if eng().fork(z3.fpIsInf(self.cmp())):
            raise OverflowError('cannot convert float infinity to integer')
        r = SymFloat()
        r._isnan = FALSE
        if self.is32:
            r.is32 = True
            r._fp32 = z3.fpRoundToIntegral(rm, self.fp32())
            r.args = (None, None)
            m = 1 << 128
        else:
            r._fp = z3.fpRoundToIntegral(rm, self.fp64())
            m = 1 << 1024
        return SymInt(None, None, -m, m, 'fint', r)

    def __trunc__(self):
        return self.to_int(RTZ)

    def __floor__(self):
        return self.to_int(RTN)

    def __ceil__(self):
        return self.to_int(RTP)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round(x, n)')
        return self.to_int(RNE)

    __int__ = __trunc__

    def hex(self):
        return '<symfloat>'


RATIOCMP = {z3.fpEQ: operator.eq, z3.fpNEQ: operator.ne, z3.fpLT: operator.lt, z3.fpLEQ: operator.le, z3.fpGT: operator.gt, z3.fpGEQ: operator.ge}
FPOPS = {
    'add': lambda a, b: z3.fpAdd(RNE, a, b),
    'sub': lambda a, b: z3.fpSub(RNE, a, b),
    'mul': lambda a, b: z3.fpMul(RNE, a, b),
    'div': lambda a, b: z3.fpDiv(RNE, a, b),
    'sqrt': lambda a: z3.fpSqrt(RNE, a),
}


def fop(op, *xs):
    """IEEE operation in binary64 (what CPython does).  A NaN result is one of the NaN operands quieted, or a
    canonical NaN of either sign when no operand is a NaN: which one is left open (hardware choice)."""
    e = eng()
    r = SymFloat()
    if all(x.is32 for x in xs):
        r.opinfo = ('op32', op, xs)
    r._fp = FPOPS[op](*[x.fp64() for x in xs])
    ch = e.fresh('nanchoice', 1)
    nb = z3.Concat(ch, bvv(CANON64, 63))
    anyn = [x for x in xs if not z3.is_false(x.isnan())]
    cands = [(x.isnan(), x.bits64() | bvv(QUIET64, 64)) for x in anyn]
    if len(cands) == 2:
        (n1, b1), (n2, b2) = cands
        both = z3.If(ch == 1, b1, b2)
        nb = z3.If(n1, z3.If(n2, both, b1), z3.If(n2, b2, nb))
    elif len(cands) == 1:
        nb = z3.If(cands[0][0], cands[0][1], nb)
    r.args = (nb,)
    return r


def cmp_int(f, c, zop):
    """Exact comparison of a float with a Python int constant."""
    try:
        x = float(c)
        exact = int(x) == c
    except OverflowError:
        x = math.inf if c > 0 else -math.inf
        exact = False
    if exact:
        o = SymFloat.const(x)
        if f.is32 and o.is32:
            return mkbool(z3.simplify(zop(f.fp32(), o.fp32())))
        return mkbool(z3.simplify(zop(f.fp64(), o.fp64())))
    # nearest doubles around c
    if math.isinf(x) or (int(x) > c):
        hi = x
        lo = math.nextafter(x, -math.inf)
    else:
        lo = x
        hi = math.nextafter(x, math.inf)
    if zop is z3.fpEQ:
        return False
    if zop in (z3.fpLT, z3.fpLEQ):
        return mkbool(z3.simplify(z3.fpLEQ(f.fp64(), SymFloat.const(lo).fp64())))
    return mkbool(z3.simplify(z3.fpGEQ(f.fp64(), SymFloat.const(hi).fp64())))


def fint_cmp(a, b, op):
    """Comparison where a or b is a float-derived integer."""
    z = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'gt': z3.fpGT}[op]
    if isinstance(a, SymInt) and a.op == 'fint':
        if isinstance(b, int):
            return cmp_int(a.a, b, z)
        if isinstance(b, SymInt) and b.op == 'fint':
            return a.a._cmp(b.a, z)
        if max(abs(b.lo), abs(b.hi)) <= 1 << 53:
            return a.a._cmp(SymFloat.of_int(b), z)
        lo, hi = b.lo, b.hi
        # outside [lo, hi] no equality and ordering by sign; inside: compare as integers
        inside = mkand(cmp_int(a.a, lo, z3.fpGEQ), cmp_int(a.a, hi, z3.fpLEQ))
        _, w = nbits(min(lo, -1), hi)
        x, y = a.low(w), b.low(w)
        ins = {'eq': x == y, 'lt': x < y, 'gt': x > y}[op]
        out = {'eq': FALSE, 'lt': zbool(cmp_int(a.a, lo, z3.fpLT)), 'gt': zbool(cmp_int(a.a, hi, z3.fpGT))}[op]
        return mkbool(z3.If(zbool(inside), ins, out))
    flip = {'eq': 'eq', 'lt': 'gt', 'gt': 'lt'}[op]
    return fint_cmp(b, a, flip)


def fint_low(f, k):
    """Low k bits of the integer value of an integral float (two-s complement), by shifting the significand."""
    if f.is32:
        b = f.bits32()
        e = z3.Extract(30, 23, b)
        m, bias, eb = 23, 127, 8
        frac = z3.Extract(22, 0, b)
        s = z3.Extract(31, 31, b)
    else:
        b = f.bits64()
        e = z3.Extract(62, 52, b)
        m, bias, eb = 52, 1023, 11
        frac = z3.Extract(51, 0, b)
        s = z3.Extract(63, 63, b)
    W = max(k, m + 1, eb + 2)
    sig = zext(z3.Concat(bvv(1, 1), frac), W)
    ex = zext(e, W)
    c = bvv(bias + m, W)
    mag = z3.If(z3.UGE(ex, c), sig << (ex - c), z3.LShR(sig, c - ex))
    mag = z3.If(z3.ULT(ex, bvv(bias, W)), bvv(0, W), mag)
    t = z3.If(s == 1, -mag, mag)
    return t if W == k else z3.Extract(k - 1, 0, t)


# ---------------------------------------------------------------------------------------------------------------
# unions (values of different kinds depending on a condition)
# ---------------------------------------------------------------------------------------------------------------
class SUnion(Sym):
    """If(c, a, b) for values of different kinds."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '<union>'

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return bool(truth(self))

    def force(self):
        return self.a if eng().fork(self.c) else self.b

    def __index__(self):
        return self.force().__index__()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        x = self.force()
        while isinstance(x, SUnion):
            x = x.force()
        return getattr(x, name)


class LazyMap(SUnion):
    """The string a symbolic integer is mapped to; the case split happens only if the program looks at it."""
    __slots__ = ('x', 'ks', 'vs')

    def __init__(self, x, ks, vs):
        self.x, self.ks, self.vs = x, ks, vs

    @property
    def c(self):
        return zbool(self.x < self.ks[len(self.ks) // 2])

    def part(self, i, j):
        return self.vs[i] if j - i == 1 else LazyMap(self.x, self.ks[i:j], self.vs[i:j])

    @property
    def a(self):
        return self.part(0, len(self.ks) // 2)

    @property
    def b(self):
        return self.part(len(self.ks) // 2, len(self.ks))


def spec_begin(c):
    e = eng()
    e.spec += 1
    e.solver.push()
    om = e.model
    e.solver.add(c)
    e.model = None
    return om


def spec_end(om):
    e = eng()
    e.solver.pop()
    e.model = om
    e.spec -= 1


def under(c, f):
    """Evaluate f() speculatively under the extra assumption c."""
    om = spec_begin(c)
    try:
        return f()
    except Exception:
        raise SpecFail()
    finally:
        spec_end(om)


def lift1(f, x, *rest):
    """Apply f to both alternatives and merge; fork when that is not possible."""
    try:
        return merge(x.c, under(x.c, lambda: f(x.a, *rest)), under(z3.Not(x.c), lambda: f(x.b, *rest)))
    except SpecFail:
        if eng().spec:
            raise
        return f(x.force(), *rest)


def _union_ops():
    import operator as op

    def mk(fn):
        def m(self, o):
            return lift1(lambda x: fn(x, o), self)
        return m

    def mkr(fn):
        def m(self, o):
            return lift1(lambda x: fn(o, x), self)
        return m
    for n, fn in dict(add=op.add, sub=op.sub, mul=op.mul, truediv=op.truediv, floordiv=op.floordiv, mod=op.mod,
                      and_=op.and_, or_=op.or_, xor=op.xor, lshift=op.lshift, rshift=op.rshift).items():
        n = n.rstrip('_')
        setattr(SUnion, f'__{n}__', mk(fn))
        setattr(SUnion, f'__r{n}__', mkr(fn))
    for n, fn in dict(eq=op.eq, ne=op.ne, lt=op.lt, le=op.le, gt=op.gt, ge=op.ge).items():
        setattr(SUnion, f'__{n}__', mk(fn))
    for n, fn in dict(neg=op.neg, abs=op.abs, invert=op.invert, pos=op.pos).items():
        setattr(SUnion, f'__{n}__', (lambda fn: lambda self: lift1(fn, self))(fn))
    for n in ('floor', 'ceil', 'trunc', 'round'):
        fn = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round}[n]
        setattr(SUnion, f'__{n}__', (lambda fn: lambda self: lift1(lambda x: fn(x), self))(fn))


_union_ops()


def merge(c, a, b, bounds=None):
    """Value equal to a if c else b."""
    if isinstance(c, (bool, SymBool)):
        c = zbool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    isb_a = isinstance(a, (bool, SymBool))
    isb_b = isinstance(b, (bool, SymBool))
    if isb_a and isb_b:
        x, y = zbool(a), zbool(b)
        if x.eq(y):
            return a
        return mkbool(z3.simplify(z3.If(c, x, y)))
    ia = isinstance(a, (int, SymInt)) or isb_a
    ib = isinstance(b, (int, SymInt)) or isb_b
    if ia and ib:
        a, b = as_int(a), as_int(b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        fa = isinstance(a, SymInt) and a.op == 'fint'
        fb = isinstance(b, SymInt) and b.op == 'fint'
        if fa or fb:
            def fl(x):
                if isinstance(x, SymInt) and x.op == 'fint':
                    return x.a
                if isinstance(x, int):
                    try:
                        f = float(x)
                    except OverflowError:
                        return None
                    return SymFloat.const(f) if int(f) == x else None
                return None
            x, y = fl(a), fl(b)
            if x is not None and y is not None:
                m = SymFloat.ite(c, x, y)
                return SymInt(None, None, min(rng(a)[0], rng(b)[0]), max(rng(a)[1], rng(b)[1]), 'fint', m)
            return SUnion(c, a, b)
        alo, ahi = rng(a)
        blo, bhi = rng(b)
        lo, hi = min(alo, blo), max(ahi, bhi)
        if bounds:
            lo, hi = bounds
        x, y = align(a, b)
        sg = min(alo, blo) < 0
        t = z_if(c, x, y)
        s2, w2 = nbits(lo, hi)
        if w2 < t.size():
            t = z3.Extract(w2 - 1, 0, t)
            sg = s2
        return SymInt(t, sg, lo, hi)
    if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
        a, b = as_int(a), as_int(b)
        return SymFloat.ite(c, a, b)
    if isinstance(a, SBytes) and isinstance(b, SBytes) or isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        a, b = SBytes.lift(a), SBytes.lift(b)
        if a.mutable or b.mutable:
            raise SpecFail()
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return SBytes.from_items([byte_ite(c, x, y) for x, y in zip(a.items, b.items)], False)
        raise SpecFail()
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is tuple and type(b) is tuple:
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    num = (int, float, SymInt, SymFloat, SymBool, SUnion)
    if isinstance(a, num) and isinstance(b, num):
        return SUnion(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    raise SpecFail()


# ---------------------------------------------------------------------------------------------------------------
# SBytes
# ---------------------------------------------------------------------------------------------------------------
class BSlice:
    """8 bits of a term at a bit offset (keeps provenance so that re-assembled words stay the original term)."""
    __slots__ = ('t', 'off', '_x')

    def __init__(self, t, off):
        self.t, self.off = t, off
        self._x = None

    def term(self):
        if self._x is None:
            self._x = self.t if self.t.size() == 8 else z3.Extract(self.off + 7, self.off, self.t)
        return self._x


def bterm(b):
    """z3 BV8 of a byte item."""
    if isinstance(b, int):
        return bvv(b, 8)
    if isinstance(b, BSlice):
        return b.term()
    return b


def byte_of(v):
    """Byte item from a Python value being stored into a bytearray (range-checked by the caller)."""
    if isinstance(v, int):
        return v
    return BSlice(v.low(8), 0)


def byte_ite(c, a, b):
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    return z_if(c, bterm(a), bterm(b))


def byte_sym(b):
    """Python-level int value of a byte item."""
    if isinstance(b, int):
        return b
    t = bterm(b)
    if z3.is_bv_value(t):
        return t.as_long()
    e = Engine.cur
    if e is not None and e.pins:
        v = e.pins.get(t.get_id())
        if v is not None:
            return v
    return SymInt(t, False, 0, 255)


def word(items):
    """z3 term of the little-endian word formed by byte items (int if all concrete)."""
    if all(isinstance(b, int) for b in items):
        return int.from_bytes(bytes(items), 'little')
    parts = []      # list of [term, off, nbits] little-endian
    for b in items:
        if isinstance(b, BSlice):
            if parts and parts[-1][0] is not None and parts[-1][0] is b.t and parts[-1][1] + parts[-1][2] == b.off:
                parts[-1][2] += 8
            else:
                parts.append([b.t, b.off, 8])
        elif isinstance(b, int):
            if parts and parts[-1][0] is None:
                parts[-1][1] |= b << parts[-1][2]
                parts[-1][2] += 8
            else:
                parts.append([None, b, 8])
        else:
            parts.append([b, 0, 8])
    ts = []
    for t, off, n in parts:
        if t is None:
            ts.append(bvv(off, n))
        elif off == 0 and n == t.size():
            ts.append(t)
        else:
            ts.append(z3.Extract(off + n - 1, off, t))
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts[::-1])


def ix_add(i, d):
    return i + d


def ix_term(i):
    return bvv(i, IW) if isinstance(i, int) else i


def ix_eq(i, j):
    if isinstance(i, int) and isinstance(j, int):
        return i == j
    return ix_term(i) == ix_term(j)


def ix_lt(i, j):
    if isinstance(i, int) and isinstance(j, int):
        return i < j
    return z3.ULT(ix_term(i), ix_term(j))


def gz(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def ix_of(v):
    """Index value (int or IW-bit term) of an int/SymInt."""
    if isinstance(v, int):
        return v
    return v.idx()


MAXITEMS = 8192


def items_get(items):
    """Content closure of an item list (out-of-range indices give 0)."""
    def get(i):
        if isinstance(i, int):
            return bterm(items[i]) if 0 <= i < len(items) else bvv(0, 8)
        if len(items) > 512:
            arr = z3.K(z3.BitVecSort(IW), bvv(0, 8))
            for k, b in enumerate(items):
                arr = z3.Store(arr, bvv(k, IW), bterm(b))
            return z3.Select(arr, i)
        r = bvv(0, 8)
        for k in range(len(items) - 1, -1, -1):
            r = z_if(i == bvv(k, IW), bterm(items[k]), r)
        return r
    return get


class SBytes(Sym):
    """bytes (mutable=False) or bytearray (mutable=True)."""
    __slots__ = ('items', 'get', 'n', 'mutable', 'cget')

    def __init__(self):
        self.items = None
        self.get = None
        self.n = 0
        self.mutable = True

    @staticmethod
    def from_items(items, mutable=True):
        r = SBytes()
        r.items = items
        r.n = len(items)
        r.mutable = mutable
        return r

    @staticmethod
    def from_fn(get, n, mutable=True):
        r = SBytes()
        r.get = get
        r.n = n
        r.mutable = mutable
        if isinstance(n, int) and n <= 64:
            r.items = [get(i) for i in range(n)]
            r.get = None
        return r

    @staticmethod
    def zeros(n, mutable=True):
        if isinstance(n, int):
            if n < 0:
                raise ValueError('negative count')
            if n <= MAXITEMS:
                return SBytes.from_items([0] * n, mutable)
        else:
            if n.lo < 0 and bool(n < 0):
                raise ValueError('negative count')
        return SBytes.from_fn(lambda i: bvv(0, 8), n, mutable)

    @staticmethod
    def lift(x, mutable=None):
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SBytes.from_items(list(bytes(x)), isinstance(x, bytearray) if mutable is None else mutable)
        raise TypeError(f'a bytes-like object is required, not {type(x).__name__}')

    def snap(self, mutable=None):
        r = SBytes()
        r.items = list(self.items) if self.items is not None else None
        r.get = self.get
        r.n = self.n
        r.mutable = self.mutable if mutable is None else mutable
        return r

    def getter(self):
        return items_get(list(self.items)) if self.items is not None else self.get

    def byte(self, i):
        """z3 byte at index i (int or IW term), unchecked."""
        if self.items is not None:
            if isinstance(i, int):
                return bterm(self.items[i]) if 0 <= i < len(self.items) else bvv(0, 8)
            return items_get(self.items)(i)
        return self.get(i)

    def tofn(self):
        if self.items is not None:
            self.get = items_get(self.items)
            self.items = None

    def concrete(self):
        """bytes if every byte is concrete else None."""
        if self.items is None:
            return None
        out = []
        for b in self.items:
            if not isinstance(b, int):
                t = z3.simplify(bterm(b))
                if not z3.is_bv_value(t):
                    return None
                b = t.as_long()
            out.append(b)
        return bytes(out)

    # -- python protocol --------------------------------------------------------------------------------------
    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len() of a symbolic-length buffer')

    def __repr__(self):
        return '<sbytes>'

    __str__ = __repr__

    def __format__(self, s):
        return '<sbytes>'

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        c = self.concrete()
        if c is None:
            c = bytes(conc(byte_sym(b)) for b in self.items)
        return hash(c)

    def __bool__(self):
        return bool(truth(self))

    def __bytes__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('native bytes() of symbolic content')
        return c

    def __iter__(self):
        if self.items is not None:
            # live iteration like bytearray
            i = 0
            while i < len(self.items):
                yield byte_sym(self.items[i])
                i += 1
            return
        i = 0
        while bool(self.n > i):
            yield SymInt(self.get(i), False, 0, 255)
            i += 1

    def norm_index(self, i):
        n = self.n
        i = as_int(i)
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                raise IndexError('bytearray index out of range')
        if bool(i >= n):
            raise IndexError('bytearray index out of range')
        return i.simp() if isinstance(i, SymInt) else i

    def clamp(self, i, default):
        """Python slice-bound adjustment; result within [0, n]."""
        if i is None:
            return default
        n = self.n
        i = as_int(i)
        if i is None or isinstance(i, SymFloat):
            raise TypeError('slice indices must be integers or None')
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                return 0
            return i
        if bool(i > n):
            return n
        return i.simp() if isinstance(i, SymInt) else i

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.getslice(k)
        i = self.norm_index(k)
        if isinstance(i, int):
            return byte_sym(self.items[i]) if self.items is not None else byte_sym(self.get(i))
        return byte_sym(self.byte(i.idx()))

    def span(self, s):
        if s.step is not None and s.step != 1:
            return None
        i = self.clamp(s.start, 0)
        j = self.clamp(s.stop, self.n)
        d = j - i
        if isinstance(d, SymInt):
            d = d.simp()
        if not isinstance(d, int) or d < 0:
            if bool(d < 0):
                j, d = i, 0
        return i, j, d

    def getslice(self, s):
        sp = self.span(s)
        if sp is None:
            if self.items is None:
                raise Unsupported('extended slice of a symbolic buffer')
            return SBytes.from_items(self.items[slice(s.start, s.stop, s.step)], self.mutable)
        i, j, d = sp
        if isinstance(i, int) and isinstance(d, int) and self.items is not None:
            return SBytes.from_items(self.items[i:i + d], self.mutable)
        it = ix_of(i)
        g = self.getter()
        if isinstance(d, int) and d <= 64:
            return SBytes.from_items([g(ix_add(it, k)) for k in range(d)], self.mutable)
        return SBytes.from_fn(lambda k: g(ix_add(it, k)), d, self.mutable)

    def need_mut(self):
        nospec()
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")

    def __setitem__(self, k, v):
        self.need_mut()
        if isinstance(k, slice):
            return self.setslice(k, v)
        i = self.norm_index(k)
        v = as_int(v)
        if v is None or isinstance(v, SymFloat):
            raise TypeError('an integer is required')
        if not bool(mkand(v >= 0, v <= 255)):
            raise ValueError('byte must be in range(0, 256)')
        self.put(i, SBytes.from_items([byte_of(v)]), 1)

    def put(self, i, y, d):
        """Overwrite d bytes at i (no length change)."""
        if isinstance(i, int) and isinstance(d, int) and self.items is not None and y.items is not None:
            self.items[i:i + d] = y.items
            return
        self.tofn()
        old = self.get
        it = ix_of(i)
        if isinstance(d, int) and d <= 64 and y.items is not None:
            ys = list(y.items)

            def get(k):
                if isinstance(k, int) and isinstance(it, int):
                    return bterm(ys[k - it]) if it <= k < it + d else old(k)
                r = old(k)
                kt = ix_term(k)
                for m in range(d - 1, -1, -1):
                    r = z_if(z3.simplify(kt == ix_term(ix_add(it, m))), bterm(ys[m]), r)
                return r
        else:
            yg = y.getter()
            dt = ix_of(d)

            def get(k):
                if isinstance(k, int) and isinstance(it, int) and isinstance(dt, int):
                    return yg(k - it) if it <= k < it + dt else old(k)
                kt, i0 = ix_term(k), ix_term(it)
                inside = z_and(z3.UGE(kt, i0), z3.ULT(kt, i0 + ix_term(dt)))
                return z_if(z3.simplify(inside), yg(z3.simplify(kt - i0)), old(k))
        self.get = get

    def setslice(self, s, v):
        if isinstance(v, SBytes):
            y = v.snap()
        elif isinstance(v, (bytes, bytearray, memoryview)):
            y = SBytes.lift(v)
        elif isinstance(v, int):
            raise TypeError('can assign only bytes, buffers, or iterables of ints in range(0, 256)')
        else:
            y = SBytes.of_iter(v)
        sp = self.span(s)
        if sp is None:
            raise Unsupported('extended slice assignment')
        i, j, d = sp
        m = y.n
        same = as_int(m) == d if not (isinstance(m, int) and isinstance(d, int)) else m == d
        if bool(same):
            if isinstance(m, int):
                d = m
            return self.put(i, y, d)
        self.splice(i, j, y)

    def splice(self, i, j, y):
        m = y.n
        if all(isinstance(x, int) for x in (i, j, m)) and self.items is not None and y.items is not None:
            self.items[i:j] = y.items
            self.n = len(self.items)
            return
        g, yg = self.getter(), y.getter()
        n2 = self.n - (j - i) + m
        if isinstance(n2, SymInt):
            n2 = n2.simp()
        it, jt, mt = ix_term(ix_of(i)), ix_term(ix_of(j)), ix_term(ix_of(m))

        def get(k):
            kt = ix_term(k)
            return z_if(z3.simplify(z3.ULT(kt, it)), g(k),
                        z_if(z3.simplify(z3.ULT(kt, it + mt)), yg(z3.simplify(kt - it)),
                             g(z3.simplify(kt - mt - it + jt))))
        self.items = None
        self.get = get
        self.n = n2

    @staticmethod
    def of_iter(v, mutable=True):
        items = []
        for e in v:
            e = as_int(e)
            if e is None or isinstance(e, SymFloat):
                raise TypeError('an integer is required')
            if not bool(mkand(e >= 0, e <= 255)):
                raise ValueError('byte must be in range(0, 256)')
            items.append(byte_of(e))
        return SBytes.from_items(items, mutable)

    def concat(self, o, mutable):
        o = SBytes.lift(o)
        if self.items is not None and o.items is not None:
            return SBytes.from_items(self.items + o.items, mutable)
        if isinstance(o.n, int) and o.n == 0:
            return self.snap(mutable)
        r = self.snap(True)
        r.splice(r.n, r.n, o.snap())
        r.mutable = mutable
        return r

    def __add__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray, memoryview)):
            return NotImplemented
        return self.concat(o, self.mutable)

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return SBytes.lift(o).concat(self, isinstance(o, bytearray))

    def __iadd__(self, o):
        if not self.mutable:
            return self + o
        self.extend(o)
        return self

    def __mul__(self, k):
        k = conc(k)
        if self.items is not None:
            return SBytes.from_items(self.items * k, self.mutable)
        raise Unsupported('repetition of a symbolic buffer')

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)):
            return NotImplemented
        o = SBytes.lift(o)
        if self is o:
            return True
        same = as_int(self.n) == o.n
        if not bool(same):
            return False
        n = self.n if isinstance(self.n, int) else o.n
        if not isinstance(n, int):
            n = conc(n)
        if n > 70000:
            raise Unsupported('comparison of large buffers')
        cs = []
        for k in range(n):
            x = self.items[k] if self.items is not None else self.get(k)
            y = o.items[k] if o.items is not None else o.get(k)
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
                continue
            cs.append(bterm(x) == bterm(y))
        return mkbool(z3.simplify(z_and(*cs))) if cs else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _cmp(self, o, f):
        if not isinstance(o, (SBytes, bytes, bytearray)):
            return NotImplemented
        a, b = self.concrete(), SBytes.lift(o).concrete()
        if a is None or b is None:
            raise Unsupported('ordering of symbolic buffers')
        return f(a, b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __contains__(self, v):
        if isinstance(v, (bytes, bytearray, SBytes)):
            return bool(as_int(self.find(v)) >= 0)
        r = False
        for e in self:
            r = mkor(r, e == v)
        return bool(r)

    # -- methods ----------------------------------------------------------------------------------------------
    def copy(self):
        return self.snap()

    def append(self, v):
        self.need_mut()
        y = SBytes.of_iter([v])
        self.splice(self.n, self.n, y)

    def extend(self, v):
        self.need_mut()
        if isinstance(v, SBytes):
            y = v.snap()
        elif isinstance(v, (bytes, bytearray)):
            y = SBytes.lift(v)
        else:
            y = SBytes.of_iter(v)
        self.splice(self.n, self.n, y)

    def clear(self):
        self.need_mut()
        self.items, self.get, self.n = [], None, 0

    def pop(self, i=-1):
        self.need_mut()
        if self.items is None:
            raise Unsupported('pop from a symbolic buffer')
        return byte_sym(self.items.pop(conc(i))) if not self._dec() else None

    def _dec(self):
        self.n = len(self.items) - 1
        return False

    def reverse(self):
        self.need_mut()
        if self.items is None:
            raise Unsupported('reverse of a symbolic buffer')
        self.items.reverse()

    def insert(self, i, v):
        self.need_mut()
        i = self.clamp(i, 0)
        self.splice(i, i, SBytes.of_iter([v]))

    def join(self, it):
        r = SBytes.from_items([], True)
        first = True
        for e in it:
            if not first and not (isinstance(self.n, int) and self.n == 0):
                r = r.concat(self, True)
            r = r.concat(e, True)
            first = False
        r.mutable = self.mutable
        return r

    def hex(self, *a):
        c = self.concrete()
        return c.hex(*a) if c is not None else '<symhex>'

    def tobytes(self):
        return self.snap(False)

    def decode(self, encoding='utf-8', errors='strict'):
        c = self.concrete()
        if c is not None:
            return c.decode(encoding, errors)
        from . import strs
        return strs.decode(self, encoding, errors)

    def find(self, sub, start=0, end=None):
        if self.items is None:
            raise Unsupported('find in a symbolic buffer')
        if isinstance(sub, int):
            sub = bytes([sub])
        sub = SBytes.lift(sub)
        n, m = len(self.items), len(sub.items)
        end = n if end is None else end
        for i in range(start, min(end, n) - m + 1):
            if bool(SBytes.from_items(self.items[i:i + m]) == sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        p = SBytes.lift(p)
        if len(p.items) > len(self.items):
            return False
        return SBytes.from_items(self.items[:len(p.items)]) == p

    def endswith(self, p):
        p = SBytes.lift(p)
        if len(p.items) > len(self.items):
            return False
        return SBytes.from_items(self.items[len(self.items) - len(p.items):]) == p

    def rstrip(self, chars=None):
        if self.items is None:
            raise Unsupported('rstrip')
        it = list(self.items)
        cs = list(b' \t\n\r\x0b\x0c') if chars is None else list(SBytes.lift(chars).items)
        while it and bool(sum_or([byte_sym(it[-1]) == c for c in cs])):
            it.pop()
        return SBytes.from_items(it, self.mutable)

    def ljust(self, w, fill=b' '):
        it = list(self.items)
        return SBytes.from_items(it + [SBytes.lift(fill).items[0]] * max(0, conc(w) - len(it)), self.mutable)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('bytes.split()')
        out, cur = [], 0
        sep = SBytes.lift(sep)
        while maxsplit != 0:
            i = self.find(sep, cur)
            if i < 0:
                break
            out.append(SBytes.from_items(self.items[cur:i], self.mutable))
            cur = i + len(sep.items)
            maxsplit -= 1
        out.append(SBytes.from_items(self.items[cur:], self.mutable))
        return out

    def cast(self, *a):
        raise Unsupported('memoryview.cast')

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'bytes.{name}')


def sum_or(cs):
    r = False
    for c in cs:
        r = mkor(r, c)
    return r


def from_bytes(b, byteorder='big', *, signed=False):
    b = SBytes.lift(b) if not isinstance(b, (list, tuple)) else SBytes.of_iter(b)
    if b.items is None:
        raise Unsupported('int.from_bytes of a symbolic-length buffer')
    items = b.items if byteorder == 'little' else b.items[::-1]
    if not items:
        return 0
    t = word(items)
    n = 8 * len(items)
    if isinstance(t, int):
        return t - (1 << n) if signed and t >> (n - 1) else t
    return SymInt.of(t, signed)
