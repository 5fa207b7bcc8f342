"""Running solver-based checks: explore every path of the real code symbolically, ask the solver whether the property's
assertion can fail on it, replay every counterexample on the unmodified code, and write the evidence."""
import importlib
import io
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback
import z3

from . import abstract, core, instr, models
from .core import Engine, SymInt, SymBool, SBytes, Unsupported, Budget, SxControl, bvv, z_and, z_or, z_not, zext

ROOT = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """A concrete run violates an assumption of the case."""


class Hang(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------------------
# contexts
# ---------------------------------------------------------------------------------------------------------------
class Ctx:
    """What a case's run() and check() see.  The same code runs with symbolic and with concrete inputs."""

    def __init__(self, case, pw, sym, vals=None):
        self.case = case
        self.pw = pw
        self.sym = sym
        self.vals = vals
        self.terms = {}
        for n, w in case.inputs.items():
            if isinstance(w, tuple):        # ('mem', size): arbitrary memory contents
                if sym:
                    self.terms[n] = z3.Function(n, z3.BitVecSort(core.IW), z3.BitVecSort(8))
                continue
            self.terms[n] = z3.BitVec(n, w) if sym else bvv(vals[n], w)

    def t(self, n):
        """z3 term of an input."""
        return self.terms[n]

    def memat(self, n, i):
        """z3 byte of a memory input at index i (int or bit-vector term, within its size)."""
        if isinstance(i, int):
            return self.terms[n](bvv(i, core.IW)) if self.sym else bvv(self.vals[n][i], 8)
        i = zext(i, core.IW) if i.size() < core.IW else z3.Extract(core.IW - 1, 0, i)
        if self.sym:
            return self.terms[n](i)
        i = z3.simplify(i)
        k = i.as_long()
        return bvv(self.vals[n][k] if k < len(self.vals[n]) else 0, 8)

    def u(self, n):
        """Unsigned integer value of an input."""
        if self.sym:
            return SymInt.of(self.terms[n], False)
        return self.vals[n]

    def i(self, n):
        """Signed integer value of an input."""
        w = self.case.inputs[n]
        if self.sym:
            return SymInt.of(self.terms[n], True)
        v = self.vals[n]
        return v - (1 << w) if v >> (w - 1) else v

    def b(self, n):
        """Truth value of a 1-bit input."""
        if self.sym:
            return SymBool(self.terms[n] == 1)
        return bool(self.vals[n])

    def bytes(self, n, mutable=True):
        """Little-endian byte buffer of an input."""
        w = self.case.inputs[n]
        if isinstance(w, tuple):
            if self.sym:
                f = self.terms[n]
                return SBytes.from_fn(lambda i: f(core.ix_term(i)), w[1], mutable)
            return bytearray(self.vals[n]) if mutable else self.vals[n]
        if self.sym:
            return SBytes.from_items([core.BSlice(self.terms[n], 8 * k) for k in range(w // 8)], mutable)
        r = self.vals[n].to_bytes(w // 8, 'little')
        return bytearray(r) if mutable else r

    def pick(self, n):
        """Concretise an input (forks over every value of it)."""
        if self.sym:
            return core.eng().pick(self.terms[n])
        return self.vals[n]

    def pick_bit(self, n, k):
        """Branch on bit k of an input."""
        if self.sym:
            return core.eng().pick(z3.Extract(k, k, self.terms[n]))
        return self.vals[n] >> k & 1

    def assume(self, c):
        if self.sym:
            core.eng().assume(core.zbool(c) if not z3.is_bool(c) else c)
            return
        if z3.is_expr(c):
            c = z3.is_true(z3.simplify(c))
        if not c:
            raise Skip()

    def truth(self, c):
        """Branch on a condition in the harness."""
        return bool(c)

    def attempt(self, f, *a):
        try:
            return ('ret', f(*a))
        except (Skip, ContractError):
            raise
        except SystemExit as e:
            return ('exit', e.code)
        except Exception as e:
            self.last_error = e
            return ('trap',)

    def buf(self, b, mutable=False):
        """A Python-level byte buffer from a list of ints / symbolic bytes."""
        if self.sym:
            return SBytes.from_items([core.BSlice(x.low(8), 0) if isinstance(x, core.SymInt) else x for x in b], mutable)
        return bytearray(b) if mutable else bytes(b)

    def reader(self, b):
        if self.sym and isinstance(b, SBytes):
            return models.SymBytesIO(b)
        return io.BytesIO(bytes(b))

    def at(self, buf, k):
        """Unsigned byte buf[k]; k within range."""
        if isinstance(buf, SBytes):
            if isinstance(k, SymInt):
                return SymInt.of(buf.byte(k.idx()))
            return core.byte_sym(core.BSlice(buf.byte(k), 0)) if not isinstance(k, int) else buf[k]
        return buf[k]

    def length(self, buf):
        return buf.n if isinstance(buf, SBytes) else len(buf)

    def module(self, b):
        return self.pw.ModuleDesc.from_reader(self.reader(b))

    def instance(self, b, imports=None):
        rt = self.pw.Runtime()
        if imports:
            rt.imports = imports(rt) if callable(imports) else imports
        return rt, rt.instance(self.module(b))

    def call(self, b, fn, args):
        """Instantiate and invoke; outcome."""
        rt, m = self.instance(b)
        return self.attempt(rt.invocate, m, fn, args)


class ContractError(Exception):
    """The harness could not set its scenario up (not a property verdict)."""


# -- value helpers used by check() in both modes ----------------------------------------------------------------
def tt(v, w):
    """w-bit term of an observed integer."""
    if isinstance(v, SymInt):
        return v.low(w)
    if isinstance(v, SymBool):
        return z3.If(v.t, bvv(1, w), bvv(0, w))
    if z3.is_expr(v):
        return v
    if isinstance(v, core.SUnion):
        return z3.If(v.c, tt(v.a, w), tt(v.b, w))
    if isinstance(v, core.BSlice):
        return v.term()
    if not isinstance(v, int):
        return z3.FreshConst(z3.BitVecSort(w), 'nan')       # not a number: equal to nothing in particular
    return bvv(v, w)


def is_int(v):
    return isinstance(v, (int, SymInt, SymBool))


def eqv(v, term, signed=False):
    """v (an observed Python integer) is exactly the number that the bits of term denote."""
    w = term.size()
    if isinstance(v, core.SUnion):
        return z3.If(v.c, eqv(v.a, term, signed), eqv(v.b, term, signed))
    if not is_int(v):
        return z3.BoolVal(False)
    v = core.as_int(v)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if isinstance(v, int):
        if not lo <= v <= hi:
            return z3.BoolVal(False)
        return bvv(v, w) == term
    r = v.low(w) == term
    if v.lo < lo or v.hi > hi:
        r = z_and(r, core.zbool(core.mkand(v >= lo, v <= hi)))
    return r


def eqbytes(v, terms):
    """Buffer v has exactly these bytes (z3 BV8 terms or ints)."""
    if isinstance(v, (bytes, bytearray)):
        v = SBytes.lift(v)
    if not isinstance(v, SBytes) or v.items is None or len(v.items) != len(terms):
        return z3.BoolVal(False)
    return z_and(*[core.bterm(a) == (bvv(b, 8) if isinstance(b, int) else b) for a, b in zip(v.items, terms)])


def word_of(v):
    """z3 term of a whole buffer, little-endian."""
    v = SBytes.lift(v)
    t = core.word(v.items)
    return bvv(t, 8 * len(v.items)) if isinstance(t, int) else t


def B(c):
    """Python/Sym truth value to a z3 Bool."""
    if isinstance(c, SymBool):
        return c.t
    if z3.is_expr(c):
        return c
    return z3.BoolVal(bool(c))


# -- structural comparison of observations (encoding validation) -------------------------------------------------
def obs_eq(a, b):
    """z3 Bool: symbolic observation a agrees with concrete observation b."""
    if isinstance(a, core.SUnion):
        return z3.If(a.c, obs_eq(a.a, b), obs_eq(a.b, b))
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return z3.BoolVal(False)
        return z_and(*[obs_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return z3.BoolVal(False)
        return z_and(*[obs_eq(a[k], b[k]) for k in a])
    if isinstance(a, (SymInt, SymBool)):
        if not isinstance(b, int):
            return z3.BoolVal(False)
        r = core.as_int(a) == int(b)
        return B(r)
    if isinstance(a, core.SymFloat):
        if not isinstance(b, float):
            return z3.BoolVal(False)
        return a.bits64() == core.f64_bits(b)
    if isinstance(a, SBytes):
        if not isinstance(b, (bytes, bytearray)):
            return z3.BoolVal(False)
        if a.items is None:
            if isinstance(a.n, int) and a.n != len(b):
                return z3.BoolVal(False)
            return z3.BoolVal(True)
        return eqbytes(a, list(b))
    from .strs import SStr
    if isinstance(a, SStr):
        if not isinstance(b, str) or len(a.cs) != len(b):
            return z3.BoolVal(False)
        return z_and(*[B(x == ord(y)) for x, y in zip(a.cs, b)])
    if isinstance(a, core.Sym):
        return z3.BoolVal(False)
    if isinstance(a, float):
        return z3.BoolVal(isinstance(b, float) and core.f64_bits(a) == core.f64_bits(b))
    if type(a) is bool or type(b) is bool:
        return z3.BoolVal(isinstance(a, int) and isinstance(b, int) and int(a) == int(b))
    return z3.BoolVal(a == b)


# ---------------------------------------------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------------------------------------------
class Case:
    """One symbolic harness.

    inputs   name -> bit width: every input ranges over all values of that width
    run      run(ctx) -> observation (drives the public API)
    check    check(ctx, obs) -> [(label, z3 Bool)], all of which must hold on every path
    expect   outcome kinds (obs[0]) that must be reachable
    reduce   list of functions ctx -> z3 Bool: smaller bounds to fall back to when the full query is not decided
    bounds   text: what the case covers
    """

    def __init__(self, name, inputs, run, check, expect=('ret',), reduce=None, bounds='', stubs=None, max_paths=2000,
                 seconds=60, query_ms=20000, interesting=None, native=None, instrument_extra=None, weight=1,
                 tier='quick', confirm=None, nval=6):
        self.name = name
        self.inputs = inputs
        self.run = run
        self.check = check
        self.expect = expect
        self.reduce = reduce or []
        self.bounds = bounds
        self.stubs = stubs
        self.max_paths = max_paths
        self.seconds = seconds
        self.query_ms = query_ms
        self.interesting = interesting or {}
        self.native = native
        self.weight = weight
        self.tier = tier
        self.nval = nval


# ---------------------------------------------------------------------------------------------------------------
# concrete runs
# ---------------------------------------------------------------------------------------------------------------
_native = None


def native_pw():
    global _native
    if _native is None:
        sys.dont_write_bytecode = True
        if ROOT not in sys.path:
            sys.path.insert(0, ROOT)
        import pywasm
        import pywasm.wasi
        _native = pywasm
        pywasm.log.lvl = 0
    return _native


_plain = {}


def plain_pw(stubs):
    """The unmodified package over stand-ins for the modules that reach the host."""
    if stubs not in _plain:
        L = instr.PlainLoader(ROOT, 'pywasm', stubs.plain())
        pw = L.load('pywasm')
        L.load('pywasm.wasi')
        pw.log.lvl = 0
        _plain[stubs] = pw
        pw.__dict__['_sx_loader'] = L
    return _plain[stubs]


def _alarm(sig, frm):
    raise Hang()


def with_alarm(seconds, f):
    old = signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    rem = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if rem:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, rem - (time.time() - t0)))


def concrete_run(case, vals, seconds=10):
    """Run a case on the unmodified code.  Returns (ctx, obs) or None when the inputs are outside the assumptions."""
    pw = plain_pw(case.stubs) if case.stubs else native_pw()
    ctx = Ctx(case, pw, False, dict(vals))
    buf = io.StringIO()
    so = sys.stdout
    try:
        sys.stdout = buf
        try:
            obs = with_alarm(seconds, lambda: case.run(ctx))
        except Skip:
            return None
        except Hang:
            obs = ('hang',)
        except Exception as ex:
            if not blame(ex):
                raise
            obs = ('fails', f'{type(ex).__name__}: {ex}')
    finally:
        sys.stdout = so
    return ctx, obs


def blame(ex):
    """An exception that the package itself raised where the case expects it to succeed (as opposed to one that only
    shows that the harness and the package disagree about an interface)."""
    if isinstance(ex, (TypeError, AttributeError, NameError, ImportError, ContractError, MemoryError)):
        return False
    tb = ex.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and os.sep + 'pywasm' + os.sep in tb.tb_frame.f_code.co_filename


def concrete_check(case, vals, seconds=10):
    """(failed labels, obs) of a concrete run; None when skipped."""
    r = concrete_run(case, vals, seconds)
    if r is None:
        return None
    ctx, obs = r
    if obs == ('hang',):
        return ['terminates'], obs
    if obs[0] == 'fails':
        return ['completes without an error'], obs
    failed = []
    for label, c in case.check(ctx, obs):
        c = z3.simplify(B(c))
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            failed.append(label)
            continue
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(z3.Not(c))
        r = s.check()
        if r == z3.sat:
            # a value the code leaves open (free symbol): not attributable to it
            failed.append(label)
        elif r == z3.unknown:
            failed.append(label + ' (undecided)')
    return failed, obs


# ---------------------------------------------------------------------------------------------------------------
# symbolic runs
# ---------------------------------------------------------------------------------------------------------------
class Funcs:
    """Functions of the package that were executed symbolically (sys.monitoring, near-zero overhead)."""
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'sx')
        except ValueError:
            pass
        m.register_callback(self.TOOL, m.events.PY_START, self.hit)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        self.on = True

    def hit(self, code, off):
        if code.co_filename.startswith(ROOT) and core.Engine.cur is not None:
            self.seen.add(os.path.relpath(code.co_filename, ROOT) + ':' + code.co_qualname)
        return sys.monitoring.DISABLE

    def take(self):
        r, self.seen = self.seen, set()
        return r


FUNCS = Funcs()
_loaders = {}


def loader(stubs):
    key = stubs.__name__ if stubs else ''
    if key not in _loaders:
        st = stubs() if stubs else {}
        L = instr.Loader(ROOT, 'pywasm', st)
        pw = L.load('pywasm')
        try:
            L.load('pywasm.wasi')
        except SxControl:
            raise
        pw.log.lvl = 0
        pw.__dict__['_sx_loader'] = L
        _loaders[key] = (L, pw)
    return _loaders[key]


def obs_str(o, model=None):
    def f(x):
        if isinstance(x, (list, tuple)):
            return [f(e) for e in x]
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, (bytes, bytearray)):
            h = bytes(x).hex()
            return h if len(h) <= 128 else h[:128] + '...'
        if isinstance(x, (int, str, float, type(None))):
            return x if not isinstance(x, int) or abs(x) < 1 << 53 else str(x)
        return repr(x)
    return f(o)


def decide(s_cons, cond, ms, stats):
    """Can cond fail under the constraints?  ('unsat', None) / ('sat', model) / ('unknown', None)"""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        stats['trivial'] = stats.get('trivial', 0) + 1
        return 'unsat', None
    t = time.time()
    neg = z3.Not(cond)
    try:
        ab = abstract.abstract([z3.simplify(c) for c in s_cons] + [neg])
    except z3.Z3Exception:
        ab = None
    if ab is not None:
        s = z3.Solver()
        s.set('timeout', ms // 4)
        s.add(*ab)
        r = s.check()
        stats['abstract'] = stats.get('abstract', 0) + 1
        if r == z3.unsat:
            stats['final'] = stats.get('final', 0) + 1
            stats['final_s'] = stats.get('final_s', 0.0) + time.time() - t
            return 'unsat', None
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*s_cons)
    s.add(neg)
    r = s.check()
    stats['final'] = stats.get('final', 0) + 1
    stats['final_s'] = stats.get('final_s', 0.0) + time.time() - t
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    t = time.time()
    s = z3.Tactic('qffpbv').solver()
    s.set('timeout', ms)
    s.add(*s_cons)
    s.add(z3.Not(cond))
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    stats['final'] = stats.get('final', 0) + 1
    stats['final_s'] = stats.get('final_s', 0.0) + time.time() - t
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def else_value(fi):
    try:
        return fi.else_value()
    except z3.Z3Exception:
        return None


def model_vals(case, ctx, m):
    r = {}
    for n, w in case.inputs.items():
        if not isinstance(w, tuple):
            r[n] = m.eval(ctx.terms[n], model_completion=True).as_long()
            continue
        fi = m[ctx.terms[n]] if any(d.name() == n and d.arity() == 1 for d in m.decls()) else None
        if fi is None:
            r[n] = bytes(w[1])
        elif isinstance(fi, z3.FuncInterp) and (else_value(fi) is None or z3.is_bv_value(else_value(fi))):
            b = bytearray([else_value(fi).as_long() if else_value(fi) is not None else 0]) * w[1]
            for k in range(fi.num_entries()):
                e = fi.entry(k)
                i = e.arg_value(0).as_long()
                if i < w[1]:
                    b[i] = e.value().as_long()
            r[n] = bytes(b)
        else:
            r[n] = bytes(m.eval(ctx.terms[n](bvv(i, core.IW)), model_completion=True).as_long() for i in range(w[1]))
    return r


def fixed(case, ctx, vals, e):
    """Formula e with the inputs fixed to vals."""
    fs, vs = [], []
    for n, w in case.inputs.items():
        if isinstance(w, tuple):
            x = z3.Var(0, z3.BitVecSort(core.IW))
            b = vals[n]
            d = max(set(b), key=b.count) if b else 0
            body = bvv(d, 8)
            for i, c in enumerate(b):
                if c != d:
                    body = z3.If(x == i, bvv(c, 8), body)
            fs.append((ctx.terms[n], body))
        else:
            vs.append((ctx.terms[n], bvv(vals[n], w)))
    if vs:
        e = z3.substitute(e, *vs)
    if fs:
        e = z3.substitute_funs(e, *fs)
        if vs:
            e = z3.substitute(e, *vs)
    return z3.simplify(e)


def val_json(v):
    if isinstance(v, int):
        return hex(v)
    d = max(set(v), key=v.count) if v else 0
    return {'size': len(v), 'fill': d, 'at': {str(i): c for i, c in enumerate(v) if c != d}}


def val_unjson(v):
    if isinstance(v, str):
        return int(v, 16)
    b = bytearray([v['fill']]) * v['size']
    for i, c in v['at'].items():
        b[int(i)] = c
    return bytes(b)


def vals_str(vals):
    s = json.dumps({k: val_json(v) for k, v in vals.items()})
    return s if len(s) < 600 else s[:600] + '...'


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | violation | inconclusive
        self.detail = ''
        self.vals = None
        self.labels = None
        self.obs = None
        self.stats = {}
        self.paths = 0
        self.outcomes = {}
        self.validated = 0
        self.samples = []
        self.funcs = []
        self.notes = []
        self.reduced = None
        self.wall = 0.0


def run_case(case, extra=None, tier='quick'):
    """Decide one case.  extra(ctx) -> z3 Bool: additional bound on the inputs."""
    t0 = time.time()
    res = Result(case.name)
    st = {}
    mult = 1 if tier == 'quick' else 6
    try:
        L, pw = loader(case.stubs)
        FUNCS.start()
        ctx = Ctx(case, pw, True)
        e = Engine(timeout_ms=case.query_ms * mult, max_paths=case.max_paths * mult,
                   deadline=t0 + case.seconds * mult)

        def go():
            if extra is not None:
                core.eng().assume(extra(ctx))
            return case.run(ctx)
        unknown = []
        hang_model = None
        for cons, kind, obs in e.explore(go):
            if kind == 'exc':
                s = z3.Solver()
                s.set('timeout', 10000)
                s.add(*cons)
                if isinstance(obs, Exception) and s.check() == z3.sat:
                    vals = model_vals(case, ctx, s.model())
                    rep = concrete_check(case, vals)
                    if rep is not None and rep[0]:
                        res.status, res.vals, res.labels, res.obs = 'violation', vals, rep[0], obs_str(rep[1])
                        return res
                raise ContractError(''.join(traceback.format_exception(obs))[-1500:])
            res.paths += 1
            res.outcomes[obs[0]] = res.outcomes.get(obs[0], 0) + 1
            for label, c in case.check(ctx, obs):
                r, m = decide(cons, B(c), case.query_ms * mult, st)
                if r == 'sat':
                    vals = model_vals(case, ctx, m)
                    rep = concrete_check(case, vals)
                    if rep is not None and rep[0]:
                        res.status, res.vals, res.labels, res.obs = 'violation', vals, rep[0], obs_str(rep[1])
                        res.detail = label
                        return res
                    raise ContractError(f'counterexample for {label!r} does not reproduce on the real code: '
                                        f'{vals_str(vals)} symbolic outcome {obs[0]} real {obs_str(rep[1]) if rep else "outside the assumptions"}')
                if r == 'unknown':
                    unknown.append((label, cons, B(c)))
            # witness of this path, replayed on the real code
            if res.validated < case.nval * (4 if tier != 'quick' else 1):
                s = z3.Solver()
                s.set('timeout', 10000)
                s.add(*cons)
                t = time.time()
                r = s.check()
                st['witness_s'] = st.get('witness_s', 0.0) + time.time() - t
                if r == z3.sat:
                    m = s.model()
                    vals = model_vals(case, ctx, m)
                    cr = concrete_run(case, vals)
                    if cr is None:
                        raise ContractError(f'path witness {vals_str(vals)} is outside the assumptions on the real code')
                    if cr[1] == ('hang',):
                        res.status, res.vals, res.labels, res.obs = 'violation', vals, ['terminates'], 'hang'
                        return res
                    if cr[1][0] == 'fails':
                        res.status, res.vals, res.labels, res.obs = 'violation', vals, ['completes without an error'], \
                            obs_str(cr[1])
                        return res
                    same = fixed(case, ctx, vals, obs_eq(obs, cr[1]))
                    ok = z3.is_true(same)
                    if not ok and not z3.is_false(same):
                        # the observation mentions values the code leaves open: some choice must agree
                        s = z3.Solver()
                        s.set('timeout', 10000)
                        s.add(same, *[fixed(case, ctx, vals, c) for c in cons])
                        ok = s.check() != z3.unsat
                    if not ok:
                        # the encoding and the real code differ on this input: perhaps the real code is wrong there
                        rep = concrete_check(case, vals)
                        if rep is not None and rep[0]:
                            res.status, res.vals, res.labels, res.obs = 'violation', vals, rep[0], obs_str(rep[1])
                            return res
                        raise ContractError(f'encoding disagrees with the real code on {vals_str(vals)}: symbolic '
                                            f'{obs_str(obs)} real {obs_str(cr[1])}')
                    res.validated += 1
                    if len(res.samples) < 1:
                        res.samples.append({'case': case.name, 'input': {k: val_json(v) for k, v in vals.items()},
                                            'outcome': obs_str(cr[1])})
                elif r == z3.unsat:
                    res.paths -= 1
                    res.outcomes[obs[0]] -= 1
        if unknown:
            res.status = 'inconclusive'
            res.detail = 'solver gave up on: ' + ', '.join(sorted({u[0] for u in unknown}))
        elif res.paths == 0:
            res.status, res.detail = 'inconclusive', 'no path completes (vacuous)'
        elif extra is None:
            for k in case.expect:
                if not res.outcomes.get(k):
                    res.status, res.detail = 'inconclusive', f'outcome {k!r} is not reachable (vacuous)'
        if e.unknown_feas:
            res.notes.append(f'{e.unknown_feas} branch conditions undecided and followed both ways')
    except Hang:
        res.status, res.detail = 'inconclusive', 'time limit in symbolic execution'
    except (SxControl, ContractError) as ex:
        res.status, res.detail = 'inconclusive', f'{type(ex).__name__}: {ex}'
    except z3.Z3Exception as ex:
        res.status, res.detail = 'inconclusive', f'z3: {ex} ' + ''.join(traceback.format_exc())[-800:]
    except MemoryError:
        res.status, res.detail = 'inconclusive', 'out of memory'
    except RecursionError:
        res.status, res.detail = 'inconclusive', 'recursion ' + ''.join(traceback.format_exc())[-500:]
    except Exception as ex:
        res.status, res.detail = 'inconclusive', 'harness error: ' + ''.join(traceback.format_exc())[-1500:]
    finally:
        core.Engine.cur = None
        try:
            st.update(e.stats.dict())
            res.notes += sorted(e.notes)
        except NameError:
            pass
        res.stats = st
        res.funcs = sorted(FUNCS.take())
        res.wall = time.time() - t0
    return res


def interesting(w, rnd):
    m = (1 << w) - 1
    v = {0, 1, 2, 3, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1}
    for k in (7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64):
        if k < w:
            v |= {1 << k, (1 << k) - 1, (1 << k) + 1, m ^ ((1 << k) - 1), m ^ (1 << k)}
    if w == 32:
        v |= {0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00000, 0xffc00000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000,
              0x4f000000, 0xcf000000, 0x4f800000, 0x7f7fffff, 0x00800000, 0x007fffff, 0x4effffff, 0x3fc00000, 0x5f000000,
              0xcf000001, 0x40200000, 0xbf7fffff}
    if w == 64:
        v |= {0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff4000000000000, 0x3ff0000000000000,
              0xbff0000000000000, 0x3fe0000000000000, 0xbfe0000000000000, 0x41e0000000000000, 0x41dfffffffc00000,
              0xc1e0000000200000, 0xc1e0000000000000, 0x43e0000000000000, 0xc3e0000000000000, 0x7fefffffffffffff,
              0x0010000000000000, 0x4330000000000001, 0x20000020000001, 0x3ff8000000000000, 0x40f0000000000000}
    v |= {rnd.getrandbits(w) for _ in range(6)}
    v |= {rnd.getrandbits(w) >> rnd.randrange(w) for _ in range(6)}
    return sorted(x & m for x in v)


def probe_case(case, seconds, seed):
    """Search for a counterexample on the real code over boundary values (used only when the solver is undecided, to
    turn an inconclusive answer into a confirmed violation; it never turns one into a success)."""
    rnd = random.Random(seed)
    t0 = time.time()
    names = list(case.inputs)
    vs = {}
    for n in names:
        w = case.inputs[n]
        if n in case.interesting:
            vs[n] = list(case.interesting[n])
        elif isinstance(w, tuple):
            vs[n] = [bytes((i * 7 + (i >> 8) + k) & 255 for i in range(w[1])) for k in (0, 129)]
        elif w <= 64:
            vs[n] = interesting(w, rnd)
        else:
            k = 32 if rnd.random() < 0.5 else 8
            vs[n] = [sum(rnd.choice(interesting(k, rnd)) << (k * j) for j in range(w // k)) for _ in range(60)]
    tot = 1
    for n in names:
        tot *= len(vs[n])
    n_run = 0
    if tot <= 3000:
        it = itertools.product(*[vs[n] for n in names])
    else:
        it = (tuple(rnd.choice(vs[n]) for n in names) for _ in itertools.count())
    for tup in it:
        if time.time() - t0 > seconds:
            break
        vals = dict(zip(names, tup))
        try:
            r = concrete_check(case, vals, 5)
        except Exception:
            continue
        n_run += 1
        if r is not None and r[0] and not all(x.endswith('(undecided)') for x in r[0]):
            return vals, r[0], obs_str(r[1]), n_run
    return None, None, None, n_run


# ---------------------------------------------------------------------------------------------------------------
# scheduler
# ---------------------------------------------------------------------------------------------------------------
def worker(cases, conn, tier, seed):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        kind, i, arg = job
        case = cases[i]
        if kind == 'main':
            r = None
            try:
                r = with_alarm(case.seconds * (1 if tier == 'quick' else 6) + 20, lambda: run_case(case, None, tier))
            except Hang:
                r = Result(case.name)
                r.status, r.detail = 'inconclusive', 'time limit'
            conn.send(r)
        elif kind == 'reduced':
            try:
                r = with_alarm(case.seconds + 20, lambda: run_case(case, case.reduce[arg], tier))
            except Hang:
                r = Result(case.name)
                r.status, r.detail = 'inconclusive', 'time limit'
            conn.send(r)
        elif kind == 'probe':
            r = Result(case.name)
            r.status, r.detail = 'inconclusive', 'probe'
            try:
                vals, labels, obs, n = probe_case(case, arg, seed)
                if vals is not None:
                    r.status, r.vals, r.labels, r.obs = 'violation', vals, labels, obs
                    r.detail = 'found while searching around an undecided query'
            except BaseException as ex:
                r.detail = f'probe: {ex!r}'
            conn.send(r)


class Pool:
    def __init__(self, cases, n, tier, seed):
        self.cases, self.tier, self.seed = cases, tier, seed
        self.ctx = mp.get_context('fork')
        self.n = n
        self.ws = []

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=self._main, args=(a, b), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0]

    def _main(self, a, b):
        a.close()
        for w in self.ws:
            try:
                w[1].close()
            except OSError:
                pass
        worker(self.cases, b, self.tier, self.seed)

    def run(self, jobs, limit, deadline, stop):
        """jobs: list of (kind, i, arg); limit(job) seconds; yields (job, result)"""
        jobs = list(jobs)[::-1]
        self.ws = []
        for _ in range(min(self.n, len(jobs))):
            self.ws.append(self.spawn())
        busy = 0
        while jobs or busy:
            for w in self.ws:
                if w[2] is None and jobs and not stop():
                    if time.time() > deadline:
                        j = jobs.pop()
                        r = Result(self.cases[j[1]].name)
                        r.status, r.detail = 'inconclusive', 'overall time limit reached before this case'
                        yield j, r
                        continue
                    j = jobs.pop()
                    w[1].send(j)
                    w[2], w[3] = j, time.time()
                    busy += 1
            if stop() and not busy:
                break
            if stop():
                jobs = []
            conns = [w[1] for w in self.ws if w[2] is not None]
            if not conns:
                continue
            ready = mp.connection.wait(conns, timeout=1.0)
            for w in self.ws:
                if w[2] is None:
                    continue
                if w[1] in ready:
                    j = w[2]
                    try:
                        r = w[1].recv()
                    except (EOFError, OSError):
                        r = Result(self.cases[j[1]].name)
                        r.status, r.detail = 'inconclusive', 'worker died (memory?)'
                        self.replace(w)
                    w[2] = None
                    busy -= 1
                    yield j, r
                elif time.time() - w[3] > limit(w[2]) or stop():
                    j = w[2]
                    self.replace(w)
                    w[2] = None
                    busy -= 1
                    r = Result(self.cases[j[1]].name)
                    r.status, r.detail = 'inconclusive', 'hard time limit' if not stop() else 'stopped'
                    yield j, r
        for w in self.ws:
            try:
                w[1].send(None)
            except OSError:
                pass
            w[1].close()
        for w in self.ws:
            w[0].join(1)
            if w[0].is_alive():
                w[0].kill()

    def replace(self, w):
        w[0].kill()
        w[0].join()
        w[1].close()
        nw = self.spawn()
        w[0], w[1] = nw[0], nw[1]


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k['property'] == prop and k['status'] == 'known']


def load_prop(prop):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module('h.' + prop.lower())


def main(prop, tier=None, only=None, jobs=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_prop(prop)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    names = set()
    for c in cases:
        assert c.name not in names, c.name
        names.add(c.name)
    budget = float(os.environ.get('SX_BUDGET', 640 if tier == 'quick' else 6 * 3600))
    deadline = t0 + budget
    native_pw()
    for s in {c.stubs for c in cases}:
        loader(s)
        if s:
            plain_pw(s)
    n = jobs or os.cpu_count() or 4
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    pool = Pool(cases, n, tier, seed)
    results = {}
    violations = []
    mult = 1 if tier == 'quick' else 6

    def limit(j):
        c = cases[j[1]]
        if j[0] == 'main':
            return c.seconds * mult + 30
        if j[0] == 'probe':
            return j[2] + 30
        return c.seconds + 30

    stop_t = [None]

    def stop():
        return stop_t[0] is not None and time.time() > stop_t[0]

    def on_violation(r):
        path = save_replay(prop, r)
        ok = confirm(path)
        if ok:
            violations.append((r, path))
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            print(f'  case {r.name}: {r.labels} on {vals_str(r.vals)} -> {str(r.obs)[:600]}', flush=True)
            if stop_t[0] is None:
                stop_t[0] = time.time() + 5      # let the cases under way finish, then stop
        else:
            r.status = 'inconclusive'
            r.detail = 'counterexample did not reproduce in a fresh process'

    fallback = []
    for j, r in pool.run([('main', i, None) for i in order], limit, deadline, stop):
        results[j[1]] = r
        if verbose or r.status != 'ok':
            print(f'# {r.name}: {r.status} paths={r.paths} {r.wall:.1f}s {r.detail[:1500]}', flush=True)
        if r.status == 'violation':
            on_violation(r)
        if r.status == 'inconclusive':
            fallback.append(j[1])
    if fallback and not violations:
        # 1. look for a confirmed counterexample around the undecided cases
        per = max(3.0, min(30.0, (deadline - time.time()) * 0.3 * n / max(1, len(fallback))))
        for j, r in pool.run([('probe', i, per) for i in fallback], limit, deadline, stop):
            if r.status == 'violation':
                on_violation(r)
                if r.status == 'violation':
                    results[j[1]].status = 'violation'
        # 2. smaller stated bounds
        if not violations:
            level = {i: 0 for i in fallback}
            todo = [i for i in fallback if cases[i].reduce]
            while todo and not violations:
                nxt = []
                for j, r in pool.run([('reduced', i, level[i]) for i in todo], limit, deadline, stop):
                    i = j[1]
                    if verbose or r.status != 'ok':
                        print(f'# {r.name} reduced[{level[i]}]: {r.status} {r.detail[:600]}', flush=True)
                    if r.status == 'violation':
                        on_violation(r)
                    if r.status == 'ok':
                        r.reduced = (cases[i].reduce[level[i]].__doc__ or 'reduced').strip()
                        r.notes.append('full bound: ' + results[i].detail[:200])
                        results[i] = r
                    elif r.status == 'inconclusive':
                        level[i] += 1
                        if level[i] < len(cases[i].reduce):
                            nxt.append(i)
                todo = nxt
    inconclusive = [r for r in results.values() if r.status == 'inconclusive']
    extra = getattr(mod, 'EXTRA', None)
    for k in known_findings(prop):
        print(f'KNOWN-FINDING: property={prop} {k["what"]}', flush=True)
    evidence(prop, tier, seed, mod, cases, results, violations, inconclusive, time.time() - t0)
    tot = len(results)
    print(f'{prop} {tier}: {tot} cases, {sum(r.paths for r in results.values())} paths, '
          f'{len(violations)} violations, {len(inconclusive)} inconclusive, {time.time() - t0:.1f}s', flush=True)
    if violations:
        return 1
    if inconclusive or tot < len(cases):
        for r in inconclusive[:20]:
            print(f'INCONCLUSIVE {r.name}: {r.detail[:300]}', flush=True)
        return 2
    return 0


def save_replay(prop, r):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    safe = ''.join(ch if ch.isalnum() or ch in '._-' else '_' for ch in r.name)
    p = os.path.join(d, f'{prop}-{safe}.json')
    with open(p, 'w') as f:
        json.dump({'property': prop, 'case': r.name, 'inputs': {k: val_json(v) for k, v in r.vals.items()},
                   'failed': r.labels, 'outcome': r.obs}, f, indent=1)
    return p


def confirm(path):
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay', path], capture_output=True,
                           text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    if r.returncode != 1:
        print('# replay:', r.stdout[-500:], r.stderr[-1500:], flush=True)
    return r.returncode == 1


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_prop(d['property'])
    for tier in ('quick', 'thorough'):
        cs = [c for c in mod.cases(tier) if c.name == d['case']]
        if cs:
            break
    vals = {k: val_unjson(v) for k, v in d['inputs'].items()}
    r = concrete_check(cs[0], vals, 20)
    if r is None:
        print('outside the assumptions of the case')
        return 3
    print(f'case {d["case"]} inputs {vals_str(vals)}')
    print(f'observed {obs_str(r[1])}')
    print(f'violated: {r[0]}' if r[0] else 'property holds on this input')
    return 1 if r[0] else 0


def evidence(prop, tier, seed, mod, cases, results, violations, inconclusive, wall):
    rs = list(results.values())
    agg = {}
    for r in rs:
        for k, v in r.stats.items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in rs for f in r.funcs})
    samples = [s for r in rs for s in r.samples]
    step = max(1, len(samples) // 12)
    cov = {
        'states': sum(r.paths for r in rs),
        'transitions': agg.get('branches', 0) + agg.get('merges', 0),
        'traces_validated_against_impl': sum(r.validated for r in rs),
        'samples': samples[::step][:14],
        'cases': len(rs),
        'paths_completed': sum(r.paths for r in rs),
        'symbolic_branches': agg.get('branches', 0),
        'merged_branches': agg.get('merges', 0),
        'outcomes': {k: sum(r.outcomes.get(k, 0) for r in rs) for k in sorted({k for r in rs for k in r.outcomes})},
        'branch_queries': agg.get('queries', 0),
        'assertion_queries': agg.get('final', 0),
        'assertions_discharged_by_simplification': agg.get('trivial', 0),
        'solver_s': round(agg.get('solver_s', 0) + agg.get('final_s', 0) + agg.get('witness_s', 0), 2),
        'functions_encoded': funcs,
        'bounds': sorted({c.bounds for c in cases if c.bounds}),
        'reduced_bounds': {r.name: r.reduced for r in rs if r.reduced},
        'inconclusive': [r.name for r in inconclusive],
        'case_names': [c.name for c in cases][:400],
        'rule': 'states = completed symbolic paths, transitions = branch decisions taken or merged; each path stands '
                'for all inputs satisfying its path condition',
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({n for r in rs for n in r.notes}),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
