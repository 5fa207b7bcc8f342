"""C26: the command line runs the named program with exactly the given options."""
import argparse as rargparse
import sys as rsys
import z3
from sx import core, wb
from sx.core import SBytes, conc, Unsupported
from sx.harness import Case, B, tt
from sx.strs import SStr
from . import host, wa
from .wa import same

ASSUMPTIONS = [
    'the host is a model of a POSIX system; argparse is modelled by its documentation for options that take one value (a counterexample is '
    'replayed with the real argparse)',
    'program arguments, variables and file names of up to 3 (thorough: 4) arbitrary bytes without zero, not necessarily UTF-8, up to two of each kind at once (the second ASCII); '
    'directory names without "/", "." and ":" besides the fixed ones',
    'the started program is a fixed one that reports everything it was given; its exit status is arbitrary',
    'functions are called with decimal integers of up to 3 (thorough: 4) digits and a sign, and with fixed floating-point arguments',
]
W = 'wasi_snapshot_preview1'
TOKENS = []


# -- argparse ---------------------------------------------------------------------------------------------------------
class Namespace:
    pass


class ArgParser:
    def __init__(self, *a, **k):
        self.acts = []

    def add_argument(self, *flags, action='store', default=None, choices=None, type=None, help=None, version=None, dest=None, metavar=None,
                     const=None, required=False, nargs=None):
        if nargs is not None or action not in ('store', 'append', 'extend', 'version', 'store_true', 'store_const'):
            raise Unsupported(f'argparse: {action} {nargs}')
        if dest is None:
            long = [f for f in flags if f.startswith('--')] or list(flags)
            dest = long[0].lstrip('-').replace('-', '_')
        self.acts.append((flags, action, True if action == 'store_true' else const,
                          False if action == 'store_true' and default is None else default, choices, type, dest, required))

    def parse_args(self, args=None, namespace=None):
        out = namespace or Namespace()
        for flags, action, const, default, choices, type, dest, req in self.acts:
            if action != 'version':
                setattr(out, dest, default)
        if args is not None and [a if isinstance(a, str) else id(a) for a in args] != [a if isinstance(a, str) else id(a) for a in argv()[1:]]:
            raise Unsupported('argparse on other arguments')
        rest = [a for a in self.acts if not a[0][0].startswith('-')]
        seen = set()
        for opt, v, _ in TOKENS:
            if opt is None:
                if not rest:
                    raise SystemExit(2)
                act = rest.pop(0)
            else:
                m = [a for a in self.acts if opt in a[0]]
                if not m:
                    raise SystemExit(2)
                act = m[0]
            flags, action, const, default, choices, type, dest, req = act
            seen.add(dest)
            if action == 'version':
                raise SystemExit(0)
            if action in ('store_true', 'store_const'):
                if v is not None:
                    raise SystemExit(2)
                setattr(out, dest, const)
                continue
            if v is None:
                raise SystemExit(2)
            if type is not None:
                from sx.models import sx_call
                try:
                    v = sx_call(type, v)
                except (TypeError, ValueError):
                    raise SystemExit(2) from None
            if choices is not None and not any(bool(v == c) for c in choices):
                raise SystemExit(2)
            if action == 'store':
                setattr(out, dest, v)
            else:
                old = getattr(out, dest)
                setattr(out, dest, list(old or []) + ([v] if action == 'append' else list(v)))
        if rest or any(a[7] and a[6] not in seen for a in self.acts):
            raise SystemExit(2)
        return out

    def error(self, message):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)


def argv():
    out = ['/pywasm/__main__.py']
    for opt, v, joined in TOKENS:
        if opt is None:
            out.append(v)
        elif v is None:
            out.append(opt)
        elif joined:
            out.append(opt + '=' + v)
        else:
            out += [opt, v]
    return out


def modules(sym):
    mods = host.modules(sym)
    if sym:
        a = host.FakeMod('argparse')
        a.ArgumentParser, a.Namespace = ArgParser, Namespace
        a.ArgumentTypeError, a.ArgumentError = rargparse.ArgumentTypeError, rargparse.ArgumentError
        for n in ('HelpFormatter', 'RawTextHelpFormatter', 'RawDescriptionHelpFormatter', 'ArgumentDefaultsHelpFormatter', 'SUPPRESS'):
            setattr(a, n, getattr(rargparse, n))
        mods['argparse'] = a
    return mods


def cli_modules():
    return modules(True)


def cli_plain():
    return modules(False)


cli_modules.plain = cli_plain


class File:
    def __init__(self, r):
        self.r = r

    def __enter__(self):
        return self.r

    def __exit__(self, *a):
        return False

    def read(self, *a):
        return self.r.read(*a)

    def close(self):
        pass


def start(x, tokens, data, build):
    """python -m pywasm with the tokens; outcome, what was printed, what was opened, the standard output."""
    TOKENS[:] = tokens
    h = host.use(wa.stdio(host.Host()))
    if build:
        build(h)
    L = x.pw._sx_loader
    printed, opened = [], []

    def prt(*a, **k):
        printed.append(list(a))

    def opn(path, mode='r', *a, **k):
        opened.append(path)
        if mode not in ('rb', 'br'):
            raise Unsupported('open for ' + mode)
        return File(x.reader(data))
    L.mods.pop('pywasm.__main__', None)
    L.extra['pywasm.__main__'] = {'__name__': '__main__', 'print': prt, 'open': opn}
    L.mods['pywasm.core'].__dict__['open'] = opn
    old = rsys.argv
    L.stubs['sys'].argv = argv()
    if not x.sym:
        rsys.argv = argv()
        err, rsys.stderr = rsys.stderr, __import__('io').StringIO()
    try:
        o = x.attempt(L.load, 'pywasm.__main__')
    finally:
        rsys.argv = old
        if not x.sym:
            rsys.stderr = err
        L.mods.pop('pywasm.__main__', None)
    out = [o[0] if o[0] != 'exit' else 'exit', (0 if o[1] is None else o[1]) if o[0] == 'exit' else 0]
    return out, printed, opened, h


# -- the program ------------------------------------------------------------------------------------------------------
def program(dirs, end, data=b''):
    """Reports arguments, variables and preopened directories on standard output; marks each directory; ends."""
    m = wb.Mod()
    names = ['args_sizes_get', 'args_get', 'environ_sizes_get', 'environ_get', 'fd_prestat_get', 'fd_prestat_dir_name', 'path_create_directory',
             'fd_write', 'proc_exit']
    f = {n: m.import_func(W, n, wa.SIG[n], [] if n == 'proc_exit' else [wb.I32]) for n in names}
    m.mem(1, export='memory')
    c = [wb.i32c]

    def do(n, *a):
        return b''.join(k if isinstance(k, bytes) else wb.i32c(k) for k in a) + wb.call(f[n]) + (b'' if n == 'proc_exit' else b'\x1a')

    def ld(a):
        return wb.i32c(a) + b'\x28\x02\x00'
    code = do('args_sizes_get', 0, 4) + do('args_get', 16, 64) + do('environ_sizes_get', 8, 12) + do('environ_get', 128, 192)
    for k in range(3):
        # the last time there is no such directory: the errno says so
        code += wb.i32c(256 + 4 * k) + wb.i32c(3 + k) + wb.i32c(280 + 8 * k) + wb.call(f['fd_prestat_get']) + b'\x36\x02\x00'
        code += do('fd_prestat_dir_name', 3 + k, 320 + 16 * k, ld(284 + 8 * k))
        code += do('path_create_directory', 3 + k, 600 + 2 * k, 2)
    code += do('fd_write', 1, 700, 1, 720)
    code += {'exit': do('proc_exit', ld(500)), 'return': b'', 'trap': b'\x00'}[end]
    m.func([], [], code, export='_start')
    m.data_active(wb.i32c(600), b'z0z1z2')
    m.data_active(wb.i32c(700), (0).to_bytes(4, 'little') + (512).to_bytes(4, 'little'))
    m.data_active(wb.i32c(500), b'\0\0\0\0' if isinstance(data, SBytes) else bytes(data) or b'\0\0\0\0')
    b = m.build()
    if isinstance(data, SBytes):
        return SBytes.lift(b[:-4]) + data
    return b


def nonzero(x, n, size, but=b'', ascii=False):
    """Input n as raw bytes (without zero and those in but) and as the string python makes of it."""
    if not size:
        return b'', ''
    raw = x.bytes(n)
    for k in range(size):
        for c in b'\0' + bytes(but):
            x.assume(z3.Extract(8 * k + 7, 8 * k, x.t(n)) != c)
        if ascii:
            x.assume(z3.ULT(z3.Extract(8 * k + 7, 8 * k, x.t(n)), 0x80))
    raw = raw.snap(False) if isinstance(raw, SBytes) else bytes(raw)
    return raw, raw.decode('utf-8', 'surrogateescape')


def cut(x, buf, n):
    r = buf[:n]
    return r.snap(False) if isinstance(r, SBytes) else bytes(r)


def u32(x, b, at):
    return sum(x.at(b, at + k) << 8 * k for k in range(4))


def report(x, h, ndirs):
    """What the program saw: arguments, variables, directories (each a list of byte strings)."""
    out = h.at('/dev/stdout').data
    if conc(x.length(out)) != 512:
        return None

    def lst(count, ptrs, buf, size):
        n = conc(u32(x, out, count))
        total = conc(u32(x, out, size))
        at = [conc(u32(x, out, ptrs + 4 * k)) for k in range(n)] + [buf + total]
        if n > 6 or at[0] != buf or at != sorted(at) or total > 60:
            return ['malformed', n, total, at]
        return [cut(x, out[a:b], b - a) for a, b in zip(at, at[1:])]
    dirs = []
    for k in range(3):
        e, n = conc(u32(x, out, 256 + 4 * k)), conc(u32(x, out, 284 + 8 * k))
        dirs.append(cut(x, out[320 + 16 * k:320 + 16 * k + n], n) if e == 0 and n <= 16 else e)
    return [lst(0, 16, 64, 4), lst(8, 128, 192, 12), dirs]


def where(h, n):
    """Directories of the host in which the guest made the directory z<k>."""
    found = {k: [] for k in range(3)}

    def walk(d, path):
        for name, e in d.entries:
            nm = name
            if isinstance(nm, str) and nm in ('z0', 'z1', 'z2'):
                found[int(nm[1])].append(path)
            elif e.kind == 'dir':
                walk(e, path + (name,))
    walk(h.root, ())
    return [found[k] for k in range(3)]


def cat0(b):
    return (b + b'\0') if not isinstance(b, SBytes) else b + SBytes.lift(b'\0')


def both(a, b):
    return z3.And(a, b)


def wasi_case(name, ins, tokens, build=None, ndirs=0, end='exit', envs=lambda x, t: [], **k):
    """tokens(x) -> (tokens, expected program arguments, [(key, value)], {guest name bytes: host path})"""
    def run(x):
        toks, args, envs, dirs, put = tokens(x)
        data = program(ndirs, end, x.bytes('code') if end == 'exit' else b'')
        o, printed, opened, h = start(x, toks, data, put)
        rep = report(x, h, ndirs)
        keys = [[same_str(a, b) for b in envs] for a in envs]
        file = [v for t, v, _ in toks if t is None]
        return o + [rep, where(h, ndirs), [args, [e for e, _ in envs], [kk for _, kk in envs], dirs], [opened, file]]

    def same_str(a, b):
        return 0

    def check(x, obs):
        kind, code, rep, found, (args, envs, keys, dirs), (opened, file) = obs
        out = [('opens the module named', same(opened, file))]
        if end == 'exit':
            ok = kind == 'exit' and not isinstance(code, str)
            out.append(('exit status', z3.Extract(7, 0, tt(code, 32)) == z3.Extract(7, 0, x.t('code')) if ok else
                        both(B(kind == 'ret'), z3.Extract(7, 0, x.t('code')) == 0)))
        elif end == 'return':
            out.append(('exit status', B(kind == 'ret') if kind != 'exit' else tt(code, 32) == 0))
        else:
            out.append(('a trap does not look like success', B(kind == 'trap') if kind != 'exit' else tt(code, 32) != 0))
        if rep is None:
            return out + [('the program ran', z3.BoolVal(False))]
        ra, re, rd = rep
        out.append(('arguments', same(ra, [cat0(a) for a in args])))
        # the last setting of a variable counts; the order is free
        if len(envs) == 2:
            dup = same(keys[0], keys[1])
            e0, e1 = cat0(envs[0]), cat0(envs[1])
            out.append(('variables', z3.If(dup, same(re, [e1]), z3.Or(same(re, [e0, e1]), same(re, [e1, e0])))))
        else:
            out.append(('variables', same(re, [cat0(e) for e in envs])))
        # the mapping: each guest name leads to its host directory; the order is free
        opts = []
        ks = list(range(len(dirs)))
        for perm in ([ks, ks[::-1]] if len(ks) == 2 else [ks]):
            c = [same(rd, [dirs[p][0] for p in perm] + [wa.E['BADF']] * (3 - len(ks)))]
            for i in range(3):
                c.append(same([list(f) for f in found[i]], [list(dirs[perm[i]][1])] if i < len(ks) else []))
            opts.append(z3.And(c))
        out.append(('directories', z3.Or(opts)))
        return out
    return Case(name, {**ins, **({'code': 32} if end == 'exit' else {})}, run, check, expect=('exit',) if end == 'exit' else (),
                stubs=cli_modules, max_paths=20000, seconds=400, nval=2, **k)


WASI = ('--wasi', 'preview1', True)
FILE = (None, 'm.wasm', True)


def arg_case(sizes, sep=False, end='exit'):
    def tokens(x):
        raw, toks = [], []
        for i, n in enumerate(sizes):
            r, s = nonzero(x, f's{i}', n, ascii=i > 0)
            if sep:
                x.assume(z3.Extract(7, 0, x.t(f's{i}')) != ord('-'))
            raw.append(r)
            toks.append(('--wasi-args', s, not sep))
        return [WASI] + toks + [FILE], [b'm.wasm'] + raw, [], [], None
    return wasi_case(f'args{"-apart" if sep else ""}.{".".join(map(str, sizes))}.{end}', {f's{i}': 8 * n for i, n in enumerate(sizes) if n}, tokens, end=end)


def file_case(n):
    def tokens(x):
        r, s = nonzero(x, 's', n)
        x.assume(z3.Extract(7, 0, x.t('s')) != ord('-'))
        return [(None, s, True), WASI, ('--wasi-args', 'x', True)], [r, b'x'], [], [], None
    return wasi_case(f'file.{n}', {'s': 8 * n}, tokens)


def env_case(sizes):
    def tokens(x):
        es, toks = [], []
        for i, (kn, vn) in enumerate(sizes):
            kr, ks = nonzero(x, f'k{i}', kn, b'=', len(sizes) > 1)
            vr, vs = nonzero(x, f'v{i}', vn, ascii=len(sizes) > 1)
            es.append(((kr + SBytes.lift(b'=') + vr) if isinstance(kr, SBytes) else SBytes.lift(kr + b'=') + vr if isinstance(vr, SBytes) else kr + b'=' + vr, kr))
            toks.append(('--wasi-envs', ks + '=' + vs, True))
        return [FILE] + toks + [WASI], [b'm.wasm'], es, [], None
    ins = {}
    for i, (a, b) in enumerate(sizes):
        ins[f'k{i}'] = 8 * a
        if b:
            ins[f'v{i}'] = 8 * b
    return wasi_case('envs.' + '.'.join(f'{a}-{b}' for a, b in sizes), ins, tokens)


BAD = b'/.:'


def dir_case(sizes, style='abs', ascii=False):
    """Guest and host names of the given sizes."""
    def tokens(x):
        toks, want, hosts = [], [], []
        for i, (gn, hn) in enumerate(sizes):
            gr, gs = nonzero(x, f'g{i}', gn, BAD, ascii or len(sizes) > 1)
            # the host name may have a colon
            hr, hs = nonzero(x, f'h{i}', hn, b'/.', ascii or len(sizes) > 1)
            hosts.append(hs)
            want.append((gr, ('w', hs)))
            toks.append(('--wasi-dirs', gs + ':' + {'abs': '/w/', 'rel': 'w/'}[style] + hs, True))
        if len(sizes) == 2:
            x.assume(z3.Not(same(want[0][0], want[1][0])))
            x.assume(z3.Not(same(hosts[0], hosts[1])))

        def put(h):
            w = h.put('/w')
            for s in hosts:
                h.add(w, s, h.node('dir'))
        return [WASI, FILE] + toks, [b'm.wasm'], [], want, put
    ins = {}
    for i, (a, b) in enumerate(sizes):
        ins[f'g{i}'], ins[f'h{i}'] = 8 * a, 8 * b
    return wasi_case('dirs.' + style + '.' + '.'.join(f'{a}-{b}' for a, b in sizes), ins, tokens, ndirs=len(sizes))


def fixed_dirs(name, spec, want):
    """Fixed names; one program argument arbitrary, before and after."""
    def tokens(x):
        r, s = nonzero(x, 's', 2)

        def put(h):
            h.put('/w/a/b')
            h.put('/w/c')
            h.put('/w/d:e')
        return ([('--wasi-dirs', spec[0], True), ('--wasi-args', s, True), WASI, FILE] + [('--wasi-dirs', d, True) for d in spec[1:]] +
                [('--wasi-envs', 'A=b', True), ('--wasi-args', s, True)], [b'm.wasm', r, r], [(b'A=b', b'A')], want, put)
    return wasi_case('fixed.' + name, {'s': 16}, tokens, ndirs=len(want))


# -- functions --------------------------------------------------------------------------------------------------------
def func_case(name, types, code, result, ins, args, want, call='f', good=True):
    m = wb.Mod()
    m.func([], [result], wb.i32c(7) if result == wb.I32 else b'\0')
    m.func(types, [result], code, export='f')
    m.func([], [wb.I32], wb.i32c(5), export='g')
    data = m.build()

    def run(x):
        strs, vals = args(x)
        toks = [('--func', call, True)] + [('--func-args', s, True) for s in strs] + [FILE]
        o, printed, opened, h = start(x, toks, data, None)
        flat = []
        for p in printed:
            for q in p:
                flat += q if isinstance(q, (list, tuple)) else [q]
        if not x.sym:
            flat = [eval(q, {'__builtins__': {}}, {'inf': float('inf'), 'nan': float('nan')}) if isinstance(q, str) else q for q in flat]
            flat = [e for q in flat for e in (q if isinstance(q, (list, tuple)) else [q])]
        return o + [flat, vals]

    def check(x, obs):
        kind, code, flat, vals = obs
        if not good:
            return [('fails', B(kind == 'trap') if kind != 'exit' else tt(code, 32) != 0), ('prints no result', B(len(flat) == 0))]
        w = want(vals)
        out = [('ends well', B(kind == 'ret') if kind != 'exit' else tt(code, 32) == 0), ('one result', B(len(flat) == 1))]
        if len(flat) == 1:
            if isinstance(w, float):
                out.append(('result', B(not hasattr(flat[0], 'n') and bool(flat[0] == w))))
            else:
                n = 32 if result == wb.I32 else 64
                out.append(('result', tt(flat[0], n) == tt(w, n) if not isinstance(flat[0], (float, str)) else z3.BoolVal(False)))
        return out
    return Case('func.' + name, ins, run, check, expect=('ret',) if good else (), stubs=cli_modules, max_paths=20000, seconds=400, nval=2)


def digits(x, n, count, sign):
    """Decimal number of the given number of digits, as a string and its value."""
    raw = x.bytes(n)
    v = 0
    for k in range(count):
        d = z3.Extract(8 * k + 7, 8 * k, x.t(n))
        x.assume(z3.And(z3.UGE(d, 48), z3.ULE(d, 57)))
        v = v * 10 + (x.at(raw, k) - 48)
    s = raw.snap(False).decode() if isinstance(raw, SBytes) else bytes(raw).decode()
    return sign + s, -v if sign == '-' else v


def int_args(counts, signs):
    def f(x):
        ps = [digits(x, f'n{i}', c, s) for i, (c, s) in enumerate(zip(counts, signs))]
        return [p[0] for p in ps], [p[1] for p in ps]
    return f, {f'n{i}': 8 * c for i, c in enumerate(counts)}


def cases(tier):
    deep = tier != 'quick'
    out = [arg_case([]), arg_case([], end='return'), arg_case([], end='trap')]
    out += [arg_case([a]) for a in range(4 + deep)]
    out += [arg_case([a, b]) for a in range(3) for b in range(3) if a + b]
    out += [arg_case([2], sep=True), arg_case([1, 2], sep=True), arg_case([1], end='return'), arg_case([1], end='trap'), file_case(1), file_case(3)]
    out += [env_case([(a, b)]) for a in (1, 2) for b in range(3 + deep) if deep or a + b < 4]
    out += [env_case([(1, 1), (1, 1)]), env_case([(1, 0), (2, 1)]), env_case([(2, 1), (2, 1)])]
    out += [dir_case([(a, b)], s, not deep and a + b > 2) for s in ('abs', 'rel') for a, b in ((1, 1), (2, 2), (1, 3))]
    out += [dir_case([(1, 1), (1, 1)]), dir_case([(1, 2), (2, 1)])]
    out += [fixed_dirs('colon', ['g:/w/d:e'], [(b'g', ('w', 'd:e'))]), fixed_dirs('dot', ['.:/w/a'], [(b'.', ('w', 'a'))]),
            fixed_dirs('root', ['/:/w', '/x/y:/w/a/b'], [(b'/', ('w',)), (b'/x/y', ('w', 'a', 'b'))]),
            fixed_dirs('shared', ['p:/w/a', 'q:w/c'], [(b'p', ('w', 'a')), (b'q', ('w', 'c'))]),
            fixed_dirs('order', ['q:/w/a', 'p:/w/c'], [(b'q', ('w', 'a')), (b'p', ('w', 'c'))]),
            fixed_dirs('here', ['.:.', 'sub:w/a'], [(b'.', ()), (b'sub', ('w', 'a'))])]
    I, L = wb.I32, wb.I64
    for t, nm in ((I, 'i32'), (L, 'i64')):
        for n in range(1, 4 + deep):
            for s in ('', '-'):
                f, ins = int_args([n], [s])
                out.append(func_case(f'{nm}.{n}{s}', [t], wb.lget(0), t, ins, f, lambda v: v[0]))
        f, ins = int_args([2, 1], ['', '-'])
        sub = b'\x6b' if t == I else b'\x7d'
        out.append(func_case(f'{nm}.sub', [t, t], wb.lget(0) + wb.lget(1) + sub, t, ins, f, lambda v: v[0] - v[1]))
    def long_arg(pre, n):
        neg = pre.startswith('-')

        def f(x):
            t, v = digits(x, 'n0', n, '')
            v = int(pre.lstrip('-')) * 10 ** n + v
            return [pre + t], [-v if neg else v]
        return f, {'n0': 8 * n}
    for t, nm, pre in ((L, 'i64', '9007199254740'), (L, 'i64', '-900719925474099'), (L, 'i64', '92233720368547757'), (L, 'i64', '-92233720368547757'),
                       (I, 'i32', '21474835'), (I, 'i32', '-21474835'), (L, 'i64', '429496729')):
        f, ins = long_arg(pre, 2)
        out.append(func_case(f'{nm}.long.{pre}', [t], wb.lget(0), t, ins, f, lambda v: v[0]))
    for t, nm, pre in ((I, 'i32', '21474837'), (L, 'i64', '-92233720368547759'), (I, 'i32', '92233720368547758'), (L, 'i64', '1844674407370955161')):
        f, ins = long_arg(pre, 2)
        out.append(func_case(f'{nm}.over.{pre}', [t], wb.lget(0), t, ins, f, None, good=False))
    for k, (s, v) in enumerate([('1.5', 1.5), ('-0.25', -0.25), ('3', 3.0), ('1e10', 1e10)]):
        out.append(func_case(f'f64.{k}', [0x7c], wb.lget(0), 0x7c, {'n': 8}, lambda x, s=s: ([s], []), lambda _, v=v: v))
        out.append(func_case(f'f32.{k}', [0x7d], wb.lget(0), 0x7d, {'n': 8}, lambda x, s=s: ([s], []), lambda _, v=v: v))
    f, ins = int_args([1], [''])
    out.append(func_case('other', [], b'\x00', I, {'n': 8}, lambda x: ([], []), lambda v: 5, call='g'))
    out.append(func_case('few', [I, I], wb.lget(0), I, ins, f, None, good=False))
    out.append(func_case('many', [], wb.i32c(1), I, ins, f, None, good=False))
    out.append(func_case('missing', [I], wb.lget(0), I, ins, f, None, call='h', good=False))
    return out
