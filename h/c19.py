"""C19: WASI paths cannot name anything outside the preopened directories."""
import errno as ER
import z3
from sx.harness import Case, eqv, tt, B
from sx.core import bvv, conc, SBytes
from sx.strs import SStr
from . import host, wa
from .host import Host, Escape

ASSUMPTIONS = [
    'the host is a model of a POSIX file system (directories, files, symbolic and hard links) in place of the os module; no real file is touched',
    'names of up to 3 arbitrary bytes (thorough: 4) and names of up to 4 (thorough: 5) components out of the directory entries, ".", "..", "" and a new name, '
    'against one tree with links that lead inside, outside and in circles',
    'the tree does not change while a call runs',
]
F, T = z3.BoolVal(False), z3.BoolVal(True)
TOP = '/h/p'


def build(h):
    p = h.put(TOP)
    h.put('/h/f', 'file', data=bytearray(b'0'))
    h.put('/h/pq/f', 'file', data=bytearray(b'1'))
    h.put('/h/q/f', 'file', data=bytearray(b'2'))
    h.put(TOP + '/d/e')
    h.put(TOP + '/d/f', 'file', data=bytearray(b'3'))
    h.put(TOP + '/f', 'file', data=bytearray(b'4'))
    for k, t in (('l', 'd/e'), ('o', '.'), ('u', '..'), ('a', '/h/q'), ('x', 'o/../q'), ('s', 's'), ('g', 'd/f'), ('z', 'n')):
        h.put(TOP + '/' + k, 'link', target=t)
    h.put(TOP + '/d/u', 'link', target='../..')
    h.put(TOP + '/d/w', 'link', target='..')
    return p


PARTS = ['', '.', '..', 'd', 'e', 'f', 'l', 'o', 'u', 'a', 'x', 's', 'g', 'n', 'pq', 'z', 'w', 'h']

# how the guest makes each call (w, descriptor, name pointers and lengths) and what it means on a POSIX host whose resolution is confined
NAME, NAME2, OUT = 1000, 2000, 3000
LOOK = 1


def ops():
    o = {}
    o['path_create_directory'] = (1, lambda w, d, n: w.call('path_create_directory', d, *n[0]), lambda h, d, s: h.mkdir(s[0], dir_fd=d), None)
    o['path_remove_directory'] = (1, lambda w, d, n: w.call('path_remove_directory', d, *n[0]), lambda h, d, s: h.rmdir(s[0], dir_fd=d), None)
    o['path_unlink_file'] = (1, lambda w, d, n: w.call('path_unlink_file', d, *n[0]), lambda h, d, s: h.unlink(s[0], dir_fd=d), None)
    for fl in (0, 1):
        o[f'path_filestat_get.{fl}'] = (1, lambda w, d, n, fl=fl: w.call('path_filestat_get', d, fl | w.hi, *n[0], OUT),
                                        lambda h, d, s, fl=fl: h.stat(s[0], dir_fd=d, follow_symlinks=fl).st_ino, lambda w: w.mem.get_u64(OUT + 8))
        o[f'path_filestat_set_times.{fl}'] = (1, lambda w, d, n, fl=fl: w.call('path_filestat_set_times', d, fl | w.hi, *n[0], 5, 6, 5),
                                              lambda h, d, s, fl=fl: h.utime(s[0], ns=(5, 6), dir_fd=d, follow_symlinks=fl), None)
        for of in (0, 1, 9, 2):     # none, creat, creat|trunc, directory
            def op(h, d, s, fl=fl, of=of):
                f = (0 if fl else host.ros.O_NOFOLLOW) | (host.ros.O_CREAT if of & 1 else 0) | (host.ros.O_TRUNC if of & 8 else 0)
                f |= host.ros.O_DIRECTORY if of & 2 else 0
                rw = 0 if of in (0, 2) else 2
                return h.fds[h.open(s[0], f | rw, 0o644, dir_fd=d)].node.ino
            rights = wa.R['FD_READ'] | (wa.R['FD_WRITE'] if of not in (0, 2) else 0)
            o[f'path_open.{fl}.{of}'] = (1, lambda w, d, n, fl=fl, of=of, rights=rights: w.call('path_open', d, fl | w.hi, *n[0], of, rights, rights, 0, OUT),
                                         op, lambda w: w.h.fds[max(w.h.fds)].node.ino)
        o[f'path_link.{fl}'] = (2, lambda w, d, n, fl=fl: w.call('path_link', d, fl | w.hi, *n[0], w.other or d, *n[1]),
                                lambda h, d, s, fl=fl: h.link(s[0], s[1], src_dir_fd=d, dst_dir_fd=h.other or d, follow_symlinks=fl), None)
    o['path_readlink'] = (1, lambda w, d, n: w.call('path_readlink', d, *n[0], OUT, 64, OUT + 100), lambda h, d, s: h.readlink(s[0], dir_fd=d),
                          lambda w: w.mem.get(OUT, conc(w.u32(OUT + 100))).decode())
    o['path_rename'] = (2, lambda w, d, n: w.call('path_rename', d, *n[0], w.other or d, *n[1]),
                        lambda h, d, s: h.rename(s[0], s[1], src_dir_fd=d, dst_dir_fd=h.other or d), None)

    def symlink(h, d, s):
        outside(s[0])
        return h.symlink(s[0], s[1], dir_fd=d)
    o['path_symlink'] = (2, lambda w, d, n: w.call('path_symlink', *n[0], d, *n[1]), symlink, None)
    return o


def outside(s):
    """The text of a link must not lead above the directory itself."""
    depth = 0
    if bool(s.startswith('/')):
        raise Escape()
    for c in s.split('/'):
        if len(c) == 0 or bool(c == '.'):
            continue
        if bool(c == '..'):
            depth -= 1
            if depth < 0:
                raise Escape()
        else:
            depth += 1


MOVED = TOP + '/moved'


def scene(x, sub, fn, other=None, guest='p', moved=False):
    names = ['path_open'] if fn == 'path_open' else ['path_open', fn]
    dirs = {guest: TOP}
    if other == 'q':
        dirs['q'] = '/h/q'
    w = wa.World(x, names, build, dirs=dirs)
    w.mem.put(0, bytearray(4096) if not x.sym else SBytes.zeros(4096))
    d = 3
    if sub:
        d = w.open(3, sub, oflags=2, base=wa.ALL & ~wa.FD | wa.R['FD_READ'], lookup=1)
    if moved:
        w.h.aside(TOP + '/' + sub, MOVED)
    w.hi = 0
    w.other = {'q': 4, 'd': None, None: None}[other]
    if other == 'd':
        w.other = w.open(3, 'd', oflags=2, base=wa.ALL & ~wa.FD | wa.R['FD_READ'])
    return w, d


def twin(sub, other, moved=False):
    h = wa.stdio(Host())
    build(h)
    top = h.at(TOP + '/' + (sub or ''))
    if moved:
        h.aside(TOP + '/' + sub, MOVED)
    d = h.newfd(host.Open(top, 0))
    h.confine = top
    h.other = None
    if other:
        node = h.at('/h/q' if other == 'q' else TOP + '/d')
        h.other = h.newfd(host.Open(node, 0))
        h.second = node
    return h, d, top


def case(op, spec, names, inputs, label, sub=None, other=None, guest='p', undef=False, moved=False, **kw):
    nn, call, model, result = spec
    fn = op.split('.')[0]

    def run(x):
        texts = names(x)
        w, d = scene(x, sub, fn, other, guest, moved)
        ptrs = []
        for at, b in zip((NAME, NAME2), texts):
            w.poke(at, b)
            ptrs.append((at, len(b) if not isinstance(b, SBytes) else b.n))
        if undef:
            # lookup flags with bits that have no meaning: they may be refused, but they must not mean anything either
            x.assume(x.t('hi') != 0)
            w.hi = x.u('hi') << 1
        before = w.h.snap()
        w.h.touched.clear()
        n0 = sorted(w.h.fds)
        tops = [w.h.at(MOVED if moved else TOP + '/' + (sub or ''))] + ([w.h.at('/h/q' if other == 'q' else TOP + '/d')] if other else [])
        o = call(w, d, ptrs)
        stray = sorted({n.ino for _, n in w.h.touched if not any(n.under(t) for t in tops)})
        okay = o[0] == 'ret' and not bool(o[1] != 0)
        got = result(w) if okay and result else None
        after = w.h.snap()
        leak = len(w.h.fds) - len(n0)
        # the reference: the same operation with every path confined to its directory
        t, td, _ = twin(sub, other, moved)
        try:
            strs = [decode(x, b) for b in texts]
            want = ('ok', model(t, td, strs))
        except (Escape, OSError, ValueError) as e:
            want = ('no', None)
            t.confine = t.second = None
        host.use(w.h)
        return o[0], (1 if okay else 0), want[0], want[1], got, before, after, t.snap(), stray, leak

    def check(x, obs):
        kind, okay, want, wv, got, before, after, ref, stray, leak = obs
        out = [('nothing outside the directory is touched', B(not stray))]
        if want == 'no' or undef and not okay:
            out += [('refused', B(not okay)), ('nothing changed', same(after, before)), ('nothing opened', B(leak == 0))]
        else:
            out += [('carried out', B(bool(okay))), ('on the named file', same(after, ref)),
                    ('descriptors', B(leak == (1 if fn == 'path_open' else 0)))]
            if wv is not None:
                out.append(('result', same(got, wv)))
        return out
    return Case(f'{op}.{label}', inputs, run, check, expect=(), stubs=host.sym_modules, **kw)


def same(a, b):
    """Two observations agree (both may be symbolic)."""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return F
        return z3.And([same(p, q) for p, q in zip(a, b)])
    if isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
        return B(SBytes.lift(a) == SBytes.lift(b))
    r = a == b
    return F if r is NotImplemented else B(r)


def decode(x, b):
    if isinstance(b, SBytes):
        return b.decode()
    return bytes(b).decode()


def arb(n, pre='', key='s'):
    """A name of n arbitrary bytes after a fixed prefix."""
    def f(x):
        if n == 0:
            return pre.encode()
        b = x.bytes(key)
        return (SBytes.lift(pre.encode()) + b) if x.sym else bytes(pre.encode() + b)
    return f, ({key: 8 * n} if n else {'j': 1}), f'{pre}+{n}' if pre else f'any{n}'


def parts(k, table, key='c'):
    """A name of k components out of a table."""
    def f(x):
        for i in range(k):
            x.assume(z3.ULT(x.t(f'{key}{i}'), len(table)))
        return '/'.join(table[x.pick(f'{key}{i}')] for i in range(k)).encode()
    return f, {f'{key}{i}': 5 for i in range(k)}, f'{k}of{len(table)}'


FEW = ['', '.', '..', 'd', 'f', 'o', 'l', 'n']


def cases(tier):
    full = tier != 'quick'
    out = []
    kw = dict(max_paths=50000, seconds=500, nval=2)
    table = ops()

    def add(op, *names, **k):
        spec = table[op]
        inputs, fs, tags = {}, [], []
        for f, i, t in names:
            inputs.update(i)
            fs.append(f)
            tags.append(t)
        label = ','.join(tags) + (f'.from_{k["sub"].replace("/", "_")}' if k.get('sub') else '') + (f'.to_{k["other"]}' if k.get('other') else '')
        if k.get('undef'):
            inputs['hi'] = 31
            label += '.undef'
        label += '.moved' if k.get('moved') else ''
        label += f'.as_{k["guest"].replace("/", "_")}' if k.get('guest') else ''
        out.append(case(op, spec, lambda x: [f(x) for f in fs], inputs, label, **kw, **k))
    for op, spec in table.items():
        if '.' in op:
            add(op, arb(1), *([arb(0, 'n')] if spec[0] == 2 else []), undef=True)
        if spec[0] == 1:
            for n in range(0, 6 if full else 5):
                add(op, arb(n))
            for pre in ('../', 'd/../', 'l/../', 'o/../', 'd/e/../../', 'l/../../', '../p'):
                add(op, arb(3 if full else 2, pre))
            add(op, arb(3 if full else 2), sub='d')
            add(op, arb(2, '../'), sub='d')
            add(op, arb(1), sub='d', moved=True)
            add(op, arb(2, '../'), sub='d', moved=True)
            add(op, arb(2, '../'), sub='l')
            for g in ('.', '/', '/a/b/', 'p/../r'):
                add(op, arb(2), guest=g)
            add(op, arb(2, '../'), guest='/')
            if full:
                add(op, parts(3, PARTS))
                add(op, parts(4, FEW))
                add(op, parts(3, PARTS), sub='d')
        else:
            for other in (None, 'q', 'd'):
                for n in range(0, 4 if full else 3):
                    add(op, arb(n), arb(0, 'n'), other=other)
                    add(op, arb(0, 'f'), arb(n), other=other)
                    add(op, arb(0, 'd/f'), arb(n), other=other)
                for pre in ('../', 'd/../', 'o/../', 'l/../'):
                    add(op, arb(2, pre), arb(0, 'n'), other=other)
                    add(op, arb(0, 'f'), arb(2, pre), other=other)
            add(op, arb(1), arb(1, key='t'))
            add(op, arb(1), arb(0, 'd'), sub='d')
            add(op, arb(2, '../'), arb(0, 'd'), sub='d')
            add(op, arb(1), arb(0, 'k'), sub='d', moved=True)
            add(op, arb(0, 'f'), arb(1), sub='d', moved=True)
            add(op, arb(0, 'f'), arb(2, '../'), sub='d')
            add(op, arb(2, '../'), arb(0, 'n'), sub='d', other='q')
            if full:
                add(op, arb(2), arb(2, key='t'))
                add(op, parts(3, PARTS), arb(0, 'n'))
                add(op, arb(0, 'd'), parts(3, PARTS))
    return out
