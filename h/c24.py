"""C24: WASI time, flag and polling calls pass on exactly the requested values."""
import itertools
import os as ros
import errno as ER
import z3
from sx import core
from sx.harness import Case, B, tt
from sx.core import bvv, conc, SymFloat, Unsupported
from . import host, wa
from .c22 import MEM, a32, inside, observe, laid, field, terms, world, INS
from .wa import R, E, ALL, pack, same

ASSUMPTIONS = [
    'the host is a model of a POSIX system: clocks stand still except while polling waits; polling ends when a file becomes ready, or at most 1 us '
    'before the timeout; the realtime clock may drift by up to 2 us meanwhile, the CPU clocks advance by any amount up to the wait',
    'every 64-bit timestamp and clock value (clocks below 2^62 ns) and every flag word; a single poll subscription to any clock with any 64-bit timeout and '
    'a host that waits exactly; several subscriptions, early wake-ups and drift: timeouts and deadlines within 2 ms of the clocks, up to 2 (thorough: 3) '
    'subscriptions, files that become ready within 2 ms or never, up to 2 waits per poll; waits of 2^44 ns (5 hours) and more are not waited for',
    'timeouts handed to the host as quotients of integers are compared as exact quotients (double rounding off by one ulp is ignored)',
]
NS = 10 ** 9
M64 = (1 << 64) - 1


def case(name, ins, run, check, **k):
    k.setdefault('nval', 2)
    k.setdefault('expect', ('ret',))
    return Case(name, {**INS, **ins}, run, check, stubs=host.sym_modules, max_paths=20000, seconds=500, **k)


# -- clocks -----------------------------------------------------------------------------------------------------------
CLK = ('real', 'mono', 'process', 'thread')


def clocks(x, w):
    for k in CLK:
        x.assume(z3.ULT(x.t(k), 1 << 62))
        w.h.clocks[k] = x.u(k)


def clock_case(fn):
    def run(x):
        w = world(x, [fn])
        clocks(x, w)
        inside(x, (a32(x, 'p'), 8))
        args = (x.i('id'), x.i('p')) if fn == 'clock_res_get' else (x.i('id'), x.i('prec'), x.i('p'))
        obs = observe(x, w, lambda: w.call(fn, *args))
        return obs + [w.mem.get_u64(x.u('p'))]

    def check(x, obs):
        i = x.t('id')
        if fn == 'clock_time_get':
            v = bvv(0, 64)
            for k, c in enumerate(CLK):
                v = z3.If(i == k, x.t(c), v)
            good = laid(x, obs, [(a32(x, 'p'), field(v, 8), None)])
        else:
            v = tt(obs[5], 64)
            good = laid(x, obs, [(a32(x, 'p'), [None] * 8, None)]) + [('resolution', z3.And(z3.UGT(v, 0), z3.ULE(v, NS)))]
        bad = laid(x, obs, [], E['INVAL'])
        known = z3.ULT(i, 4)
        return [(w, z3.If(known, g, z3.BoolVal(True))) for w, g in good] + [(w + ' (no such clock)', z3.Or(known, g)) for w, g in bad]
    return case(fn, {'id': 32, 'prec': 64, 'p': 32, **{k: 64 for k in CLK}}, run, check)


# -- timestamps -------------------------------------------------------------------------------------------------------
def times_case(fn, name='f', moved=False):
    def build(x):
        def f(h):
            wa.tree(h)
            for p in ('f', 'd', 'd/f', 'l'):
                h.at('/h/p/' + p).times[:2] = [x.u('a0'), x.u('m0')]
        return f

    def run(x):
        for k in ('a0', 'm0'):
            x.assume(z3.ULT(x.t(k), 1 << 63))
        w = world(x, sorted({fn, 'path_open'}), build(x), dirs=wa.DIRS)
        clocks(x, w)
        tgt = ['/h/p/' + p for p in ('f', 'd', 'd/f', 'l')]
        look = 0
        if fn == 'fd_filestat_set_times':
            fd = w.open(3, name, base=ALL & ~R['FD_WRITE'])
            if moved:
                w.h.aside('/h/p/' + name, '/h/p/moved')
                tgt = [t.replace('/h/p/' + name, '/h/p/moved') for t in tgt]
            args = (fd, x.i('a'), x.i('m'), x.i('fl'))
        else:
            w.poke(100, name)
            look = x.pick('look')
            args = (3, look, 100, len(name), x.i('a'), x.i('m'), x.i('fl'))
        obs = observe(x, w, lambda: w.call(fn, *args))
        return obs + [[list(w.h.at(p).times[:2]) for p in tgt], look]

    def check(x, obs):
        kind, no, b, a, size, times, look = obs
        if kind != 'ret':
            return [('returns', z3.BoolVal(False))]
        no = tt(no, 32)
        f = x.t('fl')

        def on(k):
            return f & k == k
        bad = z3.Or(z3.And(on(1), on(2)), z3.And(on(4), on(8)))
        odd = z3.Extract(31, 4, f) != 0          # bits without a meaning: refused or ignored
        hit = {'f': 0, 'd': 1, 'd/f': 2, 'l': 2 if look else 3, 'none': None}[name]
        wa_ = z3.If(on(1), x.t('a'), z3.If(on(2), x.t('real'), x.t('a0')))
        wm = z3.If(on(4), x.t('m'), z3.If(on(8), x.t('real'), x.t('m0')))
        out = [('no memory changes', tt(a, 8) == tt(b, 8))]
        if hit is None:
            out.append(('errno', no != 0))
        else:
            out += [('contradictory flags are refused', z3.Or(z3.Not(bad), no == E['INVAL'])), ('carried out', z3.Or(bad, odd, no == 0))]
        for k, (t, m) in enumerate(times):
            t, m = tt(t, 80), tt(m, 80)
            kept = z3.And(t == z3.ZeroExt(16, x.t('a0')), m == z3.ZeroExt(16, x.t('m0')))
            done = z3.And(t == z3.ZeroExt(16, wa_), m == z3.ZeroExt(16, wm))
            out.append((f'times {k}', z3.If(no == 0, done, kept) if k == hit else kept))
        return out
    return case(f'{fn}.{name.replace("/", "_")}' + ('.moved' if moved else ''), {'a': 64, 'm': 64, 'fl': 32, 'a0': 64, 'm0': 64, 'look': 1, **{k: 64 for k in CLK}}, run, check)


# -- descriptor flags -------------------------------------------------------------------------------------------------
HF = {1: ros.O_APPEND, 2: ros.O_DSYNC, 4: ros.O_NONBLOCK, 8: ros.O_RSYNC, 16: ros.O_SYNC}
ACC = {0: 0, 1: ros.O_RDONLY, 2: ros.O_WRONLY, 3: ros.O_RDWR}


def setflags_case(kind, fail=False):
    def run(x):
        w = world(x, ['fd_fdstat_get', 'fd_fdstat_set_flags', 'path_open'], wa.tree, dirs=wa.DIRS)
        if kind == 'file':
            old = x.pick('old')
            old = old & 1 | (old & 2) << 1
            fd = w.open(3, 'f', fdflags=old)
            o = w.h.fds[max(w.h.fds)]
        else:
            fd, o, old = 1, w.h.fds[1], 0
        if fail:
            w.h.fail = lambda op: ER.EINVAL if op == 'fcntl' else None
        before = o.flags
        obs = observe(x, w, lambda: w.call('fd_fdstat_set_flags', fd, x.i('new')))
        w.h.fail = None
        return obs + [before, o.flags, old, w.mem.get_u16(202) if w.ok('fd_fdstat_get', fd, 200) else 0]

    def check(x, obs):
        kind_, no, b, a, size, h0, h1, old, told = obs
        if kind_ != 'ret':
            return [('returns', z3.BoolVal(False))]
        no, h0, h1, told, new = tt(no, 32), tt(h0, 32), tt(h1, 32), tt(told, 16), x.t('new')
        can = new & ~bvv(5, 32) == 0
        mask = ros.O_APPEND | ros.O_NONBLOCK
        want = h0 & ~bvv(mask, 32) | z3.If(new & 1 == 1, bvv(ros.O_APPEND, 32), 0) | z3.If(new & 4 == 4, bvv(ros.O_NONBLOCK, 32), 0)
        out = [('no memory changes', tt(a, 8) == tt(b, 8)),
               ('host flags', z3.If(no == 0, h1 == want, h1 == h0)),
               ('reported flags', z3.If(no == 0, told == z3.Extract(15, 0, new), told == old)),
               ('other flags are refused', z3.Or(can, no != 0))]
        if not fail:
            out.append(('carried out', z3.Or(z3.Not(can), no == 0)))
        return out
    return case(f'fd_fdstat_set_flags.{kind}' + ('.fail' if fail else ''), {'old': 2, 'new': 32}, run, check)


def names(t):
    """A tree without what its files hold."""
    return [t[0], [[n, names(c)] for n, c in t[4]] if t[0] == 'dir' else 0]


def open_case(name):
    """path_open by flags, against opening the same name on a second host with the flags that POSIX prescribes."""
    def run(x):
        w = world(x, ['fd_fdstat_get', 'path_open'], wa.tree, dirs=wa.DIRS)
        of, ff, rw = x.i('of'), x.i('ff'), x.i('rw')
        x.assume(z3.And(z3.ULT(x.t('of'), 16), z3.ULT(x.t('ff'), 32), z3.ULT(x.t('rw'), 4)))
        follow = x.pick('look')
        w.poke(100, name)
        n0, t0 = set(w.h.fds), w.h.snap()
        base = ALL & ~(R['FD_READ'] | R['FD_WRITE'])
        rights = base + (x.u('rw') & 1) * R['FD_READ'] + (x.u('rw') >> 1) * R['FD_WRITE']
        o = w.call('path_open', 3, follow, 100, len(name), of, rights, base, ff, 300)
        got = [o[0], o[1] if o[0] == 'ret' else 0]
        fds = sorted(set(w.h.fds) - n0)
        new = w.h.fds[fds[0]] if fds else None
        told = 0
        if new is not None:
            w.ok('fd_fdstat_get', w.u32(300), 200)
            told = w.mem.get_u16(202)
        mine = [w.h.snap(), len(fds), new.flags if new else 0, new.node.ino if new else 0, told]
        # the reference
        of, ff, rw = x.pick('of'), x.pick('ff'), x.pick('rw')
        h = host.Host()
        wa.stdio(h)
        wa.tree(h)
        host.use(h)
        flags = ACC[rw] | (0 if follow else ros.O_NOFOLLOW)
        for k, v in HF.items():
            flags |= v if ff & k else 0
        for k, v in {1: ros.O_CREAT, 2: ros.O_DIRECTORY, 4: ros.O_EXCL, 8: ros.O_TRUNC}.items():
            flags |= v if of & k else 0
        d = h.open('/h/p', ros.O_RDONLY)
        try:
            f = h.fds[h.open(name, flags, 0o644, dir_fd=d)]
            ref = [0, h.snap(), 1, f.flags, f.node.ino]
        except OSError as e:
            ref = [e.errno, h.snap(), 0, 0, 0]
        host.use(w.h)
        return got + [mine, ref, of, ff, t0]

    def check(x, obs):
        kind, no, mine, ref, of, ff, x_tree = obs
        if kind != 'ret':
            return [('returns', z3.BoolVal(False))]
        no = tt(no, 32)
        if of & 4 and not of & 1 or of & 3 == 3:
            # EXCL without CREAT, CREAT with DIRECTORY: POSIX leaves the outcome open
            return [] if of & 1 else [('creates nothing', same(names(mine[0]), names(x_tree)))]
        out = []
        if ref[0]:
            codes = {ER.ENOENT: (44,), ER.EEXIST: (20,), ER.EISDIR: (31,), ER.ENOTDIR: (54, 32), ER.ELOOP: (32, 54), ER.EINVAL: (28,), ER.ENXIO: (60,)}
            out.append(('errno', z3.Or([no == c for c in codes[ref[0]]])))
            out.append(('nothing opened or changed', z3.And(B(mine[1] == 0), same(mine[0], ref[1]))))
        else:
            keep = 3 | ros.O_APPEND | ros.O_DSYNC | ros.O_NONBLOCK | ros.O_SYNC | ros.O_RSYNC | ros.O_DIRECT | ros.O_ASYNC | ros.O_NOATIME
            out += [('opened', z3.And(no == 0, B(mine[1] == 1))), ('host flags', tt(mine[2], 32) & keep == ref[3] & keep),
                    ('the file named', tt(mine[3], 64) == ref[4]), ('tree', same(mine[0], ref[1])), ('reported flags', tt(mine[4], 16) == ff)]
        return out
    return case(f'path_open.{name}', {'of': 32, 'ff': 32, 'rw': 32, 'look': 1}, run, check)


# -- polling ----------------------------------------------------------------------------------------------------------
class Blocked(Exception):
    pass


class Again(Exception):
    pass


SUB, OUT, NOUT = 1000, 2000, 3000
WAITS = 2
LONG = 1 << 44


class Poll:
    """The host's side of polling."""

    def __init__(self, x, w, socks, wide, apart=False):
        self.x, self.w, self.n, self.el, self.log = x, w, 0, 0, []
        self.ready = {}
        self.wide = wide
        for k, fd in enumerate(socks):
            self.ready[fd, 'R'] = None if x.pick(f'nv{k}') else x.u(f'r{k}')
            self.ready[fd, 'W'] = self.ready[fd, 'R'] if not apart else None if x.pick(f'nw{k}') else x.u(f's{k}')

    def due(self, fds, way):
        return [f for f in fds if self.ready[f, way] is not None and bool(self.ready[f, way] <= self.el)]

    def __call__(self, r, w, timeout):
        x = self.x
        t = None
        if timeout is not None:
            if isinstance(timeout, SymFloat):
                if timeout.ratio is None or NS % timeout.ratio[1]:
                    raise Unsupported('a timeout that is no quotient of nanoseconds')
                t = timeout.ratio[0] * (NS // timeout.ratio[1])
            else:
                t = round(timeout * NS) if isinstance(timeout, float) else timeout * NS
            if bool(t < 0):
                raise ValueError('timeout must be non-negative')
            if bool(t >= 1 << 63):
                raise OverflowError('timestamp too large to convert to C _PyTime_t')
        self.log.append([t if t is None or bool(t < LONG) else LONG, [self.w.h.clocks[k] for k in CLK]])
        rs, ws = self.due(r, 'R'), self.due(w, 'W')
        if rs or ws:
            return rs, ws, []
        nxt = None
        for f in [*[(f, 'R') for f in dict.fromkeys(r)], *[(f, 'W') for f in dict.fromkeys(w)]]:
            q = self.ready[f]
            if q is not None and (nxt is None or bool(q < nxt)):
                nxt = q
        if t is not None and bool(t >= LONG):
            t = None
            if nxt is None:
                raise Again
        if t is None and nxt is None:
            raise Blocked
        if nxt is not None and (t is None or bool(nxt <= self.el + t)):
            d = nxt - self.el
        else:
            if self.n >= WAITS:
                raise Again
            d = t
            if not self.wide:
                e = x.u(f'e{self.n}')
                d = t - e if bool(e <= t) else t
        k = self.n
        self.n += 1
        self.el = self.el + d
        c = self.w.h.clocks
        c['mono'] = c['mono'] + d
        more = k < WAITS and not self.wide
        c['real'] = c['real'] + d + (x.i(f'dr{k}') if more else 0)
        if more:
            for n in ('process', 'thread'):
                x.assume(tt(x.u(f'cp{k}'), 80) <= tt(d, 80))
                c[n] = c[n] + x.u(f'cp{k}')
        return self.due(r, 'R'), self.due(w, 'W'), []


BASE = {'real': 17 * 10 ** 17, 'mono': 10 ** 12, 'process': 10 ** 7, 'thread': 10 ** 6}
CLOCK = {'A': (0, 1), 'r': (0, 0), 'a': (1, 1), 'm': (1, 0), 'q': (2, 1), 'p': (2, 0), 't': (3, 0)}


def put(w, at, clk, t, flag):
    w.mem.put_u8(at + 8, 0)
    w.mem.put_u32(at + 16, clk)
    w.mem.put_u64(at + 24, t)
    w.mem.put_u64(at + 32, 3)
    w.mem.put_u16(at + 40, flag)


def poll_case(kinds, pipe=False):
    """kinds: 'C' a clock, or a letter of CLOCK; 'R'/'W' a file, 'X' anything not to be polled."""
    n = len(kinds)
    wide = 'C' in kinds
    apart = 'R' in kinds and 'W' in kinds

    def run(x):
        w = world(x, ['poll_oneoff', 'path_open'], wa.tree, dirs=wa.DIRS)
        if wide:
            clocks(x, w)
        else:
            w.h.clocks = {k: BASE[k] + x.u(k) for k in CLK}
        fds = []
        for k in range(2):
            end = host.SockEnd(f's{k}', b'')
            h = w.h.newfd(host.Open(w.h.node('sock'), 2, end))
            fds.append((wa.sock_file(w, h, ALL, 'stream'), h))
        noright = wa.sock_file(w, fds[0][1], ALL & ~R['POLL_FD_READWRITE'], 'stream')
        p = Poll(x, w, [h for _, h in fds], wide, apart)
        p.ready.update({(0, 'R'): None, (1, 'W'): 0, (2, 'W'): 0})
        if pipe:
            w.wasi.fd[0].pipe = wa.Pipe(b'')
        w.h.select_ready = p
        subs = []
        for i, kd in enumerate(kinds):
            at = SUB + 48 * i
            w.mem.put_u64(at, x.u(f'u{i}'))
            if kd == 'C':               # any clock, deadline or delay, all of 64 bits
                x.assume(z3.And(z3.ULT(x.t(f'id{i}'), 4), z3.ULT(x.t(f'fl{i}'), 2)))
                put(w, at, x.u(f'id{i}'), x.u(f't{i}'), x.u(f'fl{i}'))
                subs.append(['C', 0, 0])
            elif kd in CLOCK:           # a given clock, a deadline or delay from a narrow range
                c, ab = CLOCK[kd]
                put(w, at, c, x.u(f't{i}') + (BASE[CLK[c]] if ab else 0), ab)
                subs.append(['C', 0, 0])
            elif kd in 'RW':
                s = x.pick(f'fd{i}')
                fd, h = [*fds, (0, 0)][s] if s < 3 else (1, 1)
                if s == 3 and kd == 'R' or s == 2 and kd == 'W':
                    x.assume(z3.BoolVal(False))
                w.mem.put_u8(at + 8, 1 if kd == 'R' else 2)
                w.mem.put_u32(at + 16, fd)
                subs.append([kd, 0 if pipe and fd == 0 else p.ready[h, kd], 0])
            else:
                s = x.pick(f'x{i}')
                if s == 0:              # no such type of event
                    x.assume(z3.UGT(x.t(f'tag{i}'), 2))
                    w.mem.put_u8(at + 8, x.u(f'tag{i}'))
                elif s == 1:            # no such clock
                    x.assume(z3.UGT(x.t(f'id{i}'), 3))
                    w.mem.put_u8(at + 8, 0)
                    w.mem.put_u32(at + 16, x.u(f'id{i}'))
                else:                   # no such descriptor, or without the right
                    if s == 2:
                        x.assume(z3.UGT(x.t(f'id{i}'), noright))
                    w.mem.put_u8(at + 8, 1 + x.pick(f'w{i}'))
                    w.mem.put_u32(at + 16, x.u(f'id{i}') if s == 2 else noright)
                subs.append(['X', 0, 0])
        end = None
        c0 = [w.h.clocks[k] for k in CLK]

        def go():
            nonlocal end
            o = w.call('poll_oneoff', SUB, OUT, n, NOUT)
            end = getattr(x, 'last_error', None) if o[0] != 'ret' else None
            return o
        obs = observe(x, w, go)
        why = type(end).__name__ if isinstance(end, (Blocked, Again)) else str(end)
        why = 'blocked' if 'Blocked' in why else 'again' if 'Again' in why else ''
        evs = [[w.mem.get_u64(OUT + 32 * i), w.mem.get_u16(OUT + 32 * i + 8), w.mem.get_u8(OUT + 32 * i + 10), w.mem.get_u16(OUT + 32 * i + 24)] for i in range(n)]
        return obs + [why, subs, c0, [w.h.clocks[k] for k in CLK], p.el, p.log, evs, w.u32(NOUT)]

    def check(x, obs):
        kind, no, b, a, size, why, subs, c0, c1, el, log, evs, count = obs
        W = 80

        def z(v):
            return tt(v, W)
        cs = [i for i, s in enumerate(subs) if s[0] == 'C']

        def clk(i, c):
            if kinds[i] != 'C':
                return z(c[CLOCK[kinds[i]][0]])
            v = z(c[0])
            for k in (1, 2, 3):
                v = z3.If(x.t(f'id{i}') == k, z(c[k]), v)
            return v

        def end(i):
            t = z3.ZeroExt(W - x.t(f't{i}').size(), x.t(f't{i}'))
            if kinds[i] == 'C':
                return t + z3.If(x.t(f'fl{i}') & 1 == 1, bvv(0, W), clk(i, c0))
            c, ab = CLOCK[kinds[i]]
            return t + (BASE[CLK[c]] if ab else clk(i, c0))
        ends = {i: end(i) for i in cs}
        out = []
        if any(s[0] == 'X' for s in subs) or not subs:
            if kind != 'ret':
                return [('refused', z3.BoolVal(False))]
            j = z3.ZeroExt(48, x.t('j'))
            return [('refused', tt(no, 32) != 0), ('does not wait', B(not log)), ('no memory changes', tt(a, 8) == tt(b, 8))]
        # every wait ends by the earliest deadline
        for t, c in log:
            if cs:
                left = [ends[i] - clk(i, c) for i in cs]
                if t is None:
                    out.append(('waits for the deadlines', z3.BoolVal(False)))
                else:
                    out += [('waits no longer than the deadline', z(t) <= z3.If(v > 0, v, bvv(0, W)) + 10 ** 6 + z3.LShR(z3.If(v > 0, v, bvv(0, W)), 40)) for v in left]
        if why:
            out.append(('may wait', z3.And([B(True), *[z3.BoolVal(s[1] is None) if why == 'blocked' else B(True) for s in subs if s[0] != 'C']])))
            if why == 'blocked':
                out.append(('no clock to wait for', B(not cs)))
            return out
        if kind != 'ret':
            return out + [('returns', z3.BoolVal(False))]
        due = []
        for i, s in enumerate(subs):
            if s[0] == 'C':
                due.append(clk(i, c1) >= ends[i])
            else:
                due.append(z3.BoolVal(False) if s[1] is None else z(s[1]) <= z(el))
        out += [('errno', tt(no, 32) == 0), ('something happened', z3.Or(due))]
        # events: those due, each once, in any order
        alts = []
        typ = {'C': 0, 'R': 1, 'W': 2}
        for k in range(1, n + 1):
            for order in itertools.permutations(range(n), k):
                c = [tt(count, 32) == k, *[due[i] if i in order else z3.Not(due[i]) for i in range(n)]]
                for (u, er, ty, fl), i in zip(evs, order):
                    c += [tt(u, 64) == x.t(f'u{i}'), tt(er, 16) == 0, tt(ty, 8) == typ[subs[i][0]]]
                    if subs[i][0] != 'C':
                        c.append(z3.ULE(tt(fl, 16), 1))
                alts.append(z3.And(c))
        out.append(('events', z3.Or(alts)))
        out.append(('does not wait past what is ready', z3.And([B(True), *[z3.Or(z(s[1]) >= z(el), z(el) == 0) for s in subs if s[0] != 'C' and s[1] is not None]])))
        j = z3.ZeroExt(48, x.t('j'))
        mine = z3.Or(z3.And(z3.UGE(j, OUT), z3.ULT(j, OUT + 32 * n)), z3.And(z3.UGE(j, NOUT), z3.ULT(j, NOUT + 4)))
        return out + [('other memory', z3.Or(mine, tt(a, 8) == tt(b, 8))), ('memory size', tt(size, 64) == MEM)]
    b = 64 if wide else 20
    ins = {**{k: b for k in CLK}}
    for k in range(2):
        ins.update({f'r{k}': 61 if wide else 21, f'nv{k}': 1})
        if apart:
            ins.update({f's{k}': 21, f'nw{k}': 1})
    if not wide:
        for k in range(WAITS):
            ins.update({f'e{k}': 10, f'dr{k}': 12, f'cp{k}': 20})
    for i, kd in enumerate(kinds):
        ins[f'u{i}'] = 64
        ins.update({'C': {f'id{i}': 32, f't{i}': 64, f'fl{i}': 16}, 'X': {f'x{i}': 2, f'tag{i}': 8, f'id{i}': 32, f'w{i}': 1}}.get(kd, {f't{i}': 21} if kd in CLOCK else {f'fd{i}': 2}))
    return case(f'poll_oneoff.{kinds or "none"}' + ('.pipe' if pipe else ''), ins, run, check)


def cases(tier):
    full = tier != 'quick'
    out = [clock_case('clock_time_get'), clock_case('clock_res_get')]
    out += [times_case('fd_filestat_set_times', n) for n in ('f', 'd')] + [times_case('path_filestat_set_times', n) for n in ('f', 'd', 'l', 'none', 'd/f')]
    out += [times_case('fd_filestat_set_times', n, True) for n in ('f', 'd')]
    out += [setflags_case('file'), setflags_case('file', True)]
    out += [open_case(n) for n in ('f', 'd', 'n', 'l')]
    kinds = ['', 'C', 'A', 'a', 'r', 'm', 'p', 'R', 'W', 'X', 'Am', 'mm', 'ra', 'mR', 'Rm', 'aW', 'pR', 'RW', 'RR', 'WW', 'CX', 'XR', 'mX']
    if full:
        kinds += ['q', 't', 'mRW', 'aar', 'RRW', 'WmR', 'pW', 'RmX', 'CR', 'tA']
    return out + [poll_case(k) for k in kinds] + [poll_case(k, True) for k in ('R', 'Rm', 'RR')]
