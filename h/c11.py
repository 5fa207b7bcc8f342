"""C11: LEB128 codec."""
import z3
from sx.harness import Case, eqv, eqbytes, tt
from sx.core import bvv, zext, sext, SBytes

ASSUMPTIONS = ['byte strings up to 19 bytes (133 value bits), integers up to 130 bits (thorough: 37 bytes, 257 bits)']
F = z3.BoolVal(False)


def value(bs, signed, w):
    """Value of the LEB128 bytes bs (BV8 terms), w bits wide."""
    t = z3.Concat(*[z3.Extract(6, 0, b) for b in reversed(bs)]) if len(bs) > 1 else z3.Extract(6, 0, bs[0])
    return sext(t, w) if signed else zext(t, w)


def exact(o, term, signed):
    return eqv(o, term, signed)


def codec(x, signed):
    return x.pw.leb128.i if signed else x.pw.leb128.u


def byte(x, n, k):
    return z3.Extract(8 * k + 7, 8 * k, x.t(n))


def reader_case(n, signed):
    """decode_reader over every n-byte input: value and count up to the first terminator, failure without one."""
    inputs = {'b': 8 * n} if n else {'dummy': 1}

    def run(x):
        r = x.reader(x.bytes('b', False)) if n else x.reader(b'')
        out = x.attempt(codec(x, signed).decode_reader, r)
        return (out[0], out[1][0], out[1][1], r.tell()) if out[0] == 'ret' else out

    def check(x, obs):
        bs = [byte(x, 'b', k) for k in range(n)]
        w = 7 * n + 1
        cont = [z3.Extract(7, 7, b) == 1 for b in bs]
        if obs[0] == 'trap':
            return [('fails only when no byte terminates', z3.And(cont + [z3.BoolVal(True)]))]
        out = [('fails when the input ends early', z3.Not(z3.And(cont))) if n else ('fails on no input', F)]
        for k in range(n):
            here = z3.And([cont[j] for j in range(k)] + [z3.Not(cont[k])])
            out.append((f'{k + 1} bytes: value', z3.Implies(here, exact(obs[1], value(bs[:k + 1], signed, w), signed))))
            out.append((f'{k + 1} bytes: count', z3.Implies(here, z3.And(eqv(obs[2], bvv(k + 1, 16)),
                                                                        eqv(obs[3], bvv(k + 1, 16))))))
        return out
    return Case(f'{"i" if signed else "u"}.decode_reader.{n}', inputs, run, check,
                expect=('ret', 'trap') if n else ('trap',), bounds='decode_reader: every byte string of the listed lengths')


def decode_case(n, signed):
    def run(x):
        for k in range(n - 1):
            x.assume(z3.Extract(7, 7, byte(x, 'b', k)) == 1)
        x.assume(z3.Extract(7, 7, byte(x, 'b', n - 1)) == 0)
        b = x.bytes('b')
        out = x.attempt(codec(x, signed).decode, b)
        return out + (b,)

    def check(x, obs):
        if obs[0] != 'ret':
            return [('decodes', F)]
        bs = [byte(x, 'b', k) for k in range(n)]
        return [('value', exact(obs[1], value(bs, signed, 7 * n + 1), signed)), ('the input is not modified', eqbytes(obs[2], bs))]
    return Case(f'{"i" if signed else "u"}.decode.{n}', {'b': 8 * n}, run, check,
                bounds='decode: every well-formed byte string of the listed lengths')


def encode_case(w, signed):
    """Encode every w-bit integer: shortest form, and decodes (by the specification and by the code) to itself."""
    def run(x):
        v = x.i('v') if signed else x.u('v')
        out = x.attempt(codec(x, signed).encode, v)
        if out[0] != 'ret':
            return out
        b = out[1]
        n = x.length(b)
        back = codec(x, signed).decode(b)
        r = x.reader(bytes(b) if not isinstance(b, SBytes) else b)
        rr = codec(x, signed).decode_reader(r)
        return 'ret', b, n, back, rr

    def check(x, obs):
        if obs[0] != 'ret':
            return [('encodes', F)]
        n = obs[2]
        if not isinstance(n, int) or n < 1:
            return [('length', F)]
        v = x.t('v')
        bs = [tt(obs[1][k], 8) for k in range(n)]
        W = max(7 * n, w) + 1
        wide = sext(v, W) if signed else zext(v, W)
        out = [('continuation bits', z3.And([z3.Extract(7, 7, b) == (1 if k < n - 1 else 0) for k, b in enumerate(bs)])),
               ('encodes the value', value(bs, signed, W) == wide)]
        # shortest: the value does not fit in n-1 groups
        if n > 1:
            m = 7 * (n - 1)
            if signed:
                fits = wide == sext(z3.Extract(m - 1, 0, wide), W)
            else:
                fits = wide == zext(z3.Extract(m - 1, 0, wide), W)
            out.append(('shortest', z3.Not(fits)))
        out.append(('decode(encode(v)) == v', eqv(obs[3], v, signed)))
        out.append(('decode_reader(encode(v)) == v', z3.And(eqv(obs[4][0], v, signed), eqv(obs[4][1], bvv(n, 16)))))
        return out
    return Case(f'{"i" if signed else "u"}.encode.{w}', {'v': w}, run, check, bounds='encode: every integer of the listed widths')


def neg_case():
    def run(x):
        x.assume(z3.Extract(63, 63, x.t('v')) == 1)
        return x.attempt(x.pw.leb128.u.encode, x.i('v'))

    def check(x, obs):
        return [('negative integers have no unsigned encoding', z3.BoolVal(obs[0] == 'trap'))]
    return Case('u.encode.negative', {'v': 64}, run, check, expect=('trap',), bounds='u.encode refuses negative integers')


def cases(tier):
    out = [neg_case()]
    for s in (False, True):
        out += [reader_case(n, s) for n in (list(range(13)) + [16, 19] if tier == 'quick' else list(range(38)))]
        out += [decode_case(n, s) for n in (list(range(1, 13)) + [16, 19] if tier == 'quick' else list(range(1, 38)))]
        out += [encode_case(w, s) for w in ((8, 32, 33, 64, 65, 100, 130) if tier == 'quick' else
                                            (7, 8, 14, 32, 33, 64, 65, 100, 130, 200, 257))]
    return out
