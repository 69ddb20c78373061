"""Exact real/complex constants: sums  q * pi^a * monomial * e(phase),  e(x) = exp(2*pi*i*x), phase a Laurent
polynomial in the symbols taken modulo 1. This is where cos/sin of 2*pi*(polynomial)/(monomial) live exactly."""
from fractions import Fraction
from math import gcd, pi
import cmath, struct
from poly import *


TRACK = False


class NotExact(Exception):
    pass


def phase_norm(ph):
    """phase: Laurent poly -> canonical (drop integer-valued monomials, constants mod 1)"""
    out = {}
    for m, c in terms(ph).items():
        if all(e >= 0 for _, e in m):
            c = Fraction(c)
            c = c - (c.numerator // c.denominator)
        if c != 0:
            out[m] = Fraction(c)
    return tuple(sorted(out.items()))


class Real:
    """terms: {(piexp, mono, phase_key): Fraction}; taint: set of strings ('f32' = passed through rounded f32)"""
    __slots__ = ('t', 'taint', 'approx', 'err')

    def __init__(self, t, taint=frozenset(), approx=None, err=0.0):
        self.err = err            # bound on the accumulated rounding error in units of 2^-53 (only with TRACK)
        self.t = {k: v for k, v in t.items() if v != 0}
        self.taint = taint
        self.approx = approx      # plain float when not exactly representable in the ring

    def __repr__(self):
        if self.approx is not None:
            return '~%r' % self.approx
        return ' + '.join('%s%s%s%s' % (c, '*pi^%d' % k[0] if k[0] else '', '*' + mstr(k[1]) if k[1] else '',
                                        '*e(%s)' % pstr(mk(dict(k[2]))) if k[2] else '') for k, c in self.t.items()) or '0'


def rconst(c, taint=frozenset()):
    return Real({(0, (), ()): Fraction(c)} if c else {}, taint)


ZERO = rconst(0)
ONE = rconst(1)


def rpoly(p):
    return Real({(0, m, ()): Fraction(c) for m, c in terms(p).items()})


RPI = Real({(1, (), ()): Fraction(1)})


def _ap(a, b):
    return a.approx is not None or b.approx is not None


def mag(a):
    return abs(rnum(a)) if constant(a) else 0.0


def rounded(r, err):
    """r with the error of its operands plus its own rounding (none for exactly representable results of exact operands)"""
    c = is_real_const(r)
    if not (c is not None and c.denominator & (c.denominator - 1) == 0 and abs(c.numerator) < 1 << 53):
        err += mag(r)
    r.err = err
    return r


def radd(a, b):
    if TRACK:
        return rounded(_radd(a, b), a.err + b.err)
    return _radd(a, b)


def rmul(a, b):
    if TRACK:
        return rounded(_rmul(a, b), (a.err * mag(b) if a.err else 0.0) + (b.err * mag(a) if b.err else 0.0))
    return _rmul(a, b)


def rdiv(a, b):
    if TRACK:
        m = mag(b)
        return rounded(_rdiv(a, b), (a.err + b.err * (mag(a) / m if m else 0)) / m if m else 0.0)
    return _rdiv(a, b)


def _radd(a, b):
    tn = a.taint | b.taint
    if _ap(a, b):
        return Real({}, tn, rnum(a) + rnum(b))
    t = dict(a.t)
    for k, c in b.t.items():
        t[k] = t.get(k, 0) + c
    return small(Real(t, tn))


def small(r):
    """long sums of constant terms are kept as their value"""
    if len(r.t) > 24 and constant(r):
        return Real({}, r.taint, rnum(r).real)
    return r


def rneg(a):
    if a.approx is not None:
        return Real({}, a.taint, -a.approx, a.err)
    return Real({k: -c for k, c in a.t.items()}, a.taint, None, a.err)


def rsub(a, b):
    return radd(a, rneg(b))


def _rmul(a, b):
    tn = a.taint | b.taint
    if _ap(a, b):
        return Real({}, tn, rnum(a) * rnum(b))
    t = {}
    for (p1, m1, f1), c1 in a.t.items():
        for (p2, m2, f2), c2 in b.t.items():
            if f1 and f2:
                d = dict(f1)
                for m, c in f2:
                    d[m] = d.get(m, 0) + c
                f = phase_norm(mk(d))
            else:
                f = f1 or f2
            k = (p1 + p2, mmul(m1, m2), f)
            t[k] = t.get(k, 0) + c1 * c2
    return small(Real(t, tn))


def _rdiv(a, b):
    tn = a.taint | b.taint
    if _ap(a, b):
        return Real({}, tn, rnum(a) / rnum(b) if rnum(b) != 0 else float('nan'))
    if not b.t:
        return Real({}, tn, float('nan'))
    if len(b.t) == 1:
        (p, m, f), c = next(iter(b.t.items()))
        inv = Real({(-p, tuple((s, -e) for s, e in m), phase_norm(mk({x: -y for x, y in f}))): 1 / Fraction(c)}, b.taint)
        return _rmul(a, inv)
    if all(not k[1] and not [1 for m, _ in k[2] if m] for x in (a, b) for k in x.t):
        return Real({}, tn, rnum(a) / rnum(b))
    raise NotExact('division by a sum')


def is_real_const(a):
    """plain rational constant value or None"""
    if a.approx is not None:
        return None
    if not a.t:
        return Fraction(0)
    if len(a.t) == 1 and (0, (), ()) in a.t:
        return a.t[(0, (), ())]
    return None


def as_angle(a):
    """a = 2*pi*phi -> phi (Laurent poly) or None"""
    d = {}
    if a.approx is not None:
        return None
    for (p, m, f), c in a.t.items():
        if p != 1 or f:
            return None
        d[m] = d.get(m, 0) + Fraction(c) / 2
    return mk(d)


def e(ph):
    return Real({(0, (), phase_norm(ph)): Fraction(1)})


HALF = Fraction(1, 2)
Q = Fraction(1, 4)


def rscale(a, c):
    if a.approx is not None:
        return Real({}, a.taint, a.approx * float(c))
    return Real({k: v * c for k, v in a.t.items()}, a.taint)


def cos_phase(ph):
    return rscale(radd(e(ph), e(-ph if isinstance(ph, Poly) else -ph)), HALF)


def sin_phase(ph):
    return rscale(radd(e(padd(ph, -Q)), e(padd(pscale(ph, -1), Q))), HALF)


def rcos(a):
    ph = as_angle(a)
    if ph is None:
        return Real({}, a.taint, cmath.cos(rnum(a)).real if constant(a) else _ne('cos'), a.err + 1)
    r = cos_phase(ph)
    return Real(r.t, a.taint, None, a.err + 1)


def rsin(a):
    ph = as_angle(a)
    if ph is None:
        return Real({}, a.taint, cmath.sin(rnum(a)).real if constant(a) else _ne('sin'), a.err + 1)
    r = sin_phase(ph)
    return Real(r.t, a.taint, None, a.err + 1)


def _ne(w):
    raise NotExact(w)


def constant(a):
    return a.approx is not None or all(not k[1] and all(not m for m, _ in k[2]) for k in a.t)


def rsqrt(a):
    r = _rsqrt(a)
    if TRACK:
        m = mag(r)
        rounded(r, a.err / (2 * m) if m else 0.0)
    return r


def _rsqrt(a):
    c = is_real_const(a)
    if c is None:
        if constant(a):
            return Real({}, a.taint, rnum(a).real ** 0.5)
        raise NotExact('sqrt')
    # sqrt(n/d) = sqrt(n*d)/d ; sqrt of 1,2,3,5 and squares times them
    n = c.numerator * c.denominator
    k = 1
    for f in range(int(n ** 0.5), 0, -1):
        if n % (f * f) == 0:
            k = f
            break
    m = n // (k * k)
    base = {1: ONE, 2: rscale(cos_phase(Fraction(1, 8)), 2), 3: rscale(cos_phase(Fraction(1, 12)), 2),
            5: radd(rscale(cos_phase(Fraction(1, 5)), 4), ONE) if m == 5 else None}.get(m)
    if base is None:
        if m == 6:
            base = rmul(rscale(cos_phase(Fraction(1, 8)), 2), rscale(cos_phase(Fraction(1, 12)), 2))
        else:
            return Real({}, a.taint, float(c) ** 0.5)
    if n == 0:
        return ZERO
    return Real(rscale(base, Fraction(k, c.denominator)).t, a.taint)


def rnum(a, env=None):
    if a.approx is not None:
        return complex(a.approx)
    env = env or {}
    tot = 0j
    for (p, m, f), c in a.t.items():
        v = complex(float(c)) * pi ** p
        if m:
            v *= float(peval(Poly({m: 1}), env))
        if f:
            ph = peval(mk(dict(f)), env) if any(x for x, _ in f) else f[0][1]
            ph = Fraction(ph)
            ph -= ph.numerator // ph.denominator
            v *= cmath.exp(2j * pi * float(ph))
        tot += v
    return tot


def rsubst(a, fn):
    """apply fn (poly -> poly) to the phases and monomials"""
    if a.approx is not None:
        return a
    t = {}
    ch = False
    for (p, m, f), c in a.t.items():
        pm = fn(Poly({m: 1})) if m else 1
        ph = mk(dict(f))
        f2 = phase_norm(fn(ph)) if isinstance(ph, Poly) else f
        for m2, c2 in terms(pm).items():
            k = (p, m2, f2)
            t[k] = t.get(k, 0) + c * c2
    return Real(t, a.taint, None, a.err)


_cyc = {}


def cyclotomic(n):
    if n in _cyc:
        return _cyc[n]
    # x^n - 1 divided by all proper ones
    num_ = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            den = cyclotomic(d)
            out = [0] * (len(num_) - len(den) + 1)
            r = num_[:]
            for i in range(len(out) - 1, -1, -1):
                q = r[i + len(den) - 1] // den[-1]
                out[i] = q
                for j, c in enumerate(den):
                    r[i + j] -= q * c
            num_ = out
    _cyc[n] = num_
    return num_


def is_zero(a):
    """exact zero test: True / False(None when approximate)"""
    if a.approx is not None:
        return None
    groups = {}
    for (p, m, f), c in a.t.items():
        const = Fraction(0)
        rest = []
        for x, y in f:
            if x == ():
                const = y
            else:
                rest.append((x, y))
        groups.setdefault((p, m, tuple(rest)), []).append((const, c))
    for g, lst in groups.items():
        n = 1
        for q, _ in lst:
            n = n * q.denominator // gcd(n, q.denominator)
        if n > 5000:
            return None
        poly = [Fraction(0)] * n
        for q, c in lst:
            poly[int(q * n) % n] += c
        phi = cyclotomic(n)
        d = len(phi) - 1
        for i in range(n - 1, d - 1, -1):
            if poly[i]:
                c = poly[i]
                for j, y in enumerate(phi):
                    poly[i - d + j] -= c * y
        if any(poly):
            return False
    return True


KNOWN = {}


def _known():
    import math
    for name, r in {
        'PI': RPI, 'TAU': rscale(RPI, 2), 'FRAC_PI_2': rscale(RPI, Fraction(1, 2)), 'FRAC_PI_3': rscale(RPI, Fraction(1, 3)),
        'FRAC_PI_4': rscale(RPI, Fraction(1, 4)), 'FRAC_PI_6': rscale(RPI, Fraction(1, 6)), 'FRAC_PI_8': rscale(RPI, Fraction(1, 8)),
        'SQRT_2': rsqrt(rconst(2)), 'FRAC_1_SQRT_2': rsqrt(rconst(Fraction(1, 2)))}.items():
        r.err = mag(r)
        KNOWN[struct.unpack('<Q', struct.pack('<d', rnum(r).real))[0]] = r
    KNOWN[0x3fe6a09e667f3bcd] = rsqrt(rconst(Fraction(1, 2)))
    KNOWN[0x3ff6a09e667f3bcd] = rsqrt(rconst(2))


_known()


def from_f64_bits(b):
    if b in KNOWN:
        return KNOWN[b]
    if b ^ (1 << 63) in KNOWN:
        return rneg(KNOWN[b ^ (1 << 63)])
    v = struct.unpack('<d', struct.pack('<Q', b))[0]
    if v != v or v in (float('inf'), float('-inf')):
        return Real({}, frozenset(), v)
    f = Fraction(v)
    if f.denominator <= 1 << 20:
        return rconst(f)
    for d in (3, 5, 6, 7, 9, 10, 12, 15, 100, 1000):
        if float(Fraction(round(f * d), d)) == v:
            return rconst(Fraction(round(f * d), d))
    return Real({}, frozenset(), v)


def from_f32_bits(b):
    v = struct.unpack('<f', struct.pack('<I', b))[0]
    if v != v or v in (float('inf'), float('-inf')):
        return Real({}, frozenset(), v)
    f = Fraction(v)
    if f.denominator <= 1 << 12:
        return rconst(f)
    # a rounded single-precision literal
    for r in KNOWN.values():
        if struct.unpack('<f', struct.pack('<f', rnum(r).real))[0] == v:
            return Real(r.t, frozenset(['f32']), r.approx)
    return Real({}, frozenset(['f32']), v)


def f32_exact(a):
    """is the value exactly representable in f32 (so that passing through f32 loses nothing)?"""
    c = is_real_const(a)
    if c is None:
        return False
    if c == 0:
        return True
    d = c.denominator
    return d & (d - 1) == 0 and abs(c.numerator) < (1 << 24) and d < (1 << 100)
