"""Integer-valued polynomials over named symbols (every symbol is a non-negative integer unless it is a
structural `div` symbol, which is floor(a/b) of two polynomials and therefore a non-negative integer too)."""
from fractions import Fraction
from math import gcd

SYMS = {}          # name -> Sym


class Sym:
    __slots__ = ('name', 'level', 'div', 'key')

    def __init__(self, name, level=0, div=None):
        self.name, self.level, self.div = name, level, div
        self.key = name

    def __repr__(self):
        return self.name


def sym(name, level=0):
    s = SYMS.get(name)
    if s is None:
        s = SYMS[name] = Sym(name, level)
    else:
        s.level = level
    return Poly({((name, 1),): 1})


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def syms(self):
        return {s for m in self.t for s, _ in m}

    def __repr__(self):
        return pstr(self)

    def __add__(self, o): return padd(self, o)
    __radd__ = __add__
    def __sub__(self, o): return padd(self, pscale(o, -1))
    def __rsub__(self, o): return padd(o, pscale(self, -1))
    def __mul__(self, o): return pmul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return pscale(self, -1)


def num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def mk(t):
    t = {m: num(c) for m, c in t.items() if c != 0}
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def terms(p):
    if isinstance(p, Poly):
        return p.t
    return {(): p} if p != 0 else {}


def is_const(p):
    return not isinstance(p, Poly)


def padd(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return num(a + b)
    t = dict(terms(a))
    for m, c in terms(b).items():
        t[m] = t.get(m, 0) + c
    return mk(t)


def pscale(a, c):
    if not isinstance(a, Poly):
        return num(a * c)
    if c == 0:
        return 0
    return Poly({m: num(x * c) for m, x in a.t.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for s, e in m2:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e))


def pmul(a, b):
    if not isinstance(a, Poly):
        return pscale(b, a)
    if not isinstance(b, Poly):
        return pscale(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return mk(t)


def ppow(a, n):
    r = 1
    for _ in range(n):
        r = pmul(r, a)
    return r


def mstr(m):
    return '*'.join(s if e == 1 else '%s^%d' % (s, e) for s, e in m)


def pstr(p):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
        if not m:
            s = str(c)
        elif c == 1:
            s = mstr(m)
        elif c == -1:
            s = '-' + mstr(m)
        else:
            s = '%s*%s' % (c, mstr(m))
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def psyms(p):
    return p.syms() if isinstance(p, Poly) else set()


def all_syms(p, acc=None):
    """symbols of p including those inside div symbols"""
    if acc is None:
        acc = set()
    for s in psyms(p):
        if s in acc:
            continue
        acc.add(s)
        d = SYMS[s].div
        if d:
            all_syms(d[0], acc)
            all_syms(d[1], acc)
    return acc


def plevel(p):
    return max((SYMS[s].level for s in psyms(p)), default=0)


def degree(p):
    return max((sum(e for _, e in m) for m in terms(p)), default=0)


def subst(p, env):
    """env: name -> poly. Div symbols are rebuilt when their arguments change."""
    if not isinstance(p, Poly) or not env:
        return p
    hit = False
    local = {}
    for s in p.syms():
        if s in env:
            v = env[s]
            local[s] = v
            hit = True
        else:
            d = SYMS[s].div
            if d:
                a2, b2 = subst(d[0], env), subst(d[1], env)
                if a2 != d[0] or b2 != d[1]:
                    local[s] = mkdiv(a2, b2)
                    hit = True
    if not hit:
        return p
    r = {}
    for m, c in p.t.items():
        keep = []
        val = c
        for s, e in m:
            if s in local:
                v = local[s]
                if e < 0:
                    if isinstance(v, Poly):
                        if len(v.t) == 1:
                            (vm, vc), = v.t.items()
                            v = Poly({tuple((x, y * e) for x, y in vm): Fraction(1) / (Fraction(vc) ** -e) if e < 0 else vc ** e})
                            val = pmul(val, v)
                        else:
                            raise ValueError('negative power of a sum')
                    else:
                        val = pmul(val, Fraction(1) / (Fraction(v) ** -e))
                else:
                    val = pmul(val, ppow(v, e))
            else:
                keep.append((s, e))
        for m2, c2 in terms(val).items():
            mm = mmul(tuple(keep), m2)
            r[mm] = r.get(mm, 0) + c2
    return mk(r)


def mkdiv(a, b):
    """floor(a/b) for a >= 0, b >= 1; exact when it can be read off"""
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a // b
    if b == 1:
        return a
    q = pdiv_exact(a, b)
    if q is not None and all(isinstance(c, int) for c in terms(q).values()):
        return q
    if isinstance(b, int):
        # split off the divisible part
        q, r = {}, {}
        for m, c in terms(a).items():
            if isinstance(c, int):
                qq = c // b
                if qq:
                    q[m] = qq
                if c - qq * b:
                    r[m] = c - qq * b
            else:
                r[m] = c
        q, r = mk(q), mk(r)
        if not isinstance(r, Poly):
            return padd(q, r // b) if isinstance(r, int) else _divsym(a, b)
        return padd(q, _divsym(r, b))
    return _divsym(a, b)


def _divsym(a, b):
    name = 'div(%s,%s)' % (pstr(a), pstr(b))
    s = SYMS.get(name)
    if s is None:
        s = SYMS[name] = Sym(name, max(plevel(a), plevel(b)), (a, b))
    else:
        s.level = max(plevel(a), plevel(b))
    return Poly({((name, 1),): 1})


def mdivides(m, d):
    """monomial m / monomial d or None"""
    x = dict(m)
    for s, e in d:
        if x.get(s, 0) < e:
            return None
        x[s] -= e
    return tuple(sorted((s, e) for s, e in x.items() if e))


def pdiv_exact(a, b):
    """a / b if exact (polynomial quotient), else None. b may be any polynomial (multivariate long division)."""
    if not isinstance(b, Poly):
        if b == 0:
            return None
        return mk({m: Fraction(c) / b for m, c in terms(a).items()})
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        r = {}
        for m, c in terms(a).items():
            q = mdivides(m, bm)
            if q is None:
                return None
            r[q] = Fraction(c) / bc
        return mk(r)
    # long division by lex-leading term
    lead = max(b.t)
    lc = b.t[lead]
    q = {}
    rem = dict(terms(a))
    for _ in range(200):
        rem = {m: c for m, c in rem.items() if c}
        if not rem:
            return mk(q)
        best = None
        for m in rem:
            d = mdivides(m, lead)
            if d is not None and (best is None or m > best[0]):
                best = (m, d)
        if best is None:
            return None
        m, d = best
        c = Fraction(rem[m]) / lc
        q[d] = q.get(d, 0) + c
        for m2, c2 in b.t.items():
            mm = mmul(d, m2)
            rem[mm] = rem.get(mm, 0) - c * c2
    return None


def pcontent(p):
    """(gcd of coefficients, common monomial)"""
    t = terms(p)
    if not t:
        return 0, ()
    den = 1
    for c in t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in t.values():
        g = gcd(g, int(c * den))
    ms = list(t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {s: min(e, d.get(s, 0)) for s, e in common.items() if d.get(s, 0) > 0}
    return Fraction(g, den), tuple(sorted((s, e) for s, e in common.items() if e > 0))


def peval(p, env):
    """evaluate to a number; env: name -> int"""
    if not isinstance(p, Poly):
        return p
    tot = 0
    for m, c in p.t.items():
        v = c
        for s, e in m:
            x = env.get(s)
            if x is None:
                d = SYMS[s].div
                if d is None:
                    raise KeyError(s)
                x = peval(d[0], env) // peval(d[1], env)
            if e >= 0:
                v = v * x ** e
            else:
                v = Fraction(v) / (Fraction(x) ** -e)
        tot = tot + v
    return num(tot) if isinstance(tot, Fraction) else tot


def collect(p, s):
    """p as a polynomial in symbol s: dict power -> coefficient poly"""
    out = {}
    for m, c in terms(p).items():
        e = 0
        rest = []
        for x, y in m:
            if x == s:
                e = y
            else:
                rest.append((x, y))
        out.setdefault(e, {})
        mm = tuple(rest)
        out[e][mm] = out[e].get(mm, 0) + c
    return {e: mk(t) for e, t in out.items()}
