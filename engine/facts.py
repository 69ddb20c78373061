"""Conjunctions of polynomial constraints over non-negative integers and their entailment
(refutation by non-negative combinations of the constraints and of their low-degree products: a polyhedra-style
relational domain with exact certificates)."""
from fractions import Fraction
from math import gcd, floor
import numpy as np
from scipy.optimize import linprog
from poly import *

STATS = {'lp': 0, 'entail': 0}


class Cond:
    """('ge', p): p >= 0   ('eq', p): p == 0   ('ne', p): p != 0"""
    __slots__ = ('k', 'p')

    def __init__(self, k, p):
        self.k, self.p = k, p

    def neg(self):
        if self.k == 'ge':
            return Cond('ge', -self.p - 1)
        return Cond('ne' if self.k == 'eq' else 'eq', self.p)

    def subst(self, env):
        return Cond(self.k, subst(self.p, env))

    def level(self):
        return plevel(self.p)

    def key(self):
        return (self.k, self.p.key() if isinstance(self.p, Poly) else self.p)

    def holds(self, env):
        v = peval(self.p, env)
        return v >= 0 if self.k == 'ge' else (v == 0 if self.k == 'eq' else v != 0)

    def __repr__(self):
        return '%s %s 0' % (pstr(self.p), {'ge': '>=', 'eq': '==', 'ne': '!='}[self.k])


def ge(a, b): return Cond('ge', a - b)
def lt(a, b): return Cond('ge', b - a - 1)
def eq(a, b): return Cond('eq', a - b)
def ne(a, b): return Cond('ne', a - b)


def tighten(p):
    """p >= 0 over the integers: divide by the gcd of the coefficients of non-constant monomials and floor"""
    if not isinstance(p, Poly):
        return p
    t = p.t
    den = 1
    for c in t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in t.items():
        if m:
            g = gcd(g, int(c * den))
    if g == 1 and den == 1:
        return p
    return mk({m: (Fraction(c) * den / g if m else floor(Fraction(c) * den / g)) for m, c in t.items()})


_INTERN = {}


class Facts:
    """immutable; splits: name -> (m, r, name') meaning name = m*name' + r"""

    def __init__(self, conds=(), splits=None, parent=None):
        self.conds = tuple(conds)
        self.splits = splits or {}
        self.sub = None
        self.cache = {}
        self.kt = tuple(c.key() for c in self.conds)
        self.keys = set(self.kt)
        self.spk = tuple(sorted(self.splits.items()))
        self.parent = parent
        self._samples = None
        self._built = False
        self._build()
        self._built = True
        self.parent = parent

    def _value(self, p, e):
        env = e
        for s in all_syms(p):
            if s not in env and SYMS[s].div is None:
                # split symbols: name' = (name - r) / m
                for n, (m, r, n2) in self.splits.items():
                    if n2 == s and n in env:
                        if env is e:
                            env = dict(e)
                        env[s] = (env[n] - r) // m
                        break
                else:
                    return None
        try:
            return peval(p, env)
        except (KeyError, ZeroDivisionError):
            return None

    def samples(self):
        """a few integer points satisfying the facts (to reject non-entailed goals without a proof search)"""
        if self._samples is None:
            par = self.parent
            if par is None:
                try:
                    got = list(models(self, [], limit=8, maxv=4, budget=3000))
                except Exception:
                    got = []
                self._samples = got[:1] + got[-3:]
            else:
                out = []
                for e in par.samples():
                    e = self._repair(e)
                    if e is not None and e not in out:
                        out.append(e)
                self._samples = out
            self.parent = None
        return self._samples

    def _repair(self, e):
        """a point near e satisfying the facts, by changing few coordinates"""
        for c in self.conds:
            for s in all_syms(c.p):
                if SYMS[s].div is None and s not in e:
                    e = dict(e)
                    e[s] = 1
        tries = 0
        for _ in range(6):
            bad = self._first_bad(e)
            if bad is None:
                return e
            best = None
            have = self._nbad(e)
            names = sorted((s for s in all_syms(bad.p) if SYMS[s].div is None), key=lambda s: (-SYMS[s].level, s))
            for s in names:
                old = e[s]
                step = self.splits[s][0] if s in self.splits else 1
                for v in (old + step, old - step, 0, 1, old + 2 * step, old - 2 * step, old + 4 * step, 2 * old + 1):
                    if v < 0 or v == old:
                        continue
                    tries += 1
                    if tries > 60:
                        return None
                    e2 = dict(e)
                    e2[s] = v
                    try:
                        if not bad.holds(e2):
                            continue
                    except (KeyError, ZeroDivisionError):
                        continue
                    nb = self._nbad(e2)
                    if best is None or nb < best[0]:
                        best = (nb, e2)
                    if nb == 0:
                        return e2
            if best is None or best[0] > have:
                return None
            e = best[1]
        return None

    def _first_bad(self, e):
        for c in self.conds:
            try:
                if not c.holds(e):
                    return c
            except (KeyError, ZeroDivisionError):
                return c
        for n, (m, r, n2) in self.splits.items():
            if n in e and (e[n] - r) % m:
                return eq(sym(n, SYMS[n].level), r + m * ((e[n] - r) // m + 1))
            if n in e and n2 in e and e[n] != r + m * e[n2]:
                return eq(sym(n2, SYMS[n].level), (e[n] - r) // m)
        return None

    def _nbad(self, e):
        n = 0
        for c in self.conds:
            try:
                n += not c.holds(e)
            except (KeyError, ZeroDivisionError):
                n += 1
        for s, (m, r, n2) in self.splits.items():
            if s in e and ((e[s] - r) % m or n2 in e and e[s] != r + m * e[n2]):
                n += 1
        return n

    def _sat(self, e):
        try:
            for n, (m, r, n2) in self.splits.items():
                if n in e and ((e[n] - r) % m or n2 in e and e[n] != r + m * e[n2]):
                    return False
            return all(c.holds(e) for c in self.conds)
        except (KeyError, ZeroDivisionError):
            return False

    def add(self, *cs):
        have = self.keys
        new = []
        for c in cs:
            if c is not None and c.key() not in have and all(c.key() != d.key() for d in new):
                new.append(c)
        if not new:
            return self
        k = (self.kt + tuple(c.key() for c in new), self.spk)
        f = _INTERN.get(k)
        if f is None:
            if len(_INTERN) > 60000:
                _INTERN.clear()
            f = _INTERN[k] = Facts(self.conds + tuple(new), self.splits, self)
        return f

    def splitenv(self):
        env = {}
        for n, (m, r, n2) in self.splits.items():
            env[n] = m * sym(n2, SYMS[n].level) + r
        return env

    def _build(self):
        self.senv = self.splitenv()
        ges, eqs, nes = [], [], []
        for c in self.conds:
            p = c.p
            for _ in range(4):
                p2 = subst(p, self.senv)
                if p2 == p:
                    break
                p = p2
            (ges if c.k == 'ge' else eqs if c.k == 'eq' else nes).append(p)
        self.infeasible = False
        sub = {}
        # oriented equalities
        pend = list(eqs)
        guard = 0
        while pend and guard < 200:
            guard += 1
            p = self._ap(pend.pop(0), sub)
            if not isinstance(p, Poly):
                if p != 0:
                    self.infeasible = True
                continue
            g, cm = pcontent(p)
            p = mk({m: Fraction(c) / g for m, c in p.t.items()})
            # factor out a common monomial of positive symbols
            best = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    s = m[0][0]
                    if sum(1 for mm in p.t if any(x == s for x, _ in mm)) == 1 and SYMS[s].div is None:
                        k = (SYMS[s].level, len(s), s)
                        if best is None or k > best[0]:
                            best = (k, s, c)
            if best is None:
                if all(isinstance(c, int) for c in p.t.values()):
                    gg = 0
                    for m, c in p.t.items():
                        if m:
                            gg = gcd(gg, c)
                    if gg > 1 and p.t.get((), 0) % gg:
                        self.infeasible = True
                ges.append(p)
                ges.append(-p)
                continue
            _, s, c = best
            expr = pscale(padd(p, pscale(Poly({((s, 1),): 1}), -c)), -Fraction(1) / c)
            for k in list(sub):
                sub[k] = subst(sub[k], {s: expr})
            sub[s] = expr
            if not any(self._is_nonneg_syntactic(expr) for _ in [0]):
                ges.append(expr)
        self.sub = sub
        self.nes = []
        out, seen = [], set()
        for p in ges:
            p = tighten(self.norm(p))
            if not isinstance(p, Poly):
                if p < 0:
                    self.infeasible = True
                continue
            if p not in seen:
                seen.add(p)
                out.append(p)
        self.ges = out
        self.nes = [self.norm(p) for p in nes]
        for p in self.nes:
            if p == 0:
                self.infeasible = True
        self._div_facts()
        self._content()
        # use disequalities
        changed = True
        rounds = 0
        self.cache = {}
        while changed and rounds < 3 and not self.infeasible:
            changed = False
            rounds += 1
            for p in list(self.nes):
                if not isinstance(p, Poly):
                    continue
                if any(q == p - 1 or q == -p - 1 for q in self.ges):
                    continue
                if self.ent(p):
                    self.ges.append(tighten(p - 1)); changed = True
                elif self.ent(-p):
                    self.ges.append(tighten(-p - 1)); changed = True
            if changed:
                self.cache = {}
                self._content()

    @staticmethod
    def _is_nonneg_syntactic(p):
        return all(c >= 0 for c in terms(p).values())

    def _ap(self, p, sub):
        for _ in range(6):
            q = subst(p, self.senv)
            q = subst(q, sub)
            if q == p:
                return p
            p = q
        return p

    def norm(self, p):
        if not isinstance(p, Poly):
            return p
        return self._ap(p, self.sub or {})

    def _div_facts(self):
        seen = set()
        todo = set()
        for p in self.ges + self.nes:
            todo |= psyms(p)
        self._divdone = set()
        self._add_divs(todo)

    def _add_divs(self, names):
        extra = []
        todo = list(names)
        while todo:
            s = todo.pop()
            d = SYMS[s].div
            if d is None or s in self._divdone:
                continue
            self._divdone.add(s)
            a, b = self.norm(d[0]), self.norm(d[1])
            q = self.norm(Poly({((s, 1),): 1}))
            for f in (a - b * q, b - 1 - (a - b * q)):
                f = tighten(f)
                if isinstance(f, Poly):
                    extra.append(f)
                    todo += list(psyms(f))
        for f in extra:
            if f not in self.ges:
                self.ges.append(f)
        return bool(extra)

    def _content(self):
        """g*h >= 0 with h > 0 known gives g >= 0"""
        pos = None
        new = []
        for p in self.ges:
            g, cm = pcontent(p)
            if cm:
                q = p
                for s, e in cm:
                    if self._symbol_pos(s):
                        q = pdiv_exact(q, Poly({((s, e),): 1}))
                if q != p and isinstance(q, Poly):
                    new.append(tighten(q))
                elif not isinstance(q, Poly) and q < 0:
                    self.infeasible = True
        # h*g >= c with h >= 0 and c > 0 gives g >= 1 (and h >= 1)
        for p in self.ges:
            c = p.t.get((), 0)
            if c < 0 and len(p.t) > 1:
                r = mk({m: x for m, x in p.t.items() if m})
                g, cm = pcontent(r)
                if cm and len(r.t) > 1:
                    q = pdiv_exact(r, Poly({cm: g})) if isinstance(cm, tuple) else None
                    if isinstance(q, Poly) and all(Fraction(x).denominator == 1 for x in q.t.values()):
                        new.append(tighten(q - 1))
        for q in new:
            if q not in self.ges:
                self.ges.append(q)

    def _symbol_pos(self, s):
        for p in self.ges:
            # s - c >= 0, c >= 1
            if len(p.t) == 2 and p.t.get(((s, 1),)) == 1 and p.t.get((), 0) <= -1:
                return True
        return False

    # ---- entailment -------------------------------------------------
    def ent(self, p):
        """p >= 0 ?"""
        STATS['entail'] += 1
        if self.infeasible:
            return True
        p = self.norm(p)
        if not isinstance(p, Poly):
            return p >= 0
        p = tighten(p)
        if not isinstance(p, Poly):
            return p >= 0
        k = p.key()
        r = self.cache.get(k)
        if r is None:
            r = self._ent(p)
            self.cache[k] = r
        return r

    def _ent(self, p):
        if self._is_nonneg_syntactic(p):
            return True
        for f in self.ges:
            d = p - f
            if self._is_nonneg_syntactic(d):
                return True
        ss = psyms(p)
        if any(SYMS[s].div is not None and s not in self._divdone for s in ss):
            self._add_divs(ss)
        goal = tighten(-p - 1)
        if not isinstance(goal, Poly):
            return goal < 0
        if self.sub is not None and self._built:
            for e in self.samples():
                v = self._value(p, e)
                if v is not None and v < 0:
                    return False
        # quick unsatisfiability probe: a small model of the facts that falsifies p
        return self._refute(goal)

    def _refute(self, goal):
        facts = list(self.ges)
        # relevance: keep facts connected with the goal
        rel = set(psyms(goal))
        chosen = []
        rest = facts
        for _ in range(6):
            nxt = []
            grew = False
            for f in rest:
                if psyms(f) & rel:
                    chosen.append(f)
                    if not psyms(f) <= rel:
                        rel |= psyms(f)
                        grew = True
                else:
                    nxt.append(f)
            rest = nxt
            if not grew:
                break
        facts = chosen + [goal]
        nonneg = [Poly({((s, 1),): 1}) for s in sorted(rel)]
        base = facts + nonneg
        if self._lp(base):
            return True
        deg = max(degree(f) for f in facts)
        nl = set()
        for f in facts:
            for m in f.t:
                if sum(e for _, e in m) > 1:
                    nl |= {s for s, _ in m}
        if not nl:
            return False
        prods = []
        for f in facts:
            for s in sorted(nl):
                q = f * Poly({((s, 1),): 1})
                if isinstance(q, Poly) and degree(q) <= max(deg, 2):
                    prods.append(q)
        if self._lp(base + prods):
            return True
        more = []
        lin = [f for f in facts if degree(f) == 1]
        if len(lin) <= 40:
            for i, f in enumerate(lin):
                for g in lin[i:]:
                    if psyms(f) & nl and psyms(g) & nl:
                        q = f * g
                        if isinstance(q, Poly):
                            more.append(q)
        if len(more) <= 600 and more and self._lp(base + prods + more):
            return True
        if deg >= 2:
            p3 = []
            syms_ = [Poly({((s, 1),): 1}) for s in sorted(nl)]
            for q in prods:
                if degree(q) <= 2:
                    for s in syms_:
                        r = q * s
                        if isinstance(r, Poly) and degree(r) <= max(deg, 3):
                            p3.append(r)
            if len(p3) <= 1500 and p3:
                return self._lp(base + prods + p3)
        return False

    def _lp(self, fs):
        """is there lambda >= 0 with sum lambda*f == negative constant?"""
        STATS['lp'] += 1
        mons = {}
        for f in fs:
            for m in f.t:
                if m:
                    mons.setdefault(m, len(mons))
        # drop facts containing a monomial that cannot cancel
        while True:
            pos, neg = set(), set()
            for f in fs:
                for m, c in f.t.items():
                    if m:
                        (pos if c > 0 else neg).add(m)
            bad = {m for m in mons if not (m in pos and m in neg)}
            if not bad:
                break
            fs2 = [f for f in fs if not any(m in bad for m in f.t)]
            mons = {}
            for f in fs2:
                for m in f.t:
                    if m:
                        mons.setdefault(m, len(mons))
            if len(fs2) == len(fs):
                break
            fs = fs2
        if not fs:
            return False
        if not any(f.t.get((), 0) < 0 for f in fs):
            return False
        n, r = len(fs), len(mons)
        A = np.zeros((r + 1, n))
        for j, f in enumerate(fs):
            for m, c in f.t.items():
                if m:
                    A[mons[m], j] = float(c)
                else:
                    A[r, j] = float(c)
        b = np.zeros(r + 1)
        b[r] = -1
        res = linprog(np.ones(n), A_eq=A, b_eq=b, bounds=(0, None), method='highs')
        if res.status != 0:
            return False
        x = res.x
        return _verify(fs, x)

    def decide(self, c):
        """True / False / None"""
        if c.k == 'ge':
            if self.ent(c.p):
                return True
            if self.ent(-c.p - 1):
                return False
            return None
        p = self.norm(c.p)
        want = c.k == 'eq'
        if not isinstance(p, Poly):
            return (p == 0) == want
        g, cm = pcontent(p)
        t = {m: Fraction(x) / g for m, x in p.t.items()}
        if all(Fraction(x).denominator == 1 for x in t.values()):
            gg = 0
            for m, x in t.items():
                if m:
                    gg = gcd(gg, int(x))
            if gg > 1 and int(t.get((), 0)) % gg:
                return not want
        if any(q == p or q == -p for q in self.nes):
            return not want
        if self.ent(p - 1) or self.ent(-p - 1):
            return not want
        if self.ent(p) and self.ent(-p):
            return want
        return None

    def feasible(self):
        if self.infeasible:
            return False
        # constant -1 >= 0 entailed?
        if '_feas' not in self.cache:
            self.cache['_feas'] = not self._refute_all()
        return self.cache['_feas']

    def _refute_all(self):
        fs = list(self.ges)
        if not fs:
            return False
        syms_ = set()
        for f in fs:
            syms_ |= psyms(f)
        nonneg = [Poly({((s, 1),): 1}) for s in sorted(syms_)]
        if self._lp(fs + nonneg):
            return True
        nl = set()
        for f in fs:
            for m in f.t:
                if sum(e for _, e in m) > 1:
                    nl |= {s for s, _ in m}
        if not nl:
            return False
        deg = max(degree(f) for f in fs)
        prods = []
        for f in fs:
            for s in sorted(nl):
                q = f * Poly({((s, 1),): 1})
                if degree(q) <= max(deg, 2):
                    prods.append(q)
        return self._lp(fs + nonneg + prods)


def _verify(fs, x):
    idx = [j for j in range(len(fs)) if x[j] > 1e-9]
    for den in (1, 12, 120, 5040):
        lam = {j: Fraction(float(x[j])).limit_denominator(den) for j in idx}
        tot = {}
        for j, l in lam.items():
            if l:
                for m, c in fs[j].t.items():
                    tot[m] = tot.get(m, 0) + l * c
        if all(v == 0 for m, v in tot.items() if m) and tot.get((), 0) < 0:
            return True
    # exact solve on the support by Gaussian elimination
    mons = sorted({m for j in idx for m in fs[j].t if m})
    rows = [[Fraction(fs[j].t.get(m, 0)) for j in idx] + [Fraction(0)] for m in mons]
    rows.append([Fraction(fs[j].t.get((), 0)) for j in idx] + [Fraction(-1)])
    n = len(idx)
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        d = rows[r][c]
        rows[r] = [v / d for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    if any(all(v == 0 for v in row[:-1]) and row[-1] != 0 for row in rows):
        return False
    sol = [Fraction(0)] * n
    free = [c for c in range(n) if c not in piv]
    for c in free:
        sol[c] = Fraction(float(x[idx[c]])).limit_denominator(1000)
    for i, c in enumerate(piv):
        sol[c] = rows[i][-1] - sum(rows[i][f] * sol[f] for f in free)
    return all(s >= 0 for s in sol)


# ---- small models -----------------------------------------------------
def models(facts, names, limit=50, maxv=9, want=None, budget=200000, prefer=None):
    """enumerate small integer assignments of `names` (and of every symbol they need) satisfying the facts"""
    conds = list(facts.conds)
    alln = set(names)
    for c in conds:
        alln |= {s for s in all_syms(c.p) if SYMS[s].div is None}
    if want is not None:
        for c in want:
            alln |= {s for s in all_syms(c.p) if SYMS[s].div is None}
    cs = conds + list(want or [])
    for n, (m, r, n2) in facts.splits.items():
        if n2 in alln:
            alln.add(n)
            cs.append(eq(sym(n2, SYMS[n2].level) * m + r, sym(n, SYMS[n].level)))
    order = sorted(alln, key=lambda s: (SYMS[s].level, s))
    # attach each condition to the last symbol it needs
    pos = {s: i for i, s in enumerate(order)}
    att = [[] for _ in order] + [[]]
    for c in cs:
        ns = [pos[s] for s in all_syms(c.p) if s in pos]
        if ns:
            att[max(ns)].append(c)
        else:
            att[-1].append(c)
    try:
        if any(not c.holds({}) for c in att[-1]):
            return
    except Exception:
        return
    count = [0, 0]
    env = {}
    mod = facts.splits

    def rec(i):
        if count[0] >= limit or count[1] > budget:
            return
        if i == len(order):
            count[0] += 1
            yield dict(env)
            return
        s = order[i]
        # bounds from attached linear conditions in s
        lo, hi = 0, maxv
        for c in att[i]:
            col = collect(c.p, s)
            if set(col) <= {0, 1} and c.k in ('ge', 'eq') and not any(SYMS[x].div for x in psyms(c.p)):
                try:
                    a = peval(col.get(1, 0), env)
                    b = peval(col.get(0, 0), env)
                except KeyError:
                    continue
                if a == 0:
                    continue
                v = Fraction(-b) / a
                if c.k == 'eq':
                    if v.denominator != 1:
                        return
                    lo = max(lo, int(v)); hi = min(max(hi, int(v)), int(v)) if int(v) > maxv else min(hi, int(v))
                elif a > 0:
                    cl = -((-v.numerator) // v.denominator)
                    if cl > lo:
                        lo = cl
                        hi = max(hi, lo + 3)
                else:
                    hi = min(hi, v.numerator // v.denominator)
        for v in range(lo, hi + 1):
            if s in mod and v % mod[s][0] != mod[s][1]:
                continue
            count[1] += 1
            env[s] = v
            ok = True
            for c in att[i]:
                try:
                    if not c.holds(env):
                        ok = False
                        break
                except (KeyError, ZeroDivisionError):
                    ok = False
                    break
            if ok:
                yield from rec(i + 1)
            env.pop(s, None)
    yield from rec(0)
