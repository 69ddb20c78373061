"""Loop summaries for the all-lengths analysis.

A loop is summarised by an inductive header state: every location it changes is either a linear function of the iteration counter k
(value at entry + k * step, the step being loop-invariant), or an arbitrary value constrained by inferred inequalities (candidate
inequalities are taken from the conditions of the code itself; those that hold at entry and are preserved by every path of the body are
kept). All paths of one body execution from that state are analysed; guards of earlier iterations are available as facts about k - 1.
Termination is an obligation: some loop condition decreases on every path back to the header."""
from poly import *
from facts import *
from values import *
import real as R
from interp import Fork, TooLong, PanicPath, Obl


class Trial:
    """decisions of one path; conditions about outer values only (level <= olev) are handed to the enclosing context"""
    __slots__ = ('script', 'i', 'olev', 'disc', 'conds')

    def __init__(self, script, olev, disc=False):
        self.script, self.i, self.olev, self.disc, self.conds = list(script), 0, olev, disc, []

    def choose(self, n):
        if self.i < len(self.script):
            v = self.script[self.i][0]
        else:
            v = 0
            self.script.append((0, n))
        self.i += 1
        return v


def advance(script):
    s = list(script)
    while s:
        v, n = s.pop()
        if v + 1 < n:
            s.append((v + 1, n))
            return s
    return None


class Path:
    __slots__ = ('out', 'script', 'mem', 'facts', 'obls', 'events', 'conds', 'loops')


MAXPATHS = 60


def explore(I, run, H, olev, disc=False):
    outs = []
    script = []
    while True:
        I.restore(H)
        I.trial = Trial(script, olev, disc)
        n0, e0, l0 = len(I.obls), len(I.events), len(I.loops_done)
        try:
            out = run()
        except PanicPath as e:
            out = ('panic', e.what, e.site)
        p = Path()
        p.out, p.script, p.mem, p.facts = out, list(I.trial.script), dict(I.mem), I.facts
        p.obls, p.events, p.conds, p.loops = I.obls[n0:], I.events[e0:], list(I.trial.conds), I.loops_done[l0:]
        if p.facts.feasible():
            outs.append(p)
        script = advance(I.trial.script)
        if script is None:
            return outs
        if len(outs) > MAXPATHS:
            raise Unsupported('too many paths through a loop body')


# ---------------------------------------------------------------- leaves
def is_num(v):
    return isinstance(v, (int, Poly, Fraction)) and not isinstance(v, bool)


def cls_of(v):
    """L: depends on samples, C: does not"""
    if isinstance(v, T):
        if v.op == 'any':
            return v.a[0]
        if v.op == 'const':
            return 'C'
        return 'L'
    if isinstance(v, Agg):
        return 'L' if any(cls_of(x) == 'L' for x in v.f) else 'C'
    return 'C'


def arr_cls(a):
    if a.lit is not None:
        return 'L' if any(cls_of(x) == 'L' for x in a.lit) else 'C'
    v = a.ver
    while v is not None:
        if isinstance(v.eff, Base):
            if v.eff.kind == 'any':
                return v.eff.v
            if v.eff.kind == 'fill':
                return cls_of(v.eff.v)
            if v.eff.kind == 'lit':
                return 'L' if any(cls_of(x) == 'L' for x in v.eff.v) else 'C'
            return 'L'
        return 'L'
    return 'L'


def any_arr(cls, n, shape, vec):
    return Arr(ver=Ver(None, Base('any', cls)), len_=n, shape=shape, vec=vec)


def arr_shape(a):
    return a.shape or (shape_of(a.lit[0]) if a.lit else None)


def veq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return is_num(a) and is_num(b) and a == b
    if is_num(a) or isinstance(a, bool):
        return a == b
    return False


def diff(a, b, path, out):
    if a is b:
        return
    if is_num(a) and is_num(b):
        if a != b:
            out.append((path, 'int', a, b))
        return
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        if a is not b and not (isinstance(a, bool) and isinstance(b, bool) and a == b):
            out.append((path, 'bool', a, b))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and len(a.path) == len(b.path) and \
            all(x == y or (isinstance(x, tuple) and isinstance(y, tuple)) for x, y in zip(a.path, b.path)) and \
            all((getattr(a, n) is None) == (getattr(b, n) is None) for n in ('off', 'len', 'lo', 'hi')):
        for i, (x, y) in enumerate(zip(a.path, b.path)):
            if x != y:
                diff(x[1], y[1], path + (('pp', i),), out)
        for n in ('off', 'len', 'lo', 'hi'):
            diff(getattr(a, n), getattr(b, n), path + (n,), out)
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and a.var == b.var and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(x, y, path + (i,), out)
        return
    if isinstance(a, T) and isinstance(b, T):
        if a.op == 'any' and b.op == 'any' and a.a == b.a:
            return
        if a.op == 'const' and b.op == 'const' and a.a[0] is b.a[0]:
            return
        out.append((path, 'T', a, b))
        return
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.lit is not None and b.lit is not None and len(a.lit) == len(b.lit) and len(a.lit) <= 64:
            for i, (x, y) in enumerate(zip(a.lit, b.lit)):
                diff(x, y, path + (('i', i),), out)
            return
        ca, cb = arr_cls(a), arr_cls(b)
        if (a.lit is None) and (b.lit is None) and ca == cb and a.len == b.len:
            return
        out.append((path + ('acls',), 'arr', a, b))
        if a.len != b.len:
            out.append((path + ('alen',), 'int', a.len, b.len))
        return
    if a is STR or b is STR or a is b:
        return
    if isinstance(a, FnItem) and isinstance(b, FnItem):
        return
    if isinstance(a, R.Real) and isinstance(b, R.Real):
        if a.approx is None and b.approx is None and a.t == b.t and a.taint == b.taint:
            return
        out.append((path, 'real', a, b))
        return
    if isinstance(a, Poison):
        return
    out.append((path, 'other', a, b))


def getp(v, path):
    for x in path:
        if isinstance(v, Poison):
            return v
        if x == 'alen':
            v = v.len
        elif x == 'acls':
            pass
        elif isinstance(x, str):
            v = getattr(v, x)
        elif isinstance(x, int):
            v = v.f[x]
        elif x[0] == 'pp':
            v = v.path[x[1]][1]
        else:
            v = v.lit[x[1]]
    return v


def setp(v, path, val):
    if not path:
        return val
    if isinstance(v, Poison):
        return v
    x = path[0]
    if x == 'alen':
        return Arr(ver=v.ver, len_=val, shape=v.shape, vec=v.vec)
    if x == 'acls':
        return any_arr(val[0], v.len, val[1] or v.shape, v.vec)
    if isinstance(x, str):
        d = {n: getattr(v, n) for n in ('off', 'len', 'lo', 'hi')}
        d[x] = val
        return Ptr(v.cell, v.path, **d)
    if isinstance(x, int):
        f = list(v.f)
        f[x] = setp(f[x], path[1:], val)
        return Agg(v.name, v.var, f, v.meta)
    if x[0] == 'pp':
        p = list(v.path)
        p[x[1]] = ('i', val)
        return Ptr(v.cell, tuple(p), v.off, v.len, v.lo, v.hi)
    l = list(v.lit)
    l[x[1]] = setp(l[x[1]], path[1:], val)
    return Arr(lit=l, shape=v.shape, vec=v.vec)


class Leaf:
    __slots__ = ('kind', 'v0', 'mode', 'delta', 'name', 'val')

    def __init__(self, kind, v0):
        self.kind, self.v0, self.mode, self.delta, self.name, self.val = kind, v0, None, None, None, None


def order(leaves):
    # array content conversions first, deeper paths after shallower ones
    return sorted(leaves, key=lambda cp: (0 if cp[1] and cp[1][-1] == 'acls' else 1, len(cp[1]), str(cp)))


def only_outer(p, olev, banned):
    return not isinstance(p, Poly) or all(SYMS[s].level <= olev and s not in banned for s in all_syms(p))


def summarise(I, fr, h, body, snap):
    outer = I.trial
    depth0 = I.depth
    olev = depth0
    span = getattr(I, 'cur_span', '')

    def body_run():
        return I.run(fr, h, (h, body))

    try:
        for attempt in range(40):
            I.restore(snap)
            I.trial = outer
            try:
                return _summarise(I, fr, h, body, snap, outer, olev, body_run)
            except Fork as e:
                # a condition about outer values: decide it outside the loop, then start again
                I.restore(snap)
                I.trial = outer
                I.decide(e.cond)
                snap = snap[:1] + (I.facts,) + snap[2:]
        raise Unsupported('loop summary: too many outer conditions')
    finally:
        I.trial = outer
        I.depth = depth0


def _summarise(I, fr, h, body, snap, outer, olev, body_run):
    facts0 = snap[1]
    mem0 = dict(snap[0])
    site = '%s bb%d' % (fr.key, h)
    # ---- discovery from the entry state
    I.depth = olev + 1
    kname, k = I.fresh_sym('k')
    start = I.snapshot()
    paths = explore(I, body_run, start, olev, disc=True)
    leaves = {}
    if not any(p.out[0] == 'back' for p in paths):
        # the loop is never repeated from here: run it in the enclosing context
        I.restore(snap)
        I.depth = olev
        I.trial = outer
        out = I.run(fr, h, (h, body))
        if out[0] == 'back':
            raise Unsupported('loop entry')
        return out
    merge(I, leaves, mem0, mem0, paths, olev, {kname})
    nv = 0
    cands, dropped = [], set()
    pcs = []
    seen_conds = []
    for rnd in range(30):
        # ---- header state H
        I.restore(start)
        banned = {kname}
        mem = dict(mem0)
        names = {}
        extra = []
        for cp in order(leaves):
            lf = leaves[cp]
            cell, path = cp
            if lf.kind == 'int' and lf.mode == 'lin':
                lf.val = lf.v0 + k * lf.delta
            elif lf.kind == 'int':
                if lf.name is None:
                    nv += 1
                    lf.name = '%sv%d' % (kname, nv)
                lf.val = sym(lf.name, olev + 1)
                names[lf.name] = cp
            elif lf.kind == 'bool':
                if lf.name is None:
                    nv += 1
                    lf.name = '%sb%d' % (kname, nv)
                s = sym(lf.name, olev + 1)
                names[lf.name] = cp
                lf.val = Cond('ge', s - 1)
                extra.append(ge(1, s))
            elif lf.kind == 'T':
                lf.val = T('any', lf.mode)
            elif lf.kind == 'arr':
                lf.val = lf.mode
            else:
                lf.val = Poison('changed by a loop (%s)' % lf.kind)
            if cell in mem:
                mem[cell] = setp(mem[cell], path, lf.val)
        for c in [c for c in mem if c not in mem0]:
            mem.pop(c)
        I.mem = mem
        for cp in default_cands(leaves, names):
            if cp.key() not in dropped and all(c.key() != cp.key() for c in cands):
                cands.append(cp)
        live = [c for c in cands if all(SYMS[s].level <= olev or s in names or s == kname for s in all_syms(c.p))]
        # candidates must hold at entry
        ent0 = {kname: 0}
        for n, cp in names.items():
            ent0[n] = leaves[cp].v0 if leaves[cp].kind == 'int' else 0
        keep = []
        for c in live:
            if facts0.decide(c.subst(ent0)) is True:
                keep.append(c)
            else:
                dropped.add(c.key())
        cands = keep
        I.facts = facts0.add(*(extra + pcs + cands))
        H = I.snapshot()
        paths = explore(I, body_run, H, olev)
        backs = [p for p in paths if p.out[0] == 'back']
        # ---- every changed location must be covered
        if merge(I, leaves, mem0, mem, backs, olev, banned | set(names), k):
            continue
        # ---- conditions that held in the previous iteration
        newpcs = previous(I, backs, facts0, kname, k, olev, pcs)
        if newpcs:
            pcs += newpcs
            continue
        # ---- candidate invariants are preserved
        bad = []
        for p in backs:
            env = nextenv(leaves, names, p, kname, k)
            for c in cands:
                if c in bad:
                    continue
                if p.facts.decide(c.subst(env)) is not True:
                    bad.append(c)
        if bad:
            for c in bad:
                dropped.add(c.key())
            cands = [c for c in cands if c not in bad]
            continue
        # ---- new candidates from the code's own conditions
        new = []
        if names and rnd < 14:
            for c in harvest(paths, set(names), kname, olev):
                if c.key() not in dropped and all(x.key() != c.key() for x in cands + new) and len(cands) + len(new) < 28:
                    if I.facts.decide(c) is not True:
                        new.append(c)
        if new:
            cands += new
            continue
        break
    else:
        raise Unsupported('loop summary does not stabilise')
    # ---- done: keep the obligations of one arbitrary iteration
    term = ranking(I, leaves, names, backs, kname, k)
    I.restore(snap)
    I.depth = olev
    for p in paths:
        if p.out[0] in ('back', 'panic'):
            I.obls += p.obls
            I.events += p.events
            I.loops_done += p.loops
        if p.out[0] == 'panic':
            I.obls.append(Obl('panic', I.fname(), p.out[2], False, p.facts, False, p.out[1]))
    I.obls.append(Obl('terminates', I.fname(), site, None, H[1], term is not None, term or 'no decreasing condition found'))
    I.loops_done.append((site, kname, [str(c) for c in cands + pcs], sum(1 for lf in leaves.values() if lf.mode == 'lin')))
    exits = [p for p in paths if p.out[0] in ('exit', 'ret')]
    if not exits:
        raise PanicPath('loop never exits normally', I.site())
    I.trial = outer
    ix = 0
    if len(exits) > 1:
        if outer is None:
            raise TooLong()
        ix = outer.choose(len(exits))
    ex = exits[ix]
    no, ne, nl = list(I.obls), list(I.events), list(I.loops_done)
    I.restore((H[0], H[1], H[2], H[3], 0, 0, olev, H[7], H[8], 0))
    I.obls, I.events, I.loops_done = no, ne, nl
    for s in [kname] + list(names):
        SYMS[s].level = olev
    I.trial = Trial(ex.script, -1)
    try:
        out = body_run()
    finally:
        I.trial = outer
    # pin the trip count where the facts determine it
    eqs = []
    for c in ex.conds:
        if c.k != 'ge':
            continue
        p = c.neg().p            # the guard that failed
        if kname not in psyms(p):
            continue
        g, cm = pcontent(p)
        r = p
        for s, e_ in cm:
            if s != kname and I.facts.ent(Poly({((s, 1),): 1}) - 1):
                r = pdiv_exact(r, Poly({((s, e_),): 1}))
        for q in (r, p):
            ce = Cond('eq', q + 1)
            if I.facts.decide(ce) is True:
                eqs.append(ce)
                break
    if eqs:
        I.facts = I.facts.add(*eqs)
    return out


def nextenv(leaves, names, p, kname, k):
    env = {kname: k + 1}
    for n, cp in names.items():
        v = getp(p.mem.get(cp[0]), cp[1])
        if leaves[cp].kind == 'bool':
            if isinstance(v, Cond):
                d = p.facts.decide(v)
                v = d if d is not None else None
            env[n] = (1 if v else 0) if v is not None else sym('unk_' + n, 80)
        else:
            env[n] = v if is_num(v) else sym('unk_' + n, 80)
    return env


def merge(I, leaves, mem0, memH, backs, olev, banned, k=None):
    """add changed locations; demote linear ones whose step differs. True when something changed"""
    ch = False
    for p in backs:
        for cell, va in memH.items():
            vb = p.mem.get(cell)
            if vb is None:
                continue
            d = []
            diff(va, vb, (), d)
            for path, kind, a, b in d:
                cp = (cell, path)
                # a location under one already lost
                if any((cell, path[:i]) in leaves and leaves[(cell, path[:i])].kind == 'other' for i in range(len(path))):
                    continue
                lf = leaves.get(cp)
                if lf is None:
                    base = getp(mem0[cell], path)
                    lf = leaves[cp] = Leaf(kind, base)
                    ch = True
                    # deeper leaves of a location that is now lost as a whole
                    if kind == 'other':
                        for q in [q for q in leaves if q[0] == cell and q != cp and q[1][:len(path)] == path]:
                            del leaves[q]
                    if kind == 'int':
                        dl = b - a
                        if not only_outer(dl, olev, banned):
                            dl = p.facts.norm(dl)
                        if only_outer(dl, olev, banned):
                            lf.mode, lf.delta = 'lin', dl
                        else:
                            lf.mode = 'havoc'
                    elif kind == 'T':
                        lf.mode = 'L' if 'L' in (cls_of(a), cls_of(b)) else 'C'
                    elif kind == 'arr':
                        lf.mode = ('L' if 'L' in (arr_cls(a), arr_cls(b)) else 'C', arr_shape(b) or arr_shape(a))
                    elif kind == 'real':
                        lf.kind = 'other'
                    continue
                if lf.kind == 'int':
                    if lf.mode == 'lin':
                        want = lf.v0 + (k + 1) * lf.delta if k is not None else lf.v0 + lf.delta
                        if kind != 'int' or p.facts.decide(eq(b, want)) is not True:
                            lf.mode = 'havoc'
                            ch = True
                    elif kind != 'int':
                        lf.kind = 'other'
                        ch = True
                    elif I_neg(p, b):
                        lf.kind = 'other'
                        ch = True
                elif lf.kind == 'T':
                    if lf.mode == 'C' and cls_of(b) == 'L':
                        lf.mode = 'L'
                        ch = True
                elif lf.kind == 'arr':
                    c = 'L' if 'L' in (lf.mode[0], arr_cls(b)) else 'C'
                    sh = lf.mode[1] or arr_shape(b)
                    if (c, sh) != lf.mode:
                        lf.mode = (c, sh)
                        ch = True
    # linear leaves must advance on every path, also where diff sees no change
    if k is not None:
        for (cell, path), lf in leaves.items():
            if lf.kind == 'int' and lf.mode == 'lin':
                for p in backs:
                    b = getp(p.mem.get(cell), path) if cell in p.mem else None
                    if not is_num(b) or p.facts.decide(eq(b, lf.v0 + (k + 1) * lf.delta)) is not True:
                        lf.mode = 'havoc'
                        ch = True
                        break
    return ch


def I_neg(p, b):
    """may the new value be negative? (havoc symbols range over non-negative integers)"""
    return p.facts.decide(ge(b, 0)) is not True if isinstance(b, Poly) else b < 0


def default_cands(leaves, names):
    out = []
    for n, cp in names.items():
        lf = leaves[cp]
        s = sym(n, SYMS[n].level)
        if lf.kind == 'int' and is_num(lf.v0):
            out += [ge(s, lf.v0), ge(lf.v0, s)]
        if cp[1] and cp[1][-1] == 'len':
            o = (cp[0], cp[1][:-1] + ('off',))
            if o in leaves and leaves[o].name and leaves[o].mode == 'havoc':
                t = sym(leaves[o].name, SYMS[n].level)
                out.append(eq(s + t, lf.v0 + leaves[o].v0))
    return out


def previous(I, backs, facts0, kname, k, olev, have):
    """conditions common to all back paths, one iteration earlier"""
    if not backs:
        return []
    common = None
    for p in backs:
        ks = {c.key(): c for c in p.conds}
        common = ks if common is None else {x: c for x, c in common.items() if x in ks}
    out = []
    first = backs[0].conds[0].key() if backs[0].conds else None
    for key, c in common.items():
        ss = all_syms(c.p)
        if kname not in ss or c.k != 'ge' or any(SYMS[s].level > olev and s != kname for s in ss):
            continue
        prev = c.subst({kname: k - 1})
        if any(x.key() == prev.key() for x in have):
            continue
        at0 = c.subst({kname: -1})
        r = facts0.decide(at0)
        if r is True:
            out.append(prev)
        elif key == first and r is None:
            raise Fork(at0)
        elif r is None or r is False:
            continue
    return out


def harvest(paths, names, kname, olev):
    out, seen = [], set()

    def add(c):
        if c.k != 'ge' or not isinstance(c.p, Poly):
            return
        ss = all_syms(c.p)
        if not (ss & names) or any(SYMS[s].level > olev and s not in names and s != kname for s in ss):
            return
        for d in (c, Cond('ge', c.p + 1)):
            if d.key() not in seen:
                seen.add(d.key())
                out.append(d)
    for p in paths:
        for o in p.obls:
            if not o.ok and isinstance(o.cond, Cond):
                if o.cond.k == 'ge':
                    add(o.cond)
                elif o.cond.k == 'eq':
                    add(Cond('ge', o.cond.p))
                    add(Cond('ge', -o.cond.p))
    for p in paths:
        for c in p.conds:
            add(c)
            if c.k == 'ge':
                add(c.neg())
            elif c.k == 'ne':
                add(Cond('ge', c.p))
                add(Cond('ge', -c.p))
    return out[:40]


def ranking(I, leaves, names, backs, kname, k):
    """a condition of the loop that decreases on every path back to the header"""
    if not backs:
        return 'no path back to the header'
    cs = []
    for c in backs[0].conds:
        if c.k == 'ge':
            cs.append(c.p)
        elif c.k == 'ne':
            if backs[0].facts.ent(c.p):
                cs.append(c.p)
            elif backs[0].facts.ent(-c.p):
                cs.append(-c.p)
    for p in cs:
        if any(SYMS[s].level > I.depth and s != kname and s not in names for s in all_syms(p)) and False:
            continue
        ok = True
        for b in backs:
            env = nextenv(leaves, names, b, kname, k)
            nx = subst(p, env)
            if not (b.facts.ent(p) and b.facts.ent(p - nx - 1)):
                ok = False
                break
        if ok:
            return 'decreases: %s' % pstr(p)
    return None
