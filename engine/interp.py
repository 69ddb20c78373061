"""Abstract interpreter over the dumped MIR: polynomial integers, lazily-read arrays described by quantified writes,
linear-form samples. Loops are summarised by recurrences; undetermined branches partition the trace."""
import json
from poly import *
from facts import *
from values import *
import real as R


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond
        self.level = cond.level()


class NeedSplit(Exception):
    def __init__(self, name, m):
        self.name, self.m = name, m


class PanicPath(Exception):
    def __init__(self, what, site):
        self.what, self.site = what, site


class TooLong(Exception):
    pass


class Obl:
    __slots__ = ('kind', 'site', 'cond', 'facts', 'ok', 'fn', 'detail')

    def __init__(self, kind, fn, site, cond, facts, ok, detail=''):
        self.kind, self.fn, self.site, self.cond, self.facts, self.ok, self.detail = kind, fn, site, cond, facts, ok, detail


class Frame:
    __slots__ = ('fn', 'key', 'fid', 'subst')

    def __init__(self, fn, key, fid, subst):
        self.fn, self.key, self.fid, self.subst = fn, key, fid, subst


def successors(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


def find_loops(fn):
    """header -> body block set (natural loops)"""
    bl = fn['blocks']
    n = len(bl)
    succ = [successors(b['t']) for b in bl]
    # reachable + dominators
    order, seen = [], set()

    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                adv = True
                break
        if not adv:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a = new
                while a != p:
                    while pos[a] > pos[p]:
                        a = idom[a]
                    while pos[p] > pos[a]:
                        p = idom[p]
                new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += pred[x]
    return loops


class Program:
    def __init__(self, dumps):
        self.fns, self.impls, self.traits, self.adts = {}, [], {}, {}
        self.statics = []
        for d in dumps:
            self.fns.update(d['fns'])
            self.impls += d['impls']
            self.traits.update(d['traits'])
            for k, v in d['adts'].items():
                if k not in self.adts or v.get('local'):
                    self.adts[k] = v
            self.statics += d['statics']
        self._loops = {}
        self.impl_ix = {}
        for i in self.impls:
            st = i['self']
            if st[0] == 'adt':
                self.impl_ix[(i['trait'], st[1])] = i

    def loops(self, key):
        r = self._loops.get(key)
        if r is None:
            r = self._loops[key] = find_loops(self.fns[key])
        return r


def tsub_ty(ty, sub):
    if not isinstance(ty, list):
        return ty
    if ty and ty[0] in ('param', 'cparam'):
        return sub.get(ty[1], ty)
    if ty and ty[0] == 'array' and isinstance(ty[2], list):
        n = tsub_ty(ty[2], sub)
        return ['array', tsub_ty(ty[1], sub), n[1] if n[0] == 'constval' else n]
    return [tsub_ty(x, sub) for x in ty]


INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
            'isize': 64, 'i128': 128}


class Interp:
    def __init__(self, prog, facts, specialised=False, maxsteps=400000):
        self.prog = prog
        self.facts = facts
        self.mem = {}
        self.nf = 0
        self.nsym = 0
        self.depth = 0
        self.obls = []
        self.nok = 0
        self.tok = object()
        self.events = []
        self.stack = []
        self.spec = specialised
        self.steps = 0
        self.maxsteps = maxsteps
        self.firstdecide = None
        self.trial = None
        self.fns_seen = set()
        self.loops_done = []
        self.ncalls = 0
        self.params = set()         # names of the symbolic parameters (lengths, scratch sizes, chunk counts)
        self.shape = False          # all-lengths analysis: array contents abstracted to "depends on samples" / "constant"
        self.exactmax = False       # split on the operands of max/min of parameters instead of joining them
        self.joins = False
        import models
        self.models = models

    # ---------------------------------------------------------------- utils
    def fresh_cell(self, v, tag='h'):
        self.nf += 1
        c = (tag, self.nf)
        self.mem[c] = v
        return c

    def fresh_sym(self, tag):
        self.nsym += 1
        n = '%s%d' % (tag, self.nsym)
        return n, sym(n, self.depth)

    def fresh_qvar(self):
        """bound variable of a quantified write: always inside every enclosing loop"""
        self.nsym += 1
        n = 'q%d' % self.nsym
        return n, sym(n, 90)

    def iter_adts(self):
        return {k[1] for k in self.prog.impl_ix if k[0] == 'core::iter::traits::iterator::Iterator'}

    def site(self):
        return self.cur_span if hasattr(self, 'cur_span') else '?'

    def decide(self, c, soft=False):
        """c: bool or Cond -> bool (may raise Fork)"""
        if isinstance(c, bool):
            if self.firstdecide is not None:
                self.firstdecide = None
            return c
        if isinstance(c, Poison):
            raise Unsupported('branch on a lost value (%s)' % c.why)
        if not isinstance(c, Cond):
            raise Unsupported('branch on %r' % (c,))
        if self.firstdecide is not None:
            self.firstdecide = None
            p = self.facts.norm(c.p)
            if isinstance(p, Poly) and not self.spec:
                raise TooLong()
        r = self.facts.decide(c)
        if r is None:
            if soft:
                return None
            t = self.trial
            if t is not None and (t.disc or c.level() > t.olev):
                v = t.choose(2) == 0
                c = c if v else c.neg()
                t.conds.append(c)
                self.facts = self.facts.add(c)
                return v
            raise Fork(c)
        return r

    def fname(self):
        for fr in reversed(self.stack):
            if fr.fn.get('local'):
                return fr.key
        return self.stack[-1].key if self.stack else '?'

    def oblige(self, kind, cond, detail=''):
        if isinstance(cond, bool):
            ok = cond
        elif isinstance(cond, Cond):
            ok = self.facts.decide(cond) is True
        else:
            raise Unsupported('obligation on %r' % (cond,))
        if ok and self.spec and kind != 'inner':
            self.nok += 1           # constant instances: count what holds, keep what does not
            return
        self.obls.append(Obl(kind, self.fname(), self.site(), cond, self.facts, ok, detail))
        if not ok:
            if cond is False or (isinstance(cond, Cond) and self.facts.decide(cond) is False):
                raise PanicPath(kind + ' ' + detail, self.site())
            self.facts = self.facts.add(cond)

    def panic(self, what):
        raise PanicPath(what, self.site())

    # ---------------------------------------------------------------- integers
    def floordiv(self, a, b):
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            if b == 0:
                self.oblige('div0', False)
            return a // b
        if not isinstance(b, Poly):
            a2 = a
            for _ in range(5):
                x = subst(a2, self.facts.senv)
                if x == a2:
                    break
                a2 = x
            a2 = subst(a2, {s: v for s, v in self.facts.sub.items() if not isinstance(v, Poly)})
            r = {}
            for m, c in terms(a2).items():
                if Fraction(c).denominator != 1:
                    raise Unsupported('division of a fractional polynomial')
                if c % b:
                    r[m] = c % b
            if set(r) <= {()}:
                return padd(a2, -r.get((), 0)) * Fraction(1, b)
            for m in sorted(r):
                for s, e in m:
                    if s.rstrip("'") in self.params and SYMS[s].div is None:
                        g = gcd(int(r[m]), b)
                        raise NeedSplit(s, b // g)
            return mkdiv(a, b)
        if self.facts.ent(b - 1 - a) and self.facts.ent(a if isinstance(a, Poly) else a):
            return 0
        q = pdiv_exact(a, b)
        if q is not None and all(Fraction(c).denominator == 1 for c in terms(q).values()):
            return q
        an = self.facts.norm(a)
        bn = self.facts.norm(b)
        q = pdiv_exact(an, bn)
        if q is not None and all(Fraction(c).denominator == 1 for c in terms(q).values()):
            return q
        # a = b*A + rem by monomial content of b
        if isinstance(bn, Poly) and len(bn.t) == 1:
            (bm, bc), = bn.t.items()
            A = {}
            for m, c in terms(an).items():
                d = mdivides(m, bm)
                if d is not None and Fraction(c / Fraction(bc)).denominator == 1:
                    A[d] = Fraction(c) / bc
            A = mk(A)
            rem = an - A * bn
            for sh in (0, 1, -1):
                r2 = rem - sh * bn
                if self.facts.ent(r2) and self.facts.ent(bn - 1 - r2):
                    return A + sh
        return mkdiv(an, bn)

    def rem(self, a, b):
        return a - b * self.floordiv(a, b)

    # ---------------------------------------------------------------- memory
    def load(self, p):
        if p.off is not None:
            raise Unsupported('load of an unsized place')
        try:
            v = self.mem[p.cell]
        except KeyError:
            raise Unsupported('read of an uninitialised or dead place %r' % (p,))
        for x in p.path:
            v = self.step(v, x)
        if self.spec and isinstance(v, (Arr, Agg)):
            disown(v)
        return v

    def peek(self, p):
        """the value at p for inspection only (not copied out)"""
        v = self.mem.get(p.cell)
        for x in p.path:
            if isinstance(x, int) and isinstance(v, Agg) and x < len(v.f):
                v = v.f[x]
            else:
                return None
        return v

    def step(self, v, x):
        if isinstance(x, int):
            if isinstance(v, Agg):
                if x >= len(v.f):
                    raise Unsupported('field %d of %r' % (x, v))
                return v.f[x]
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Poison) or v is STR:
                return v
            raise Unsupported('field %d of %r' % (x, type(v).__name__))
        if isinstance(v, Arr):
            return self.arr_read(v, x[1])
        raise Unsupported('index into %r' % (v,))

    def arr_read(self, a, i):
        if isinstance(i, Poly):
            n = self.facts.norm(i)
            if not isinstance(n, Poly):
                i = n
        if a.lit is not None:
            if not isinstance(i, Poly):
                if not (0 <= i < len(a.lit)) or i != int(i):
                    self.oblige('bounds', False, 'index %s of %d' % (i, len(a.lit)))
                return a.lit[int(i)]
            a = to_ver(a)
        if self.shape:
            return self.any_of(a)
        v = a.ver
        for _ in range(64):
            if isinstance(v.eff, EWrite):
                d = v.eff.idx - i
                if d == 0:
                    return v.eff.val
                if not isinstance(d, Poly):
                    v = v.prev
                    continue
            break
        if a.shape is None:
            raise Unsupported('read of an array of unknown element shape')
        return lazy(a.shape, a.ver, i)

    def any_of(self, a):
        import loops
        sh = a.shape or (shape_of(a.lit[0]) if a.lit else None)
        if sh is None:
            raise Unsupported('read of an array of unknown element shape')
        return self.any_shape(sh, loops.arr_cls(a))

    def any_shape(self, sh, cls):
        if sh == 'T':
            return T('any', cls)
        if sh == 'I':
            return self.fresh_sym('a')[1]
        if isinstance(sh, tuple):
            return Agg(sh[0], sh[1], tuple(self.any_shape(x, cls) for x in sh[2]))
        raise Unsupported('read of an array of unknown element shape')

    def arr_write(self, a, i, val):
        if isinstance(i, Poly):
            n = self.facts.norm(i)
            if not isinstance(n, Poly):
                i = n
        if a.lit is not None and not isinstance(i, Poly):
            if not (0 <= i < len(a.lit)):
                self.oblige('bounds', False, 'index %s of %d' % (i, len(a.lit)))
            if a.own is self.tok:
                a.lit[i] = val
                return a
            l = list(a.lit)
            l[i] = val
            a = Arr(lit=l, shape=a.shape, vec=a.vec)
            if self.spec:
                a.own = self.tok
            return a
        if self.shape:
            return self.weak(a, val)
        a = to_ver(a)
        return Arr(ver=Ver(a.ver, EWrite(i, val)), len_=a.len, shape=a.shape or shape_of(val), vec=a.vec)

    def weak(self, a, val):
        import loops
        c = loops.arr_cls(a)
        if c == 'C' and loops.cls_of(val) == 'L':
            c = 'L'
        elif a.lit is None and a.ver.eff.kind == 'any':
            return a
        return loops.any_arr(c, a.len, loops.arr_shape(a) or shape_of(val), a.vec)

    def store(self, p, val):
        if p.off is not None:
            raise Unsupported('store to an unsized place')
        if not p.path:
            self.mem[p.cell] = val
            return
        if p.cell not in self.mem:
            raise Unsupported('write to a dead place %r' % (p,))
        self.mem[p.cell] = self.upd(self.mem[p.cell], p.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        x = path[0]
        if isinstance(x, int):
            if isinstance(v, Ptr):
                return val
            if not isinstance(v, Agg):
                raise Unsupported('field write into %r' % (v,))
            f = list(v.f)
            f[x] = self.upd(f[x], path[1:], val)
            return Agg(v.name, v.var, f, v.meta)
        if not isinstance(v, Arr):
            raise Unsupported('index write into %r' % (v,))
        if len(path) > 1:
            val = self.upd(self.arr_read(v, x[1]), path[1:], val)
            disown(val)
        return self.arr_write(v, x[1], val)

    def arr_at(self, p):
        """the Arr a slice pointer points into"""
        v = self.mem.get(p.cell)
        if v is None:
            raise Unsupported('slice of a dead place')
        for x in p.path:
            v = self.step(v, x)
        if not isinstance(v, Arr):
            raise Unsupported('slice into %r' % (v,))
        return v

    def set_arr(self, p, a):
        self.store(Ptr(p.cell, p.path), a)

    def add_effect(self, p, eff):
        if self.shape:
            self.set_arr(p, self.weak(self.arr_at(p), eff.val))
            return
        a = to_ver(self.arr_at(p))
        self.set_arr(p, Arr(ver=Ver(a.ver, eff), len_=a.len, shape=a.shape or 'T', vec=a.vec))

    # ---------------------------------------------------------------- places and operands
    def place(self, fr, pl):
        p = Ptr((fr.fid, pl[0]))
        for e in pl[1]:
            k = e[0]
            if k == 'deref':
                v = self.load(p)
                while isinstance(v, Agg) and len(v.f) == 1 and not isinstance(v.f[0], (int, Poly, T)):
                    v = v.f[0]
                if v is STR:
                    p = Ptr(self.fresh_cell(STR, 's'))
                    continue
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r' % (v,))
                if v.off is not None and v.len is None:
                    self.oblige('ptr', ge(v.off, v.lo), 'raw pointer below its slice')
                    self.oblige('ptr', lt(v.off, v.hi), 'raw pointer past its slice')
                    p = Ptr(v.cell, v.path + (('i', v.off),))
                else:
                    p = v
            elif k == 'field':
                if p.off is not None:
                    raise Unsupported('field of unsized')
                p = Ptr(p.cell, p.path + (e[1],))
            elif k == 'downcast':
                pass
            elif k == 'index':
                i = self.mem[(fr.fid, e[1])]
                if p.is_slice():
                    p = Ptr(p.cell, p.path + (('i', p.off + i),))
                else:
                    p = Ptr(p.cell, p.path + (('i', i),))
            elif k == 'cindex':
                if p.is_slice():
                    ln, off = p.len, p.off
                else:
                    ln, off = self.load(p).len, 0
                i = (ln - e[1]) if e[3] else e[1]
                p = Ptr(p.cell, p.path + (('i', off + i),))
            elif k == 'subslice':
                if p.is_slice():
                    ln, off = p.len, p.off
                else:
                    ln, off = self.load(p).len, 0
                to = (ln - e[2]) if e[3] else e[2]
                p = Ptr(p.cell, p.path, off + e[1], to - e[1])
            else:
                raise Unsupported('projection %s' % k)
        return p

    def operand(self, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            pl = o['p']
            if not pl[1]:
                try:
                    v = self.mem[(fr.fid, pl[0])]
                except KeyError:
                    raise Unsupported('read of uninitialised local')
                if self.spec and (v.__class__ is Arr or v.__class__ is Agg):
                    disown(v)
                return v
            p = self.place(fr, pl)
            if p.is_slice():
                raise Unsupported('unsized operand')
            return self.load(p)
        if k == 'const':
            return self.const(fr, o)
        if k == 'rtcheck':
            return False
        raise Unsupported('operand %s' % k)

    def const(self, fr, o):
        ty = o['ty']
        if 'fn' in o:
            return FnItem(o['fn'], fr.subst)
        if 'promoted' in o:
            return self.promoted(fr, o)
        if 'bits' in o:
            if ty[0] == 'int':
                return int(o.get('int', o['bits']))
            if ty[0] == 'bool':
                return o['bits'] != '0'
            if ty[0] == 'float':
                return R.from_f64_bits(int(o['bits'])) if ty[1] == 'f64' else R.from_f32_bits(int(o['bits']))
            if ty[0] == 'char':
                return STR
            if ty[0] == 'adt' and ty[1] in self.prog.adts:
                return Agg(ty[1], int(o['bits']), ())
        if o.get('zst') or ty == ['tuple', []]:
            if ty[0] == 'tuple':
                return UNIT
            if ty[0] == 'closure':
                return Agg('closure:' + ty[1], 0, (), fr.subst)
            if ty[0] == 'adt':
                a = self.prog.adts.get(ty[1])
                nf = len(a['variants'][0]['fields']) if a and a['variants'] else 0
                return Agg(ty[1], 0, (UNIT,) * nf)
            if ty[0] == 'array':
                return Arr(lit=[])
        if ty[0] == 'ref' and ty[2][0] in ('str', 'array', 'slice', 'adt'):
            if ty[2][0] == 'array' and ty[2][2] == 0:
                return Ptr(self.fresh_cell(Arr(lit=[])))
            return STR
        if 'static' in o:
            raise Unsupported('static %s' % o['static'])
        if ty[0] in ('adt', 'array', 'tuple'):
            # constants of aggregate type: evaluate the const body when it was dumped
            pth = o.get('path')
            if pth and pth in self.prog.fns:
                return self.call_fn(pth, [], {})
            if ty[0] == 'adt' and 'Option' in ty[1]:
                return NONE
            return STR
        if 'cparam' in o:
            n = fr.subst.get(o['cparam'])
            if n and n[0] == 'constval':
                return n[1] != 0 if ty[0] == 'bool' else self.wrap(n[1], ty)
        if o.get('uneval') or 'tyconst' in o:
            raise Unsupported('unevaluated constant')
        raise Unsupported('constant of type %s' % (ty,))

    def promoted(self, fr, o):
        d = o['def']
        body = self.prog.fns.get(d, {}).get('promoted') or []
        n = o['promoted']
        if n >= len(body):
            return STR
        key = d + '#promoted%d' % n
        if key not in self.prog.fns:
            b = dict(body[n])
            b['name'] = key
            b['local'] = False
            self.prog.fns[key] = b
        return self.call_fn(key, [], fr.subst, keep=True)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, rv, dest_ty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            p = self.place(fr, rv[2])
            return p
        if k == 'bin':
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), dest_ty)
        if k == 'un':
            return self.unop(rv[1], self.operand(fr, rv[2]), dest_ty)
        if k == 'cast':
            return self.cast(fr, rv[1], self.operand(fr, rv[2]), tsub_ty(rv[3], fr.subst))
        if k == 'agg':
            kk = rv[1]
            vs = [self.operand(fr, o) for o in rv[2]]
            if kk[0] == 'array':
                return Arr(lit=vs, shape=shape_of(vs[0]) if vs else None)
            if kk[0] == 'tuple':
                return Agg('tuple', 0, vs)
            if kk[0] == 'closure':
                return Agg('closure:' + kk[1], 0, vs, fr.subst)
            if kk[0] == 'adt':
                return Agg(kk[1], kk[2], vs)
            if kk[0] == 'rawptr':
                p = vs[0]
                if isinstance(p, Ptr) and isinstance(vs[1], (int, Poly)):
                    return self.slice_from_raw(p, vs[1])
                return p
            raise Unsupported('aggregate %s' % kk[0])
        if k == 'discr':
            v = self.load(self.place(fr, rv[1]))
            if isinstance(v, Agg):
                if v.name == 'core::cmp::Ordering':
                    return v.var - 1
                return v.var
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'repeat':
            v = self.operand(fr, rv[1])
            n = rv[2]
            if isinstance(n, list):
                n = tsub_ty(n, fr.subst)
                n = n[1] if n[0] == 'constval' else None
            if n is None:
                raise Unsupported('array length')
            return Arr(lit=[v] * n, shape=shape_of(v))
        raise Unsupported('rvalue %s' % (rv[:2],))

    def slice_from_raw(self, p, n):
        if p.off is None:
            raise Unsupported('slice from thin pointer')
        self.oblige('ptr', ge(p.off, p.lo), 'raw slice below its slice')
        self.oblige('ptr', ge(p.hi, p.off + n), 'raw slice past its slice')
        return Ptr(p.cell, p.path, p.off, n)

    def binop(self, op, a, b, dty=None):
        if isinstance(a, Poison) or isinstance(b, Poison):
            if self.shape:
                return Poison('computed from a lost value')
            raise Unsupported('arithmetic on a lost value')
        if isinstance(a, R.Real) or isinstance(b, R.Real):
            r = self.realop(op, a, b)
            if isinstance(r, R.Real) and dty and dty[0] == 'float' and dty[1] == 'f32' and not R.f32_exact(r):
                return R.Real(r.t, r.taint | {'f32'}, r.approx, r.err)
            return r
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and isinstance(a, Ptr) and isinstance(b, Ptr):
            if (a.cell, a.path) == (b.cell, b.path) and a.off is not None and b.off is not None:
                a, b = a.off, b.off
            else:
                raise Unsupported('pointer comparison')
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
                if op == 'BitAnd':
                    return self.decide(b) if self.decide(a) else False
                if op == 'BitOr':
                    return True if self.decide(a) else self.decide(b)
                x, y = self.decide(a), self.decide(b)
                return (x != y) if op in ('BitXor', 'Ne') else x == y
            raise Unsupported('bool op %s' % op)
        if not isinstance(a, (int, Poly, Fraction)) or not isinstance(b, (int, Poly, Fraction)):
            if isinstance(a, T) or isinstance(b, T):
                raise Unsupported('builtin op on samples')
            if op == 'Offset' and isinstance(a, Ptr):
                return Ptr(a.cell, a.path, a.off + b, None, a.lo, a.hi)
            raise Unsupported('binop %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        signed = self.is_signed(dty)
        base = op
        for suf in ('WithOverflow', 'Unchecked'):
            if op.endswith(suf):
                base = op[:-len(suf)]
        wo = op.endswith('WithOverflow')
        if base in ('Add', 'Sub', 'Mul') and not isinstance(a, Poly) and not isinstance(b, Poly):
            r = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            w = self.wrap(r, dty)
            if wo:
                return tup(w, w != r)
            if w != r and op.endswith('Unchecked'):
                self.oblige('unchecked', False, 'overflow in unchecked arithmetic')
            return w
        if base == 'Add':
            r = a + b
            return tup(r, False) if wo else r
        if base == 'Sub':
            r = a - b
            if wo:
                if signed:
                    return tup(r, False)
                c = Cond('ge', b - a - 1) if isinstance(r, Poly) else bool(r < 0)
                return tup(r, c)
            if not signed:
                self.oblige('overflow_Sub', ge(a, b) if isinstance(r, Poly) else r >= 0)
            return r
        if base == 'Mul':
            r = a * b
            return tup(r, False) if wo else r
        if base == 'Div':
            if not isinstance(a, Poly) and not isinstance(b, Poly) and (a < 0 or b < 0):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return self.floordiv(a, b)
        if base == 'Rem':
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            return self.rem(a, b)
        if base in ('Shl', 'Shr'):
            if isinstance(b, Poly):
                raise Unsupported('shift by a symbolic amount')
            if base == 'Shl':
                r = a * (1 << b)
                if not isinstance(r, Poly) and dty and dty[0] == 'int':
                    r &= (1 << INT_BITS[dty[1]]) - 1
                return tup(r, False) if wo else r
            r = self.floordiv(a, 1 << b)
            return tup(r, False) if wo else r
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            if base == 'BitAnd':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                    return self.rem(a, b + 1)
            raise Unsupported('bit operation on a symbolic integer')
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            d = a - b
            if not isinstance(d, Poly):
                return {'Eq': d == 0, 'Ne': d != 0, 'Lt': d < 0, 'Le': d <= 0, 'Gt': d > 0, 'Ge': d >= 0}[base]
            return {'Eq': Cond('eq', d), 'Ne': Cond('ne', d), 'Lt': Cond('ge', -d - 1), 'Le': Cond('ge', -d),
                    'Gt': Cond('ge', d - 1), 'Ge': Cond('ge', d)}[base]
        if base == 'Cmp':
            if self.decide(self.binop('Lt', a, b)):
                return Agg('core::cmp::Ordering', 0, ())
            return Agg('core::cmp::Ordering', 1 if self.decide(self.binop('Eq', a, b)) else 2, ())
        raise Unsupported('binop %s' % op)

    @staticmethod
    def wrap(r, ty):
        if ty and ty[0] == 'tuple' and ty[1]:
            ty = ty[1][0]
        if not ty or ty[0] != 'int':
            return r
        n = INT_BITS[ty[1]]
        if ty[1][0] == 'u':
            return r if 0 <= r < (1 << n) else r & ((1 << n) - 1)
        if -(1 << (n - 1)) <= r < (1 << (n - 1)):
            return r
        r &= (1 << n) - 1
        return r - (1 << n) if r >> (n - 1) else r

    @staticmethod
    def is_signed(ty):
        if not ty:
            return False
        if ty[0] == 'tuple' and ty[1]:
            ty = ty[1][0]
        return ty[0] == 'int' and ty[1].startswith('i')

    def realop(self, op, a, b):
        a = a if isinstance(a, R.Real) else R.rpoly(a)
        b = b if isinstance(b, R.Real) else R.rpoly(b)
        try:
            if op == 'Add':
                return R.radd(a, b)
            if op == 'Sub':
                return R.rsub(a, b)
            if op == 'Mul':
                return R.rmul(a, b)
            if op == 'Div':
                return R.rdiv(a, b)
        except R.NotExact as e:
            if self.shape:
                return Poison('float')
            raise Unsupported('real arithmetic: %s' % e)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and R.constant(a) and R.constant(b):
            x, y = R.rnum(a).real, R.rnum(b).real
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        if self.shape:
            return Poison('float comparison')
        raise Unsupported('real op %s' % op)

    def unop(self, op, a, dty=None):
        if op == 'Not':
            if isinstance(a, int) and not isinstance(a, bool) and dty and dty[0] == 'int':
                return ~a if dty[1].startswith('i') else a ^ ((1 << INT_BITS[dty[1]]) - 1)
            if isinstance(a, bool):
                return not a
            if isinstance(a, Cond):
                return a.neg()
            raise Unsupported('bitwise not')
        if isinstance(a, Poison) and self.shape:
            return a
        if op == 'Neg':
            if isinstance(a, R.Real):
                return R.rneg(a)
            if isinstance(a, (int, Poly)):
                return -a
        if op == 'PtrMetadata':
            if isinstance(a, Ptr):
                if a.is_slice():
                    return a.len
            return UNIT
        raise Unsupported('unop %s' % op)

    def cast(self, fr, kind, v, ty):
        if kind.startswith('PointerCoercion(Unsize'):
            if isinstance(v, Ptr) and not v.is_slice():
                try:
                    t = self.load(v)
                except Unsupported:
                    return v
                if isinstance(t, Arr) and not t.vec:
                    inner = ty[2] if ty[0] in ('ref', 'ptr') else None
                    if inner is None or inner[0] == 'slice':
                        return Ptr(v.cell, v.path, 0, t.len)
            return v
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'Subtype') or 'Transmute' in kind:
            if kind == 'PtrToPtr' and isinstance(v, Ptr) and v.is_slice() and ty[0] == 'ptr' and ty[2][0] != 'slice':
                return Ptr(v.cell, v.path, v.off, None, v.off, v.off + v.len)
            return v
        if kind == 'IntToInt':
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return 1 if self.decide(v) else 0
            if not isinstance(v, Poly):
                bits = INT_BITS.get(ty[1], 64)
                v &= (1 << bits) - 1
                if ty[1].startswith('i') and v >> (bits - 1):
                    v -= 1 << bits
                return v
            bits = INT_BITS.get(ty[1], 64)
            if bits < 64:
                top = (1 << (bits - 1 if ty[1].startswith('i') else bits)) - 1
                if self.facts.ent(v) and self.facts.ent(top - v):
                    return v
                if not self.shape:
                    raise Unsupported('narrowing cast of a symbolic value')
                w = self.fresh_sym('a')[1]
                if not ty[1].startswith('i'):
                    self.facts = self.facts.add(ge(top, w))
                    return w
                raise Unsupported('narrowing cast of a symbolic value')
            return v
        if isinstance(v, Poison) and self.shape:
            return v
        if kind == 'IntToFloat':
            if self.shape and isinstance(v, Poly):
                return Poison('float')
            if isinstance(v, (int, Poly)):
                r = R.rpoly(v)
                if ty[1] == 'f32' and not R.f32_exact(r):
                    r = R.Real(r.t, frozenset(['f32']))
                return r
        if kind == 'FloatToFloat':
            if ty[1] == 'f32' and isinstance(v, R.Real) and not R.f32_exact(v):
                return R.Real(v.t, v.taint | {'f32'}, v.approx, v.err)
            return v
        if kind == 'FloatToInt':
            if isinstance(v, R.Real) and R.constant(v):
                x = R.rnum(v).real
                if ty[1].startswith('u'):
                    return max(0, int(x + 1e-12))
                return int(x)
            raise Unsupported('float to int of a symbolic value')
        raise Unsupported('cast %s' % kind)

    # ---------------------------------------------------------------- execution
    def call_fn(self, key, args, subst_, keep=False):
        fn = self.prog.fns.get(key)
        if fn is None:
            raise Unsupported('no body for %s' % key)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        self.nf += 1
        fr = Frame(fn, key, 'f%d' % self.nf, subst_)
        self.fns_seen.add(key)
        self.ncalls += 1
        for i, a in enumerate(args):
            self.mem[(fr.fid, i + 1)] = a
        self.stack.append(fr)
        span = getattr(self, 'cur_span', None)
        try:
            out = self.run(fr, 0, None)
            if out[0] != 'ret':
                raise Unsupported('function left abnormally')
            r = self.mem.get((fr.fid, 0), UNIT)
            if self.spec:
                disown(r)
        finally:
            self.stack.pop()
            self.cur_span = span
        if not keep:
            for n in range(len(fn['locals'])):
                self.mem.pop((fr.fid, n), None)
        return r

    def run(self, fr, bb, stop):
        """returns ('ret',) | ('back',) | ('exit', bb)"""
        loops = self.prog.loops(fr.key)
        first = True
        while True:
            if stop is not None and not first:
                if bb == stop[0]:
                    return ('back',)
                if bb not in stop[1]:
                    return ('exit', bb)
            if bb in loops and not (first and stop is not None and bb == stop[0]):
                out = self.handle_loop(fr, bb, loops[bb])
                if out[0] != 'exit':
                    return out
                bb = out[1]
                first = False
                continue
            first = False
            nxt = self.block(fr, bb)
            if nxt is None:
                return ('ret',)
            bb = nxt

    def block(self, fr, bb):
        b = fr.fn['blocks'][bb]
        mem = self.mem
        local = fr.fn.get('local')
        locals_ = fr.fn['locals']
        for s in b['s']:
            k = s[0]
            if k == 'assign':
                self.steps += 1
                if local:
                    self.cur_span = s[3]
                pl = s[1]
                v = self.rvalue(fr, s[2], locals_[pl[0]] if not pl[1] else None)
                if not pl[1]:
                    self.mem[(fr.fid, pl[0])] = v
                else:
                    self.store(self.place(fr, pl), v)
            elif k == 'live':
                self.mem.pop((fr.fid, s[1]), None)
            elif k == 'dead':
                self.mem.pop((fr.fid, s[1]), None)
            elif k == 'setdiscr':
                p = self.place(fr, s[1])
                v = self.load(p)
                self.store(p, Agg(v.name, s[2], v.f, v.meta))
            elif k == 'intrinsic':
                if 'assume' in s[1]:
                    continue
                if 'copy_nonoverlapping' in s[1]:
                    raise Unsupported('copy_nonoverlapping')
        if self.steps > self.maxsteps:
            raise Unsupported('step budget')
        t = b['t']
        if local:
            self.cur_span = b['span']
        k = t[0]
        if k == 'goto':
            return t[1]
        if k == 'return':
            return None
        if k == 'drop':
            return t[2]
        if k == 'switch':
            v = self.operand(fr, t[1])
            return self.switch(v, t)
        if k == 'assert':
            self.do_assert(fr, t)
            return t[4]
        if k == 'call':
            self.do_call(fr, t)
            if t[4] is None:
                raise PanicPath('diverging call', self.site())
            return t[4]
        if k == 'unreachable':
            raise Unsupported('reached unreachable')
        raise Unsupported('terminator %s' % k)

    def switch(self, v, t):
        if isinstance(v, (bool, Cond)):
            x = 1 if self.decide(v) else 0
            for val, tgt in t[2]:
                if int(val) == x:
                    return tgt
            return t[3]
        if isinstance(v, (int, Poly)):
            if not isinstance(v, Poly):
                bits = v
                if v < 0 and t[4][0] == 'int':
                    bits = v & ((1 << INT_BITS[t[4][1]]) - 1)
                for val, tgt in t[2]:
                    if int(val) == bits or int(val) == v:
                        return tgt
                return t[3]
            for val, tgt in t[2]:
                if self.decide(eq(v, int(val))):
                    return tgt
            return t[3]
        if isinstance(v, Poison):
            raise Unsupported('branch on a lost value (%s)' % v.why)
        if isinstance(v, T):
            self.events.append(('tbranch', self.fname(), self.site(), 'switch on a sample'))
        raise Unsupported('switch on %r' % (v,))

    def do_assert(self, fr, t):
        c = self.operand(fr, t[1])
        exp = t[2]
        kind = t[3]
        if isinstance(c, bool):
            if c != exp:
                self.oblige(kind, False)
            else:
                if kind not in ('overflow_Add', 'overflow_Mul'):
                    if self.spec:
                        self.nok += 1
                    else:
                        self.obls.append(Obl(kind, self.fname(), self.site(), True, None, True))
            return
        if isinstance(c, Cond):
            self.oblige(kind, c if exp else c.neg())
            return
        raise Unsupported('assert on %r' % (c,))

    def do_call(self, fr, t):
        f = t[1]
        args = [self.operand(fr, a) for a in t[2]]
        if f['k'] == 'const' and 'fn' in f:
            r = self.call(f['fn'], args, fr.subst)
        else:
            fv = self.operand(fr, f)
            r = self.call_value(fv, args)
        p = t[3]
        if not p[1]:
            self.mem[(fr.fid, p[0])] = r
        else:
            self.store(self.place(fr, p), r)

    def deref_all(self, v):
        """follow thin pointers; returns (pointer or None, value)"""
        p = None
        for _ in range(8):
            if isinstance(v, Ptr) and v.off is None:
                p = v
                v = self.load(v)
            else:
                break
        return p, v

    def call(self, callee, args, sub):
        targs = [tsub_ty(x, sub) for x in callee.get('targs', [])]
        cargs = [tsub_ty(x, sub) for x in callee.get('cargs', ())]
        r = self.models.call(self, callee, args, targs + cargs)
        if r is not self.models.NOMODEL:
            return r
        key = callee.get('resolved') or callee['key']
        tr = callee.get('trait')
        if tr and args:
            p, v = self.deref_all(args[0])
            if isinstance(v, Agg):
                imp = self.prog.impl_ix.get((tr, v.name))
                if imp:
                    k2 = imp['items'].get(callee['name'])
                    if k2:
                        key = k2
                    a0 = args[0]
                    if isinstance(a0, Ptr) and p is not None:
                        args = [p] + args[1:]
                    return self.call_fn(key, args, {})
        if key in self.prog.fns:
            if callee.get('resolved') and callee['resolved'] != callee['key']:
                targs = [tsub_ty(x, sub) for x in callee.get('resolved_targs', [])]
                cargs = [tsub_ty(x, sub) for x in callee.get('resolved_cargs', ())]
            fn = self.prog.fns[key]
            env = {n: t for n, t in zip(fn.get('generics') or [], targs)}
            env.update(zip(fn.get('cgenerics') or [], cargs))
            return self.call_fn(key, args, env)
        raise Unsupported('call to %s' % key)

    def call_value(self, fv, args):
        """call a closure / fn item with spread args"""
        p = None
        while isinstance(fv, Ptr) and fv.off is None:
            p = fv
            fv = self.load(fv)
        if isinstance(fv, self.models.PyFn):
            return fv.f(self, list(args))
        if isinstance(fv, FnItem):
            return self.call(fv.fn, list(args), fv.subst or {})
        if isinstance(fv, Agg) and fv.name.startswith('closure:'):
            key = fv.name[8:]
            fn = self.prog.fns.get(key)
            if fn is None:
                raise Unsupported('closure body %s' % key)
            byref = fn['locals'][1][0] == 'ref'
            tmp = None
            if byref:
                if p is None:
                    tmp = self.fresh_cell(fv, 'c')
                    p = Ptr(tmp)
                a0 = p
            else:
                a0 = fv
            return self.call_fn(key, [a0] + list(args), fv.meta or {})
        raise Unsupported('call of %r' % (fv,))

    # ---------------------------------------------------------------- loops
    def snapshot(self):
        self.tok = object()
        return (dict(self.mem), self.facts, self.nf, self.nsym, len(self.obls), len(self.events), self.depth,
                list(self.stack), getattr(self, 'cur_span', None), len(self.loops_done))

    def restore(self, s):
        self.tok = object()
        self.mem = dict(s[0])
        self.facts, self.nf, self.nsym = s[1], s[2], s[3]
        del self.obls[s[4]:]
        del self.events[s[5]:]
        self.depth = s[6]
        self.stack = list(s[7])
        self.cur_span = s[8]
        del self.loops_done[s[9]:]

    def handle_loop(self, fr, h, body):
        snap = None if self.spec else self.snapshot()
        tr = self.trial
        forks = 0
        while True:
            # constant trip count: unroll; conditions met on the way are decided by the enclosing context
            try:
                n = 0
                self.trial = None
                self.firstdecide = True
                while True:
                    out = self.run(fr, h, (h, body))
                    self.firstdecide = None
                    if out[0] == 'back':
                        n += 1
                        if n > (1 << 20 if self.spec else 64):
                            raise TooLong()
                        continue
                    self.trial = tr
                    return out
            except (Fork, TooLong) as e:
                self.firstdecide = None
                self.trial = tr
                if self.spec:
                    if isinstance(e, Fork):
                        raise
                    raise Unsupported('loop does not terminate within the bound')
                self.restore(snap)
                if isinstance(e, Fork) and forks < 8:
                    forks += 1
                    self.decide(e.cond)
                    snap = self.snapshot()
                    continue
            finally:
                self.firstdecide = None
                self.trial = tr
            import loops
            return loops.summarise(self, fr, h, body, snap)
