"""Transfer functions for the standard library, the numeric traits and the inner transforms."""
from fractions import Fraction
from poly import *
from facts import *
from values import *
import real as R

NOMODEL = object()
RANGE = 'core::ops::range::'
CPLX = 'num_complex::Complex'
ORD = 'core::cmp::Ordering'


def is_int(v): return isinstance(v, (int, Poly, Fraction)) and not isinstance(v, bool)


# ------------------------------------------------------------------ helpers
def as_slice(I, v):
    """slice pointer of a reference to a slice, Vec, array, Box or Arc of them"""
    for _ in range(6):
        if isinstance(v, Ptr):
            if v.is_slice():
                return v
            if v.off is not None:
                raise Unsupported('raw element pointer used as a slice')
            t = I.load(v)
            if isinstance(t, Arr):
                return Ptr(v.cell, v.path, 0, t.len)
            v = t
            continue
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
            continue
        break
    raise Unsupported('not a slice: %r' % (v,))


def elem(p, i):
    return Ptr(p.cell, p.path + (('i', p.off + i),))


def read(I, p, i):
    return I.arr_read(I.arr_at(p), p.off + i)


def write(I, p, i, v):
    I.set_arr(p, I.arr_write(I.arr_at(p), p.off + i, v))


def subslice(I, p, lo, hi, kind='bounds'):
    I.oblige(kind, ge(hi, lo), 'slice start past its end')
    I.oblige(kind, ge(p.len, hi), 'slice end out of range')
    return Ptr(p.cell, p.path, p.off + lo, hi - lo)


def range_bounds(I, r, n):
    nm = r.name
    if nm == RANGE + 'Range':
        return r.f[0], r.f[1]
    if nm == RANGE + 'RangeTo':
        return 0, r.f[0]
    if nm == RANGE + 'RangeFrom':
        return r.f[0], n
    if nm == RANGE + 'RangeFull':
        return 0, n
    if nm == RANGE + 'RangeInclusive':
        return r.f[0], r.f[1] + 1
    if nm == RANGE + 'RangeToInclusive':
        return 0, r.f[0] + 1
    raise Unsupported('index by %s' % nm)


def index(I, base, ix, kind='bounds'):
    p = as_slice(I, base)
    if is_int(ix):
        I.oblige(kind, ge(ix, 0) if isinstance(ix, Poly) else ix >= 0, 'negative index')
        I.oblige(kind, lt(ix, p.len), 'index %s out of range for length %s' % (pstr(ix), pstr(p.len)))
        return elem(p, ix)
    if isinstance(ix, Agg) and ix.name.startswith(RANGE):
        lo, hi = range_bounds(I, ix, p.len)
        return subslice(I, p, lo, hi, kind)
    raise Unsupported('index by %r' % (ix,))


def norm_int(I, n):
    if isinstance(n, Poly):
        m = I.facts.norm(n)
        if not isinstance(m, Poly):
            return m
    return n


def small(I, n):
    n = norm_int(I, n)
    return isinstance(n, int) and (I.spec or n <= 64)


def quant(I, p, n, f, what):
    """p[q] = f(q) for q < n, f evaluated on the state before"""
    if small(I, n):
        n = norm_int(I, n)
        vals = [f(i) for i in range(n)]
        a = I.arr_at(p)
        if a.lit is not None and not isinstance(p.off, Poly):
            l = a.lit if a.own is I.tok else list(a.lit)
            for i, v in enumerate(vals):
                if not (0 <= p.off + i < len(l)):
                    I.oblige('bounds', False, what)
                l[p.off + i] = v
            if l is not a.lit:
                n = Arr(lit=l, shape=a.shape, vec=a.vec)
                if I.spec and all(isinstance(x, int) for x in p.path):
                    n.own = I.tok
                I.set_arr(p, n)
            return
        for i, v in enumerate(vals):
            a = I.arr_write(a, p.off + i, v)
        I.set_arr(p, a)
        return
    nm, q = I.fresh_qvar()
    v = f(q)
    I.add_effect(p, EQuant([(nm, n)], p.off + q, v, what))


def new_vec(I, a):
    disown(a)
    return Arr(lit=a.lit, ver=a.ver, len_=a.len, shape=a.shape, vec=True)


def arr_slice_copy(I, p):
    """fresh Arr with the contents of slice p"""
    if small(I, p.len):
        n = norm_int(I, p.len)
        a = I.arr_at(p)
        vals = [I.arr_read(a, p.off + i) for i in range(n)]
        return Arr(lit=vals, shape=a.shape or (shape_of(vals[0]) if vals else None), vec=True)
    a = to_ver(I.arr_at(p))
    if I.shape:
        import loops
        return loops.any_arr(loops.arr_cls(a), p.len, loops.arr_shape(a), True)
    if p.off == 0 and p.len == a.len:
        return Arr(ver=a.ver, len_=a.len, shape=a.shape, vec=True)
    nm, q = I.fresh_qvar()
    base = Ver(None, Base('garb', 'uninit'))
    v = Ver(base, EQuant([(nm, p.len)], q, lazy(a.shape, a.ver, p.off + q), 'copy'))
    return Arr(ver=v, len_=p.len, shape=a.shape, vec=True)


def garbage(I, name):
    if I.shape:
        return T('any', 'L')
    return T('garb', name)


def ty0(targs):
    return targs[0] if targs else None


def zero_of(I, ty):
    if ty is None:
        raise Unsupported('zero of unknown type')
    if ty[0] == 'param':
        return TZERO
    if ty[0] == 'int':
        return 0
    if ty[0] == 'float':
        return R.ZERO
    if ty[0] == 'adt' and ty[1] == CPLX:
        z = zero_of(I, ty[2][0])
        return Agg(CPLX, 0, (z, z))
    if ty[0] == 'bool':
        return False
    raise Unsupported('zero of %s' % (ty,))


def one_of(I, ty):
    if ty[0] == 'param':
        return TONE
    if ty[0] == 'int':
        return 1
    if ty[0] == 'float':
        return R.ONE
    if ty[0] == 'adt' and ty[1] == CPLX:
        return Agg(CPLX, 0, (one_of(I, ty[2][0]), zero_of(I, ty[2][0])))
    raise Unsupported('one of %s' % (ty,))


def deref_val(I, v):
    for _ in range(6):
        if isinstance(v, Ptr) and v.off is None:
            v = I.load(v)
        elif isinstance(v, Ptr) and v.len is None:
            v = I.arr_read(I.arr_at(v), v.off)
        else:
            break
    return v


# ------------------------------------------------------------------ iterators
def it(kind, *f, meta=None):
    return Agg('it.' + kind, 0, f, meta)


def is_iter(v):
    return isinstance(v, Agg) and (v.name.startswith('it.') or v.name in (RANGE + 'Range', RANGE + 'RangeInclusive', RANGE + 'RangeFrom'))


def into_iter(I, v):
    if is_iter(v):
        return v
    if isinstance(v, Arr):        # Vec or array by value
        c = I.fresh_cell(v)
        return it('own', Ptr(c, (), 0, v.len))
    if isinstance(v, Ptr):
        if v.is_slice():
            return it('slice', v)
        if v.off is None:
            t = I.load(v)
            if isinstance(t, Arr):
                return it('slice', Ptr(v.cell, v.path, 0, t.len))
            if is_iter(t) or isinstance(t, Ptr) or (isinstance(t, Agg) and t.name in I.iter_adts()):
                return v
    if isinstance(v, Agg):
        if v.name == OPT:
            return it('opt', v)
        return v
    raise Unsupported('into_iter of %r' % (v,))


def sub(p, i):
    return Ptr(p.cell, p.path + (i,))


def nxt(I, p):
    """advance the iterator stored at p; returns Option"""
    v = I.load(p)
    if isinstance(v, Ptr):
        return nxt(I, v)
    if not isinstance(v, Agg):
        raise Unsupported('next on %r' % (v,))
    k = v.name
    if k == RANGE + 'Range':
        if not I.decide(lt(v.f[0], v.f[1])):
            return NONE
        I.store(p, Agg(k, 0, (v.f[0] + 1, v.f[1])))
        return some(v.f[0])
    if k == RANGE + 'RangeInclusive':
        s, e, done = v.f
        if done is True or not I.decide(ge(e, s)):
            return NONE
        I.store(p, Agg(k, 0, (s + 1, e, False)))
        return some(s)
    if k == RANGE + 'RangeFrom':
        I.store(p, Agg(k, 0, (v.f[0] + 1,)))
        return some(v.f[0])
    if not k.startswith('it.'):
        imp = I.prog.impl_ix.get(('core::iter::traits::iterator::Iterator', k))
        if imp:
            return I.call_fn(imp['items']['next'], [p], {})
        raise Unsupported('next on %s' % k)
    k = k[3:]
    if k in ('slice', 'own'):
        s = v.f[0]
        if not I.decide(ge(s.len, 1)):
            return NONE
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + 1, s.len - 1),), v.meta))
        return some(elem(s, 0) if k == 'slice' else read(I, s, 0))
    if k == 'chunks':
        s, n = v.f[:2]
        if v.meta == 'exact':
            if not I.decide(ge(s.len, n)):
                return NONE
            m = n
        else:
            if not I.decide(ge(s.len, 1)):
                return NONE
            m = n if I.decide(ge(s.len, n)) else s.len
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + m, s.len - m), n) + v.f[2:], v.meta))
        return some(Ptr(s.cell, s.path, s.off, m))
    if k == 'rchunks':
        s, n = v.f[:2]
        if v.meta == 'exact':
            if not I.decide(ge(s.len, n)):
                return NONE
            m = n
        else:
            if not I.decide(ge(s.len, 1)):
                return NONE
            m = n if I.decide(ge(s.len, n)) else s.len
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off, s.len - m), n) + v.f[2:], v.meta))
        return some(Ptr(s.cell, s.path, s.off + s.len - m, m))
    if k == 'windows':
        s, n = v.f
        if not I.decide(ge(s.len, n)):
            return NONE
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + 1, s.len - 1), n)))
        return some(Ptr(s.cell, s.path, s.off, n))
    if k == 'rev':
        return nxt_back(I, sub(p, 0))
    if k == 'zip':
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        b = nxt(I, sub(p, 1))
        if b.var == 0:
            return NONE
        return some(tup(a.f[0], b.f[0]))
    if k == 'enum':
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        i = I.load(p).f[1]
        I.store(sub(p, 1), i + 1)
        return some(tup(i, a.f[0]))
    if k == 'map':
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        return some(I.call_value(sub(p, 1), [a.f[0]]))
    if k == 'inspect':
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        I.call_value(sub(p, 1), [Ptr(I.fresh_cell(a.f[0]))])
        return a
    if k == 'cloned':
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        return some(deref_val(I, a.f[0]))
    if k == 'take':
        n = v.f[1]
        if not I.decide(ge(n, 1)):
            return NONE
        I.store(sub(p, 1), n - 1)
        return nxt(I, sub(p, 0))
    if k == 'skip':
        n = v.f[1]
        if n == 0 or not I.decide(ge(n, 1)):
            return nxt(I, sub(p, 0))
        I.store(sub(p, 1), 0)
        nth(I, sub(p, 0), n - 1)
        return nxt(I, sub(p, 0))
    if k == 'stepby':
        # fields: inner, step, first_take
        if v.f[2] is True:
            I.store(sub(p, 2), False)
            return nxt(I, sub(p, 0))
        return nth(I, sub(p, 0), v.f[1] - 1)
    if k == 'steprange':      # (start, count, step)
        s, c, st = v.f
        if not I.decide(ge(c, 1)):
            return NONE
        I.store(p, Agg(v.name, 0, (s + st, c - 1, st)))
        return some(s)
    if k == 'chain':
        if v.f[2] is False:
            a = nxt(I, sub(p, 0))
            if a.var == 1:
                return a
            I.store(sub(p, 2), True)
        return nxt(I, sub(p, 1))
    if k in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while'):
        while True:
            st = I.load(p)
            if k in ('take_while', 'map_while') and st.f[2] is True:
                return NONE
            a = nxt(I, sub(p, 0))
            if a.var == 0:
                return NONE
            if k in ('filter_map', 'map_while'):
                r = I.call_value(sub(p, 1), [a.f[0]])
                if r.var == 1:
                    return r
                if k == 'map_while':
                    I.store(sub(p, 2), True)
                    return NONE
                continue
            if k == 'skip_while' and st.f[2] is True:
                return a
            b = I.decide(I.call_value(sub(p, 1), [Ptr(I.fresh_cell(a.f[0]))]))
            if k == 'filter':
                if b:
                    return a
            elif k == 'take_while':
                if b:
                    return a
                I.store(sub(p, 2), True)
                return NONE
            else:
                if not b:
                    I.store(sub(p, 2), True)
                    return a
    if k == 'fuse':
        return nxt(I, sub(p, 0))
    if k == 'cycle':
        a = nxt(I, sub(p, 0))
        if a.var == 1:
            return a
        I.store(sub(p, 0), v.f[1])
        return nxt(I, sub(p, 0))
    if k == 'peek':
        if isinstance(v.f[1], Agg) and v.f[1].name == OPT:
            I.store(sub(p, 1), UNIT)
            return v.f[1]
        return nxt(I, sub(p, 0))
    if k == 'repeat':
        return some(v.f[0])
    if k == 'opt':
        I.store(sub(p, 0), NONE)
        return v.f[0]
    if k == 'succ':         # successors(first, f)
        cur = v.f[0]
        if cur.var == 0:
            return NONE
        n = I.call_value(sub(p, 1), [Ptr(I.fresh_cell(cur.f[0]))])
        I.store(sub(p, 0), n)
        return cur
    if k == 'fromfn':
        return I.call_value(sub(p, 0), [])
    if k == 'repwith':
        return some(I.call_value(sub(p, 0), []))
    if k == 'flat':         # (outer, fn or None, front: Option<iter>)
        while True:
            st = I.load(p)
            if st.f[2].var == 1:
                a = nxt(I, Ptr(p.cell, p.path + (2, 0)))
                if a.var == 1:
                    return a
                I.store(sub(p, 2), NONE)
            o = nxt(I, sub(p, 0))
            if o.var == 0:
                return NONE
            x = o.f[0]
            if v.f[1] is not None:
                x = I.call_value(sub(p, 1), [x])
            I.store(sub(p, 2), some(into_iter(I, x)))
    if k == 'scan':         # (inner, state, fn)
        a = nxt(I, sub(p, 0))
        if a.var == 0:
            return NONE
        return I.call_value(sub(p, 2), [sub(p, 1), a.f[0]])
    if k == 'interleave':
        raise Unsupported('interleave')
    raise Unsupported('next on iterator %s' % k)


def nth(I, p, n):
    v = I.load(p)
    if isinstance(v, Ptr) and v.off is None:
        return nth(I, v, n)
    if isinstance(v, Agg):
        if v.name == RANGE + 'Range':
            if not I.decide(lt(v.f[0] + n, v.f[1])):
                I.store(p, Agg(v.name, 0, (v.f[1], v.f[1])))
                return NONE
            I.store(p, Agg(v.name, 0, (v.f[0] + n + 1, v.f[1])))
            return some(v.f[0] + n)
        if v.name == RANGE + 'RangeFrom':
            I.store(p, Agg(v.name, 0, (v.f[0] + n + 1,)))
            return some(v.f[0] + n)
        if v.name in ('it.slice', 'it.own'):
            s = v.f[0]
            if not I.decide(lt(n, s.len)):
                I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + s.len, 0),), v.meta))
                return NONE
            I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + n + 1, s.len - n - 1),), v.meta))
            return some(elem(s, n) if v.name == 'it.slice' else read(I, s, n))
        if v.name == 'it.chunks' and v.meta == 'exact':
            s, c = v.f[:2]
            if not I.decide(ge(s.len, (n + 1) * c)):
                I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + s.len, 0), c) + v.f[2:], v.meta))
                return NONE
            I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + (n + 1) * c, s.len - (n + 1) * c), c) + v.f[2:], v.meta))
            return some(Ptr(s.cell, s.path, s.off + n * c, c))
        if v.name == 'it.rev':
            q = sub(p, 0)
            w = I.load(q)
            if isinstance(w, Agg) and w.name == RANGE + 'Range':
                if not I.decide(lt(w.f[0] + n, w.f[1])):
                    I.store(q, Agg(w.name, 0, (w.f[0], w.f[0])))
                    return NONE
                I.store(q, Agg(w.name, 0, (w.f[0], w.f[1] - n - 1)))
                return some(w.f[1] - n - 1)
            if isinstance(w, Agg) and w.name == 'it.slice':
                s = w.f[0]
                if not I.decide(lt(n, s.len)):
                    I.store(q, Agg(w.name, 0, (Ptr(s.cell, s.path, s.off, 0),), w.meta))
                    return NONE
                I.store(q, Agg(w.name, 0, (Ptr(s.cell, s.path, s.off, s.len - n - 1),), w.meta))
                return some(elem(s, s.len - n - 1))
        if v.name == 'it.cloned':
            r = nth(I, sub(p, 0), n)
            return r if r.var == 0 else some(deref_val(I, r.f[0]))
        if v.name == 'it.enum':
            i = v.f[1]
            r = nth(I, sub(p, 0), n)
            if r.var == 0:
                return r
            I.store(sub(p, 1), i + n + 1)
            return some(tup(i + n, r.f[0]))
    n = norm_int(I, n)
    if isinstance(n, Poly):
        raise Unsupported('nth with a symbolic count')
    r = NONE
    for _ in range(n + 1):
        r = nxt(I, p)
        if r.var == 0:
            return r
    return r


def itlen(I, v):
    if isinstance(v, Ptr):
        return itlen(I, I.load(v))
    k = v.name
    if k == RANGE + 'Range':
        d = v.f[1] - v.f[0]
        return d if I.decide(ge(d, 0)) else 0
    if k == RANGE + 'RangeInclusive':
        d = v.f[1] - v.f[0] + 1
        return d if I.decide(ge(d, 0)) else 0
    k = k[3:]
    if k in ('slice', 'own'):
        return v.f[0].len
    if k in ('chunks', 'rchunks'):
        if v.meta == 'exact':
            return I.floordiv(v.f[0].len, v.f[1])
        return I.floordiv(v.f[0].len + v.f[1] - 1, v.f[1])
    if k == 'windows':
        d = v.f[0].len - v.f[1] + 1
        return d if I.decide(ge(d, 0)) else 0
    if k in ('rev', 'map', 'cloned', 'enum', 'inspect', 'fuse'):
        return itlen(I, v.f[0])
    if k == 'zip':
        a, b = itlen(I, v.f[0]), itlen(I, v.f[1])
        return a if I.decide(ge(b, a)) else b
    if k == 'take':
        a, b = itlen(I, v.f[0]), v.f[1]
        return a if I.decide(ge(b, a)) else b
    if k == 'skip':
        a, b = itlen(I, v.f[0]), v.f[1]
        return a - b if I.decide(ge(a, b)) else 0
    if k == 'steprange':
        return v.f[1]
    if k == 'stepby':
        n = itlen(I, v.f[0])
        if v.f[2] is True:
            return I.floordiv(n + v.f[1] - 1, v.f[1])
        return I.floordiv(n, v.f[1])
    if k == 'chain':
        return (itlen(I, v.f[0]) if v.f[2] is False else 0) + itlen(I, v.f[1])
    raise Unsupported('length of iterator %s' % k)


def nxt_back(I, p):
    v = I.load(p)
    if isinstance(v, Ptr):
        return nxt_back(I, v)
    if not isinstance(v, Agg):
        raise Unsupported('next_back on %r' % (v,))
    k = v.name
    if k == RANGE + 'Range':
        if not I.decide(lt(v.f[0], v.f[1])):
            return NONE
        I.store(p, Agg(k, 0, (v.f[0], v.f[1] - 1)))
        return some(v.f[1] - 1)
    if k == RANGE + 'RangeInclusive':
        s, e, done = v.f
        if done is True or not I.decide(ge(e, s)):
            return NONE
        if is_int(e) and e == 0:
            I.store(p, Agg(k, 0, (s, e, True)))
        else:
            # e - 1 could pass below s == e == 0: keep an explicit done flag through the comparison above
            I.store(p, Agg(k, 0, (s, e - 1, False)))
        return some(e)
    if not k.startswith('it.'):
        imp = I.prog.impl_ix.get(('core::iter::traits::double_ended::DoubleEndedIterator', k))
        if imp:
            return I.call_fn(imp['items']['next_back'], [p], {})
        raise Unsupported('next_back on %s' % k)
    k = k[3:]
    if k in ('slice', 'own'):
        s = v.f[0]
        if not I.decide(ge(s.len, 1)):
            return NONE
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off, s.len - 1),), v.meta))
        return some(elem(s, s.len - 1) if k == 'slice' else read(I, s, s.len - 1))
    if k == 'chunks':
        s, n = v.f[:2]
        if v.meta != 'exact':
            if not I.decide(ge(s.len, 1)):
                return NONE
            r = I.rem(s.len, n)
            m = n if I.decide(eq(r, 0)) else r
        else:
            if not I.decide(ge(s.len, n)):
                return NONE
            m = n
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off, s.len - m), n) + v.f[2:], v.meta))
        return some(Ptr(s.cell, s.path, s.off + s.len - m, m))
    if k == 'rchunks' and v.meta == 'exact':
        s, n = v.f[:2]
        if not I.decide(ge(s.len, n)):
            return NONE
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off + n, s.len - n), n) + v.f[2:], v.meta))
        return some(Ptr(s.cell, s.path, s.off, n))
    if k == 'windows':
        s, n = v.f
        if not I.decide(ge(s.len, n)):
            return NONE
        I.store(p, Agg(v.name, 0, (Ptr(s.cell, s.path, s.off, s.len - 1), n)))
        return some(Ptr(s.cell, s.path, s.off + s.len - n, n))
    if k == 'rev':
        return nxt(I, sub(p, 0))
    if k == 'map':
        a = nxt_back(I, sub(p, 0))
        if a.var == 0:
            return NONE
        return some(I.call_value(sub(p, 1), [a.f[0]]))
    if k == 'cloned':
        a = nxt_back(I, sub(p, 0))
        return a if a.var == 0 else some(deref_val(I, a.f[0]))
    if k == 'enum':
        n = itlen(I, I.load(p).f[0])
        a = nxt_back(I, sub(p, 0))
        if a.var == 0:
            return NONE
        return some(tup(v.f[1] + n - 1, a.f[0]))
    if k == 'zip':
        a, b = itlen(I, v.f[0]), itlen(I, v.f[1])
        d = norm_int(I, a - b)
        if d != 0:
            if isinstance(d, Poly):
                if not I.decide(eq(a, b)):
                    raise Unsupported('reversed zip of symbolic unequal lengths')
            elif d > 0:
                for _ in range(d):
                    nxt_back(I, sub(p, 0))
            else:
                for _ in range(-d):
                    nxt_back(I, sub(p, 1))
        x = nxt_back(I, sub(p, 0))
        if x.var == 0:
            return NONE
        y = nxt_back(I, sub(p, 1))
        if y.var == 0:
            return NONE
        return some(tup(x.f[0], y.f[0]))
    if k == 'steprange':
        s, c, st = v.f
        if not I.decide(ge(c, 1)):
            return NONE
        I.store(p, Agg(v.name, 0, (s, c - 1, st)))
        return some(s + (c - 1) * st)
    if k == 'skip':
        if I.decide(ge(itlen(I, v.f[0]), v.f[1] + 1)):
            return nxt_back(I, sub(p, 0))
        return NONE
    if k == 'take':
        n = itlen(I, v.f[0])
        d = norm_int(I, n - v.f[1])
        if isinstance(d, Poly):
            if I.decide(ge(0, d)):
                d = 0
        if isinstance(d, Poly):
            inner = I.load(sub(p, 0))
            if isinstance(inner, Agg) and inner.name == RANGE + 'Range':
                I.store(sub(p, 0), Agg(inner.name, 0, (inner.f[0], inner.f[0] + v.f[1])))
            elif isinstance(inner, Agg) and inner.name == 'it.slice':
                s = inner.f[0]
                I.store(sub(p, 0), Agg(inner.name, 0, (Ptr(s.cell, s.path, s.off, v.f[1]),), inner.meta))
            else:
                raise Unsupported('reversed take')
        else:
            for _ in range(max(0, d)):
                nxt_back(I, sub(p, 0))
        if not I.decide(ge(v.f[1], 1)):
            return NONE
        I.store(sub(p, 1), v.f[1] - 1)
        return nxt_back(I, sub(p, 0))
    if k == 'chain':
        a = nxt_back(I, sub(p, 1))
        if a.var == 1:
            return a
        if v.f[2] is False:
            return nxt_back(I, sub(p, 0))
        return NONE
    raise Unsupported('next_back on iterator %s' % k)


def prelude(I, name, args):
    return I.call_fn('prelude::' + name, args, {})


def step_by(I, v, n):
    I.oblige('call', ge(n, 1) if isinstance(n, Poly) else n >= 1, 'step_by(0)')
    if isinstance(v, Agg) and v.name == RANGE + 'Range':
        d = v.f[1] - v.f[0]
        if not I.decide(ge(d, 1)):
            return it('steprange', v.f[0], 0, n)
        return it('steprange', v.f[0], I.floordiv(d + n - 1, n), n)
    return it('stepby', v, n, True)


def addf(I, a, b):
    return arith(I, 'add', deref_val(I, a), deref_val(I, b))


def sum_like(I, itv, op, ty):
    init = zero_of(I, ty) if op == 'add' else one_of(I, ty)
    return prelude(I, 'fold', [itv, init, PyFn(lambda I2, xs: arith(I2, op, deref_val(I2, xs[0]), deref_val(I2, xs[1])))])


class PyFn(FnItem):
    def __init__(self, f):
        self.f = f
        self.fn = None
        self.subst = None


def ITER(I, name, a, targs, callee):
    if name == 'next':
        return nxt(I, a[0])
    if name == 'next_back':
        return nxt_back(I, a[0])
    if name == 'nth':
        return nth(I, a[0], a[1])
    if name == 'by_ref':
        return a[0]
    v = a[0]
    if name == 'map':
        return it('map', v, a[1])
    if name == 'zip':
        return it('zip', v, into_iter(I, a[1]))
    if name == 'enumerate':
        return it('enum', v, 0)
    if name == 'rev':
        return it('rev', v)
    if name in ('cloned', 'copied'):
        return it('cloned', v)
    if name == 'take':
        return it('take', v, a[1])
    if name == 'skip':
        return it('skip', v, a[1])
    if name == 'step_by':
        return step_by(I, v, a[1])
    if name == 'chain':
        return it('chain', v, into_iter(I, a[1]), False)
    if name in ('filter', 'filter_map'):
        return it(name, v, a[1])
    if name in ('take_while', 'map_while', 'skip_while'):
        return it(name, v, a[1], False)
    if name == 'flat_map':
        return it('flat', v, a[1], NONE)
    if name == 'flatten':
        return it('flat', v, None, NONE)
    if name == 'scan':
        return it('scan', v, a[1], a[2])
    if name in ('nth_back', 'rfold', 'rfind', 'try_for_each', 'try_fold', 'rposition', 'max_by_key', 'min_by_key', 'partition', 'unzip', 'eq', 'find_map',
                'advance_by', 'rev_for_each', 'sum_by', 'min_by', 'max_by', 'is_sorted', 'collect_into'):
        if name == 'nth_back':
            for _ in range(norm_int(I, a[1])):
                if nxt_back(I, a[0]).var == 0:
                    return NONE
            return nxt_back(I, a[0])
        if name == 'rfold':
            return prelude(I, 'fold', [it('rev', v), a[1], a[2]])
        if name == 'rfind':
            while True:
                o = nxt_back(I, v)
                if o.var == 0:
                    return NONE
                if I.decide(I.call_value(a[1], [Ptr(I.fresh_cell(o.f[0]))])):
                    return o
        if name == 'find_map':
            while True:
                o = nxt(I, v)
                if o.var == 0:
                    return NONE
                r = I.call_value(a[1], [o.f[0]])
                if r.var == 1:
                    return r
        if name == 'rposition':
            n = itlen(I, deref_val(I, v))
            while True:
                o = nxt_back(I, v)
                if o.var == 0:
                    return NONE
                n = n - 1
                if I.decide(I.call_value(a[1], [o.f[0]])):
                    return some(n)
        if name in ('try_for_each', 'try_fold'):
            acc = a[1] if name == 'try_fold' else UNIT
            f = a[2] if name == 'try_fold' else a[1]
            fp = Ptr(I.fresh_cell(f))
            ty = None
            last = None
            while True:
                o = nxt(I, v)
                if o.var == 0:
                    if last is None:
                        raise Unsupported('%s over an empty iterator' % name)
                    return last
                last = I.call_value(fp, [acc, o.f[0]] if name == 'try_fold' else [o.f[0]])
                good = last.var == (1 if last.name == OPT else 0)
                if not good:
                    return last
                acc = last.f[0]
        if name == 'unzip':
            xs = prelude(I, 'collect', [v])
            if xs.lit is not None:
                return tup(Arr(lit=[x.f[0] for x in xs.lit], vec=True), Arr(lit=[x.f[1] for x in xs.lit], vec=True))
        return NOMODEL
    if name == 'inspect':
        return it('inspect', v, a[1])
    if name == 'fuse':
        return it('fuse', v)
    if name == 'cycle':
        return it('cycle', v, v)
    if name == 'peekable':
        return it('peek', v, UNIT)
    if name == 'for_each':
        return prelude(I, 'for_each', [v, a[1]])
    if name == 'fold':
        return prelude(I, 'fold', [v, a[1], a[2]])
    if name == 'reduce':
        return prelude(I, 'reduce_with', [v, a[1]])
    if name == 'count':
        return prelude(I, 'count', [v])
    if name == 'last':
        return prelude(I, 'last', [v])
    if name in ('all', 'any', 'find', 'position'):
        return prelude(I, name, [v, a[1]])
    if name in ('sum', 'product'):
        ty = targs[1] if len(targs) > 1 else None
        return sum_like(I, v, 'add' if name == 'sum' else 'mul', ty)
    if name in ('max', 'min'):
        return prelude(I, 'reduce_with', [v, PyFn(lambda I2, xs: maxmin(I2, name, deref_val(I2, xs[0]), deref_val(I2, xs[1])))])
    if name == 'collect':
        r = prelude(I, 'collect', [v])
        ty = targs[1] if len(targs) > 1 else None
        return from_vec(I, r, ty)
    if name in ('len', 'size_hint'):
        n = itlen(I, deref_val(I, v))
        return n if name == 'len' else tup(n, some(n))
    return NOMODEL


def from_vec(I, r, ty):
    if ty and ty[0] == 'adt':
        if ty[1].endswith('::Vec'):
            return r
        if ty[1].endswith('::Box') or ty[1].endswith('::Arc') or ty[1].endswith('::Rc'):
            c = I.fresh_cell(r)
            return Ptr(c, (), 0, r.len)
    raise Unsupported('collect into %s' % (ty,))


# ------------------------------------------------------------------ arithmetic through traits
OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr'}
BIN = {'add': 'AddWithOverflow', 'sub': 'SubWithOverflow', 'mul': 'MulWithOverflow', 'div': 'Div', 'rem': 'Rem', 'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


def arith(I, op, a, b, ty=None):
    if isinstance(b, Agg) and b.name == 'sru':
        n = b.f[0]
        return I.floordiv(a, n) if op == 'div' else I.rem(a, n)
    if isinstance(a, Agg) or isinstance(b, Agg):
        return cplx(I, op, a, b)
    if isinstance(a, T) or isinstance(b, T):
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('mixed sample arithmetic')
        if op == 'add':
            return tadd(a, b)
        if op == 'sub':
            return tsub(a, b)
        if op == 'mul':
            return tmul(a, b)
        if op == 'div':
            if I.shape:
                return tmul(a, b)
            if b.op == 'const' and R.constant(b.a[0]):
                return tmul(a, tconst(R.rdiv(R.ONE, b.a[0])))
            return T('div', a, b)
        raise Unsupported('sample %s' % op)
    if I.shape and (isinstance(a, Poison) or isinstance(b, Poison)):
        return Poison('float')
    if isinstance(a, R.Real) or isinstance(b, R.Real):
        return I.realop(op.capitalize(), a, b)
    if is_int(a) and is_int(b) or isinstance(a, (bool, Cond)):
        if op in ('div', 'rem'):
            I.oblige('div0', ne(b, 0) if isinstance(b, Poly) else b != 0)
        r = I.binop(BIN[op], a, b, ty)
        if isinstance(r, Agg) and op in ('add', 'sub', 'mul'):
            if r.f[1] is not False:
                c = r.f[1]
                I.oblige('overflow_' + op.capitalize(), (not c) if isinstance(c, bool) else c.neg())
            return r.f[0]
        return r
    raise Unsupported('%s on %r, %r' % (op, a, b))


def cplx(I, op, a, b):
    if isinstance(a, Agg) and a.name == CPLX:
        ar, ai = a.f
        if isinstance(b, Agg) and b.name == CPLX:
            br, bi = b.f
            if op in ('add', 'sub'):
                return Agg(CPLX, 0, (arith(I, op, ar, br), arith(I, op, ai, bi)))
            if op == 'mul':
                return Agg(CPLX, 0, (arith(I, 'sub', arith(I, 'mul', ar, br), arith(I, 'mul', ai, bi)),
                                     arith(I, 'add', arith(I, 'mul', ar, bi), arith(I, 'mul', ai, br))))
        else:
            if op in ('mul', 'div'):
                return Agg(CPLX, 0, (arith(I, op, ar, b), arith(I, op, ai, b)))
            if op in ('add', 'sub'):
                return Agg(CPLX, 0, (arith(I, op, ar, b), ai))
    raise Unsupported('complex %s' % op)


def neg(I, a):
    if isinstance(a, T):
        return tneg(a)
    if isinstance(a, R.Real):
        return R.rneg(a)
    if is_int(a):
        return -a
    if isinstance(a, Agg) and a.name == CPLX:
        return Agg(CPLX, 0, (neg(I, a.f[0]), neg(I, a.f[1])))
    raise Unsupported('neg')


def maxmin(I, name, a, b):
    if isinstance(a, T) or isinstance(b, T):
        return tcompare(I, name)
    if isinstance(a, R.Real):
        ge_ = I.realop('Ge', a, b)
    else:
        c = I.binop('Ge', a, b)
        if I.shape and not I.exactmax and isinstance(c, Cond) and c.level() == 0:
            ge_ = I.facts.decide(c)
            if ge_ is None:
                return joined(I, name, a, b)
        else:
            ge_ = I.decide(c)
    return (a if ge_ else b) if name == 'max' else (b if ge_ else a)


_joined = {}


def joined(I, name, a, b):
    """max / min of two parameter expressions as one symbol with its defining inequalities (no case split)"""
    k = (name, frozenset((pstr(a), pstr(b))))
    nm = _joined.get(k)
    if nm is None:
        nm = _joined[k] = '%s%d' % (name, len(_joined))
    m = sym(nm, 0)
    if name == 'max':
        I.facts = I.facts.add(ge(m, a), ge(m, b))
    else:
        I.facts = I.facts.add(ge(a, m), ge(b, m))
    I.joins = True
    return m


def tcompare(I, name):
    I.events.append(('tbranch', I.fname(), I.site(), name))
    raise Unsupported('comparison of samples (%s)' % name)


def compare(I, name, a, b):
    a, b = deref_val(I, a), deref_val(I, b)
    if isinstance(a, T) or isinstance(b, T):
        return tcompare(I, name)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.name == ORD:
            x, y = a.var, b.var
            return {'eq': x == y, 'ne': x != y}.get(name, NOMODEL)
        if name in ('eq', 'ne') and a.name == b.name:
            if a.var != b.var:
                return name == 'ne'
            r = True
            for x, y in zip(a.f, b.f):
                if not I.decide(compare(I, 'eq', x, y)):
                    r = False
                    break
            return r if name == 'eq' else not r
        return NOMODEL
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.is_slice():
        raise Unsupported('slice comparison')
    if isinstance(a, R.Real):
        return I.realop(name.capitalize(), a, b)
    if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
        return I.binop(name.capitalize(), a, b)
    if is_int(a) and is_int(b):
        if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return I.binop(name.capitalize(), a, b)
        if name in ('cmp', 'partial_cmp'):
            r = I.binop('Cmp', a, b)
            return r if name == 'cmp' else some(r)
    raise Unsupported('compare %r %r' % (a, b))


# ------------------------------------------------------------------ inner transforms
_cas = {}


def cas(k, n, h):
    f = Fraction(k * n % h, h)
    r = _cas.get(f)
    if r is None:
        r = _cas[f] = R.radd(R.cos_phase(f), R.sin_phase(f))
    return r


class Group:
    """the inputs of one application of an inner transform"""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


def inner_chunk_spec(I, vals, h):
    if h == 1:
        return list(vals)
    g = Group(vals)
    return [T('dhtk', g, k) for k in range(h)]


def inner_call(I, o, name, a):
    h = o.len
    I.events.append(('inner', I.fname(), I.site(), name))
    if name == 'process':
        buf = as_slice(I, a[1])
        out, inp, scratch, need = buf, buf, None, 0
    elif name == 'process_with_scratch':
        buf = as_slice(I, a[1])
        scratch = as_slice(I, a[2])
        out, inp, need = buf, buf, o.sin
    else:
        inp, out, scratch = as_slice(I, a[1]), as_slice(I, a[2]), as_slice(I, a[3])
        need = o.sout
    if I.spec and h == 0:
        return UNIT
    if not I.spec and I.facts.decide(ge(h, 1)) is not True:
        if not I.decide(ge(h, 1)):
            return UNIT
    I.oblige('inner', ge(inp.len, h), 'inner %s: buffer of %s elements is shorter than the inner length %s' % (name, pstr(inp.len), pstr(h)))
    if out is not inp:
        I.oblige('inner', eq(out.len, inp.len), 'inner %s: input has %s elements, output %s' % (name, pstr(inp.len), pstr(out.len)))
    if scratch is not None:
        I.oblige('inner', ge(scratch.len, need), 'inner %s: scratch of %s elements, %s required' % (name, pstr(scratch.len), pstr(need)))
    q = I.floordiv(inp.len, h)
    I.oblige('inner', eq(q * h, inp.len), 'inner %s: buffer of %s elements is not a multiple of the inner length %s' % (name, pstr(inp.len), pstr(h)))
    if I.spec or (isinstance(h, int) and isinstance(q, int) and h * q <= 64):
        for c in range(q):
            vals = [read(I, inp, c * h + i) for i in range(h)]
            outs = inner_chunk_spec(I, vals, h)
            quant(I, Ptr(out.cell, out.path, out.off + c * h, h), h, lambda i: outs[i], 'inner')
    elif I.shape:
        I.set_arr(out, I.weak(I.arr_at(out), T('any', 'L')))
    else:
        a_ = to_ver(I.arr_at(inp))
        I.set_arr(inp, a_)
        nq, vq = I.fresh_qvar()
        nr, vr = I.fresh_qvar()
        nj, vj = I.fresh_qvar()
        body = lazy('T', a_.ver, inp.off + vq * h + vj)
        val = T('sum', nj, h, R.radd(R.cos_phase(vj * vr * _inv(h)), R.sin_phase(vj * vr * _inv(h))), body)
        I.add_effect(out, EQuant([(nq, q), (nr, h)], out.off + vq * h + vr, val, 'inner'))
    I.nsym += 1
    g = 'inner scratch at %s' % I.site()
    if out is not inp:
        quant(I, inp, inp.len, lambda i: garbage(I, 'consumed inner input at %s' % I.site()), 'garb')
    if scratch is not None:
        quant(I, scratch, scratch.len, lambda i: garbage(I, g), 'garb')
    return UNIT


def _inv(h):
    if isinstance(h, Poly):
        if len(h.t) != 1:
            raise Unsupported('inverse of a sum')
        (m, c), = h.t.items()
        return Poly({tuple((s, -e) for s, e in m): Fraction(1) / c})
    return Fraction(1, h)


def transpose(I, a):
    inp, out, w, h = as_slice(I, a[0]), as_slice(I, a[1]), a[2], a[3]
    I.oblige('call', eq(inp.len, w * h), 'transpose: input length')
    I.oblige('call', eq(out.len, w * h), 'transpose: output length')
    if I.spec or (isinstance(w, int) and isinstance(h, int) and w * h <= 64):
        vals = {}
        for y in range(h):
            for x in range(w):
                vals[x * h + y] = read(I, inp, y * w + x)
        quant(I, out, w * h, lambda i: vals[i], 'transpose')
    elif I.shape:
        I.set_arr(out, I.weak(I.arr_at(out), I.any_of(I.arr_at(inp))))
    else:
        a_ = to_ver(I.arr_at(inp))
        I.set_arr(inp, a_)
        nx, vx = I.fresh_qvar()
        ny, vy = I.fresh_qvar()
        I.add_effect(out, EQuant([(nx, w), (ny, h)], out.off + vx * h + vy, lazy(a_.shape, a_.ver, inp.off + vy * w + vx), 'transpose'))
    return UNIT


def prime(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def ext_gcd(a, b):
    s, t, r = (0, 1), (1, 0), (b, a)
    while r[0] != 0:
        q = tdiv(r[1], r[0])
        r = (r[1] - q * r[0], r[0])
        s = (s[1] - q * s[0], s[0])
        t = (t[1] - q * t[0], t[0])
    if r[1] >= 0:
        return r[1], s[1], t[1]
    return -r[1], -s[1], -t[1]


# ------------------------------------------------------------------ slices, vectors, integers, floats
def SLICE(I, name, a, targs, callee):
    p = as_slice(I, a[0])
    if name == 'len':
        return p.len
    if name == 'is_empty':
        return I.binop('Eq', p.len, 0)
    if name in ('split_at', 'split_at_mut', 'split_at_unchecked', 'split_at_mut_unchecked'):
        I.oblige('unchecked' if 'unchecked' in name else 'bounds', ge(p.len, a[1]), '%s: mid %s > len %s' % (name, pstr(a[1]), pstr(p.len)))
        return tup(Ptr(p.cell, p.path, p.off, a[1]), Ptr(p.cell, p.path, p.off + a[1], p.len - a[1]))
    if name in ('split_at_checked', 'split_at_mut_checked'):
        if not I.decide(ge(p.len, a[1])):
            return NONE
        return some(tup(Ptr(p.cell, p.path, p.off, a[1]), Ptr(p.cell, p.path, p.off + a[1], p.len - a[1])))
    if name in ('split_first', 'split_first_mut'):
        if not I.decide(ge(p.len, 1)):
            return NONE
        return some(tup(elem(p, 0), Ptr(p.cell, p.path, p.off + 1, p.len - 1)))
    if name in ('split_last', 'split_last_mut'):
        if not I.decide(ge(p.len, 1)):
            return NONE
        return some(tup(elem(p, p.len - 1), Ptr(p.cell, p.path, p.off, p.len - 1)))
    if name in ('first', 'first_mut', 'last', 'last_mut'):
        if not I.decide(ge(p.len, 1)):
            return NONE
        return some(elem(p, 0 if 'first' in name else p.len - 1))
    if name in ('iter', 'iter_mut'):
        return it('slice', p)
    if name in ('chunks_exact', 'chunks_exact_mut', 'rchunks_exact', 'rchunks_exact_mut', 'chunks', 'chunks_mut', 'rchunks', 'rchunks_mut'):
        n = a[1]
        I.oblige('call', ge(n, 1) if isinstance(n, Poly) else n >= 1, '%s(0)' % name)
        k = 'rchunks' if name[0] == 'r' else 'chunks'
        if 'exact' in name:
            q = I.floordiv(p.len, n)
            ln = q * n
            off = p.off + (p.len - ln if k == 'rchunks' else 0)
            # keep the whole slice: next() stops when fewer than n remain
            s = Ptr(p.cell, p.path, off, ln) if isinstance(q, int) or pdiv_exact(p.len, n) is not None or I.spec else Ptr(p.cell, p.path, p.off, p.len)
            rem = Ptr(p.cell, p.path, p.off if k == 'rchunks' else p.off + ln, p.len - ln)
            return it(k, s, n, rem, meta='exact')
        return it(k, p, n, meta='any')
    if name in ('first_chunk', 'last_chunk', 'first_chunk_mut', 'last_chunk_mut', 'split_first_chunk', 'split_last_chunk',
                'split_first_chunk_mut', 'split_last_chunk_mut', 'as_array', 'as_mut_array'):
        n = next((t[1] for t in targs if t and t[0] == 'constval'), None)
        if n is None:
            raise Unsupported(name)
        if not I.decide(I.binop('Eq' if 'array' in name else 'Ge', p.len, n)):
            return NONE
        off = p.off + (p.len - n) if 'last' in name else p.off
        arr = Ptr(p.cell, p.path, off, n)
        if not name.startswith('split'):
            return some(arr)
        rest = Ptr(p.cell, p.path, p.off if 'last' in name else p.off + n, p.len - n)
        return some(tup(rest, arr) if 'last' in name else tup(arr, rest))
    if name in ('as_chunks', 'as_chunks_mut'):
        raise Unsupported(name)
    if name in ('contains', 'starts_with', 'ends_with', 'sort', 'sort_unstable', 'dedup', 'binary_search'):
        A = I.arr_at(p)
        if A.lit is None or not small(I, p.len) or isinstance(p.off, Poly):
            raise Unsupported(name)
        n = norm_int(I, p.len)
        xs = A.lit[p.off:p.off + n]
        if any(isinstance(x, T) for x in xs):
            return tcompare(I, name)
        if name == 'contains':
            y = deref_val(I, a[1])
            return any(I.decide(I.binop('Eq', x, y)) for x in xs)
        if name.startswith('sort') and all(isinstance(x, int) for x in xs):
            ys = sorted(xs)
            for i in range(n):
                write(I, p, i, ys[i])
            return UNIT
        raise Unsupported(name)
    if name == 'concat':
        raise Unsupported(name)
    if name == 'fill_with':
        f = Ptr(I.fresh_cell(a[1]))
        if not small(I, p.len):
            raise Unsupported(name)
        for i in range(norm_int(I, p.len)):
            write(I, p, i, I.call_value(f, []))
        return UNIT
    if name == 'repeat' and small(I, p.len) and not isinstance(a[1], Poly):
        l = [read(I, p, i) for i in range(norm_int(I, p.len))] * a[1]
        return Arr(lit=l, vec=True, shape=shape_of(l[0]) if l else None)
    if name == 'as_ptr_range' or name == 'as_mut_ptr_range':
        return Agg(RANGE + 'Range', 0, (Ptr(p.cell, p.path, p.off, None, p.off, p.off + p.len), Ptr(p.cell, p.path, p.off + p.len, None, p.off, p.off + p.len)))
    if name == 'windows':
        I.oblige('call', a[1] >= 1 if not isinstance(a[1], Poly) else ge(a[1], 1), 'windows(0)')
        return it('windows', p, a[1])
    if name in ('get_unchecked', 'get_unchecked_mut'):
        return index(I, p, a[1], 'unchecked')
    if name in ('get', 'get_mut'):
        ix = a[1]
        if is_int(ix):
            if not I.decide(lt(ix, p.len)):
                return NONE
            return some(elem(p, ix))
        lo, hi = range_bounds(I, ix, p.len)
        if I.decide(ge(hi, lo)) and I.decide(ge(p.len, hi)):
            return some(Ptr(p.cell, p.path, p.off + lo, hi - lo))
        return NONE
    if name in ('copy_from_slice', 'clone_from_slice'):
        s = as_slice(I, a[1])
        I.oblige('call', eq(p.len, s.len), '%s: %s vs %s elements' % (name, pstr(p.len), pstr(s.len)))
        src = I.arr_at(s)
        if not small(I, p.len):
            src = to_ver(src)
            I.set_arr(s, src)
        quant(I, p, p.len, lambda i: I.arr_read(src, s.off + i), 'copy')
        return UNIT
    if name == 'swap_with_slice':
        s = as_slice(I, a[1])
        I.oblige('call', eq(p.len, s.len), name)
        A, B = I.arr_at(p), I.arr_at(s)
        if not small(I, p.len):
            A, B = to_ver(A), to_ver(B)
            I.set_arr(p, A)
            I.set_arr(s, B)
        quant(I, p, p.len, lambda i: I.arr_read(B, s.off + i), 'swap')
        quant(I, s, p.len, lambda i: I.arr_read(A, p.off + i), 'swap')
        return UNIT
    if name == 'reverse':
        A = I.arr_at(p)
        if not small(I, p.len):
            A = to_ver(A)
        quant(I, p, p.len, lambda i: I.arr_read(A, p.off + p.len - 1 - i), 'reverse')
        return UNIT
    if name in ('rotate_left', 'rotate_right'):
        k = a[1]
        I.oblige('call', ge(p.len, k), name)
        A = I.arr_at(p)
        if not small(I, p.len):
            raise Unsupported(name)
        n = norm_int(I, p.len)
        s = k if name == 'rotate_left' else n - k
        quant(I, p, n, lambda i: I.arr_read(A, p.off + (i + s) % n), 'rotate')
        return UNIT
    if name in ('swap', 'swap_unchecked'):
        x, y = index(I, p, a[1]), index(I, p, a[2])
        vx, vy = I.load(x), I.load(y)
        I.store(x, vy)
        I.store(y, vx)
        return UNIT
    if name == 'fill':
        quant(I, p, p.len, lambda i: a[1], 'fill')
        return UNIT
    if name in ('as_ptr', 'as_mut_ptr'):
        return Ptr(p.cell, p.path, p.off, None, p.off, p.off + p.len)
    if name in ('to_vec', 'into_vec'):
        return arr_slice_copy(I, p)
    if name == 'copy_within':
        lo, hi = range_bounds(I, a[1], p.len)
        s = subslice(I, p, lo, hi)
        I.oblige('bounds', ge(p.len - s.len, a[2]), name)
        A = I.arr_at(p)
        if not small(I, s.len):
            A = to_ver(A)
        quant(I, Ptr(p.cell, p.path, p.off + a[2], s.len), s.len, lambda i: I.arr_read(A, s.off + i), 'copy')
        return UNIT
    return NOMODEL


def VEC(I, name, a, targs, callee):
    if name in ('new', 'with_capacity'):
        return Arr(lit=[], vec=True)
    p = a[0]
    if name == 'into_boxed_slice':
        c = I.fresh_cell(p)
        return Ptr(c, (), 0, p.len)
    if not isinstance(p, Ptr):
        return NOMODEL
    if name == 'push' and I.spec and p.off is None:
        arr = I.peek(p)
        if isinstance(arr, Arr) and arr.own is I.tok and arr.lit is not None:
            arr.lit.append(a[1])
            arr.len = len(arr.lit)
            arr.shape = arr.shape or shape_of(a[1])
            return UNIT
    p, arr = I.deref_all(p)
    if not isinstance(arr, Arr):
        return NOMODEL
    if name == 'push':
        v = a[1]
        if arr.lit is not None and I.spec:
            n = Arr(lit=arr.lit + [v], shape=arr.shape or shape_of(v), vec=True)
            if all(isinstance(x, int) for x in p.path):
                n.own = I.tok
            I.store(p, n)
        elif arr.lit is not None:
            I.store(p, Arr(lit=arr.lit + [v], shape=arr.shape or shape_of(v), vec=True))
        else:
            if I.shape:
                w = I.weak(arr, v)
                I.store(p, Arr(ver=w.ver, len_=arr.len + 1, shape=w.shape, vec=True))
                return UNIT
            I.store(p, Arr(ver=Ver(arr.ver, EWrite(arr.len, v)), len_=arr.len + 1, shape=arr.shape or shape_of(v), vec=True))
        return UNIT
    if name == 'len':
        return arr.len
    if name == 'is_empty':
        return I.binop('Eq', arr.len, 0)
    if name in ('as_slice', 'as_mut_slice', 'leak'):
        return Ptr(p.cell, p.path, 0, arr.len)
    if name in ('as_ptr', 'as_mut_ptr'):
        return Ptr(p.cell, p.path, 0, None, 0, arr.len)
    if name in ('reserve', 'reserve_exact', 'shrink_to_fit'):
        return UNIT
    if name == 'capacity':
        return arr.len
    if name == 'clear':
        I.store(p, Arr(lit=[], shape=arr.shape, vec=True))
        return UNIT
    if name == 'truncate':
        n = a[1]
        if I.decide(ge(n, arr.len)):
            return UNIT
        if arr.lit is not None and not isinstance(n, Poly):
            I.store(p, Arr(lit=arr.lit[:n], shape=arr.shape, vec=True))
        else:
            b = to_ver(arr)
            I.store(p, Arr(ver=b.ver, len_=n, shape=b.shape, vec=True))
        return UNIT
    if name == 'pop':
        if not I.decide(ge(arr.len, 1)):
            return NONE
        v = I.arr_read(arr, arr.len - 1)
        if arr.lit is not None:
            I.store(p, Arr(lit=arr.lit[:-1], shape=arr.shape, vec=True))
        else:
            I.store(p, Arr(ver=arr.ver, len_=arr.len - 1, shape=arr.shape, vec=True))
        return some(v)
    if name == 'resize':
        n = a[1]
        if arr.lit is not None and not isinstance(n, Poly) and (I.spec or n <= 64):
            l = arr.lit[:n] + [a[2]] * max(0, n - len(arr.lit))
            I.store(p, Arr(lit=l, shape=arr.shape or shape_of(a[2]), vec=True))
            return UNIT
        if arr.lit == []:
            I.store(p, filled(I, a[2], n))
            return UNIT
        return prelude(I, 'resize_push', [p, n, a[2]])
    if name == 'extend_from_slice':
        s = as_slice(I, a[1])
        if arr.lit is not None and small(I, s.len):
            l = arr.lit + [read(I, s, i) for i in range(norm_int(I, s.len))]
            I.store(p, Arr(lit=l, shape=arr.shape or (shape_of(l[0]) if l else None), vec=True))
            return UNIT
        return prelude(I, 'extend', [p, it('cloned', it('slice', s))])
    if name in ('append', 'split_off', 'drain') and arr.lit is not None:
        if name == 'append':
            q, other = I.deref_all(a[1])
            if other.lit is None:
                raise Unsupported(name)
            I.store(p, Arr(lit=arr.lit + other.lit, shape=arr.shape or other.shape, vec=True))
            I.store(q, Arr(lit=[], shape=other.shape, vec=True))
            return UNIT
        if name == 'split_off' and not isinstance(a[1], Poly):
            I.oblige('bounds', a[1] <= len(arr.lit), name)
            I.store(p, Arr(lit=arr.lit[:a[1]], shape=arr.shape, vec=True))
            return Arr(lit=arr.lit[a[1]:], shape=arr.shape, vec=True)
        if name == 'drain':
            lo, hi = range_bounds(I, a[1], arr.len)
            if isinstance(lo, Poly) or isinstance(hi, Poly):
                raise Unsupported(name)
            I.oblige('bounds', lo <= hi <= len(arr.lit), name)
            out = arr.lit[lo:hi]
            I.store(p, Arr(lit=arr.lit[:lo] + arr.lit[hi:], shape=arr.shape, vec=True))
            return it('own', Ptr(I.fresh_cell(Arr(lit=out, shape=arr.shape)), (), 0, len(out)))
    if name in ('insert', 'remove', 'swap_remove') and arr.lit is not None and not isinstance(a[1], Poly):
        l = list(arr.lit)
        I.oblige('bounds', a[1] <= len(l) if name == 'insert' else a[1] < len(l))
        if name == 'insert':
            l.insert(a[1], a[2])
            r = UNIT
        elif name == 'remove':
            r = l.pop(a[1])
        else:
            r = l[a[1]]
            x = l.pop()
            if a[1] < len(l):
                l[a[1]] = x
        I.store(p, Arr(lit=l, shape=arr.shape, vec=True))
        return r
    r = SLICE(I, name, [Ptr(p.cell, p.path, 0, arr.len)] + a[1:], targs, callee)
    return r


def filled(I, v, n):
    if small(I, n):
        return Arr(lit=[v] * norm_int(I, n), shape=shape_of(v), vec=True)
    return Arr(ver=Ver(None, Base('fill', v)), len_=n, shape=shape_of(v), vec=True)


def INT(I, name, a, targs, callee):
    x = a[0] if a else None
    if not is_int(x):
        return NOMODEL
    conc = not isinstance(norm_int(I, x), Poly)
    if conc:
        x = norm_int(I, x)
    if name == 'is_power_of_two' and conc:
        return x > 0 and x & (x - 1) == 0
    if name in ('trailing_zeros', 'leading_zeros') and conc:
        from interp import INT_BITS
        ty = callee.get('impl_self') or (targs[0] if targs else None)
        nb = INT_BITS.get(ty[1], 64) if isinstance(ty, list) and ty[0] == 'int' else 64
        if name == 'leading_zeros':
            return nb - x.bit_length()
        return (x & -x).bit_length() - 1 if x else nb
    if name == 'count_ones' and conc:
        return bin(x).count('1')
    if name == 'next_power_of_two' and conc:
        return 1 << max(0, (x - 1).bit_length())
    if name in ('ilog2', 'ilog', 'checked_ilog2') and conc:
        if name == 'checked_ilog2':
            return some(x.bit_length() - 1) if x > 0 else NONE
        I.oblige('panic', x > 0, 'logarithm of zero')
        if name == 'ilog2':
            return x.bit_length() - 1
        if not isinstance(a[1], Poly):
            k, y = 0, x
            while y >= a[1]:
                y //= a[1]
                k += 1
            return k
    if name in ('swap_bytes', 'reverse_bits', 'rotate_left', 'rotate_right') and conc:
        from interp import INT_BITS
        ty = callee.get('impl_self')
        nb = INT_BITS[ty[1]]
        if name == 'reverse_bits':
            return int(bin(x & ((1 << nb) - 1))[2:].zfill(nb)[::-1], 2)
        if name in ('rotate_left', 'rotate_right') and not isinstance(a[1], Poly):
            k = a[1] % nb if name == 'rotate_left' else -a[1] % nb
            return ((x << k) | (x >> (nb - k))) & ((1 << nb) - 1)
        return NOMODEL
    ty = callee.get('impl_self') or (targs[0] if targs else None)
    if not (isinstance(ty, list) and ty[0] == 'int'):
        ty = ['int', 'usize']
    if name == 'pow' and not isinstance(a[1], Poly):
        r = ppow(x, a[1])
        if not isinstance(r, Poly):
            w = I.wrap(r, ty)
            I.oblige('overflow_Mul', w == r)
        return r
    for pre in ('wrapping_', 'overflowing_', 'saturating_', 'checked_', 'unchecked_', 'strict_'):
        if name.startswith(pre) and name[len(pre):] in ('add', 'sub', 'mul', 'pow'):
            y = norm_int(I, a[1])
            k = name[len(pre):]
            if k == 'pow':
                if isinstance(y, Poly):
                    raise Unsupported('symbolic power')
                r = ppow(x, y)
            else:
                r = x + y if k == 'add' else x - y if k == 'sub' else x * y
            if isinstance(r, Poly):
                bad = False
                if k == 'sub' and ty[1][0] == 'u':
                    bad = not I.decide(ge(r, 0))
                w = r + (1 << 64) if bad else r
            else:
                w = I.wrap(r, ty)
                bad = w != r
            if pre == 'wrapping_':
                return w
            if pre == 'overflowing_':
                return tup(w, bad)
            if pre == 'checked_':
                return NONE if bad else some(r)
            if pre == 'saturating_':
                if not bad:
                    return r
                from interp import INT_BITS
                nb = INT_BITS[ty[1]]
                lo, hi = (0, (1 << nb) - 1) if ty[1][0] == 'u' else (-(1 << (nb - 1)), (1 << (nb - 1)) - 1)
                return hi if not isinstance(r, Poly) and r > hi else lo
            I.oblige('unchecked' if pre == 'unchecked_' else 'overflow_' + k.capitalize(), not bad, 'arithmetic overflow')
            return r
    if name in ('checked_div', 'checked_rem'):
        if not I.decide(ne(a[1], 0) if isinstance(a[1], Poly) else a[1] != 0):
            return NONE
        return some(I.floordiv(x, a[1]) if name == 'checked_div' else I.rem(x, a[1]))
    if name == 'div_ceil':
        I.oblige('div0', ne(a[1], 0) if isinstance(a[1], Poly) else a[1] != 0)
        return I.floordiv(x + a[1] - 1, a[1])
    if name in ('rem_euclid', 'div_euclid'):
        I.oblige('div0', ne(a[1], 0) if isinstance(a[1], Poly) else a[1] != 0)
        return I.rem(x, a[1]) if name == 'rem_euclid' else I.floordiv(x, a[1])
    if name == 'is_multiple_of':
        if not isinstance(a[1], Poly) and a[1] == 0:
            return I.binop('Eq', x, 0)
        return I.binop('Eq', I.rem(x, a[1]), 0)
    if name == 'abs_diff':
        return x - a[1] if I.decide(ge(x, a[1])) else a[1] - x
    if name == 'abs':
        return x if I.decide(ge(x, 0)) else -x
    if name in ('min', 'max'):
        return maxmin(I, name, x, a[1])
    if name == 'isqrt' and conc:
        import math
        return math.isqrt(x)
    return NOMODEL


def FLOAT(I, name, a, targs, callee):
    x = a[0] if a else None
    if isinstance(x, Poison) and I.shape:
        return tup(x, x) if name == 'sin_cos' else x
    if not isinstance(x, R.Real):
        return NOMODEL
    f32 = 'f32' in callee['key']
    try:
        if name == 'cos':
            r = R.rcos(x)
        elif name == 'sin':
            r = R.rsin(x)
        elif name == 'sin_cos':
            return tup(f32ify(R.rsin(x), f32), f32ify(R.rcos(x), f32))
        elif name == 'sqrt':
            r = R.rsqrt(x)
        elif name == 'abs':
            r = x if R.rnum(x).real >= 0 else R.rneg(x)
        elif name == 'recip':
            r = R.rdiv(R.ONE, x)
        elif name == 'tan':
            r = R.rdiv(R.rsin(x), R.rcos(x))
        elif name == 'powi':
            r = R.ONE
            for _ in range(abs(a[1])):
                r = R.rmul(r, x)
            if a[1] < 0:
                r = R.rdiv(R.ONE, r)
        elif name == 'mul_add':
            r = R.radd(R.rmul(x, a[1]), a[2])
        elif name == 'to_radians':
            r = R.rmul(x, R.rscale(R.RPI, Fraction(1, 180)))
        elif name in ('floor', 'ceil', 'round', 'trunc', 'exp', 'ln', 'log2', 'cbrt') and R.constant(x):
            import math
            v = R.rnum(x).real
            f = {'floor': math.floor, 'ceil': math.ceil, 'round': lambda z: math.floor(z + .5), 'trunc': math.trunc, 'exp': math.exp,
                 'ln': math.log, 'log2': math.log2, 'cbrt': lambda z: z ** (1 / 3)}[name](v)
            r = R.rconst(int(f)) if name in ('floor', 'ceil', 'round', 'trunc') else R.Real({}, x.taint, f)
        else:
            return NOMODEL
    except R.NotExact as e:
        if I.shape:
            x = Poison('float')
            return tup(x, x) if name == 'sin_cos' else x
        raise Unsupported('real function: %s' % e)
    return f32ify(r, f32)


def f32ify(r, f32):
    if f32 and not R.f32_exact(r):
        return R.Real(r.t, r.taint | {'f32'}, r.approx, r.err)
    return r


def PTRM(I, name, a, targs, callee):
    p = a[0]
    if not isinstance(p, Ptr):
        return NOMODEL
    if p.is_slice():
        if name == 'len':
            return p.len
        if name in ('as_mut_ptr', 'as_ptr', 'cast'):
            return Ptr(p.cell, p.path, p.off, None, p.off, p.off + p.len)
        return NOMODEL
    if p.off is None:
        if p.path and not isinstance(p.path[-1], int):
            i = p.path[-1][1]
            p = Ptr(p.cell, p.path[:-1], i, None, i, i + 1)
        else:
            if name in ('cast', 'cast_mut', 'cast_const'):
                return p
            if name == 'read':
                return I.load(p)
            if name == 'write':
                I.store(p, a[1])
                return UNIT
            return NOMODEL
    if name in ('add', 'offset', 'wrapping_add', 'wrapping_offset'):
        return Ptr(p.cell, p.path, p.off + a[1], None, p.lo, p.hi)
    if name in ('sub', 'wrapping_sub'):
        return Ptr(p.cell, p.path, p.off - a[1], None, p.lo, p.hi)
    if name in ('cast', 'cast_mut', 'cast_const'):
        return p
    if name in ('read', 'read_unaligned', 'write', 'write_unaligned'):
        I.oblige('unchecked', ge(p.off, p.lo), 'raw pointer below its slice')
        I.oblige('unchecked', lt(p.off, p.hi), 'raw pointer past its slice')
        q = Ptr(p.cell, p.path + (('i', p.off),))
        if name.startswith('read'):
            return I.load(q)
        I.store(q, a[1])
        return UNIT
    if name in ('offset_from', 'sub_ptr', 'offset_from_unsigned'):
        return p.off - a[1].off
    if name == 'is_null':
        return False
    return NOMODEL


def memcopy(I, a, kind):
    src, dst, n = a
    if src.off is None or dst.off is None:
        raise Unsupported('copy of thin pointers')
    for p in (src, dst):
        I.oblige('unchecked', ge(p.off, p.lo), 'raw copy below its slice')
        I.oblige('unchecked', ge(p.hi, p.off + n), 'raw copy past its slice')
    A = I.arr_at(src)
    if not small(I, n):
        A = to_ver(A)
        I.set_arr(src, A)
    quant(I, Ptr(dst.cell, dst.path, dst.off, n), n, lambda i: I.arr_read(A, src.off + i), 'copy')
    return UNIT


# ------------------------------------------------------------------ dispatch
PANICS = ('core::panicking::', 'std::rt::begin_panic', 'std::panicking', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'core::result::unwrap_failed', 'core::slice::index::slice_', 'alloc::alloc::handle_alloc_error')


def call(I, callee, args, targs):
    key, name = callee['key'], callee['name']
    rk = callee.get('resolved') or key
    if key.startswith('rustdht') and not callee.get('trait'):
        return NOMODEL
    for p in PANICS:
        if key.startswith(p):
            if 'overflow' in name or name.startswith('panic') or 'fail' in name or 'begin' in name or 'unreachable' in name or True:
                I.panic(name)
    tr = callee.get('trait')
    if tr:
        r = trait_call(I, tr, callee, args, targs)
        if r is not NOMODEL:
            return r
    if key.startswith('core::fmt') or key.startswith('alloc::fmt'):
        return STR
    imp = callee.get('impl_self')
    if imp:
        k = imp[0]
        if k == 'slice':
            return SLICE(I, name, args, targs, callee)
        if k == 'array':
            if args and name in ('as_slice', 'as_mut_slice'):
                return as_slice(I, args[0])
            if name == 'map':
                a = args[0]
                if isinstance(a, Arr) and a.lit is not None:
                    c = Ptr(I.fresh_cell(args[1]))
                    vs = [I.call_value(c, [x]) for x in a.lit]
                    return Arr(lit=vs, shape=shape_of(vs[0]) if vs else None)
            return NOMODEL
        if k == 'int':
            return INT(I, name, args, targs, callee)
        if k == 'float':
            return FLOAT(I, name, args, targs, callee)
        if k == 'ptr':
            return PTRM(I, name, args, targs, callee)
        if k == 'bool' and name == 'then':
            return some(I.call_value(args[1], [])) if I.decide(args[0]) else NONE
        if k == 'bool' and name == 'then_some':
            return some(args[1]) if I.decide(args[0]) else NONE
        if k == 'adt':
            an = imp[1]
            if an.endswith('::Vec'):
                return VEC(I, name, args, targs, callee)
            if an.endswith('::Arc') or an.endswith('::Box') or an.endswith('::Rc'):
                if name in ('new', 'pin'):
                    c = I.fresh_cell(args[0])
                    return Ptr(c)
                if name in ('clone',):
                    return I.load(args[0])
                if name in ('as_ref', 'as_ptr'):
                    return I.load(args[0])
                if name == 'ptr_eq':
                    raise Unsupported('ptr_eq')
                if name in ('into_vec', 'leak', 'into_raw', 'from_raw'):
                    return args[0]
                return NOMODEL
            if an == RANGE + 'RangeInclusive':
                if name == 'new':
                    return Agg(an, 0, (args[0], args[1], False))
                if name in ('start', 'end'):
                    return sub(I.deref_all(args[0])[0], 0 if name == 'start' else 1)
                if name == 'contains':
                    r, x = deref_val(I, args[0]), deref_val(I, args[1])
                    return I.decide(ge(x, r.f[0])) and I.decide(ge(r.f[1], x))
            if an == RANGE + 'Range':
                if name == 'contains':
                    r, x = deref_val(I, args[0]), deref_val(I, args[1])
                    if isinstance(x, T):
                        return tcompare(I, name)
                    return I.decide(ge(x, r.f[0])) and I.decide(lt(x, r.f[1]))
                if name == 'is_empty':
                    r = deref_val(I, args[0])
                    return not I.decide(lt(r.f[0], r.f[1]))
            if an == OPT or an == RES:
                return OPTM(I, an, name, args, targs, callee)
            if an.startswith('strength_reduce::'):
                if name == 'new':
                    n = args[0]
                    I.oblige('call', ge(n, 1) if isinstance(n, Poly) else n >= 1, 'StrengthReduced::new(0)')
                    return Agg('sru', 0, (n,))
                if name == 'get':
                    return deref_val(I, args[0]).f[0]
                if name == 'div_rem':
                    n = args[1].f[0]
                    return tup(I.floordiv(args[0], n), I.rem(args[0], n))
            if 'iter::adapters::peekable' in an and name == 'peek':
                p, v = I.deref_all(args[0])
                if not (isinstance(v.f[1], Agg) and v.f[1].name == OPT):
                    I.store(sub(p, 1), nxt(I, sub(p, 0)))
                o = I.load(sub(p, 1))
                return NONE if o.var == 0 else some(Ptr(p.cell, p.path + (1, 0)))
            if 'ChunksExact' in an and name in ('into_remainder', 'remainder'):
                v = deref_val(I, args[0])
                if isinstance(v, Agg) and len(v.f) > 2:
                    return v.f[2]
                raise Unsupported('chunks_exact remainder')
            if an.startswith('core::slice::iter::Iter') and name in ('as_slice', 'into_slice'):
                v = deref_val(I, args[0])
                return v.f[0]
            if an == CPLX:
                if name == 'new':
                    return Agg(CPLX, 0, (args[0], args[1]))
                if name == 'conj':
                    v = deref_val(I, args[0])
                    return Agg(CPLX, 0, (v.f[0], neg(I, v.f[1])))
                if name == 'scale':
                    v = deref_val(I, args[0])
                    return Agg(CPLX, 0, (arith(I, 'mul', v.f[0], args[1]), arith(I, 'mul', v.f[1], args[1])))
    return free_call(I, key, name, callee, args, targs)


def OPTM(I, an, name, a, targs, callee):
    v = a[0]
    if isinstance(v, Ptr) and name not in ('take', 'replace', 'insert', 'get_or_insert_with'):
        p, w = I.deref_all(v)
        if isinstance(w, Agg) and w.name in (OPT, RES):
            ok_ = 1 if an == OPT else 0
            if name in ('is_some', 'is_none', 'is_ok', 'is_err'):
                pos = w.var == ok_
                return pos if name in ('is_some', 'is_ok') else not pos
            if name in ('as_ref', 'as_mut'):
                return Agg(an, w.var, (Ptr(p.cell, p.path + (0,)),) if w.f else ())
            if name in ('as_deref', 'as_deref_mut'):
                return Agg(an, w.var, (w.f[0],) if w.f else ())
        return NOMODEL
    if not isinstance(v, Agg):
        if isinstance(v, Ptr) and name == 'take':
            p, w = I.deref_all(v)
            I.store(p, NONE)
            return w
        return NOMODEL
    ok = v.var == (1 if an == OPT else 0)
    x = v.f[0] if v.f else None
    mk = lambda y: Agg(an, 1 if an == OPT else 0, (y,))
    if name in ('unwrap', 'expect', 'unwrap_unchecked'):
        if not ok:
            I.oblige('call', False, '%s on an empty value' % name)
        return x
    if name in ('unwrap_err', 'expect_err'):
        if ok:
            I.oblige('call', False, name)
        return x
    if name == 'unwrap_or':
        return x if ok else a[1]
    if name == 'unwrap_or_else':
        return x if ok else I.call_value(a[1], [] if an == OPT else [x])
    if name == 'unwrap_or_default':
        return x if ok else zero_of(I, targs[0])
    if name == 'map':
        return mk(I.call_value(a[1], [x])) if ok else v
    if name == 'and_then':
        return I.call_value(a[1], [x]) if ok else v
    if name == 'map_or':
        return I.call_value(a[2], [x]) if ok else a[1]
    if name == 'map_or_else':
        return I.call_value(a[2], [x]) if ok else I.call_value(a[1], [] if an == OPT else [x])
    if name == 'ok':
        return some(x) if ok else NONE
    if name == 'err':
        return NONE if ok else some(x)
    if name == 'ok_or':
        return Agg(RES, 0, (x,)) if ok else Agg(RES, 1, (a[1],))
    if name == 'map_err':
        return v if ok else Agg(RES, 1, (I.call_value(a[1], [x]),))
    if name == 'or':
        return v if ok else a[1]
    if name == 'or_else':
        return v if ok else I.call_value(a[1], [] if an == OPT else [x])
    if name in ('is_none_or',):
        return I.call_value(a[1], [x]) if ok else True
    if name == 'and':
        return a[1] if ok else v
    if name == 'xor':
        o2 = a[1].var == 1
        return v if ok and not o2 else a[1] if o2 and not ok else NONE
    if name == 'ok_or_else':
        return Agg(RES, 0, (x,)) if ok else Agg(RES, 1, (I.call_value(a[1], []),))
    if name in ('is_ok_and', 'is_err_and'):
        return I.call_value(a[1], [x]) if ok == (name == 'is_ok_and') else False
    if name == 'inspect':
        if ok:
            I.call_value(a[1], [Ptr(I.fresh_cell(x))])
        return v
    if name == 'flatten':
        return x if ok else v
    if name in ('iter', 'into_iter'):
        return it('opt', v)
    if name in ('copied', 'cloned'):
        return mk(deref_val(I, x)) if ok else v
    if name == 'is_some_and':
        return I.call_value(a[1], [x]) if ok else False
    if name == 'filter':
        if not ok:
            return v
        return v if I.decide(I.call_value(a[1], [Ptr(I.fresh_cell(x))])) else NONE
    if name == 'zip':
        return some(tup(x, a[1].f[0])) if ok and a[1].var == 1 else NONE
    return NOMODEL


def free_call(I, key, name, callee, args, targs):
    if key in ('core::cmp::max', 'core::cmp::min'):
        return maxmin(I, name, args[0], args[1])
    if key.startswith('core::mem::'):
        if name == 'swap':
            x, y = I.load(args[0]), I.load(args[1])
            I.store(args[0], y)
            I.store(args[1], x)
            return UNIT
        if name == 'replace':
            x = I.load(args[0])
            I.store(args[0], args[1])
            return x
        if name == 'take':
            x = I.load(args[0])
            if isinstance(x, Ptr) and x.is_slice():
                I.store(args[0], Ptr(I.fresh_cell(Arr(lit=[])), (), 0, 0))
            elif isinstance(x, Arr):
                I.store(args[0], Arr(lit=[], vec=True))
            elif is_int(x):
                I.store(args[0], 0)
            elif isinstance(x, Agg) and x.name == OPT:
                I.store(args[0], NONE)
            else:
                raise Unsupported('mem::take')
            return x
        if name in ('drop', 'forget'):
            return UNIT
        if name == 'size_of':
            return 8
    if key in ('core::mem::drop', 'core::intrinsics::black_box', 'core::hint::black_box'):
        return args[0] if 'black' in key else UNIT
    if key.startswith('core::hint::'):
        if name == 'unreachable_unchecked':
            I.oblige('unchecked', False, 'unreachable_unchecked reached')
        if name == 'assert_unchecked':
            I.oblige('unchecked', args[0], 'assert_unchecked')
        return UNIT
    if key.startswith('alloc::vec::from_elem'):
        return filled(I, args[0], args[1])
    if key.startswith('transpose::') and name == 'transpose':
        return transpose(I, args)
    if key.startswith('primal_check') and name == 'miller_rabin':
        n = norm_int(I, args[0])
        if isinstance(n, Poly):
            raise Unsupported('primality of a symbolic length')
        return prime(n)
    if key.startswith('core::slice::raw::from_raw_parts'):
        return I.slice_from_raw(args[0], args[1])
    if key.startswith('core::slice::raw::from_ref') or key.startswith('core::slice::raw::from_mut'):
        p = args[0]
        if p.off is None and p.path and not isinstance(p.path[-1], int):
            return Ptr(p.cell, p.path[:-1], p.path[-1][1], 1)
        raise Unsupported(key)
    if key.startswith('core::array::from_fn'):
        n = next((t[1] for t in targs if t and t[0] == 'constval'), None)
        if n is None:
            raise Unsupported(key)
        f = Ptr(I.fresh_cell(args[0]))
        vs = [I.call_value(f, [i]) for i in range(n)]
        return Arr(lit=vs, shape=shape_of(vs[0]) if vs else None)
    if name in ('copy_nonoverlapping', 'copy') and ('ptr' in key or 'intrinsics' in key):
        return memcopy(I, args, name)
    if key.startswith('core::ptr::') and name in ('read', 'write', 'read_unaligned', 'write_unaligned', 'read_volatile', 'write_volatile'):
        return PTRM(I, name.replace('_volatile', ''), args, targs, callee)
    if key.startswith('core::ptr::') and name == 'swap':
        x, y = PTRM(I, 'read', [args[0]], targs, callee), PTRM(I, 'read', [args[1]], targs, callee)
        PTRM(I, 'write', [args[0], y], targs, callee)
        PTRM(I, 'write', [args[1], x], targs, callee)
        return UNIT
    if key.startswith('core::iter::sources'):
        if name in ('repeat',):
            return it('repeat', args[0])
        if name == 'once':
            return it('opt', some(args[0]))
        if name == 'empty':
            return it('opt', NONE)
        if name == 'successors':
            return it('succ', args[0], args[1])
        if name == 'repeat_n':
            return it('take', it('repeat', args[0]), args[1])
        if name == 'from_fn':
            return it('fromfn', args[0])
        if name == 'repeat_with':
            return it('repwith', args[0])
    if key.startswith('core::iter::adapters::zip::zip'):
        return it('zip', into_iter(I, args[0]), into_iter(I, args[1]))
    if key.startswith('core::intrinsics::'):
        if name in ('likely', 'unlikely'):
            return args[0]
        if name == 'cold_path':
            return UNIT
    if key.startswith('core::convert::identity'):
        return args[0]
    return NOMODEL


def trait_call(I, tr, callee, a, targs):
    name = callee['name']
    t = tr.split('::')[-1]
    if t in OPS and name == OPS[t].replace('and', 'bitand').replace('or', 'bitor').replace('xbitor', 'bitxor') or (t in OPS and name in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr')):
        x, y = deref_val(I, a[0]), deref_val(I, a[1])
        if isinstance(x, Agg) and x.name != CPLX and x.name != 'sru':
            return NOMODEL
        return arith(I, OPS[t], x, y, targs[0] if targs else None)
    if t.endswith('Assign') and t[:-6] in OPS:
        x, y = I.load(a[0]), deref_val(I, a[1])
        if isinstance(x, Agg) and x.name != CPLX:
            return NOMODEL
        I.store(a[0], arith(I, OPS[t[:-6]], x, y, targs[0] if targs else None))
        return UNIT
    if t == 'Neg':
        if I.shape and isinstance(deref_val(I, a[0]), Poison):
            return Poison('float')
        return neg(I, deref_val(I, a[0]))
    if t == 'Not':
        return I.unop('Not', deref_val(I, a[0]))
    if t in ('PartialEq', 'PartialOrd', 'Ord', 'Eq'):
        if name in ('max', 'min'):
            return maxmin(I, name, a[0], a[1])
        if name == 'clamp':
            return maxmin(I, 'min', maxmin(I, 'max', a[0], a[1]), a[2])
        return compare(I, name, a[0], a[1])
    if t == 'Zero' or t == 'ConstZero':
        if name == 'zero':
            return zero_of(I, ty0(targs))
        if name == 'is_zero':
            v = deref_val(I, a[0])
            if isinstance(v, T):
                return tcompare(I, name)
            if is_int(v):
                return I.binop('Eq', v, 0)
            if isinstance(v, R.Real):
                return I.realop('Eq', v, R.ZERO)
            return NOMODEL
        if name == 'set_zero':
            I.store(a[0], zero_of(I, ty0(targs)))
            return UNIT
    if t == 'One' or t == 'ConstOne':
        if name == 'one':
            return one_of(I, ty0(targs))
        if name == 'is_one':
            v = deref_val(I, a[0])
            if isinstance(v, T):
                return tcompare(I, name)
            return I.binop('Eq', v, 1)
    if t == 'Default' and name == 'default':
        ty = ty0(targs)
        if ty[0] in ('param', 'int', 'float', 'bool') or ty[:2] == ['adt', CPLX]:
            return zero_of(I, ty)
        if ty[0] == 'adt' and ty[1].endswith('::Vec'):
            return Arr(lit=[], vec=True)
        return NOMODEL
    if t == 'FromPrimitive':
        v = a[0]
        ty = ty0(targs)
        if ty and ty[0] == 'param':
            if I.shape:
                return some(T('any', 'C'))
            if isinstance(v, (int, Poly)):
                v = R.rpoly(v)
            if isinstance(v, R.Real):
                if name == 'from_f32' and 'f32' not in v.taint and not R.f32_exact(v) and v.approx is None:
                    v = R.Real(v.t, v.taint | {'f32'}, v.approx, v.err)
                if 'f32' in v.taint:
                    I.events.append(('f32', I.fname(), I.site(), 'value %.9g is rounded to single precision before becoming a sample constant' % R.rnum(v).real if R.constant(v) else 'a value is rounded to single precision before becoming a sample constant'))
                return some(tconst(v))
        if ty and ty[0] == 'int' and is_int(v):
            return some(v)
        if ty and ty[0] == 'float':
            return some(R.rpoly(v) if is_int(v) else v)
        raise Unsupported('FromPrimitive::%s' % name)
    if t in ('ToPrimitive',):
        v = deref_val(I, a[0])
        if isinstance(v, T):
            return tcompare(I, name)
        if is_int(v):
            return some(v) if not name.startswith('to_f') else some(R.rpoly(v))
        if isinstance(v, R.Real):
            return some(v)
    if t in ('Signed', 'Num', 'Float', 'PrimInt', 'Integer', 'Euclid', 'Bounded', 'FloatConst', 'NumCast', 'Pow'):
        return numtrait(I, t, name, a, targs, callee)
    if t in ('Clone',):
        if name == 'clone':
            p, v = I.deref_all(a[0])
            if isinstance(a[0], Ptr) and a[0].off is None:
                v = I.load(a[0])
                if isinstance(v, Agg) and v.name in I.prog.adts and I.prog.adts[v.name].get('local') and ('core::clone::Clone', v.name) in I.prog.impl_ix:
                    return NOMODEL
                if isinstance(v, Ptr) and v.is_slice() and targs and targs[0][0] == 'adt' and targs[0][1].endswith('::Box'):
                    arr = arr_slice_copy(I, v)
                    return Ptr(I.fresh_cell(arr), (), 0, arr.len)
                return v
            return a[0]
    if t in ('ToOwned',) and name == 'to_owned':
        if isinstance(a[0], Ptr) and a[0].is_slice():
            return arr_slice_copy(I, a[0])
        return I.load(a[0])
    if t in ('Deref', 'DerefMut'):
        p = a[0]
        if isinstance(p, Ptr) and p.off is None:
            v = I.load(p)
            if isinstance(v, Arr):
                return Ptr(p.cell, p.path, 0, v.len)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Agg):
                return NOMODEL
        return p
    if t in ('AsRef', 'AsMut', 'Borrow', 'BorrowMut'):
        p = a[0]
        if isinstance(p, Ptr) and p.is_slice():
            return p
        p2, v = I.deref_all(p)
        if isinstance(v, Arr):
            return Ptr(p2.cell, p2.path, 0, v.len)
        if isinstance(v, Ptr):
            return v
        return p2 if p2 is not None else p
    if t in ('Index', 'IndexMut'):
        p, v = I.deref_all(a[0])
        if isinstance(v, (Arr, Ptr)) or (isinstance(a[0], Ptr) and a[0].is_slice()):
            return index(I, a[0], a[1])
        return NOMODEL
    if t == 'SliceIndex':
        if name in ('index', 'index_mut'):
            return index(I, a[1], a[0])
        if name in ('get', 'get_mut'):
            return SLICE(I, name, [a[1], a[0]], targs, callee)
        return NOMODEL
    if t in ('Fn', 'FnMut', 'FnOnce'):
        xs = a[1].f if len(a) > 1 and isinstance(a[1], Agg) and a[1].name == 'tuple' else a[1:]
        return I.call_value(a[0], list(xs))
    if t == 'IntoIterator':
        v = a[0]
        if isinstance(v, Agg) and not is_iter(v) and v.name in I.prog.adts and I.prog.adts[v.name].get('local') and ('core::iter::traits::collect::IntoIterator', v.name) in I.prog.impl_ix:
            return NOMODEL
        return into_iter(I, v)
    if t in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        if t == 'DoubleEndedIterator' and name == 'rfold':
            return NOMODEL
        return ITER(I, name, a, targs, callee)
    if t == 'Extend' and name == 'extend':
        p, v = I.deref_all(a[0])
        itv = into_iter(I, a[1])
        # extending a Vec of values from an iterator over references copies the elements
        if len(targs) > 1 and targs[1][0] == 'ref':
            itv = it('cloned', itv)
        return prelude(I, 'extend', [p, itv])
    if t == 'FromIterator':
        return from_vec(I, prelude(I, 'collect', [into_iter(I, a[0])]), targs[0])
    if t in ('Sum', 'Product'):
        return sum_like(I, a[0], 'add' if t == 'Sum' else 'mul', targs[0])
    if t in ('From', 'Into', 'TryFrom', 'TryInto'):
        return conv(I, t, name, a, targs, callee)
    if t in ('Drop', 'Destruct'):
        return UNIT
    if t in ('Display', 'Debug', 'Write', 'ToString', 'Termination'):
        return STR
    if tr.startswith('rustdht') or tr == 'rustfft::Length':
        p, v = I.deref_all(a[0])
        if isinstance(v, Opaque):
            if name == 'len':
                return v.len
            if name == 'get_inplace_scratch_len':
                return v.sin
            if name == 'get_outofplace_scratch_len':
                return v.sout
            if name in ('process', 'process_with_scratch', 'process_outofplace_with_scratch'):
                return inner_call(I, v, name, a)
            # any other provided method of the trait: its default body
            return NOMODEL
    if t == 'Try':
        v = a[0]
        if name == 'branch':
            good = v.var == (1 if v.name == OPT else 0)
            CF = 'core::ops::control_flow::ControlFlow'
            if good:
                return Agg(CF, 0, (v.f[0],))
            return Agg(CF, 1, (v,))
        if name == 'from_output':
            return NOMODEL
    if t == 'FromResidual':
        return a[0]
    return NOMODEL


def conv(I, t, name, a, targs, callee):
    v = a[0]
    dst = targs[0] if t in ('From', 'TryFrom') else (targs[1] if len(targs) > 1 else None)
    src = (targs[1] if len(targs) > 1 else None) if t in ('From', 'TryFrom') else targs[0]
    if dst == src and dst is not None and t in ('From', 'Into'):
        return v
    if dst and dst[0] == 'adt':
        if dst[1] == CPLX:
            v = deref_val(I, v)
            if isinstance(v, Agg) and v.name == CPLX:
                return v
            return Agg(CPLX, 0, (v, zero_of(I, dst[2][0])))
        if dst[1].endswith('::Vec'):
            if isinstance(v, Arr):
                return new_vec(I, v)
            return arr_slice_copy(I, as_slice(I, v))
        if dst[1].endswith('::Box') or dst[1].endswith('::Arc') or dst[1].endswith('::Rc'):
            inner = dst[2][0]
            if inner[0] == 'slice':
                if isinstance(v, Arr):
                    return Ptr(I.fresh_cell(new_vec(I, v)), (), 0, v.len)
                arr = arr_slice_copy(I, as_slice(I, v))
                return Ptr(I.fresh_cell(arr), (), 0, arr.len)
            if isinstance(v, Ptr):
                return v
            return Ptr(I.fresh_cell(v))
        if dst[1] == OPT:
            return some(v)
    if dst and dst[0] == 'int':
        if isinstance(v, (bool, Cond)):
            v = 1 if I.decide(v) else 0
        if is_int(v):
            if t in ('TryFrom', 'TryInto') and not isinstance(v, Poly) and I.wrap(v, dst) != v:
                return Agg(RES, 1, (UNIT,))
            return v if t in ('From', 'Into') else Agg(RES, 0, (v,))
    if dst and dst[0] == 'float':
        if I.shape and isinstance(v, Poly):
            return Poison('float')
        return R.rpoly(v) if is_int(v) else v
    if dst and dst[0] == 'ref' and dst[2][0] == 'array' and isinstance(dst[2][2], int) and t in ('TryFrom', 'TryInto') and isinstance(v, Ptr):
        q = as_slice(I, v)
        if not I.decide(I.binop('Eq', q.len, dst[2][2])):
            return Agg(RES, 1, (UNIT,))
        return Agg(RES, 0, (Ptr(q.cell, q.path, q.off, dst[2][2]),))
    if dst and dst[0] == 'array':
        if t in ('TryFrom', 'TryInto') and isinstance(v, (Ptr, Arr)):
            if isinstance(v, Arr):
                v = Ptr(I.fresh_cell(v), (), 0, v.len)
            q = as_slice(I, v)
            if not I.decide(I.binop('Eq', q.len, dst[2])):
                return Agg(RES, 1, (UNIT,))
            vs = [read(I, q, i) for i in range(dst[2])]
            return Agg(RES, 0, (Arr(lit=vs, shape=shape_of(vs[0]) if vs else None),))
    return NOMODEL


def numtrait(I, t, name, a, targs, callee):
    v = deref_val(I, a[0]) if a else None
    if isinstance(v, T):
        if name in ('abs', 'signum', 'is_positive', 'is_negative', 'abs_sub', 'max', 'min', 'is_nan', 'is_finite', 'floor', 'is_sign_negative'):
            return tcompare(I, name)
        raise Unsupported('sample %s::%s' % (t, name))
    if t == 'Integer' or t == 'Euclid':
        if name == 'extended_gcd':
            x, y = norm_int(I, v), norm_int(I, deref_val(I, a[1]))
            if isinstance(x, Poly) or isinstance(y, Poly):
                raise Unsupported('symbolic gcd')
            g, p, q = ext_gcd(x, y)
            return Agg('num_integer::ExtendedGcd', 0, (g, p, q))
        if name in ('gcd', 'lcm'):
            from math import gcd
            x, y = norm_int(I, v), norm_int(I, deref_val(I, a[1]))
            if isinstance(x, Poly) or isinstance(y, Poly):
                raise Unsupported('symbolic gcd')
            return gcd(x, y) if name == 'gcd' else (x * y // gcd(x, y) if x and y else 0)
        w = deref_val(I, a[1]) if len(a) > 1 else None
        if name in ('is_even', 'is_odd'):
            return I.binop('Eq', I.rem(v, 2), 0 if name == 'is_even' else 1)
        if name in ('div_floor', 'div_euclid'):
            return I.floordiv(v, w)
        if name in ('mod_floor', 'rem_euclid'):
            return I.rem(v, w)
        if name in ('is_multiple_of', 'divides'):
            return I.binop('Eq', I.rem(v, w), 0)
        if name in ('div_ceil',):
            return I.floordiv(v + w - 1, w)
        if name in ('div_rem', 'div_mod_floor'):
            return tup(I.floordiv(v, w), I.rem(v, w))
    if t in ('PrimInt',):
        return INT(I, name, [v] + a[1:], targs, callee)
    if t in ('Signed',) and is_int(v):
        if name == 'abs':
            return v if I.decide(ge(v, 0)) else -v
        if name == 'is_negative':
            return I.binop('Lt', v, 0)
        if name == 'is_positive':
            return I.binop('Gt', v, 0)
    return NOMODEL
