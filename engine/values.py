"""Abstract values of the MIR interpreter."""
from poly import *
from facts import Cond
import real as R


class Unsupported(Exception):
    """a construct the analysis has no transfer function for"""


class T:
    """sample-typed expression node. op: const(Real) | add | sub | neg | mul | read(ver, idx, proj) | x(idx)
    | garb(name) | sum(var, n, kind, body) | lin([(Real, T)]) | acc(id)"""
    __slots__ = ('op', 'a', '_k')

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __repr__(self):
        return tstr(self)


def tstr(t, d=0):
    if d > 4:
        return '..'
    if t.op in ('add', 'sub', 'mul'):
        return '(%s %s %s)' % (tstr(t.a[0], d + 1), {'add': '+', 'sub': '-', 'mul': '*'}[t.op], tstr(t.a[1], d + 1))
    if t.op == 'neg':
        return '-' + tstr(t.a[0], d + 1)
    if t.op == 'read':
        return 'V%d[%s]%s' % (t.a[0].id, pstr(t.a[1]), ''.join('.%s' % x for x in t.a[2]))
    if t.op == 'x':
        return 'x[%s]' % pstr(t.a[0])
    return '%s(%s)' % (t.op, ','.join(map(str, t.a)))


def tconst(r):
    return T('const', r)


TZERO = tconst(R.ZERO)
TONE = tconst(R.ONE)


def is_tzero(t):
    return t.op == 'const' and t.a[0].approx is None and not t.a[0].t


def _anyop(a, b):
    return T('any', 'C' if all(x.op == 'const' or (x.op == 'any' and x.a[0] == 'C') for x in (a, b)) else 'L')


def tadd(a, b):
    if a.op == 'any' or b.op == 'any':
        return _anyop(a, b)
    if a.op == 'const' and b.op == 'const':
        return tconst(R.radd(a.a[0], b.a[0]))
    if is_tzero(a):
        return b
    if is_tzero(b):
        return a
    return T('add', a, b)


def tneg(a):
    if a.op == 'any':
        return a
    if a.op == 'const':
        return tconst(R.rneg(a.a[0]))
    return T('neg', a)


def tsub(a, b):
    if a.op == 'any' or b.op == 'any':
        return _anyop(a, b)
    if a.op == 'const' and b.op == 'const':
        return tconst(R.rsub(a.a[0], b.a[0]))
    if is_tzero(b):
        return a
    return T('sub', a, b)


NONLIN = []         # products of two sample-dependent values seen by the all-lengths analysis


def tmul(a, b):
    if a.op == 'any' or b.op == 'any':
        r = _anyop(a, b)
        if r.a[0] == 'L' and not any(x.op == 'const' or (x.op == 'any' and x.a[0] == 'C') for x in (a, b)):
            NONLIN.append(1)
            return T('any', 'L', 'nonlin')
        return r
    if a.op == 'const' and b.op == 'const':
        return tconst(R.rmul(a.a[0], b.a[0]))
    return T('mul', a, b)


class Agg:
    """struct / tuple / enum variant / closure"""
    __slots__ = ('name', 'var', 'f', 'meta')

    def __init__(self, name, var, f, meta=None):
        self.name, self.var, self.f, self.meta = name, var, tuple(f), meta

    def __repr__(self):
        return '%s#%s(%s)' % (self.name.split('::')[-1], self.var, ', '.join(map(repr, self.f)))


def tup(*f):
    return Agg('tuple', 0, f)


UNIT = tup()
OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v): return Agg(OPT, 1, (v,))
NONE = Agg(OPT, 0, ())


class Poison:
    """a value the analysis lost; using it is unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'poison(%s)' % self.why


class Opaque:
    """an arbitrary inner transform: length and scratch needs are parameters"""

    def __init__(self, name, length, sin, sout):
        self.name, self.len, self.sin, self.sout = name, length, sin, sout

    def __repr__(self):
        return 'Inner(%s)' % self.name


class FnItem:
    def __init__(self, fn, subst=None):
        self.fn, self.subst = fn, subst


class Str:
    """strings, format arguments and other values that only ever reach a panic message"""

    def __repr__(self):
        return 'str'


STR = Str()


class Ptr:
    """thin: off is None. slice: off, len. element pointer: off set, len None, lo/hi the slice it came from."""
    __slots__ = ('cell', 'path', 'off', 'len', 'lo', 'hi')

    def __init__(self, cell, path=(), off=None, len=None, lo=None, hi=None):
        self.cell, self.path, self.off, self.len, self.lo, self.hi = cell, path, off, len, lo, hi

    def is_slice(self):
        return self.off is not None and self.len is not None

    def __repr__(self):
        return '&%s%s%s' % (self.cell, ''.join('.%s' % (x if isinstance(x, int) else '[%s]' % pstr(x[1])) for x in self.path),
                            '' if self.off is None else '[%s;+%s]' % (pstr(self.off), pstr(self.len) if self.len is not None else '-'))


_ver = [0]


class Ver:
    """array contents: prev + one effect, or a base"""
    __slots__ = ('prev', 'eff', 'id', 'depth')

    def __init__(self, prev, eff):
        self.prev, self.eff = prev, eff
        self.depth = (prev.depth + 1) if prev else 0
        _ver[0] += 1
        self.id = _ver[0]

    def __repr__(self):
        return 'V%d<-%s' % (self.id, self.eff)


class Base:
    """kind: x (the samples), garb (old contents), lit (list), zero-filled is fill(value)"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return 'Base(%s,%s)' % (self.kind, self.v if self.kind != 'lit' else len(self.v))


class EWrite:
    __slots__ = ('idx', 'val')

    def __init__(self, idx, val):
        self.idx, self.val = idx, val

    def __repr__(self):
        return '[%s]=%r' % (pstr(self.idx), self.val)


class EQuant:
    """for all vars in ranges: [idx] = val"""
    __slots__ = ('vars', 'idx', 'val', 'what')

    def __init__(self, vars_, idx, val, what=''):
        self.vars, self.idx, self.val, self.what = vars_, idx, val, what

    def __repr__(self):
        return '%s{%s}[%s]=%r' % (self.what, ','.join('%s<%s' % (v, pstr(n)) for v, n in self.vars), pstr(self.idx), self.val)


class Loop:
    """summarised loop: kvar, K (trip count), paths: [(guards, {leaf: [effects]})], filled in after exploration"""

    def __init__(self, kvar):
        self.kvar = kvar
        self.K = None
        self.paths = None
        self.site = None

    def __repr__(self):
        return 'Loop(%s)' % self.kvar


class ELoop:
    __slots__ = ('loop', 'leaf', 'upto')

    def __init__(self, loop, leaf, upto):
        self.loop, self.leaf, self.upto = loop, leaf, upto

    def __repr__(self):
        return 'ELoop(%s<%s)' % (self.loop.kvar, pstr(self.upto))


class Arr:
    """lit: python list (concrete length) or ver+len. shape: template of an element"""
    __slots__ = ('lit', 'ver', 'len', 'shape', 'vec', 'own')

    def __init__(self, lit=None, ver=None, len_=None, shape=None, vec=False):
        self.own = None         # token of the interpreter state this array is the only reference of: it may be updated in place
        self.lit, self.ver, self.shape, self.vec = lit, ver, shape, vec
        self.len = len(lit) if lit is not None else len_

    def __repr__(self):
        return 'Arr(%s,len=%s)' % (('lit' if self.lit is not None else self.ver), pstr(self.len))


def disown(v):
    if isinstance(v, Arr):
        v.own = None
    elif isinstance(v, Agg):
        for x in v.f:
            if isinstance(x, (Arr, Agg)):
                disown(x)


def shape_of(v):
    if isinstance(v, T):
        return 'T'
    if isinstance(v, Agg):
        return (v.name, v.var, tuple(shape_of(x) for x in v.f))
    if isinstance(v, (int, Poly)) and not isinstance(v, bool):
        return 'I'
    return None


def lazy(shape, ver, idx, proj=()):
    if shape == 'T':
        return T('read', ver, idx, proj)
    if isinstance(shape, tuple):
        return Agg(shape[0], shape[1], tuple(lazy(s, ver, idx, proj + (i,)) for i, s in enumerate(shape[2])))
    raise Unsupported('symbolic-index read of an array of non-sample values')


def to_ver(a):
    if a.lit is None:
        return a
    a.own = None
    sh = a.shape
    if sh is None and a.lit:
        sh = shape_of(a.lit[0])
    return Arr(ver=Ver(None, Base('lit', a.lit)), len_=a.len, shape=sh, vec=a.vec)
