"""Constant-length instances: the same abstract interpreter with every length a known constant (constant propagation
through sizes, loops and indices); samples stay abstract linear forms, so one instance covers every sample value."""
import sys, math
import numpy as np
from poly import *
from facts import *
from values import *
from interp import *
import models as M
import real as R

sys.setrecursionlimit(200000)
DHT = 'rustdht::Dht'


class Result:
    def __init__(self):
        self.outcome = None        # ret | panic | unsupported
        self.why = ''
        self.site = ''
        self.obls = []
        self.nok = 0
        self.events = []
        self.arrays = {}
        self.value = None
        self.interp = None


def struct_key(prog, short):
    """the ADT implementing the Dht trait whose name is `short`"""
    c = [k[1] for k in prog.impl_ix if k[0] == DHT and k[1].split('::')[-1] == short]
    return c[0] if len(c) == 1 else None


def ctor_key(prog, short, ctor='new'):
    sk = struct_key(prog, short)
    if sk is None:
        return None
    for k, f in prog.fns.items():
        if f.get('local') and f.get('short') == ctor and f.get('impl_self') and f['impl_self'][:2] == ['adt', sk] and not f.get('impl_trait'):
            return k
    return None


def new_interp(prog, maxsteps=8000000):
    return Interp(prog, Facts(), specialised=True, maxsteps=maxsteps)


def guarded(fn):
    r = Result()
    try:
        r.value = fn(r)
        r.outcome = 'ret'
    except PanicPath as e:
        r.outcome, r.why, r.site = 'panic', e.what, e.site
    except Unsupported as e:
        r.outcome, r.why = 'unsupported', str(e)
    except Fork as e:
        r.outcome, r.why = 'unsupported', 'undetermined branch %s' % e.cond
    except (R.NotExact, ValueError, KeyError, AttributeError, IndexError, TypeError, RecursionError, ZeroDivisionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.outcome, r.why = 'unsupported', '%s: %s (%s:%d)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
    return r


def build(prog, short, args):
    """run the constructor; returns (Result, interp, self pointer)"""
    I = new_interp(prog)
    key = ctor_key(prog, short)

    def go(r):
        if key is None:
            raise Unsupported('constructor %s::new not found' % short)
        a = []
        for x in args:
            if isinstance(x, Opaque):
                a.append(Ptr(I.fresh_cell(x, 'inner')))
            else:
                a.append(x)
        v = I.call_fn(key, a, {})
        return Ptr(I.fresh_cell(v, 'self'))
    r = guarded(go)
    r.interp = I
    r.obls, r.events, r.nok = list(I.obls), list(I.events), I.nok
    return r


def method(prog, I, selfp, name):
    v = I.load(selfp)
    imp = prog.impl_ix.get((DHT, v.name))
    if imp and name in imp['items']:
        return imp['items'][name]
    if name == 'len':
        imp = prog.impl_ix.get(('rustfft::Length', v.name))
        if imp:
            return imp['items']['len']
    k = DHT + '::' + name
    if k in prog.fns:
        return k
    raise Unsupported('method %s' % name)


def query_len(prog, b, name):
    I = b.interp
    return guarded(lambda r: I.call_fn(method(prog, I, b.value, name), [b.value], {}))


def xs(n, tag='x'):
    if tag == 'x':
        return [T('x', i) for i in range(n)]
    return [T('garb', '%s' % tag) for i in range(n)]


HITS = None


def spent():
    if HITS is not None:
        with HITS.get_lock():
            HITS.value += 1


def budget(b, lens):
    """a bound on abstract steps far above what any of the algorithms needs (quadratic in the length per chunk); once several runs of one
    check have exceeded it, later ones get a smaller bound so that the check still ends in time"""
    n = getattr(b, 'n', None) or 1
    if HITS is not None and HITS.value > 12:
        return 30000
    if max(lens, default=0) == 0:
        return 300000
    return 1000000 + 400 * (max(lens) + 1) * (n + 1)


def run(prog, b, entry, *lens):
    """entry: process(buf) | process_with_scratch(buf, scratch) | process_outofplace_with_scratch(in, out, scratch)"""
    I = b.interp
    snap = I.snapshot()
    names = {'process': ['x'], 'process_with_scratch': ['x', 'scratch'],
             'process_outofplace_with_scratch': ['x', 'output', 'scratch']}[entry]
    cells = {}

    def go(r):
        a = [b.value]
        for nm, n in zip(names, lens):
            c = I.fresh_cell(Arr(lit=xs(n, nm if nm == 'x' else 'old contents of ' + nm), shape='T'), nm)
            cells[nm] = c
            a.append(Ptr(c, (), 0, n))
        before = I.mem[b.value.cell]
        v = I.call_fn(method(prog, I, b.value, entry), a, {})
        r.self_changed = I.mem[b.value.cell] is not before
        for nm, c in cells.items():
            r.arrays[nm] = I.mem[c]
        return v
    no, ne, n0 = len(I.obls), len(I.events), I.nok
    I.steps, I.maxsteps = 0, budget(b, lens)
    r = guarded(go)
    if r.outcome == 'unsupported' and r.why == 'step budget':
        spent()
    r.obls, r.events, r.nok = I.obls[no:], I.events[ne:], I.nok - n0
    r.steps = I.steps
    I.restore(snap)
    return r


def dht_of(v):
    """DHT of a complex vector (used on coefficients, never on samples)"""
    n = len(v)
    m = _mats.get(n)
    if m is None and n <= 600:
        m = _mats[n] = cas_matrix(n)
    if m is not None:
        return m @ v
    f = np.fft.fft(v.real)
    g = np.fft.fft(v.imag)
    return (f.real - f.imag) + 1j * (g.real - g.imag)


_mats = {}


class Lin:
    """the linear forms held by an array of samples: one pass from the outputs back to the input samples gives, for any weights w, the
    coefficients of sum_k w[k] * out[k] on every input sample, every garbage cell and the constant 1"""

    def __init__(self, outs):
        ix = {}
        code = []           # (op, a, b)
        keep = []
        for t in outs:
            if not isinstance(t, T):
                raise Unsupported('non-sample in buffer')
            st = [t]
            while st:
                u = st[-1]
                if id(u) in ix:
                    st.pop()
                    continue
                if isinstance(u, M.Group):
                    kids = u.vals
                else:
                    op = u.op
                    kids = u.a if op in ('add', 'sub', 'mul', 'div', 'neg') else (u.a[0],) if op == 'dhtk' else ()
                todo = [k for k in kids if id(k) not in ix]
                if todo:
                    st.extend(todo)
                    continue
                st.pop()
                keep.append(u)
                if isinstance(u, M.Group):
                    c = ('G', [ix[id(k)] for k in kids], None)
                elif op in ('add', 'sub', 'mul', 'div'):
                    c = (op, ix[id(kids[0])], ix[id(kids[1])])
                elif op == 'neg':
                    c = (op, ix[id(kids[0])], None)
                elif op == 'dhtk':
                    c = (op, ix[id(kids[0])], u.a[1])
                elif op == 'const':
                    c = (op, R.rnum(u.a[0]).real, None)
                elif op in ('x', 'garb'):
                    c = (op, u.a[0], None)
                else:
                    raise Unsupported('node %s' % op)
                ix[id(u)] = len(code)
                code.append(c)
        self.keep, self.code = keep, code
        self.out = [ix[id(t)] for t in outs]
        # constant values
        val = [None] * len(code)
        for i, (op, a, b) in enumerate(code):
            if op == 'const':
                val[i] = a
            elif op == 'add':
                if val[a] is not None and val[b] is not None:
                    val[i] = val[a] + val[b]
            elif op == 'sub':
                if val[a] is not None and val[b] is not None:
                    val[i] = val[a] - val[b]
            elif op == 'neg':
                if val[a] is not None:
                    val[i] = -val[a]
            elif op == 'mul':
                if val[a] is not None and val[b] is not None:
                    val[i] = val[a] * val[b]
                elif val[a] == 0 or val[b] == 0:
                    val[i] = 0.0
                elif val[a] is None and val[b] is None:
                    raise Unsupported('product of two samples')
            elif op == 'div':
                if val[b] is None:
                    raise Unsupported('division by a sample')
                if val[b] == 0:
                    raise Unsupported('division by zero')
                if val[a] is not None:
                    val[i] = val[a] / val[b]
            elif op == 'G':
                if all(val[k] is not None for k in a):
                    val[i] = dht_of(np.array([val[k] for k in a], dtype=complex)).real
            elif op == 'dhtk':
                if val[a] is not None:
                    val[i] = float(val[a][b])
        self.val = val

    def project(self, w, n):
        """(coefficients on x[0..n], {garbage leaf index: coefficient}, constant term)"""
        code, val = self.code, self.val
        adj = [0j] * len(code)
        grp = {}
        for i, k in enumerate(self.out):
            adj[k] += w[i]
        x = np.zeros(n, dtype=complex)
        g = {}
        const = 0j
        for i in range(len(code) - 1, -1, -1):
            v = adj[i]
            op, a, b = code[i]
            if op == 'G':
                z = grp.get(i)
                if z is None or val[i] is not None:
                    continue
                z = dht_of(z)
                for k, c in zip(a, z.tolist()):
                    adj[k] += c
                continue
            if v == 0:
                continue
            if val[i] is not None:
                const += v * val[i]
            elif op == 'add':
                adj[a] += v
                adj[b] += v
            elif op == 'sub':
                adj[a] += v
                adj[b] -= v
            elif op == 'mul':
                if val[a] is not None:
                    adj[b] += v * val[a]
                else:
                    adj[a] += v * val[b]
            elif op == 'neg':
                adj[a] -= v
            elif op == 'div':
                adj[a] += v / val[b]
            elif op == 'dhtk':
                z = grp.get(a)
                if z is None:
                    z = grp[a] = np.zeros(len(code[a][1]), dtype=complex)
                z[b] += v
            elif op == 'x':
                x[a] += v
            else:
                g[i] = g.get(i, 0) + v
        return x, g, const

    def garbage(self):
        """(output, garbage cell) such that the cell occurs in the output's term, whatever its coefficient (old contents may be NaN)"""
        dep = [None] * len(self.code)
        for i, (op, a, b) in enumerate(self.code):
            if op == 'garb':
                dep[i] = a
            elif op == 'G':
                dep[i] = next((dep[k] for k in a if dep[k] is not None), None)
            elif op in ('add', 'sub', 'mul', 'div'):
                dep[i] = dep[a] if dep[a] is not None else dep[b]
            elif op in ('neg', 'dhtk'):
                dep[i] = dep[a]
        return next(((k, dep[i]) for k, i in enumerate(self.out) if dep[i] is not None), None)

    def row(self, k, n):
        w = [0.0] * len(self.out)
        w[k] = 1.0
        return self.project(w, n)

    def gname(self, i):
        return self.code[i][1]


_wc = {}


def weights(n, seed=1):
    """fixed pseudo-random complex weights: two functionals in one pass"""
    r = _wc.get((n, seed))
    if r is None:
        st = np.random.RandomState(9001 + seed)
        r = st.uniform(0.5, 1.5, n) * np.where(st.randint(0, 2, n) == 0, 1, -1) + 1j * st.uniform(0.5, 1.5, n) * np.where(st.randint(0, 2, n) == 0, 1, -1)
        if len(_wc) > 200:
            _wc.clear()
        _wc[(n, seed)] = r
    return r


def find_row(lin, n, bad):
    """first output whose own row is bad, by bisection on the weights (bad(row projection, lo, hi) judges a weighted range of rows)"""
    lo, hi = 0, len(lin.out)
    full = weights(hi)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        w = np.zeros(len(lin.out), dtype=complex)
        w[lo:mid] = full[lo:mid]
        if bad(lin.project(w.tolist(), n), w):
            hi = mid
        else:
            lo = mid
    return lo


def cas_matrix(n):
    k = np.arange(n)
    a = 2 * math.pi * (np.outer(k, k) % n) / n
    return np.cos(a) + np.sin(a)


TOL = 1e-9


def tol(n):
    return TOL * (10 + n / 20)


def lin_of(arr):
    return Lin(arr.lit)
