"""Rules deciding the properties on the abstract semantics (constant-length instances)."""
import multiprocessing, os, gc, time
import numpy as np
from spec import *
import alllen

INF = None
BF = (1, 2, 3, 4, 5, 6, 8, 9, 16)
RX = (2, 3, 4, 5, 6)
ENTRIES = ('process', 'process_with_scratch', 'process_outofplace_with_scratch')
TRANSFORM = {'C01': ['Butterfly%d' % n for n in BF], 'C02': ['MixedRadix%dxn' % r for r in RX], 'C03': ['MixedRadix'],
             'C04': ['SplitRadix'], 'C05': ['Radix4'], 'C06': ['RadersAlgorithm'], 'C07': ['DhtNaive']}
ALL = [s for l in TRANSFORM.values() for s in l]


class Inst:
    """constructor parameters of one instance: integers or inner lengths"""

    def __init__(self, short, params, scr=(None,)):
        self.short, self.params, self.scr = short, params, scr

    def args(self):
        if self.short in ('DhtNaive', 'Radix4'):
            return [self.params[0]]
        a = []
        for i, h in enumerate(self.params):
            s = self.scr[i % len(self.scr)]
            si, so = (h, 0) if s is None else s
            a.append(Opaque('inner%d' % i, h, si, so))
        return a

    def length(self):
        """documented length"""
        s, p = self.short, self.params
        if s.startswith('Butterfly'):
            return int(s[9:])
        if s in ('DhtNaive', 'Radix4'):
            return p[0]
        if s == 'MixedRadix':
            return p[0] * p[1]
        if s == 'SplitRadix':
            return 4 * p[0]
        if s == 'RadersAlgorithm':
            return p[0] + 1
        return int(s[10]) * p[0]

    def name(self):
        sc = '' if self.scr == (None,) else ' inner scratch %s' % (list(self.scr),)
        return '%s(%s)%s' % (self.short, ', '.join(map(str, self.params)), sc)


def primes(lo, hi):
    return [p for p in range(lo, hi) if M.prime(p)]


def near(c):
    return (c - 1, c, c + 1)


def literal_sizes(short, mined):
    """constructor parameters for which a length, inner length or derived quantity lies on either side of a literal of the code"""
    out = []
    for c in mined:
        if short in ('DhtNaive',):
            out += [(x,) for x in near(c) + (2 * c, 2 * c + 1)]
        elif short == 'RadersAlgorithm':
            for x in (c - 1, c, 2 * c):
                out += [(p - 1,) for p in primes(max(2, x), x + 60)[:2]]
            out += [(p - 1,) for p in [q for q in primes(max(2, c - 60), c + 1)][-1:]]
        elif short == 'SplitRadix':
            for d in (1, 2, 4, 8):
                out += [(x, 2 * x) for x in near(c * d // 4)]
        elif short == 'MixedRadix':
            out += [(x, y) for x in near(c) for y in (2, 3)] + [(y, x) for x in near(c) for y in (2, 3)]
            for d in (3, 4):
                out += [(x, d) for x in near(-(-c // d))] + [(d, x) for x in near(-(-c // d))]
            r = int(round(c ** 0.5))
            out += [(r, r + 1), (r + 1, r + 1), (r, r)]
        elif short.startswith('MixedRadix'):
            R_ = int(short[10])
            out += [(x,) for x in near(c) + (2 * c,) + near(c // R_) + (c // R_ + 2,)]
    return [x for x in out if min(x) >= 1]


def family(short, tier, mined=()):
    """constant-length instances of the correctness rules; `mined`: integer literals found in the analysed code"""
    th = tier == 'thorough'
    if short.startswith('Butterfly'):
        return [Inst(short, ())]
    lit = literal_sizes(short, mined)
    if short == 'DhtNaive':
        l = list(range(1, 65)) + [99, 100, 127, 128, 129] + ([200, 255, 256, 257, 400, 512, 768] if th else [255, 256, 257])
        l = [(n,) for n in l] + [x for x in lit if x[0] <= (700 if th else 400)]
        cap = 1 << 30
    elif short == 'Radix4':
        return [Inst(short, (1 << j,)) for j in range(0, 19 if max(NARROW, default=0) > 10000 else 16 if th else 14)]
    elif short == 'RadersAlgorithm':
        l = primes(2, 700 if th else 420) + [431, 499, 503, 509, 521, 571, 641, 683, 769, 1009, 1051, 1181, 1321, 2029, 2053, 4093, 4099, 8191, 10007] + [65537, 65539]
        l += (primes(1000, 2200) + [16381, 32771, 92681] if th else [])
        l = [(p - 1,) for p in l] + lit
        cap = 140000
    elif short == 'MixedRadix':
        m = 33 if th else 17
        l = [(w, h) for w in range(1, m) for h in range(1, m)]
        for x in [17, 18, 20, 24, 31, 32, 33, 34, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025] + ([200, 300, 2000, 2048, 4097] if th else []):
            l += [(x, 2), (x, 3), (2, x), (3, x), (x, 4), (5, x), (x, 5), (4, x), (7, x), (x, 6)]
        l += [(17, 17), (25, 24), (32, 32), (33, 32), (40, 41), (64, 64), (63, 66), (100, 99), (128, 65), (257, 256), (3, 21851), (21851, 4)]
        l += [(300, 301), (1024, 64), (64, 1024)] if th else []
        if max(NARROW, default=0) > 10000:      # products of halves beyond 2^16
            l += [(514, 515), (260, 1026)]
        l += lit
        cap = 140000 if max(NARROW, default=0) <= 10000 else 270000
    elif short == 'SplitRadix':
        l = list(range(1, 130 if th else 66)) + [96, 99, 100, 127, 128, 129, 160, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2047, 2048, 2049, 16385, 16411]
        l = [(q, 2 * q) for q in l] + lit
        cap = 140000
    else:
        l = list(range(1, 130 if th else 66)) + [81, 96, 99, 100, 125, 127, 128, 129, 160, 200, 243, 255, 256, 257, 300, 511, 512, 513, 729, 1000, 1023, 1024, 1025, 2048, 4097]
        l += [65536 // int(short[10]) + 5] + ([8192, 65537] if th else [])
        l = [(h,) for h in l] + lit
        cap = 400000 if th else 140000
    ins = [Inst(short, x) for x in uniq(l)]
    ins = [i for i in ins if i.length() <= cap]
    small, big = [i for i in ins if i.length() <= 3000], sorted([i for i in ins if i.length() > 3000], key=lambda i: i.length())
    lim = 60 if th else 24
    if len(big) > lim:      # keep the smallest and the fixed ones
        fixed = set(l[:len(l) - len(lit)])
        keep = [i for i in big if i.params in fixed]
        big = sorted(keep + [i for i in big if i.params not in fixed][:max(0, lim - len(keep))], key=lambda i: i.length())
    return small + big


def uniq(l):
    out, seen = [], set()
    for x in l:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


NARROW = set()      # ranges of the narrow integer types the code converts to


def mine(prog):
    """integer literals >= 10 in the analysed (non-test) functions, and powers of two for shift amounts: sizes on both sides of every such
    literal are analysed, so that a branch, block or table bound in the code is reached from both sides"""
    out = set()

    def lit(o):
        if isinstance(o, dict) and o.get('k') == 'const' and 'bits' in o and o.get('ty', [''])[0] == 'int':
            try:
                return int(o.get('int', o['bits']))
            except ValueError:
                return None
        return None

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 4 and x[0] == 'bin' and isinstance(x[1], str) and x[1].startswith(('Shl', 'Shr')):
                v = lit(x[3])
                if v is not None and 2 <= v <= 16:
                    out.add(1 << v)
            if len(x) >= 4 and x[0] == 'cast' and x[1] == 'IntToInt' and isinstance(x[3], list) and x[3][0] == 'int':
                b = {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}.get(x[3][1])
                if b:
                    out.add(b)
                    NARROW.add(b)
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            v = lit(x)
            if v is not None and 10 <= v <= 70000:
                out.add(v)
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    for k, f in prog.fns.items():
        if f.get('local') and k.startswith('rustdht') and '::test' not in k and 'unit_tests' not in k:
            walk(f.get('blocks', []))
            walk(f.get('promoted') or [])
    return sorted(out)[:24]


def scratch_variants(short, h):
    """inner scratch demands below, at and above what a composite could lend without asking for more"""
    R_ = int(short[10]) if short.startswith('MixedRadix') and short != 'MixedRadix' else 4
    n = h * R_
    v = [(0, 0), (h, 0), (0, h), (h + 1, 1), (n, n), (n + 1, 0), (0, n + 1), (2 * n + 3, n + 5), (h - 1 if h else 0, h + 2)]
    return v


class Ctx:
    def child(self):
        c = Ctx.__new__(Ctx)
        c.prog, c.tier, c.pid, c.mined = self.prog, self.tier, self.pid, self.mined
        c.findings, c.undecided, c.samples, c.fns, c.cache = [], [], [], set(), {}
        c.stats = {k: 0 for k in self.stats}
        return c

    def __init__(self, prog, tier, pid):
        self.prog, self.tier, self.pid = prog, tier, pid
        self.findings = []
        self.undecided = []
        self.stats = {'instances': 0, 'runs': 0, 'obligations': 0, 'discharged': 0}
        self.samples = []
        self.fns = set()
        self.cache = {}
        self.mined = mine(prog)
        self.stats['mined_literals'] = len(self.mined)

    def finding(self, key, msg, site='', detail=None):
        if all(f['key'] != key for f in self.findings):
            self.findings.append({'key': key, 'message': msg, 'site': site, 'detail': detail or {}})

    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def build(self, inst):
        k = inst.name()
        b = self.cache.get(k)
        if b is None:
            b = build(self.prog, inst.short, inst.args())
            self.cache = {k: b}
            self.stats['instances'] += 1
            self.note(b)
            b.n = b.si = b.so = None
            if b.outcome == 'ret':
                ql = [query_len(self.prog, b, m) for m in ('len', 'get_inplace_scratch_len', 'get_outofplace_scratch_len')]
                b.q = ql
                if all(q.outcome == 'ret' and isinstance(q.value, int) for q in ql):
                    b.n, b.si, b.so = [q.value for q in ql]
                else:
                    self.undec('%s: length queries: %s' % (k, [q.why for q in ql]))
            elif b.outcome == 'unsupported':
                self.undec('%s::new: %s' % (k, b.why))
        return b

    def note(self, r):
        self.stats['obligations'] += len(r.obls) + r.nok
        self.stats['discharged'] += sum(1 for o in r.obls if o.ok) + r.nok
        self.fns |= r.interp.fns_seen if r.interp else set()

    def run(self, inst, b, entry, *lens):
        r = run(self.prog, b, entry, *lens)
        r.label = '%s.%s(%s)' % (inst.name(), entry, ', '.join(map(str, lens)))
        r.interp = b.interp
        self.stats['runs'] += 1
        self.note(r)
        if r.outcome == 'unsupported':
            self.undec('%s: %s' % (r.label, r.why))
        if len(self.samples) < 6 and self.stats['runs'] % 37 == 1:
            self.samples.append(r.label)
        return r


def valid_calls(b, n, qs=(1,), extra=0):
    for q in qs:
        yield 'process', (q * n,)
        yield 'process_with_scratch', (q * n, b.si + extra)
        yield 'process_outofplace_with_scratch', (q * n, q * n, b.so + extra)


def kind_of(r):
    w = r.why.split(' ')[0]
    return 'unchecked' if w in ('unchecked', 'ptr') else 'inner' if w == 'inner' else 'panic'


def fnof(r):
    for o in reversed(r.obls):
        if not o.ok:
            return o.fn
    return ''


def out_of(r, entry):
    return r.arrays['output' if 'outofplace' in entry else 'x']


def forms(ctx, r, entry):
    """linear forms of the result, or the reason there are none"""
    try:
        return Lin(out_of(r, entry).lit), None
    except Unsupported as e:
        ctx.undec('%s: %s' % (r.label, e))
        return None, str(e)


def off(v, want, t):
    """largest deviation of a projection (x, garbage, constant) from `want` on the samples, if above t"""
    x, g, c = v
    d = np.abs(x - want)
    if not np.all(d <= t):
        j = int(np.argmax(np.where(np.isnan(d), 1e300, d)))
        return 'x', j
    for i, z in g.items():
        if not abs(z) <= t:
            return 'g', i
    if not abs(c) <= t:
        return 'c', 0
    return None


def chunked(w, n, mat=dht_of):
    return np.concatenate([mat(w[c:c + n]) for c in range(0, len(w), n)]) if len(w) else np.zeros(0, dtype=complex)


def against_dht(lin, n, L, want=None):
    """None, or (output, what it is compared on, coefficient found, coefficient of the DHT)"""
    w = weights(L)
    t = tol(L)

    def bad(v, w):
        return off(v, chunked(w, n), t)
    if len(lin.out) != L:
        return None
    if not bad(lin.project(w.tolist(), L), w):
        return None
    k = find_row(lin, L, bad)
    e = np.zeros(L, dtype=complex)
    e[k] = 1
    v = lin.row(k, L)
    wv = chunked(e, n)
    o = off(v, wv, TOL) or off(v, wv, 0)
    if o is None:
        return None
    if o[0] == 'x':
        return k, 'x[%d]' % o[1], float(v[0][o[1]].real), float(wv[o[1]].real)
    if o[0] == 'g':
        return k, lin.gname(o[1]), float(v[1][o[1]].real), 0.0
    return k, 'the constant 1', float(v[2].real), 0.0


def key(*p):
    return '/'.join(str(x) for x in p)


_job = {}
STOP = None         # set once a violation is found: the remaining instances are not needed
DEADLINE = None


def _work(i):
    import time as _t
    t0 = _t.time()
    c = _job['ctx'].child()
    if STOP is not None and STOP.value or DEADLINE and t0 > DEADLINE:
        if not STOP.value:
            c.stats['skipped_for_time'] = 1
            c.undec('instances skipped: time budget of this tier used up')
        return i, [], c.undecided, c.stats, [], set(), []
    gc.disable()
    try:
        _job['fn'](c, _job['items'][i])
        if c.findings and STOP is not None:
            STOP.value = 1
    except Exception as e:      # an engine failure is "undecided", never an alarm
        import traceback
        c.undec('%s: engine: %s' % (_job['items'][i], traceback.format_exc().strip().splitlines()[-1]))
    c.cache.clear()
    _job['done'] = _job.get('done', 0) + 1
    if _job['done'] % 16 == 0 or _t.time() - t0 > 3:
        gc.collect()
    return i, c.findings, c.undecided, c.stats, c.samples, c.fns, getattr(c, 'proof', [])


def pmap(ctx, items, fn, thin=True, order=True):
    """run fn(ctx, item) for all items, in parallel; results merged in item order"""
    items = list(items)
    if ctx.tier == 'smoke' and thin:     # development only: a thin slice of the instances
        items = items[::9]
    _job.update(ctx=ctx, items=items, fn=fn)
    global STOP, DEADLINE
    if DEADLINE is None:
        DEADLINE = time.time() + (520 if ctx.tier != 'thorough' else 2600)
    STOP = multiprocessing.Value('i', 1 if ctx.findings else 0)
    import spec
    spec.HITS = multiprocessing.Value('i', 0)
    n = min(len(items), os.cpu_count() or 1, 8)
    if n <= 1:
        res = [_work(i) for i in range(len(items))]
    else:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            # large instances (last in every family) start early, small ones in between
            ix = list(range(len(items)))
            if order:
                big = [i for i in ix if isinstance(items[i], Inst) and items[i].length() > 2500]
                sm = [i for i in ix if i not in set(big)]
                big.sort(key=lambda i: -items[i].length())
                ix = []
                while big or sm:
                    ix += big[:1] + sm[:6]
                    del big[:1], sm[:6]
            res = sorted(pool.imap_unordered(_work, ix, chunksize=1), key=lambda r: r[0])
    for _, fi, un, st, sa, fns, pf in res:
        if pf:
            ctx.proof = getattr(ctx, 'proof', []) + pf
        for f in fi:
            if all(g['key'] != f['key'] for g in ctx.findings):
                ctx.findings.append(f)
        for u in un:
            ctx.undec(u)
        for k, v in st.items():
            ctx.stats[k] = max(ctx.stats.get(k, 0), v) if k.startswith('max_') else ctx.stats.get(k, 0) + v
        ctx.samples += sa[:max(0, 8 - len(ctx.samples))]
        ctx.fns |= fns


# ------------------------------------------------------------------ C01..C07
def check_transform(ctx, shorts):
    items = [i for s in shorts for i in family(s, ctx.tier, ctx.mined)]
    pmap(ctx, items, transform_one)


def transform_one(ctx, inst):
    short = inst.short
    if True:
        b = ctx.build(inst)
        if b.outcome == 'panic':
            ctx.finding(key(short, 'new'), '%s: constructor panics: %s' % (inst.name(), b.why), b.site)
            return
        if b.n is None:
            return
        n = inst.length()
        if b.n != n:
            ctx.finding(key(short, 'len'), '%s reports length %s instead of %s' % (inst.name(), b.n, n), '')
            return
        if n == 0:
            return
        qs = (1, 2, 3, 5) if n <= 16 else (1, 2) if n <= 130 else (1,)
        if short.startswith('Butterfly'):
            qs = tuple(range(1, 10)) + (16, 17) + tuple(x for x in ctx.mined if x <= 200)
        for q in qs:
            for entry, lens in valid_calls(b, n, (q,)):
                if n > 9000 and entry == 'process':     # process_with_scratch with its own scratch, seen at every smaller size
                    continue
                r = ctx.run(inst, b, entry, *lens)
                if r.outcome == 'panic':
                    ctx.finding(key(short, entry), '%s: call does not produce the transform: %s' % (r.label, r.why), r.site)
                    continue
                if r.outcome != 'ret':
                    continue
                lin, why = forms(ctx, r, entry)
                if lin is None:
                    continue
                ctx.stats['linear_forms'] = ctx.stats.get('linear_forms', 0) + len(lin.out)
                o = against_dht(lin, n, q * n)
                if o:
                    ctx.finding(key(short, entry), '%s: output[%d] has coefficient %.9g on %s, the DHT has %.9g' % (r.label, o[0], o[2], o[1], o[3]), '',
                                {'output': o[0], 'on': o[1], 'got': o[2], 'want': o[3]})


# ------------------------------------------------------------------ valid-call scenarios shared by C08, C10, C11, C12, C17
def sweep_family(short, tier, mined):
    """instances of the control-flow and memory rules: every small size, sizes around the literals in the code, a few large ones"""
    th = tier == 'thorough'
    mn = sorted({x for c in mined for x in (c - 1, c, c + 1, 2 * c + 1)})
    mn = [x for x in mn if x <= (600 if th else 300)]
    if short.startswith('Butterfly'):
        return [Inst(short, ())]
    if short == 'DhtNaive':
        return [Inst(short, (n,)) for n in uniq(list(range(1, 21)) + [32, 33, 64] + [x for x in mn if x <= 130])]
    if short == 'Radix4':
        return [Inst(short, (1 << k,)) for k in range(0, 12 if th else 11)]
    if short == 'RadersAlgorithm':
        return [Inst(short, (p - 1,)) for p in uniq(primes(2, 80) + [101, 191, 257] + [p for x in mn for p in primes(x, x + 40)[:1]])]
    if short == 'MixedRadix':
        m = 10 if th else 7
        l = [(w, h) for w in range(1, m) for h in range(1, m)] + [(2, 9), (9, 4), (16, 3), (3, 16), (17, 4), (5, 17), (20, 20), (33, 2), (2, 33), (64, 3), (4, 65)]
        for x in mn:
            l += [(x, 3), (4, x)]
        return [Inst(short, x) for x in uniq(l)]
    l = list(range(1, 19)) + [24, 31, 32, 33, 40, 64, 65, 100, 129] + mn
    if short == 'SplitRadix':
        return [Inst(short, (q, 2 * q)) for q in uniq(l)]
    return [Inst(short, (h,)) for h in uniq(l)]


def scenarios(ctx, shorts=ALL):
    """bounded instances; for transforms already proven for all lengths only a small cross-check of the two analyses"""
    pr = getattr(ctx, 'proven', ())
    for short in shorts:
        l = sweep_family(short, ctx.tier, ctx.mined)
        if short in pr:
            l = l[:9] + l[-2:] if short != 'MixedRadix' else l[:3] + l[7:10] + l[14:16] + l[-2:]
        for i in l:
            yield i
        for i in getattr(ctx, 'more', lambda s: [])(short):
            yield i
    for short in shorts:
        if short in TRANSFORM['C02'] + ['SplitRadix', 'RadersAlgorithm', 'MixedRadix']:
            hs = {'RadersAlgorithm': [1, 2, 4, 6, 10], 'SplitRadix': [1, 2, 3, 4, 8], 'MixedRadix': [1, 2, 3, 4]}.get(short, [1, 2, 3, 4, 5, 8])
            if short in pr:
                hs = hs[:2]
            for hh in hs:
                for v in scratch_variants(short, hh):
                    if short == 'SplitRadix':
                        q = hh
                        yield Inst(short, (q, 2 * q), (v, (0, 0)))
                        yield Inst(short, (q, 2 * q), ((0, 0), v))
                        yield Inst(short, (q, 2 * q), ((v[0] * 2, v[1] * 2 + 1), v))
                    elif short == 'MixedRadix':
                        yield Inst(short, (hh, 3), (v, (0, 0)))
                        yield Inst(short, (2, hh), ((0, 0), v))
                        yield Inst(short, (hh, 4), ((3 * v[0], v[1]), v))
                    else:
                        yield Inst(short, (hh,), (v,))


def sweep(ctx, on_result, qs=(1, 2), extra=(0,), shorts=ALL):
    """on_result(ctx, inst, built, entry, chunks, result); entry is None for the constructor itself"""
    pmap(ctx, scenarios(ctx, shorts), lambda c, inst: sweep_one(c, inst, on_result, qs, extra))


def sweep_one(ctx, inst, on_result, qs, extra):
    b = ctx.build(inst)
    on_result(ctx, inst, b, None, None, None)
    if b.outcome == 'panic' or b.n is None or b.n == 0:
        return
    n = b.n
    many = qs
    if n > 40:
        many = qs[:1]
    elif n <= 12 and inst.scr == (None,):
        many = uniq(list(qs) + [4, 5, 8, 9, 16, 17, 33] + [x for c in ctx.mined for x in (c, c + 1, 2 * c) if x <= 130])
    elif n <= 18:
        many = uniq(list(qs) + [5])
    if n <= 2 and len(qs) > 1 and inst.scr == (None,):
        # small transforms with many chunks: chunk counters, groups of chunks
        many = uniq(list(many) + [64, 65, 129, 257] + [x for c in ctx.mined for x in (c - 1, c, c + 1, 2 * c + 1) if 130 < x <= 5000])
        if inst.short in ('Butterfly2', 'DhtNaive', 'MixedRadix2xn', 'Radix4') and n == max(1, inst.params[0] if inst.short != 'MixedRadix2xn' and inst.params else 2):
            many = uniq(list(many) + [x for c in ctx.mined for x in (c, c + 1) if 5000 < x <= 70000])
    elif inst.short in ('SplitRadix', 'RadersAlgorithm') and n <= 4 and len(qs) > 1 and inst.scr == (None,):
        many = uniq(list(many) + [65, 257] + [x for c in ctx.mined for x in (c, c + 1) if 130 < x <= 2100])
    for q in many:
        for ex in extra:
            if ex and q > 500:
                continue
            for entry, lens in valid_calls(b, n, (q,), ex):
                if ex and entry == 'process' or STOP is not None and STOP.value or DEADLINE and time.time() > DEADLINE + 60:
                    continue
                r = ctx.run(inst, b, entry, *lens)
                on_result(ctx, inst, b, entry, q, r)


def check_C08(ctx):
    def f(ctx, inst, b, entry, q, r):
        r = r or b
        if r.outcome == 'panic' and kind_of(r) == 'unchecked':
            ctx.finding(key(inst.short, fnof(r)), '%s: %s' % (getattr(r, 'label', inst.name()), r.why), r.site, {'function': fnof(r)})
    alllen.prove(ctx, 'C08', f)
    sweep(ctx, f, qs=(1, 2))
    misuse(ctx, f)


def check_C10(ctx):
    def f(ctx, inst, b, entry, q, r):
        if r is None:
            if b.outcome == 'panic':
                ctx.finding(key(inst.short, 'new', b.site.split(':')[0]), '%s::new panics on accepted parameters: %s' % (inst.name(), b.why), b.site)
            elif b.outcome == 'ret' and b.n is None:
                for x in b.q:
                    if x.outcome == 'panic':
                        ctx.finding(key(inst.short, 'len'), '%s: length query panics: %s' % (inst.name(), x.why), x.site)
            return
        if r.outcome == 'panic':
            ctx.finding(key(inst.short, entry, fnof(r)), '%s: a valid call panics: %s' % (r.label, r.why), r.site)
    alllen.prove(ctx, 'C10', f)
    sweep(ctx, f, qs=(1, 2), extra=(0, 3))


def check_C11(ctx):
    def f(ctx, inst, b, entry, q, r):
        if r is None or r.outcome != 'ret':
            return
        L = q * b.n
        lin, why = forms(ctx, r, entry)
        if lin is None:
            return
        k = lin.garbage()
        if k is not None:
            ctx.finding(key(inst.short, entry), '%s: output[%d] depends on %s' % (r.label, k[0], k[1]), '')
    sweep(ctx, f, qs=(1, 2), extra=(0, 2))


def check_C12(ctx):
    single = {}         # per worker, reset by every new instance

    def f(ctx, inst, b, entry, q, r):
        if r is None:
            single.clear()
            return
        n = b.n
        L = q * n
        if q == 1:
            single[entry] = None
            if r.outcome == 'ret':
                single[entry] = forms(ctx, r, entry)[0]
            return
        one = single.get(entry)
        if one is None:
            return
        if r.outcome == 'panic':
            ctx.finding(key(inst.short, entry), '%s: panics although one chunk alone is processed: %s' % (r.label, r.why), r.site)
            return
        if r.outcome != 'ret':
            return
        lin, why = forms(ctx, r, entry)
        if lin is None or len(lin.out) != L:
            return
        w = weights(L)
        t = tol(L)

        def want(w):
            ps = [one.project(w[c:c + n].tolist(), n) if np.any(w[c:c + n]) else (np.zeros(n, dtype=complex), {}, 0) for c in range(0, L, n)]
            return np.concatenate([p[0] for p in ps]), sum(p[2] for p in ps)

        def bad(v, w):
            x, c = want(w)
            o = off((v[0], {}, v[2] - c), x, t)
            return o
        if bad(lin.project(w.tolist(), L), w):
            k = find_row(lin, L, bad)
            e = np.zeros(L, dtype=complex)
            e[k] = 1
            v = lin.row(k, L)
            x, c = want(e)
            j = int(np.argmax(np.abs(v[0] - x)))
            ctx.finding(key(inst.short, entry), '%s: output[%d] (chunk %d) has coefficient %.6g on x[%d], processing that chunk alone gives %.6g' %
                        (r.label, k, k // n, v[0][j].real, j, x[j].real), '')
    sweep(ctx, f, qs=(1, 2, 3))


def check_C17(ctx):
    def f(ctx, inst, b, entry, q, r):
        r = r or b
        for o in r.obls:
            if o.kind == 'inner':
                ctx.stats['inner_call_obligations'] = ctx.stats.get('inner_call_obligations', 0) + 1
                if not o.ok:
                    ctx.finding(key(inst.short, o.fn), '%s: %s' % (getattr(r, 'label', inst.name()), o.detail), o.site, {'function': o.fn})
    comp = TRANSFORM['C02'] + ['MixedRadix', 'SplitRadix', 'RadersAlgorithm']
    alllen.prove(ctx, 'C17', f)
    sweep(ctx, f, qs=(1, 2), shorts=comp)
    if not ctx.stats.get('inner_call_obligations') and not ctx.undecided:
        ctx.finding('anchor', 'no call of an inner transform was found in any composite algorithm', '')


# ------------------------------------------------------------------ C09
def misuse_insts(tier):
    l = [Inst('Butterfly%d' % n, ()) for n in BF]
    l += [Inst('DhtNaive', (n,)) for n in (1, 2, 3, 5)]
    l += [Inst('Radix4', (n,)) for n in (1, 2, 4, 8, 16, 32)]
    l += [Inst('RadersAlgorithm', (n,), (s,)) for n in (1, 2, 4) for s in ((0, 0), (2 * n + 5, 2))]
    l += [Inst('SplitRadix', (n, 2 * n), (s,)) for n in (1, 2) for s in ((0, 0), (9 * n, 9 * n + 1))]
    l += [Inst('MixedRadix', (2, 3), (s,)) for s in ((0, 0), (19, 7))]
    for r in RX:
        l += [Inst('MixedRadix%dxn' % r, (n,), (s,)) for n in (1, 2, 3) for s in ((0, 0), (r * n + 2, n))]
    return l


def misuse(ctx, on_result):
    pmap(ctx, misuse_insts(ctx.tier), lambda c, inst: misuse_one(c, inst, on_result))


def misuse_one(ctx, inst, on_result):
    if True:
        b = ctx.build(inst)
        if b.n is None or b.n == 0:
            return
        n, si, so = b.n, b.si, b.so
        bl = sorted({0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n - 1, 3 * n} | ({5 * n + 1} if ctx.tier == 'thorough' else set()))
        for L in bl:
            if L < 0:
                continue
            r = ctx.run(inst, b, 'process', L)
            r.valid = L >= n and L % n == 0
            on_result(ctx, inst, b, 'process', None, r)
            for s in sorted({0, si - 1, si, si + 1}):
                if s < 0:
                    continue
                r = ctx.run(inst, b, 'process_with_scratch', L, s)
                r.valid = L >= n and L % n == 0 and s >= si
                on_result(ctx, inst, b, 'process_with_scratch', None, r)
            for s in sorted({0, so - 1, so, so + 1}):
                if s < 0:
                    continue
                for L2 in sorted({L, L - 1, L + 1, L + n, L - n, 0, n, 2 * n}):
                    if L2 < 0:
                        continue
                    r = ctx.run(inst, b, 'process_outofplace_with_scratch', L, L2, s)
                    r.valid = L >= n and L % n == 0 and L == L2 and s >= so
                    on_result(ctx, inst, b, 'process_outofplace_with_scratch', None, r)


def check_C09(ctx):
    def f(ctx, inst, b, entry, q, r):
        if r is not None and r.outcome == 'ret' and b.n and not r.valid:
            ctx.finding(key(inst.short, entry), '%s returns normally although its arguments are invalid (length %d, scratch needed %d in-place, %d out-of-place)' %
                        (r.label, b.n, b.si, b.so), '')
    alllen.prove(ctx, 'C09', f)
    misuse(ctx, f)


# ------------------------------------------------------------------ C13
def check_C13(ctx):
    def accept(ctx, it):
        inst, ok, n = it
        b = ctx.build(inst)
        if b.outcome == 'unsupported':
            return
        if ok:
            if b.outcome == 'panic':
                ctx.finding(key(inst.short, 'rejects'), '%s: constructor rejects valid parameters: %s' % (inst.name(), b.why), b.site)
            elif b.n is not None and b.n != n:
                ctx.finding(key(inst.short, 'len'), '%s reports length %d, documented %d' % (inst.name(), b.n, n), '')
        elif b.outcome == 'ret':
            ctx.finding(key(inst.short, 'accepts'), '%s: constructor accepts parameters for which no such transform exists' % inst.name(), '')

    def f(ctx, inst, b, entry, q, r):
        if entry is None:
            p = inst.params
            ok = not (inst.short == 'SplitRadix' and p[1] != 2 * p[0] or inst.short == 'RadersAlgorithm' and not M.prime(p[0] + 1))
            accept(ctx, (inst, ok, inst.length()))
    alllen.prove(ctx, 'C13', f)
    th = ctx.tier == 'thorough'
    mn = sorted({x for c in ctx.mined for x in (c - 1, c, c + 1, 2 * c) if 0 < x <= 2100})
    l = []
    for n in BF:
        l.append((Inst('Butterfly%d' % n, ()), True, n))
    for n in uniq(list(range(0, 70)) + mn):
        if n <= 600:
            l.append((Inst('DhtNaive', (n,)), True, n))
    for n in uniq(list(range(0, 300 if th else 140)) + [4097, 12288, 65537, 98304, (1 << 32) + 1, (1 << 32) + 4, 3 << 31, (1 << 33) + 2, 192, 255, 256, 257, 384, 511, 512, 513, 768, 1000, 1023, 1024, 1025, 2048] + mn):
        l.append((Inst('Radix4', (n,)), n > 0 and n & (n - 1) == 0, n))
    for r in RX:
        for h in uniq(list(range(1, 40)) + [64, 100] + mn):
            if h <= 600:
                for s in ((0, 0), (h * r + 3, 2 * h)):
                    l.append((Inst('MixedRadix%dxn' % r, (h,), (s,)), True, r * h))
    for w in range(1, 13):
        for h in range(1, 13):
            l.append((Inst('MixedRadix', (w, h)), True, w * h))
    for x in [16, 17, 33] + mn:
        if x <= 300:
            l += [(Inst('MixedRadix', (x, 3)), True, 3 * x), (Inst('MixedRadix', (4, x)), True, 4 * x)]
    for q in range(1, 17):
        for h in range(0, 2 * q + 18):
            l.append((Inst('SplitRadix', (q, h)), h == 2 * q, 4 * q))
    for q in [32, 33, 64, 100] + [x for x in mn if x <= 600]:
        for h in (q, 2 * q - 1, 2 * q, 2 * q + 1, 3 * q, 4 * q):
            l.append((Inst('SplitRadix', (q, h)), h == 2 * q, 4 * q))
    # composites that fool weak primality tests: Fermat and strong pseudoprimes, Carmichael numbers, prime squares
    hard = [341, 561, 645, 1105, 121, 169, 289, 361, 529, 703, 781, 841, 961, 217, 247, 259, 1387, 1541, 2047, 3277, 4033, 4681, 8321, 1729, 2465, 2821,
            899, 1147, 1517, 1763, 2021, 3599, 5183, 10403, 1369, 1681, 1849, 2209, 2809, 3481, 3721, 4489, 5041, 5329, 6241, 6889, 7921, 9409,
            10201, 64507, 63001, 65533, 1111, 9991, 29341]
    for i in uniq(list(range(1, 300 if th else 200)) + [x - 1 for x in hard] + [x for x in mn if x <= 600]):
        l.append((Inst('RadersAlgorithm', (i,)), M.prime(i + 1), i + 1))
    pmap(ctx, l, accept)


# ------------------------------------------------------------------ C15
ZERO = [Inst('DhtNaive', (0,)), Inst('MixedRadix', (0, 3)), Inst('MixedRadix', (3, 0)), Inst('MixedRadix', (0, 0)), Inst('SplitRadix', (0, 0))] + \
       [Inst('MixedRadix%dxn' % r, (0,), (s,)) for r in RX for s in (None, (3, 2))]


def check_C15(ctx):
    for inst in ZERO:
        I = None
        b = ctx.build(inst)
        if b.outcome == 'panic':
            ctx.finding(key(inst.short, 'new'), '%s: zero-length constructor panics: %s' % (inst.name(), b.why), b.site)
            continue
        if b.outcome == 'unsupported' and 'terminate' in b.why + 'step budget':
            if 'does not terminate' in b.why or 'step budget' in b.why:
                ctx.finding(key(inst.short, 'new'), '%s: constructor does not terminate' % inst.name(), '')
            continue
        if b.n is None:
            continue
        if b.n != 0:
            ctx.finding(key(inst.short, 'len'), '%s: zero-length transform reports length %d' % (inst.name(), b.n), '')
            continue
        for entry, lens in (('process', (0,)), ('process_with_scratch', (0, 0)), ('process_with_scratch', (0, b.si)), ('process_with_scratch', (0, 7)),
                            ('process_outofplace_with_scratch', (0, 0, 0)), ('process_outofplace_with_scratch', (0, 0, b.so)),
                            ('process_outofplace_with_scratch', (0, 0, 5))):
            r = ctx.run(inst, b, entry, *lens)
            if r.outcome == 'panic':
                ctx.finding(key(inst.short, entry), '%s: panics: %s' % (r.label, r.why), r.site)
            elif r.outcome == 'unsupported' and ('does not terminate' in r.why or 'step budget' in r.why):
                ctx.finding(key(inst.short, entry), '%s: does not terminate' % r.label, '')
        for entry, lens in (('process', (3,)), ('process_with_scratch', (4, 2 * b.si)), ('process_outofplace_with_scratch', (3, 3, 2 * b.so)),
                            ('process_outofplace_with_scratch', (3, 2, b.so))):
            r = ctx.run(inst, b, entry, *lens)      # not a valid call: it may panic, but has to end
            if r.outcome == 'unsupported' and ('does not terminate' in r.why or 'step budget' in r.why):
                ctx.finding(key(inst.short, entry), '%s: does not terminate' % r.label, '')

    def f(ctx, inst, b, entry, q, r):
        r = r or b
        import spec
        if r.outcome == 'unsupported' and ('does not terminate' in r.why or 'step budget' in r.why) and spec.HITS.value <= 12:
            ctx.finding(key(inst.short, entry or 'new'), '%s: does not terminate within the step bound' % getattr(r, 'label', inst.name()), '')
        elif r.outcome == 'panic' and inst.length() == 0:
            ctx.finding(key(inst.short, entry or 'new'), '%s: panics: %s' % (getattr(r, 'label', inst.name()), r.why), r.site)
    alllen.prove(ctx, 'C15', f)
    sweep(ctx, f, qs=(1, 2))


# ------------------------------------------------------------------ C16, C18
MAXERR = 200.0


def check_C16(ctx):
    R.TRACK = True
    def f(ctx, inst, b, entry, q, r):
        x = r or b
        for e in x.events:
            if e[0] == 'f32':
                ctx.finding(key(inst.short, e[1]), '%s: %s' % (getattr(x, 'label', inst.name()), e[3]), e[2], {'function': e[1]})
        if r is not None and r.outcome == 'ret' and b.n and q == 1:
            lin, why = forms(ctx, r, entry)
            if lin is not None and len(lin.out) == b.n:
                n = b.n
                w = weights(n)
                ctx.stats['coefficients_compared'] = ctx.stats.get('coefficients_compared', 0) + n * n
                cs = [u.a[0] for u in lin.keep if u.__class__ is T and u.op == 'const']
                e = max([c.err for c in cs if c.err == c.err], default=0.0)
                ctx.stats['max_constant_error_units'] = max(ctx.stats.get('max_constant_error_units', 0), round(e, 1))
                if e > MAXERR:
                    ctx.finding(key(inst.short, 'rounding'), '%s: a constant the samples are multiplied by accumulates %.0f rounding units of 2^-53 '
                                '(a recurrence or an unreduced angle), one evaluation has a few' % (r.label, e), '')
                d = lambda v, w: float(np.abs(v[0] - chunked(w, n)).max())
                lim = 1e-12 * n + 2e-13 * n ** 1.5
                x = d(lin.project(w.tolist(), n), w)
                if lim < x < 1e-2:
                    k = find_row(lin, n, lambda v, w: d(v, w) > lim)
                    e = np.zeros(n, dtype=complex)
                    e[k] = 1
                    x = d(lin.row(k, n), e)
                    if 1e-12 * n < x < 1e-3:
                        ctx.finding(key(inst.short, entry), '%s: a coefficient of output[%d] is off by %.3g: a constant is not accurate to double precision' % (r.label, k, x), '')
    ctx.more = lambda short: [Inst(short, x) for x in ([(40, 41), (300, 2), (3, 257), (64, 64)] if short == 'MixedRadix' else
                                                       [(300, 600), (513, 1026)] if short == 'SplitRadix' else
                                                       [(300,), (513,), (1000,)] if short in TRANSFORM['C02'] else
                                                       [(1 << 12,)] if short == 'Radix4' else [(150,), (200,)] if short == 'DhtNaive' else
                                                       [(1008,), (502,)] if short == 'RadersAlgorithm' else [])]
    sweep(ctx, f, qs=(1,))


def check_C18(ctx):
    def f(ctx, inst, b, entry, q, r):
        x = r or b
        for e in x.events:
            if e[0] == 'tbranch':
                ctx.finding(key(inst.short, e[1]), '%s: a sample value is inspected (%s)' % (getattr(x, 'label', inst.name()), e[3]), e[2], {'function': e[1]})
        if r is not None and r.outcome == 'ret':
            lin, why = forms(ctx, r, entry)
            if lin is None:
                if why in ('product of two samples', 'division by a sample'):
                    ctx.finding(key(inst.short, entry), '%s: %s: the result is not linear in the samples' % (r.label, why), '')
            elif abs(lin.project(weights(len(lin.out)).tolist(), q * b.n)[2]) > tol(q * b.n):
                ctx.finding(key(inst.short, entry, 'const'), '%s: the result has a constant term, so it is not linear in the samples' % r.label, '')
    alllen.prove(ctx, 'C18', f)
    sweep(ctx, f, qs=(1, 2))
