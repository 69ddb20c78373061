"""Decisions for all lengths at once. Every (transform, processing method) pair is analysed with symbolic lengths, scratch sizes and chunk
counts (param.py). What comes out proven holds for every value of those parameters; what does not is turned into small candidate parameter
values which are re-analysed as constant-length instances: only a candidate whose instance definitely violates the rule is a violation."""
import os, time
from param import *
import checks as C

QUICK = {'job': 150, 'all': 260}
NOT_PARAMETRIC = {'Radix4': 'recursive in the number of radix-4 layers', 'RadersAlgorithm': 'index sequence is a power sequence modulo a prime'}


class Fail:
    __slots__ = ('kind', 'fn', 'site', 'detail', 'envs')

    def __init__(self, kind, fn, site, detail, envs=()):
        self.kind, self.fn, self.site, self.detail, self.envs = kind, fn, site, detail, list(envs)


def names_of(facts, want, params):
    out = []
    seen = set()
    try:
        for e in models(facts, [p for p in params], limit=40, maxv=7, want=want, budget=30000):
            t = tuple(e.get(p, 0) for p in params)
            if t not in seen:
                seen.add(t)
                out.append({p: e.get(p, 0) for p in params})
            if len(out) >= 6:
                break
    except Exception:
        pass
    return out


def analyse(prog, short, entry, mode, secs, pre=()):
    """-> (paths, params). mode 'valid': q >= 1 chunks of the transform's length and e spare scratch; 'any': arbitrary lengths L, L2, S"""
    ps, cs = base(short)
    if mode == 'valid':
        ps, cs = ps + ['q', 'e'], cs + [ge(P('q'), 1)]
    elif mode == 'any':
        ps = ps + ['L', 'L2', 'S']
    elif mode == 'zero':
        ps, cs = ps + ['e'], [c for c in cs][:0] + zero(short, entry)
        entry = entry.split('@')[0]

    def go(I):
        I.phase = 'new'
        s = construct(I, prog, short)
        I.phase = 'query'
        n = query(I, prog, s, 'len')
        si = query(I, prog, s, 'get_inplace_scratch_len')
        so = query(I, prog, s, 'get_outofplace_scratch_len')
        if mode == 'new':
            return n, si, so
        if mode == 'valid':
            L = L2 = P('q') * n
            S = (si if entry == 'process_with_scratch' else so) + P('e')
        elif mode == 'zero':
            L = L2 = 0
            S = P('e')
        else:
            L, L2, S = P('L'), P('L2'), P('S')
        a = [s, buf(I, 'x', L)]
        if entry == 'process_with_scratch':
            a.append(buf(I, 'scratch', S))
        elif entry != 'process':
            a += [buf(I, 'out', L2), buf(I, 'scratch', S)]
        I.phase = 'call'
        I.call_fn(spec.method(prog, I, s, entry), a, {})
        return n, si, so
    sp = {}
    for name, m, r in pre:      # start from one residue class (the classes are separate jobs)
        sp[name] = (m, r, name + "'")
        P(name), sym(name + "'", 0)
    return partition(prog, go, Facts(cs, sp), ps, limit=1500, secs=secs), ps


def zero(short, entry):
    if short == 'DhtNaive':
        return [eq(P('n'), 0)]
    if short == 'MixedRadix':
        return [eq(P('h1' if entry.endswith('@1') else 'h2'), 0)]
    if short == 'SplitRadix':
        return [eq(P('h1'), 0), eq(P('h2'), 0)]
    return [eq(P('h'), 0)]


def documented(short):
    if short.startswith('Butterfly'):
        return int(short[9:])
    if short in ('DhtNaive', 'Radix4'):
        return P('n')
    if short == 'MixedRadix':
        return P('h1') * P('h2')
    if short == 'SplitRadix':
        return 4 * P('h1')
    if short == 'RadersAlgorithm':
        return P('h') + 1
    return int(short[10]) * P('h')


def divides(F, n, L):
    if not isinstance(n, Poly):
        if n == 1:
            return True
        x = F.norm(L)
        if not isinstance(x, Poly):
            return x % n == 0
        if all(getattr(c, 'denominator', 1) == 1 and c % n == 0 for c in x.t.values()):
            return True
        sp = F.splits.get('L')
        if sp and sp[0] % n == 0:
            return sp[1] % n == 0
    for c in F.conds:
        if c.k == 'eq' and 'L' in all_syms(c.p):
            for s in all_syms(c.p):
                if s != 'L' and F.decide(eq(n * sym(s, SYMS[s].level) if isinstance(n, Poly) else sym(s, SYMS[s].level) * n, L)) is True:
                    return True
    return None


def inst_of(short, env):
    if short.startswith('Butterfly'):
        return C.Inst(short, ())
    if short in ('DhtNaive', 'Radix4'):
        return C.Inst(short, (env['n'],))
    if short in ('MixedRadix', 'SplitRadix'):
        return C.Inst(short, (env['h1'], env['h2']), ((env['h1_sin'], env['h1_sout']), (env['h2_sin'], env['h2_sout'])))
    return C.Inst(short, (env['h'],), ((env['h_sin'], env['h_sout']),))


def fails_of(pid, short, entry, mode, paths, ps):
    """what is not proven on the paths, for the rule of property pid"""
    out = []

    def fail(kind, fn, site, detail, facts, want=None):
        out.append(Fail(kind, fn, site, detail, names_of(facts, want, ps)))
    for p in paths:
        if p.out == 'unsupported':
            fail('unsupported', '', p.site, p.why, p.facts)
            continue
        for o in p.obls:
            if o.ok:
                continue
            want = [o.cond.neg()] if isinstance(o.cond, Cond) else None
            rel = {'C08': o.kind in ('unchecked', 'ptr'), 'C10': o.kind != 'terminates', 'C15': o.kind == 'terminates' or mode == 'zero',
                   'C17': o.kind == 'inner'}.get(pid, False)
            if rel:
                fail(o.kind, o.fn, o.site, o.detail, o.facts or p.facts, want)
        for e in p.events:
            if pid == 'C18' and e[0] in ('tbranch', 'nonlin') or pid == 'C16' and e[0] == 'f32':
                fail(e[0], e[1], e[2], str(e[3]), p.facts)
        if p.out == 'panic':
            ph = p.phase
            if pid == 'C10' and not (ph == 'new' and short == 'SplitRadix' and p.facts.decide(eq(P('h2'), 2 * P('h1'))) is False):
                fail('panic', '', p.site, p.why, p.facts)
            elif pid == 'C15' and mode == 'zero':
                fail('panic', '', p.site, p.why, p.facts)
            elif pid == 'C08' and p.why.split(' ')[0] in ('unchecked', 'ptr'):
                fail('unchecked', '', p.site, p.why, p.facts)
            elif pid == 'C13' and not (short == 'SplitRadix' and p.facts.decide(eq(P('h2'), 2 * P('h1'))) is False):
                fail('rejects', '', p.site, p.why, p.facts)
            continue
        n, si, so = p.val
        F = p.facts
        if pid == 'C13':
            if F.decide(eq(n, documented(short))) is not True:
                fail('len', '', '', 'length', F, [ne(n, documented(short))])
            if short == 'SplitRadix' and F.decide(eq(P('h2'), 2 * P('h1'))) is not True:
                fail('accepts', '', '', 'accepts h2 != 2*h1', F, [ne(P('h2'), 2 * P('h1'))])
        if pid == 'C15' and mode == 'zero' and F.decide(eq(n, 0)) is not True:
            fail('len', '', '', 'a zero-length transform reports another length', F)
        if pid == 'C09':
            if F.decide(eq(n, 0) if isinstance(n, Poly) else n == 0) is True if isinstance(n, Poly) else n == 0:
                continue
            if F.decide(ge(P('L'), n)) is not True:
                fail('short', '', '', 'returns for a buffer shorter than the transform', F, [lt(P('L'), n)])
            if divides(F, n, P('L')) is not True:
                fail('partial', '', '', 'returns for a buffer that is not whole chunks', F)
            if entry == 'process_with_scratch' and F.decide(ge(P('S'), si)) is not True:
                fail('scratch', '', '', 'returns with too little scratch', F, [lt(P('S'), si)])
            if entry == 'process_outofplace_with_scratch':
                if F.decide(ge(P('S'), so)) is not True:
                    fail('scratch', '', '', 'returns with too little scratch', F, [lt(P('S'), so)])
                if F.decide(eq(P('L'), P('L2'))) is not True:
                    fail('lengths', '', '', 'returns with unequal input and output lengths', F, [ne(P('L'), P('L2'))])
    return out


def lit_envs(short, mode, mined, ps):
    """parameter values around the literals of the code, for conditions without a small model"""
    out = []
    for c in mined:
        for x in (c, c + 1, c - 1):
            for b in (1, 2, 3):
                e = {p: 0 for p in ps}
                for p in ('n', 'h', 'h1'):
                    if p in e:
                        e[p] = b
                if 'h2' in e:
                    e['h2'] = 2 * b if short == 'SplitRadix' else b
                n = documented(short)
                n = int(peval(n, e)) if isinstance(n, Poly) else n
                if mode == 'valid':
                    for q in (x, -(-x // n)):
                        out.append(dict(e, q=q))
                    out.append(dict(e, q=1, e=x))
                elif mode == 'any':
                    for L in (x, x * n, -(-x // n) * n, x * n + 1):
                        out.append(dict(e, L=L, L2=L, S=2 * n))
                        out.append(dict(e, L=L, L2=L + 1, S=2 * n))
                        out.append(dict(e, L=L, L2=L + n, S=2 * n))
                    out.append(dict(e, L=n, L2=n, S=x))
                for p in ('h', 'h1', 'n', 'h_sin', 'h_sout', 'h1_sin', 'h1_sout', 'h2_sin', 'h2_sout'):
                    if p in e:
                        f = dict(e, **{p: x})
                        if short == 'SplitRadix' and p == 'h1':
                            f['h2'] = 2 * x
                        if mode == 'valid':
                            f['q'] = 1
                        elif mode == 'any':
                            m = documented(short)
                            m = int(peval(m, f)) if isinstance(m, Poly) else m
                            f.update(L=m, L2=m, S=2 * m + 4 * x)
                        out.append(f)
    seen, r = set(), []
    for e in out:
        t = tuple(sorted(e.items()))
        if t not in seen and max(e.values()) <= 70000 and e.get('q', 1) >= 1:
            seen.add(t)
            r.append(e)
    return r


def confirm(ctx, short, entry, mode, env, on_result):
    """re-analyse the candidate as a constant-length instance with the rule of the property"""
    inst = inst_of(short, env)
    if inst.length() > 1500 and short == 'DhtNaive' or inst.length() > 20000 or any(x > 70000 for x in env.values()):
        return False
    before = len(ctx.findings)
    b = ctx.build(inst)
    on_result(ctx, inst, b, None, None, None)
    if b.outcome == 'ret' and b.n is not None and mode != 'new':
        n = b.n
        if mode == 'valid':
            if n == 0 or env.get('q', 1) < 1:
                return False
            L = L2 = n * env['q']
            s = (b.si if entry == 'process_with_scratch' else b.so) + env['e']
        elif mode == 'zero':
            L = L2 = 0
            s = env['e']
        else:
            L, L2, s = env['L'], env['L2'], env['S']
        if max(L, L2, s) > 140000 or L * n > 4000000 and short == 'DhtNaive':
            return False
        lens = {'process': (L,), 'process_with_scratch': (L, s), 'process_outofplace_with_scratch': (L, L2, s)}[entry]
        r = ctx.run(inst, b, entry, *lens)
        need = b.so if 'outofplace' in entry else b.si
        r.valid = n > 0 and L >= n and L % n == 0 and (entry == 'process' or s >= need) and ('outofplace' not in entry or L == L2)
        on_result(ctx, inst, b, entry, (L // n if n else 0), r)
    return len(ctx.findings) > before


def jobs_of(pid):
    mode = {'C08': 'any', 'C09': 'any', 'C13': 'new'}.get(pid, 'valid')
    js = []
    for short in ('MixedRadix', 'SplitRadix') + tuple(s for s in C.ALL if s not in ('MixedRadix', 'SplitRadix')):
        if short in NOT_PARAMETRIC:
            continue
        if pid == 'C17' and (short.startswith('Butterfly') or short == 'DhtNaive'):
            continue
        for entry in (C.ENTRIES if mode != 'new' else ('new',)):
            if short == 'MixedRadix' and mode != 'new':
                js += [(short, entry, mode, (('h1', 2, a), ('h2', 2, b))) for a in (1, 0) for b in (1, 0)]
            else:
                js.append((short, entry, mode))
        if pid == 'C15' and not short.startswith('Butterfly'):
            for entry in C.ENTRIES:
                for v in (('@1', '@2') if short == 'MixedRadix' else ('',)):
                    js.append((short, entry + v, 'zero'))
    return js


def prove(ctx, pid, on_result):
    """run all jobs; ctx.proven: transforms all of whose jobs are proven, for every length"""
    t0 = time.time()
    lim = dict(QUICK)
    if ctx.tier == 'thorough':
        lim = {'job': 400, 'all': 700}
    elif ctx.tier == 'smoke':
        lim = {'job': 25, 'all': 100}
    ctx.proof = []

    def one(c, job):
        short, entry, mode = job[:3]
        pre = job[3] if len(job) > 3 else ()
        left = lim['all'] - (time.time() - t0)
        rec = {'transform': short, 'method': entry, 'calls': mode, 'residues': ['%s = %d mod %d' % (x, r, m) for x, m, r in pre], 'proven': False}
        c.proof = [rec]
        if left < 5:
            rec['why'] = 'time budget'
            return
        t = time.time()
        try:
            paths, ps = analyse(c.prog, short, entry, mode, min(lim['job'], left), pre)
        except Budget as e:
            rec['why'] = 'time budget: %s' % e
            return
        except (Unsupported, Exception) as e:
            rec['why'] = '%s: %s' % (type(e).__name__, e)
            return
        entry = entry.split('@')[0]
        rec.update(parts=len(paths), obligations=sum(len(p.obls) for p in paths), discharged=sum(1 for p in paths for o in p.obls if o.ok),
                   loops=len({l[0] for p in paths for l in p.loops}), seconds=round(time.time() - t, 1))
        for p in paths:
            c.fns |= p.fns
        inv = {}
        for p in paths:
            for l in p.loops:
                inv.setdefault(l[0], l[2][:4])
        rec['invariants'] = dict(list(inv.items())[:3])
        fs = fails_of(pid, short, entry, mode, paths, ps)
        rec['proven'] = not fs
        if fs:
            rec['not_proven'] = ['%s %s %s %s' % (f.kind, f.fn, f.site, f.detail) for f in fs[:5]]
            hit = 0
            for f in fs[:30]:
                for env in f.envs:
                    if time.time() - t > 2 * lim['job'] or hit or C.STOP.value:
                        break
                    try:
                        if confirm(c, short, entry, mode, env, on_result):
                            hit += 1
                            rec['witness'] = env
                    except Exception:
                        pass
            for env in (lit_envs(short, mode, c.mined, ps) if not hit else ()):
                if C.STOP.value or time.time() - t > 2 * lim['job'] or time.time() - t0 > lim['all'] or hit:
                    break
                try:
                    if confirm(c, short, entry, mode, env, on_result):
                        hit += 1
                        rec['witness'] = env
                except Exception:
                    pass
    C.pmap(ctx, jobs_of(pid), one, thin=False, order=False)
    ok, bad = set(), set()
    for r in ctx.proof:
        (ok if r['proven'] else bad).add(r['transform'])
    ctx.proven = ok - bad
    ctx.stats['all_lengths_jobs'] = len(ctx.proof)
    ctx.stats['all_lengths_jobs_proven'] = sum(1 for r in ctx.proof if r['proven'])
    ctx.stats['all_lengths_parts'] = sum(r.get('parts', 0) for r in ctx.proof)
    ctx.stats['all_lengths_obligations'] = sum(r.get('obligations', 0) for r in ctx.proof)
    ctx.stats['transforms_proven_for_all_lengths'] = len(ctx.proven)
    return ctx.proven
