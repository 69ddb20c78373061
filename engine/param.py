"""All-lengths analysis: the abstract interpreter with every length, scratch size and chunk count a symbolic parameter.
Branches on parameters partition the parameter space (each part is a conjunction of polynomial constraints and residue classes); loops are
summarised by inductive invariants (loops.py). Nothing is bounded: a path that comes out 'ret' with all obligations entailed stands for every
value of the parameters in its part."""
import time
from poly import *
from facts import *
from values import *
from interp import *
import models as M
import real as R
from loops import Trial, advance, any_arr
import spec


class PPath:
    """one part of the parameter space: outcome, facts, obligations"""
    __slots__ = ('out', 'why', 'site', 'facts', 'obls', 'events', 'loops', 'val', 'fns', 'steps', 'phase')

    def bad(self):
        return [o for o in self.obls if not o.ok]


class Budget(Exception):
    pass


def partition(prog, run, facts, params, limit=400, secs=60):
    """all paths of `run` over the parameter space described by `facts`"""
    out = []
    work = [facts]
    t0 = time.time()
    n = 0
    while work:
        F = work.pop()
        script = []
        local = []
        while script is not None:
            n += 1
            if n > limit or time.time() - t0 > secs:
                raise Budget('%d parts after %.0f s' % (n, time.time() - t0))
            I = Interp(prog, F, specialised=False, maxsteps=300000)
            I.params, I.shape = set(params), True
            I.trial = Trial(script, -1)
            p = PPath()
            del NONLIN[:]
            p.val, p.why, p.site = None, '', ''
            try:
                p.val = run(I)
                p.out = 'ret'
            except NeedSplit as e:
                for r in range(e.m):
                    sp = dict(F.splits)
                    sp[e.name] = (e.m, r, e.name + "'")
                    sym(e.name + "'", SYMS[e.name].level)
                    work.append(Facts(F.conds, sp))
                local = []
                break
            except PanicPath as e:
                p.out, p.why, p.site = 'panic', e.what, e.site
            except Fork as e:
                p.out, p.why = 'unsupported', 'undetermined branch %s' % e.cond
            except (Unsupported, TooLong) as e:
                p.out, p.why, p.site = 'unsupported', str(e), I.site()
            except (R.NotExact, ValueError, KeyError, AttributeError, IndexError, TypeError, RecursionError, ZeroDivisionError) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                p.out, p.why, p.site = 'unsupported', '%s: %s (%s:%d)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno), I.site()
            p.phase = getattr(I, 'phase', 'new')
            p.facts, p.obls, p.events, p.loops, p.fns, p.steps = I.facts, I.obls, I.events, I.loops_done, I.fns_seen, I.steps
            if NONLIN:
                p.events = list(p.events) + [('nonlin', '', '', 'product of two samples')]
            if p.facts.feasible():
                local.append(p)
            script = advance(I.trial.script)
        out += local
    return out


def P(name):
    return sym(name, 0)


def ctor_args(I, short):
    """symbolic constructor arguments"""
    if short.startswith('Butterfly'):
        return []
    if short in ('DhtNaive', 'Radix4'):
        return [P('n')]

    def inner(h):
        return Ptr(I.fresh_cell(Opaque('inner', P(h), P(h + '_sin'), P(h + '_sout')), 'inner'))
    if short in ('MixedRadix', 'SplitRadix'):
        return [inner('h1'), inner('h2')]
    return [inner('h')]


def base(short):
    """parameters and their preconditions: inner transforms have length >= 1"""
    if short.startswith('Butterfly'):
        ps, cs = [], []
    elif short in ('DhtNaive', 'Radix4'):
        ps, cs = ['n'], []
    elif short in ('MixedRadix', 'SplitRadix'):
        ps = ['h1', 'h2', 'h1_sin', 'h1_sout', 'h2_sin', 'h2_sout']
        cs = [ge(P('h1'), 1), ge(P('h2'), 1)]
    else:
        ps, cs = ['h', 'h_sin', 'h_sout'], [ge(P('h'), 1)]
    return ps, cs


def construct(I, prog, short):
    v = I.call_fn(spec.ctor_key(prog, short), ctor_args(I, short), {})
    return Ptr(I.fresh_cell(v, 'self'))


def query(I, prog, selfp, name):
    return I.call_fn(spec.method(prog, I, selfp, name), [selfp], {})


def buf(I, name, n, cls='L'):
    c = I.fresh_cell(any_arr(cls, n, 'T', False), name)
    return Ptr(c, (), 0, n)


if __name__ == '__main__':
    import sys, dump
    d, pre = dump.dump()
    prog = Program([d, pre])
    for short in sys.argv[1:]:
        ps, cs = base(short)
        for entry in ('process', 'process_with_scratch', 'process_outofplace_with_scratch'):
            def go(I):
                s = construct(I, prog, short)
                n = query(I, prog, s, 'len')
                L = P('q') * n
                a = [s, buf(I, 'x', L)]
                if entry == 'process_with_scratch':
                    a.append(buf(I, 'scratch', query(I, prog, s, 'get_inplace_scratch_len') + P('e')))
                elif entry != 'process':
                    a.append(buf(I, 'out', L))
                    a.append(buf(I, 'scratch', query(I, prog, s, 'get_outofplace_scratch_len') + P('e')))
                I.call_fn(spec.method(prog, I, s, entry), a, {})
                return n
            t = time.time()
            try:
                r = partition(prog, go, Facts(cs), ps + ['q', 'e'])
            except Budget as e:
                print(short, entry, 'BUDGET', e)
                continue
            print(short, entry, '%.1fs' % (time.time() - t), len(r), 'parts')
            for p in r:
                print('   ', p.out, p.why, p.site, [str(c) for c in p.facts.conds][:12], p.facts.splits, 'obls', len(p.obls), 'loops', len(p.loops))
                for o in p.bad():
                    print('        BAD', o.kind, o.fn, o.site, o.cond, o.detail)
