"""Structural rules over the whole type-checked crate (no instances)."""
INTERIOR = ('core::cell::', 'core::sync::atomic::', 'std::sync::', 'parking_lot', 'std::thread::', 'alloc::rc::', 'once_cell', 'core::sync::',
            'std::thread_local')
IMPURE = ('std::time::', 'std::env::', 'std::fs::', 'std::io::', 'std::net::', 'std::process::', 'std::thread::', 'std::collections::hash',
          'std::hash::random', 'core::sync::atomic::', 'core::cell::', 'rand::', 'getrandom', 'std::random', 'core::hint::spin', 'std::os::',
          'std::sync::', 'core::arch::')


def walk_ty(t, f):
    if isinstance(t, list):
        f(t)
        for x in t:
            walk_ty(x, f)


def local_fns(prog):
    return {k: f for k, f in prog.fns.items() if f.get('local') and not k.startswith('prelude')}


def callees(fn):
    out = []

    def op(o):
        if isinstance(o, dict):
            if 'fn' in o:
                out.append(o['fn'])

    def rec(x):
        if isinstance(x, dict):
            if x.get('k') == 'const' and 'fn' in x:
                out.append(x['fn'])
                return
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    for b in fn['blocks']:
        for s in b['s']:
            if s[0] == 'assign':
                rec(s[2])
        t = b['t']
        if t[0] == 'call':
            rec(t[1])
            rec(t[2])
        elif t[0] == 'switch':
            rec(t[1])
    for p in fn.get('promoted') or []:
        out += callees(p)
    return out


def reach(prog, roots):
    """local functions reachable from roots over resolved callees, closures and trait dispatch"""
    seen, todo = set(), list(roots)
    by_trait = {}
    for i in prog.impls:
        for n, k in i['items'].items():
            by_trait.setdefault((i['trait'], n), []).append(k)
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.fns:
            continue
        seen.add(k)
        for c in callees(prog.fns[k]):
            todo.append(c['key'])
            if c.get('resolved'):
                todo.append(c['resolved'])
            elif c.get('trait'):
                todo += by_trait.get((c['trait'], c['name']), [])
        for b in prog.fns[k]['blocks']:
            for s in b['s']:
                if s[0] == 'assign' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                    todo.append(s[2][1][1])
    return seen


def check_C14(ctx, dumpd):
    prog = ctx.prog
    st = ctx.stats
    dht = [i for i in prog.impls if i['trait'] == 'rustdht::Dht']
    structs = {i['self'][1] for i in dht if i['self'][0] == 'adt'}
    if not structs:
        ctx.finding('anchor', 'no implementation of the transform trait was found', '')
    tr = prog.traits.get('rustdht::Dht')
    if tr is None:
        ctx.finding('anchor', 'the transform trait was not found', '')
    else:
        sup = ' '.join(tr['super'])
        for need in ('Send', 'Sync'):
            if not any(s.split('::')[-1] == need for s in tr['super']):
                ctx.finding('super/' + need, 'the transform trait no longer requires %s: transforms cannot be shared between threads' % need, 'src/lib.rs')
    # reachable state: fields of every transform and of every local type they contain
    todo, seen = list(structs), set()
    nf = 0
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        d = prog.adts.get(a)
        if not d:
            continue
        for v in d['variants']:
            for f in v['fields']:
                nf += 1
                bad = []

                def look(t, bad=bad):
                    if t and t[0] == 'adt':
                        if any(t[1].startswith(p) for p in INTERIOR):
                            bad.append(t[1])
                        if t[1].startswith('rustdht'):
                            todo.append(t[1])
                    if t and t[0] == 'ref' and t[1] is True:
                        bad.append('&mut')
                    if t and t[0] == 'ptr':
                        bad.append('raw pointer')
                    if t and t[0] == 'dyn' and t[1] not in ('rustdht::Dht',) and 'Fn' in t[1]:
                        pass
                walk_ty(f['ty'], look)
                for x in bad:
                    ctx.finding('field/%s.%s' % (a, f['name']), 'field %s of %s holds %s: the transform has mutable or unshared state' % (f['name'], a, x), a)
    st['fields'] = nf
    st['transforms'] = len(structs)
    # statics
    for s in prog.statics:
        if s['mut'] or not s['freeze'] or any(p.split('::')[-2] in s['ty'] for p in ()):
            ctx.finding('static/' + s['key'], 'global state %s: %s' % (s['key'], s['ty']), s['span'])
    for u in dumpd.get('unsafe_impls', []):
        if 'Send' in u or 'Sync' in u:
            ctx.finding('unsafe_impl/' + u, 'unsafe impl of a thread-safety marker: %s' % u, '')
    roots = []
    for i in dht:
        roots += list(i['items'].values())
    for k, f in local_fns(prog).items():
        if f.get('trait') == 'rustdht::Dht':
            roots.append(k)
    for i in prog.impls:
        if i['trait'] == 'rustfft::Length':
            roots += list(i['items'].values())
    R = reach(prog, roots)
    ncalls = 0
    for k in sorted(R):
        fn = prog.fns[k]
        if not fn.get('local') or k.startswith('prelude'):
            continue
        ctx.fns.add(k)
        for c in callees(fn):
            ncalls += 1
            for nm in {c['key'], c.get('resolved') or c['key']}:
                if any(nm.startswith(p) for p in IMPURE):
                    ctx.finding('call/%s/%s' % (k, nm), '%s calls %s: processing reads or writes state outside the transform and its arguments' % (k, nm), fn['span'])
        for b in fn['blocks']:
            for s in b['s']:
                if s[0] != 'assign':
                    continue
                rv = s[2]
                if rv[0] == 'tls':
                    ctx.finding('tls/' + k, '%s uses thread-local state %s' % (k, rv[1]), s[3])
                if rv[0] == 'cast' and ('ExposeProvenance' in rv[1] or 'ExposeAddr' in rv[1] or 'PointerExpose' in rv[1]):
                    ctx.finding('addr/' + k, '%s turns an address into a number: results may depend on where buffers lie' % k, s[3])
                if rv[0] == 'cast' and rv[1] == 'PtrToPtr' and rv[3][0] == 'ptr' and rv[3][1] is True:
                    o = rv[2]
                    if o.get('p') and not o['p'][1]:
                        src = fn['locals'][o['p'][0]]
                        if src[0] == 'ptr' and src[1] is False:
                            ctx.finding('constcast/' + k, '%s casts a *const pointer to *mut: shared data may be written' % k, s[3])

                def stat(x):
                    if isinstance(x, dict):
                        if 'static' in x:
                            sk = x['static']
                            sd = next((z for z in prog.statics if z['key'] == sk), None)
                            if sd is None or sd['mut'] or not sd['freeze']:
                                ctx.finding('useStatic/' + k, '%s reads or writes the global %s' % (k, sk), s[3])
                        for v in x.values():
                            stat(v)
                    elif isinstance(x, list):
                        for v in x:
                            stat(v)
                stat(rv)
    st['functions_reachable'] = len([k for k in R if prog.fns[k].get('local')])
    st['call_sites'] = ncalls
    if ncalls < 500:
        ctx.finding('anchor', 'only %d call sites were found behind the processing methods' % ncalls, '')


def selftest(prog_cls):
    """the zero-count rules must fire on a positive example"""
    bad = {'field': ['adt', 'core::cell::Cell', [['int', 'usize']]], 'call': 'std::time::Instant::now'}
    hit = []
    walk_ty(bad['field'], lambda t: hit.append(1) if t and t[0] == 'adt' and any(t[1].startswith(p) for p in INTERIOR) else None)
    assert hit and any(bad['call'].startswith(p) for p in IMPURE)
