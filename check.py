#!/usr/bin/env python3-vt
"""check.py --property C01 [--tier quick|thorough]: decide one property on /repo's current working tree."""
import argparse, json, os, sys, time, traceback
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'        # the sweep runs one process per core already
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))


def known():
    out = set()
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' ', 2)[:2])
                out.add((d['property'], d['key']))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    import dump
    try:
        d, pre = dump.dump()
    except dump.DumpError as e:
        print('cannot analyse the working tree: %s' % e)
        return 2
    import decide
    ctx = decide.decide(pid, a.tier, d, pre)
    ev = decide.evidence(ctx, pid, a.tier, int(os.environ.get('VERIF_SEED', '1')), time.time() - t0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    kn = known()
    viol = []
    for f in ctx.findings:
        if (pid, f['key']) in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['message']))
        else:
            viol.append(f)
    ev['violations'] = len(viol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for u in ctx.undecided[:8]:
        print('undecided: %s' % u)
    print('%s: %s' % (pid, json.dumps(ctx.stats)))
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % pid)
        json.dump({'property': pid, 'violations': viol}, open(rp, 'w'), indent=1, default=str)
        for f in viol[:10]:
            print('  %s%s' % (f['message'], ' at ' + f['site'] if f['site'] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
