#!/usr/bin/env python3
"""run checks against seeded changes in scratch copies: tools/seedrun.py [--all-props] [id-prefix...]"""
import subprocess, os, sys, json, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrun'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
allp = '--all-props' in sys.argv
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]


def one(sid):
    d = os.path.join(V, 'seeded', sid)
    m = json.load(open(d + '/meta.json'))
    w = os.path.join(W, sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['rsync', '-a', '--exclude', 'target', '/repo/', w + '/repo/'], check=True) if shutil.which('rsync') else \
        subprocess.run('mkdir %s/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo && cp -a Cargo.lock %s/repo/ 2>/dev/null; cp -r .git %s/repo/' % (w, w, w, w), shell=True)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', check=True)
    subprocess.run('mkdir %s/verif && cd %s && cp -r check.py engine driver prelude known_findings.txt build %s/verif/ 2>/dev/null' % (w, V, w), shell=True)
    out = []
    for p in (props if allp else [m['property']]):
        r = subprocess.run(['python3-vt', w + '/verif/check.py', '--property', p], env=dict(os.environ, VERIF_REPO=w + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append((p, r.returncode, r.stdout))
    shutil.rmtree(w, ignore_errors=True)
    return sid, m['property'], out


ids = [s for s in sorted(os.listdir(V + '/seeded')) if not args or any(s.startswith(a) for a in args)]
with cf.ThreadPoolExecutor(6) as ex:
    for sid, p0, out in ex.map(one, ids):
        for p, rc, o in out:
            lines = [l for l in o.splitlines()]
            if allp:
                if rc:
                    print(sid, p0, '->', p, 'rc', rc, (lines or [''])[-2][:160] if len(lines) > 1 else o, flush=True)
            else:
                print('%-26s %s rc=%d %s' % (sid, p, rc, ' | '.join(l.strip()[:170] for l in lines if not l.startswith(p + ':'))[:400]), flush=True)
