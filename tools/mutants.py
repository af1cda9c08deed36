#!/usr/bin/env python3
"""mutants.py [FILTER]: runs the analyzer on small edits of /repo.
tools/mut/*.py hold lists M of (check, 'bug'|'same', name, [(file, old, new), ...]).
'bug' must make the check report, 'same' must leave it quiet."""
import sys, os, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flt = sys.argv[1:]
cases = []
for f in sorted(glob.glob(V + '/tools/mut/*.py')):
    g = {}
    exec(open(f).read(), g)
    for c in g['M']:
        if not flt or any(x in c[0] + ':' + c[2] for x in flt):
            if not os.environ.get('KIND') or c[1] == os.environ['KIND']:
                cases.append(c)
def run(c):
    check, kind, name, edits = c
    d = tempfile.mkdtemp(prefix='mutant')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, old, new in edits:
            p = d + '/' + f
            s = open(p).read() if os.path.exists(p) else ''
            if old and old not in s:
                return (c, 'EDIT DOES NOT APPLY: ' + old[:60], '')
            s = s.replace(old, new, 1) if old else s + new
            open(p, 'w').write(s)
        e = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], CGO_ENABLED='0', GOTOOLCHAIN='local', GOPROXY='off')
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=e, capture_output=True, text=True)
        if b.returncode:
            return (c, 'DOES NOT BUILD', b.stderr)
        os.mkdir(d + '/zzv'); os.mkdir(d + '/zzv/evidence')
        if os.path.exists(V + '/known-findings.txt'):
            shutil.copy(V + '/known-findings.txt', d + '/zzv/')
        out, rcs = '', []
        for ch in os.environ.get('AS', check).split(','):
            r = subprocess.run([os.environ.get('BIN', V + '/bin/zmqcheck'), ch], env=dict(e, VERIF_REPO=d, VERIF_DIR=d + '/zzv'), capture_output=True, text=True, timeout=float(os.environ.get('TIMEOUT', '200')))
            out += r.stdout + r.stderr
            rcs.append(r.returncode)
        want = 1 if kind == 'bug' else 0
        ok = all(x == want for x in rcs) if kind == 'same' else any(x == 1 for x in rcs)
        return (c, 'ok' if ok else 'WRONG (exit %s)' % rcs, out)
    except subprocess.TimeoutExpired:
        return (c, 'TIMEOUT', '')
    finally:
        subprocess.run(['rm', '-rf', d])
bad = 0
with ThreadPoolExecutor(6) as ex:
    for c, res, out in ex.map(run, cases):
        print(c[0], c[1], c[2], ':', res, flush=True)
        if res != 'ok' or os.environ.get('SHOW'):
            bad += res != 'ok'
            print('\n'.join('    ' + l for l in out.splitlines()[:int(os.environ.get('N', '8'))]))
print(len(cases), 'mutants,', bad, 'unexpected')
