#!/usr/bin/env python3
"""cross.py [N]: runs every check on batches of the edits of tools/mut that keep the behaviour."""
import sys, os, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = dict(os.environ, PATH='/opt/veriftools/go1.26.10/bin:' + os.environ['PATH'], CGO_ENABLED='0', GOTOOLCHAIN='local', GOPROXY='off')
# edits that keep the property they are listed for, and break another one
SKIP = {'recv in socket ok', 'metadata loop skips, in bounds', 'identity of peer checked', 'first success is enough',
        'replayed to the new connection alone', 'send direct', 'sequential', 'errgroup', 'rep: writes itself'}
cases = []
for f in sorted(glob.glob(V + '/tools/mut/' + os.environ.get('FILES', '*') + '.py')):
    g = {}
    exec(open(f).read(), g)
    cases += [c for c in g['M'] if c[1] == 'same' and c[2] not in SKIP]
def build(d):
    return subprocess.run(['go', 'build', './...'], cwd=d, env=E, capture_output=True, text=True).returncode == 0
def apply(d, edits):
    old = {}
    for f, a, b in edits:
        p = d + '/' + f
        s = open(p).read() if os.path.exists(p) else None
        old.setdefault(p, s)
        if s is None or (a and s.count(a) == 0):
            if not (s is None and not a):
                undo(old)
                return None
        s = s or ''
        open(p, 'w').write(s.replace(a, b, 1) if a else s + b)
    if not build(d):
        undo(old)
        return None
    return old
def undo(old):
    for p, s in old.items():
        if s is None:
            os.unlink(p)
        else:
            open(p, 'w').write(s)
batches, left = [], cases
while left:
    d = tempfile.mkdtemp(prefix="cross")
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    names, rest = [], []
    for c in left:
        if len(names) < int(os.environ.get('BATCH', '14')) and apply(d, c[3]):
            names.append(c[0] + ':' + c[2])
        else:
            rest.append(c)
    if not names:
        print('cannot apply:', [c[2] for c in rest], flush=True)
        break
    batches.append((d, names))
    left = rest
print(len(batches), 'batches', flush=True)
def run(b):
    d, names = b
    os.mkdir(d + '/zzv'); os.mkdir(d + '/zzv/evidence')
    shutil.copy(V + '/known-findings.txt', d + '/zzv/')
    ids = subprocess.run([V + '/bin/zmqcheck', 'list'], capture_output=True, text=True).stdout.split()
    bad = []
    for i in ids:
        try:
            r = subprocess.run([V + '/bin/zmqcheck', i], env=dict(E, VERIF_REPO=d, VERIF_DIR=d + '/zzv'), capture_output=True, text=True, timeout=800)
            if r.returncode:
                bad.append((i, r.stdout + r.stderr))
        except subprocess.TimeoutExpired:
            bad.append((i, 'TIMEOUT'))
    return b, bad
with ThreadPoolExecutor(int(os.environ.get('J', '5'))) as ex:
    for (d, names), bad in ex.map(run, batches):
        print('BATCH', d if bad else '', '; '.join(names), flush=True)
        for i, o in bad:
            print('  ALARM', i, '\n'.join('      ' + l for l in o.splitlines()[:6]), flush=True)
        if not bad:
            subprocess.run(['rm', '-rf', d])
