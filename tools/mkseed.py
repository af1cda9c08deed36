"""Creates /verif/seeded/<id>/ from edits of /repo's files and a Go test that demonstrates the change."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package PKG of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=CGO
cp "$repo/go.mod" "$tmp/zmq.mod"
cat "$repo/go.sum" /opt/vp/mod/extra.sum 2>/dev/null | sort -u > "$tmp/zmq.sum"
export GOFLAGS="-mod=mod -modfile=$tmp/zmq.mod"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
cd "$repo" || exit 3
TMPDIR="$tmp" go test RACE-vet=off -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestZZDemo' ./PKG
'''
def mkseed(id, prop, needs, breaks, edits, demo, pkg='.', race=False):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed.')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in edits:
        p = os.path.join(t, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    gf = '/opt/veriftools/go1.26.10/bin/gofmt'
    for f in {e[0] for e in edits}:
        out = subprocess.run([gf, '-l', os.path.join(t, 'r', f)], capture_output=True, text=True)
        if out.stdout or out.stderr: print(id, 'gofmt:', out.stdout, out.stderr)
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo_test.go'), 'w').write(demo.lstrip())
    sh = DEMO.replace('/PKG/zz', ('' if pkg == '.' else '/' + pkg) + '/zz').replace('PKG', pkg).replace('CGO_ENABLED=CGO', 'CGO_ENABLED=%d' % race).replace('RACE', '-race ' if race else '')
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(t)
    print('made', id)
