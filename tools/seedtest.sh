#!/bin/bash
# tools/seedtest.sh [-t] ID...: confirm planted changes in a scratch copy of /repo.
#   -t  also run the stable tests (80 s each)
# For each: the patch applies and builds, the demonstration passes without and
# fails with it, and what the registered checks say about it.
tests=0; [ "$1" = -t ] && { tests=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id
  S=/tmp/seedtest.$$.$id
  mkdir -p $S/vp/logs
  cp -a /repo $S/repo
  sed "s#/repo#$S/repo#g; s#/opt/vp/mod/zmq#$S/vp/zmq#g" /opt/vp/env.sh > $S/vp/env.sh
  for f in build test; do sed "s#/repo#$S/repo#g; s#/opt/vp/env.sh#$S/vp/env.sh#; s#/opt/vp/logs#$S/vp/logs#g" /opt/vp/$f.sh > $S/vp/$f.sh; done
  mkdir -p $S/demo; cp $d/* $S/demo/ 2>/dev/null; rm -f $S/demo/*.diff $S/demo/meta.json
  r="$id:"
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh > $S/clean.log 2>&1) && r="$r clean=ok" || { r="$r clean=FAILS"; tail -15 $S/clean.log; }
  git -C $S/repo apply $d/patch.diff || r="$r NOAPPLY"
  bash $S/vp/build.sh > $S/build.log 2>&1 && r="$r build=ok" || { r="$r build=FAILS"; tail -5 $S/build.log; }
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh > $S/patched.log 2>&1) && r="$r patched=PASSES" || r="$r patched=fails"
  if [ $tests = 1 ]; then
    bash $S/vp/test.sh $S/out.json > /dev/null 2>&1
    r="$r tests=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$S/out.json'))
m=sorted(b-set(o['passed'])); print('ok' if not m else 'MISSING:'+','.join(m[:4]))")"
  fi
  [ -n "$NOCHECK" ] && { echo "$r"; rm -rf "$S"; continue; }
  mkdir -p $S/ev
  cp $V/known-findings.txt $S/ev/
  hit=$(VERIF_REPO=$S/repo VERIF_DIR=$S/ev $V/bin/zmqcheck all 2>/dev/null | grep -o 'VIOLATION property=C[0-9]*' | sed 's/.*=//' | sort -u | tr '\n' ' ')
  want=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  case " $hit " in *" $want "*) r="$r CAUGHT($hit)";; *) r="$r MISSED want=$want hit=($hit)";; esac
  echo "$r"
  [ -n "$KEEP" ] || rm -rf "$S"
done
