#!/bin/bash
# usage: trybug.sh ID...   confirm planted bugs in a scratch copy: patch applies, changes original lines, builds,
# keeps the stable tests, demo 0 without and nonzero with it; then run the property's check against the patched copy.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
here=$(cd "$(dirname "$0")/.." && pwd)
base=396211e
for id in "$@"; do
  d=$here/seeded/$id
  w=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  cd "$w/repo"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  msg=""
  orig=$(python3 - "$d/patch.diff" <<'P'
import sys,subprocess,re
f=None;old=0;orig=0;mine=0
for l in open(sys.argv[1]):
    if l.startswith('--- '): f=l[6:].strip()
    elif l.startswith('+++ '): pass
    elif l.startswith('@@'): old=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-l','-L',f'{old},{old}','HEAD','--',f],capture_output=True,text=True).stdout
        h=b.split()[0] if b else ''
        if h.startswith('^') : orig+=1
        else:
            r=subprocess.run(['git','merge-base','--is-ancestor',h,'396211e']).returncode
            if r==0: orig+=1
            else: mine+=1
        old+=1
    elif l.startswith(' '): old+=1
print(f"orig={orig} mine={mine}")
P
)
  timeout 300 bash "$w/demo/demo.sh" >"$w/d0.log" 2>&1; r0=$?
  git apply "$d/patch.diff" || msg="$msg APPLY-FAILS"
  go build ./... >"$w/b.log" 2>&1 || msg="$msg BUILD-FAILS"
  ( go test -json -vet=off -count=1 -timeout 5m ./... > "$w/t.log" 2>/dev/null; python3 /opt/vp/results.py "$w/t.json" "gojson:$w/t.log" ) >/dev/null 2>&1
  tests=$(python3 - "$w/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k)
    return set(v if isinstance(v,list) else v.keys() if isinstance(v,dict) else [])
bp=names(b,'stable')
rp=names(r,'passed') or names(r,'passing')
print('tests-ok' if bp and bp<=rp else f'TESTS-LOST {sorted(bp-rp)[:5]} ({len(bp)},{len(rp)})')
P
)
  timeout 300 bash "$w/demo/demo.sh" >"$w/d1.log" 2>&1; r1=$?
  [ $r0 = 0 ] || { msg="$msg DEMO-FAILS-CLEAN"; tail -5 "$w/d0.log"; }
  [ $r1 != 0 ] || msg="$msg DEMO-PASSES-WITH-BUG"
  if [ -z "$NOCHECK" ]; then
    GZ_REPO=$w/repo timeout 900 "$here/check.sh" "$prop" >"$w/c.log" 2>&1; rc=$?
    [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "$w/c.log" && chk=CAUGHT || chk="MISSED rc=$rc"
  fi
  echo "$id [$prop] $orig $tests demo $r0/$r1 $chk $msg"
  [ -n "$V" ] && { grep VIOLATION "$w/c.log" | head -3; tail -5 "$w/d1.log"; }
  cd /; rm -rf "$w"
done
