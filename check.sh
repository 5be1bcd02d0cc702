#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (check.sh setup: only build the analyser)
# Builds the analyser in gzcheck/ when needed and decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GZ_GOCACHE:-/root/.cache/go-build}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
unset GOROOT
mkdir -p "$here/bin" "$here/evidence"
sum=$(cat "$here"/gzcheck/*.go "$here"/gzcheck/go.mod | sha256sum | cut -c1-16)
bin="$here/bin/gzcheck-$sum"
if [ ! -x "$bin" ]; then
  (
    flock 9
    if [ ! -x "$bin" ]; then
      find "$here/bin" -name 'gzcheck-*' -type f -delete
      cd "$here/gzcheck" && go build -o "$bin.tmp" . && mv "$bin.tmp" "$bin"
    fi
  ) 9>"$here/bin/.lock" || { echo "the analyser does not build"; exit 2; }
fi
[ "$1" = setup ] && exit 0
# the module file of the repository is not tracked: restore it when it is missing
repo=${GZ_REPO:-/repo}
for f in go.mod go.sum; do [ -f "$repo/$f" ] || cp "/opt/vp/$f" "$repo/$f"; done
exec "$bin" -repo "$repo" -verif "$here" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
