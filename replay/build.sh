#!/bin/bash
# build.sh OUT: builds the replay program against /repo's working tree, through an overlay
set -e
out=$1; repo=${2:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*.go; do printf '%s"%s/cmd/zzverif/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=,; done
  echo '}}'
} > "$ov"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} PATH=/opt/veriftools/go1.27.3/bin:$PATH
rc=0
(cd "$repo" && go build -overlay "$ov" -o "$out" ./cmd/zzverif) || rc=$?
rm -f "$ov"
exit $rc
