#!/bin/bash
# bash run.sh <property> [--only section/index]
# Builds the check and the diskii binary from /repo's working tree and runs it.
# Exit 0: held; 1 and a VIOLATION line: violated; anything else: no verdict.
id=${1:?usage: run.sh PROPERTY [--only section/index]}
root=$(cd "$(dirname "$0")" && pwd)
export VF_ROOT="$root" VF_REPO=/repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
[ "${2:-}" = --only ] && export VF_ONLY="$3"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vfrunXXXXXX") || exit 3
chmod 755 "$tmp"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
lc=$(echo "$id" | tr A-Z a-z)
# the module files are copied so that nothing is rewritten in /verif
cp "$root/harness/go.mod" "$tmp/go.mod" && cp "$root/harness/go.sum" "$tmp/go.sum" || exit 3
race=()
if [ -f "$root/harness/cmd/$lc/RACE" ]; then race=(-race); export CGO_ENABLED=1; fi
(cd "$root/harness" && go build "${race[@]}" -modfile="$tmp/go.mod" -o "$tmp/check" "./cmd/$lc") || { echo "harness for $id does not build"; exit 3; }
(cd /repo && GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=0 go build -o "$tmp/diskii" .) || { echo "diskii does not build"; exit 3; }
chmod 755 "$tmp/diskii" "$tmp/check"
export VF_BIN="$tmp/diskii"
"$tmp/check"
