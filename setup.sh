#!/bin/bash
# Warms the build cache; the checks build everything they need themselves.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/vfsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$root/harness/go.mod" "$tmp/go.mod"; cp "$root/harness/go.sum" "$tmp/go.sum"
export GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPROXY=off
cd "$root/harness" && go build -modfile="$tmp/go.mod" -o "$tmp/" ./cmd/... || exit 1
for d in cmd/*/RACE; do
  [ -f "$d" ] && CGO_ENABLED=1 go build -race -modfile="$tmp/go.mod" -o "$tmp/race" "./$(dirname "$d")"
done
exit 0
