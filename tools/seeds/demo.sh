#!/bin/bash
# Run with cwd = the diskii source tree. Exit 0: behaviour is right; nonzero: it is not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/work"
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 4
go build -o "$tmp/diskii" . || exit 5
ulimit -v 6000000
timeout 120 "$tmp/demo" "$tmp/diskii" "$tmp/work"
