#!/bin/bash
# runs main.go (beside this file) against the module in the current directory
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
{
  printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"' "$PWD" "$d"
  [ -f "$d/pe.go" ] && printf ',"%s/zz_demo/pe.go":"%s/pe.go"' "$PWD" "$d"
  printf '}}'
} > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 120 ./demo
