#!/bin/bash
# Compiles every stand-in the way a check does: its file and the common ones.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
root=$(cd "$(dirname "$0")/.." && pwd); tmp=$(mktemp -d); rc=0
for sub in restruct expr; do
  dest=/repo; pkg=.; [ $sub = expr ] && { dest=/repo/expr; pkg=./expr; }
  for f in "$root"/oracle/$sub/*_test.go; do
    { printf '{"Replace":{'; sep=
      for g in "$root"/oracle/$sub/common_*_test.go "$f"; do printf '%s"%s/zz_verif_%s":"%s"' "$sep" $dest "$(basename "$g")" "$g"; sep=,; done
      printf '}}'; } > "$tmp/ov.json"
    (cd /repo && go test -overlay "$tmp/ov.json" -c -o "$tmp/t" $pkg) > "$tmp/log" 2>&1 || { echo "$sub/$(basename "$f") does not compile:"; head -5 "$tmp/log"; rc=1; }
  done
done
rm -rf "$tmp"
exit $rc
