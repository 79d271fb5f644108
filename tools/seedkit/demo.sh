#!/bin/bash
# Compiles the demonstration against the library build.sh has just built and runs it. Writes only to a scratch directory.
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$H"/*.rs "$T"/ || exit 3
D=/repo/target/debug/deps
ok=
for s in "$D"/libsolana_program-*.rlib; do for t in "$D"/libspl_token-*.rlib; do
  [ -n "$ok" ] && break
  if rustc --edition 2021 -A warnings -C opt-level=1 -C overflow-checks=on -L dependency="$D" \
    --extern phoenix=/repo/target/debug/libphoenix.rlib --extern solana_program="$s" --extern spl_token="$t" \
    --extern sokoban="$(ls "$D"/libsokoban-*.rlib | head -1)" --extern borsh="$(ls "$D"/libborsh-*.rlib | head -1)" \
    "$T/main.rs" -o "$T/demo" 2>"$T/err"; then ok=1; fi
done; done
[ -n "$ok" ] || { tail -30 "$T/err"; exit 3; }
timeout 120 "$T/demo"
