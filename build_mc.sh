#!/bin/bash
# Builds the checker against /repo's current working tree. Nothing is written into /repo.
. /opt/vp/env.sh
cd /verif/mc || exit 2
export CARGO_TARGET_DIR=/verif/mc/target CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
exec 9>/verif/mc/.lock
flock 9
# cargo compares times; a tree put back with old times would go unnoticed, so compare contents as well
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
mark=$CARGO_TARGET_DIR/repo.sha256
if [ "$now" != "$(cat "$mark" 2>/dev/null)" ] && [ -d "$CARGO_TARGET_DIR/release" ]; then
  cargo clean --release --offline --quiet -p phoenix-v1 || true
fi
mkdir -p "$CARGO_TARGET_DIR"
echo "$now" > "$mark"
exec cargo build --release --offline --quiet "$@"
