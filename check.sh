#!/bin/bash
# check.sh <ID> [--thorough]: rebuilds the checker from /repo's working tree and explores one property.
/verif/build_mc.sh || { echo "the checker does not build against /repo" >&2; exit 2; }
exec /verif/mc/target/release/mc check "$@"
