#!/bin/bash
# run.sh <property> [quick|thorough] [extra args]: rebuild the harness from /repo and run one check.
# Exit 0 held, 1 violation (VIOLATION line printed), anything else is an error of the check.
set -u
. "$(dirname "$(readlink -f "$0")")/lib.sh"
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
crate=$(awk -v p="$id" '$1==p{print $2}' "$VERIF_ROOT/harness/map.txt")
[ -n "$crate" ] || { echo "ERROR: no harness for $id"; exit 2; }
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_ROOT/evidence"
sync_sources
build_harness "$crate" || exit 2
export VERIF_SCRATCH=$(mktemp -d /tmp/verif-XXXXXX)
chmod 711 "$VERIF_SCRATCH" # some checks act as an unprivileged user
"$CARGO_TARGET_DIR/debug/$crate" "$id" --tier "$tier" "$@"
rc=$?
rm -rf "$VERIF_SCRATCH"
exit $rc
