#!/bin/bash
# Prepares nothing permanent: warms the build of every harness crate.
set -u
. "$(dirname "$(readlink -f "$0")")/lib.sh"
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_ROOT/evidence"
sync_sources
for c in $(awk '{print $2}' "$VERIF_ROOT/harness/map.txt" | sort -u); do build_harness "$c" || exit 1; done
exit 0
