# Shared by setup.sh and run.sh. Builds harness crates from /repo's current working tree.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export Z3_SYS_Z3_HEADER=/usr/include/z3.h
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
unset RUSTFLAGS

# cargo decides freshness by mtime, which a copied tree can make lie: compare contents ourselves and
# drop the artifacts of every repo crate whose files changed since the last build.
sync_sources() {
  mkdir -p "$CARGO_TARGET_DIR/.src"
  local c d n h f
  for d in /repo/crates/* /repo/apps/logicaffeine_cli; do
    [ -f "$d/Cargo.toml" ] || continue
    n=$(basename "$d")
    h=$( (cd "$d" && find . -type f -not -path './target/*' -not -path './tests/*' -print0 | sort -z | xargs -0 sha1sum; sha1sum /repo/Cargo.toml) | sha1sum | cut -c1-40)
    f="$CARGO_TARGET_DIR/.src/$n"
    if [ -f "$f" ] && [ "$(cat "$f")" != "$h" ]; then
      find "$CARGO_TARGET_DIR" -type d -path '*/.fingerprint/*' -name "${n//_/-}-*" -prune -exec rm -rf {} +
    fi
    echo "$h" > "$f"
  done
}

build_harness() { # crate
  if [ "$1" = h_base ]; then # the lane operations once more, with the vector instruction sets on
    ( cd "$VERIF_ROOT/harness/h_simd" && RUSTFLAGS="-C target-feature=+avx2,+sha,+ssse3,+sse4.1" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/simd" \
      cargo build --offline --quiet 2> "$CARGO_TARGET_DIR/h_simd.log" ) || {
      echo "ERROR: building h_simd failed"; tail -40 "$CARGO_TARGET_DIR/h_simd.log"; return 1; }
  fi
  ( cd "$VERIF_ROOT/harness/$1" && cargo build --offline --quiet 2> "$CARGO_TARGET_DIR/$1.log" ) || {
    echo "ERROR: building $1 failed"; tail -40 "$CARGO_TARGET_DIR/$1.log"; return 1; }
}
