#!/bin/bash
# Builds everything the checks need, offline:
#   build/libsim.so    the simulator
#   build/ludtwig      ludtwig from /repo's working tree, edge-instrumented
#   build/simcheck     the driver
# Safe to run again; rebuilds whatever changed.  VERIF_REPO overrides /repo
# (used for experiments with scratch copies), VERIF_OUT overrides build/.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=${VERIF_OUT:-$HERE/build}
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTFLAGS
mkdir -p "$OUT" || exit 3
exec 9>"$OUT/.lock"
flock 9
log="$OUT/build.log"
: > "$log"
fail() { echo "build of $1 failed:" >&2; tail -n 40 "$log" >&2; exit 3; }

# 1. simulator
h=$(sha256sum "$HERE/sim/libsim.cc" | cut -c1-32)
if [ ! -f "$OUT/libsim.so" ] || [ "$(cat "$OUT/libsim.hash" 2>/dev/null)" != "$h" ]; then
  g++ -std=c++17 -O2 -g -fPIC -shared -fno-stack-protector -fno-delete-null-pointer-checks -ftls-model=initial-exec -Wall \
    -o "$OUT/libsim.so.new" "$HERE/sim/libsim.cc" -ldl >>"$log" 2>&1 || fail libsim
  mv "$OUT/libsim.so.new" "$OUT/libsim.so"; echo "$h" > "$OUT/libsim.hash"
fi

# 2. driver
(cd "$HERE/driver" && cargo build --release --offline --locked --target-dir "$OUT/target-driver" >>"$log" 2>&1) || fail driver
cp -f "$OUT/target-driver/release/simcheck" "$OUT/simcheck.new" && mv "$OUT/simcheck.new" "$OUT/simcheck" || fail driver

# 3. the code under test.  Freshness is decided on content, not on time stamps.
h=$(cd "$REPO" && { cat "$HERE/build.sh" "$HERE/sim/rustc-stores"; find . \( -path ./target -o -path ./.git -o -path ./fuzz -o -path ./fixtures -o -path ./docs \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-32)
if [ ! -f "$OUT/ludtwig" ] || [ "$(cat "$OUT/ludtwig.hash" 2>/dev/null)" != "$h" ]; then
  T="$OUT/target-sut"
  for d in "$T"/x86_64-unknown-linux-gnu/release/.fingerprint/ludtwig*; do
    [ -d "$d" ] && rm -r "$d"
  done
  (cd "$REPO" && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Clink-arg=-Wl,--unresolved-symbols=ignore-all" \
    RUSTC_WORKSPACE_WRAPPER="$HERE/sim/rustc-stores" \
    CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_STRIP=none CARGO_PROFILE_RELEASE_DEBUG=0 \
    cargo build --release --offline --locked -p ludtwig --bin ludtwig \
    --target x86_64-unknown-linux-gnu --target-dir "$T" >>"$log" 2>&1) || fail ludtwig
  cp -f "$T/x86_64-unknown-linux-gnu/release/ludtwig" "$OUT/ludtwig.new" && mv "$OUT/ludtwig.new" "$OUT/ludtwig" || fail ludtwig
  echo "$h" > "$OUT/ludtwig.hash"
fi
exit 0
