#!/bin/bash
# bash run.sh setup | check <ID> [wzmon options] | replay <file> | build <variant>
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T="$V/harness/target"

build_sched() { # features
  local D="$T/sched" S="$V/harness/shim"
  mkdir -p "$D"
  (
    flock 9
    cd "$V/harness" || exit 2
    h=$(cat "$S"/* | sha256sum)
    if [ "$(cat "$D/.stamp" 2>/dev/null)" != "$h" ]; then
      rm -rf "$D/release"
      rustc --edition 2021 -O --crate-type rlib --crate-name wzstd --out-dir "$D" "$S/wzstd.rs" || exit 2
      echo "$h" >"$D/.stamp"
    fi
    # shellcheck disable=SC2086
    if ! WZSTD="$D/libwzstd.rlib" RUSTC_WRAPPER="$S/rustc.sh" cargo build --release --offline --locked --target-dir "$D" $1 >"$T/build-sched.log" 2>&1; then
      tail -40 "$T/build-sched.log" >&2
      exit 2
    fi
    mkdir -p "$T/bin"
    cp -f "$D/release/wzmon" "$T/bin/wzmon-sched.new" && mv -f "$T/bin/wzmon-sched.new" "$T/bin/wzmon-sched"
  ) 9>"$T/.lock-sched"
}
build() { # variant
  local f
  case "$1" in
    main) f="" ;;
    plain) f="--no-default-features --features f-miniz" ;;            # no rayon, rust inflate backend
    ordered) f="--no-default-features --features f-rayon,f-miniz,f-indexmap" ;;
    ng) f="--no-default-features --features f-zlibng,f-indexmap" ;;     # no rayon, zlib-ng, ordered maps
    # the other combinations of the three features
    b1) f="--no-default-features --features f-rayon,f-miniz" ;;
    b2) f="--no-default-features --features f-zlibng" ;;
    b3) f="--no-default-features --features f-rayon,f-zlibng,f-indexmap" ;;
    b4) f="--no-default-features --features f-miniz,f-indexmap" ;;
    sched) f="--no-default-features --features f-miniz,f-indexmap" ;;   # locks under the scheduler of shim/wzstd.rs
    *) echo "unknown variant $1" >&2; exit 2 ;;
  esac
  [ "$1" = sched ] && { build_sched "$f"; return; }
  (
    flock 9
    cd "$V/harness" || exit 2
    # shellcheck disable=SC2086
    if ! cargo build --release --offline --locked --target-dir "$T" $f >"$T/build-$1.log" 2>&1; then
      tail -40 "$T/build-$1.log" >&2
      exit 2
    fi
    mkdir -p "$T/bin"
    cp -f "$T/release/wzmon" "$T/bin/wzmon-$1.new" && mv -f "$T/bin/wzmon-$1.new" "$T/bin/wzmon-$1"
  ) 9>"$T/.lock" || exit 2
}
mkdir -p "$T"
case "${1:-}" in
  setup) build main ;;
  build) build "$2" ;;
  check)
    id="$2"; shift 2
    alts=()
    build main
    case "$id" in
      C02|C18) for a in ordered; do build $a; alts+=(--alt "$a=$T/bin/wzmon-$a"); done ;;
      C17|C23) # a build that fails here leaves the freely running threads
        if (build sched); then alts+=(--alt "sched=$T/bin/wzmon-sched"); else echo "note: no build with the scheduler's locks" >&2; fi ;;
      C12) for a in plain; do build $a; alts+=(--alt "$a=$T/bin/wzmon-$a"); done ;;
      C19) more=""; [ "$VERIF_TIER" = thorough ] && more="b1 b2 b3 b4"
        for a in plain ordered ng $more; do build $a; alts+=(--alt "$a=$T/bin/wzmon-$a"); done ;;
    esac
    exec "$T/bin/wzmon-main" check "$id" --verif "$V" ${alts[@]+"${alts[@]}"} "$@" ;;
  replay)
    v=$(sed -n 's/.*"variant": *"\([^"]*\)".*/\1/p' "$2" | head -1)
    build "${v:-main}"
    exec "$T/bin/wzmon-${v:-main}" replay "$2" ;;
  *) echo "usage: run.sh setup | check ID | replay FILE" >&2; exit 2 ;;
esac
