#!/bin/bash
# cwd: the repository. Builds the program beside this file against it and runs it in a scratch directory.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/run"
cp "$here"/*.rs "$d/src/"
cp "$here"/*.bin "$d/src/" 2>/dev/null || true
opts='features = ["json"]'
f="$(sed -n '1s,^// features: *,,p' "$here/main.rs")"
[ -z "$f" ] || opts="default-features = false, features = [$(printf '"%s",' $f)\"json\"]"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wz_reader = { path = "$repo", $opts }
flate2 = { version = "1.1.4", default-features = false }
serde_json = "1"
image = { version = "0.25.0", default-features = false }
[profile.dev]
debug = false
opt-level = 1
T
export CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" --target-dir "$d/t"
cd "$d/run"
exec_time="${DEMO_TIMEOUT:-120}"
timeout "$exec_time" "$d/t/debug/demo"
