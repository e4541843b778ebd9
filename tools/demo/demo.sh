#!/bin/bash
# Builds a small program against the tree in the current directory and runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /root/.cargo/env 2>/dev/null || true
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.85 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here"/main.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work"
if ! CARGO_TARGET_DIR="$work/target" cargo build --offline > build.log 2>&1; then
    tail -40 build.log
    exit 3
fi
cd "$work/scratch"
exec_status=0
timeout 200 "$work/target/debug/demo" || exec_status=$?
exit $exec_status
