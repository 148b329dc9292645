#!/bin/bash
# build_tools.sh: build the MIR dumper (offline, nightly)
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="$HOME/.cargo/bin:$PATH"
cd "$V/mirdump"
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/build/mirdump" cargo build --offline 2>"$V/build/mirdump.log" || { tail -n 40 "$V/build/mirdump.log" >&2; exit 3; }
