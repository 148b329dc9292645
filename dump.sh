#!/bin/bash
# dump.sh OUT.json : dump the MIR of /repo's crate (current working tree).
set -e
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${RSH_REPO:-/repo}"
B="$V/build"
mkdir -p "$B/lock"
cmp -s /opt/vp/Cargo.lock "$B/lock/Cargo.lock" || cp -f /opt/vp/Cargo.lock "$B/lock/Cargo.lock"
export HOME="${HOME:-/root}" PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_RESOLVER_LOCKFILE_PATH="$B/lock/Cargo.lock" RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="$B/nightly"
export RUSTC_WORKSPACE_WRAPPER="$B/mirdump/debug/mirdump"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib:$LD_LIBRARY_PATH"
export MIRDUMP_CRATE=rsh MIRDUMP_OUT="$1"
export MIRDUMP_STD="${MIRDUMP_STD-core::option,core::result,std::option,std::result}" MIRDUMP_SKIP="__parse__,__StateMachine,__ToTriple,__Symbol"
rm -f "$1"
# forget everything built from the crate itself (not its dependencies): always dump the current tree
rm -rf "$B/nightly/debug/build/rsh" "$B"/nightly/debug/.fingerprint/rsh-* "$B"/nightly/debug/build/rsh-*
cd "$REPO"
cargo +nightly check --offline --bin rsh 2>"$1.log" >&2 || { tail -n 40 "$1.log" >&2; exit 3; }
test -s "$1"
