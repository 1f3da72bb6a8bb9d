#!/bin/bash
# Usage: run_check.sh PROPERTY quick|thorough
#        run_check.sh --setup
# Rebuilds the model checker against /repo's working tree (with the
# re-exports guarded by cfg(md_recover_verif) on) and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true
export MDR_SRC_HASH=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock; } | sha256sum | cut -c1-32)
log=$(mktemp)
trap 'rm -f "$log"' EXIT

build() {
    cargo build --offline --manifest-path "$here/harness/mc/Cargo.toml" "$@" >"$log" 2>&1
}

fail() {
    cat "$log"
    echo "$1" >&2
    exit 2
}

module() {
    case $1 in
    C01) echo md_map ;;
    C02 | C03) echo md_array ;;
    C04 | C05) echo md_sb ;;
    C06 | C07) echo md_diag ;;
    C08 | C09) echo blockdev ;;
    C10) echo ext4_sb ;;
    C11 | C23) echo ext4_fields ;;
    C22) echo ext4_string ;;
    C12 | C13 | C14) echo ext4_fs ;;
    C15 | C16) echo ext4_dir ;;
    C17 | C18) echo ext4_io ;;
    C19) echo cli ;;
    C20) echo robust ;;
    C21) echo e2e ;;
    C24) echo locality ;;
    esac
}

# If another check does not build (because what it looks at has another name
# now, say), this one may.
if ! build --release; then
    [ "$1" = --setup ] && fail "the harness does not build against /repo"
    build --release --no-default-features --features "$(module "$1")" ||
        fail "the check of $1 does not build against /repo"
fi

if [ "$1" = C19 ] || [ "$1" = --setup ]; then
    # The executable itself, and a library that makes files look like devices.
    mkdir -p "$here/harness/cli"
    cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$here/harness/cli/target" >"$log" 2>&1 ||
        fail "the command does not build"
    gcc -shared -fPIC -O2 -o "$here/harness/cli/shim.so" "$here/harness/shim/shim.c" >"$log" 2>&1 ||
        fail "the shim does not build"
fi
if [ "$1" = C20 ] || [ "$1" = --setup ]; then
    # Recursion that optimisation removes may still exhaust the stack of a
    # program that is built without it.
    build --profile unoptimised --no-default-features --features robust ||
        fail "the harness does not build without optimisation"
fi
[ "$1" = --setup ] && exit 0
if [ "$1" = C20 ]; then
    MDR_UNOPTIMISED=1 "$here/harness/mc/target/unoptimised/mc" C20 quick >"$log" 2>&1
    case $? in
    0) ;;
    1)
        cat "$log"
        exit 1
        ;;
    *) fail "the check without optimisation does not run" ;;
    esac
fi
rm -f "$log"
exec "$here/harness/mc/target/release/mc" "$1" "$2"
