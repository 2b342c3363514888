#!/bin/bash
# Builds the simulator binaries named on the command line against /repo's current working tree.
#   tokio     sessions, direct service calls        (runtime-tokio)
#   agnostic  the same scenarios                    (runtime-agnostic)
#   threads   real threads under a seeded scheduler (instrumented build)
set -u
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS 2>/dev/null
V="$(cd "$(dirname "$0")/.." && pwd)"
hash=$(cd /repo && { find src tower-lsp-macros -name target -prune -o -type f -print0; printf 'Cargo.toml\0'; } | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
one() {
    local what=$1 dir="$V/target/$1" log="$V/target/$1.log" args=() pk=tlsim w
    mkdir -p "$dir"
    case $what in
    tokio) args=() ;;
    agnostic) args=(--no-default-features --features agnostic-rt) ;;
    threads) pk=tlthreads; export RUSTC_WRAPPER="$V/sim/threads/rustc-wrapper.sh" ;;
    *) echo "unknown build $what" >&2; return 2 ;;
    esac
    if [ "$what" = threads ]; then
        # Cargo does not see an edit of the wrapper.
        w=$(sha256sum <"$RUSTC_WRAPPER")
        [ "$(cat "$dir/wrapper.hash" 2>/dev/null)" = "$w" ] || { rm -rf "$dir/debug"; echo "$w" >"$dir/wrapper.hash"; }
    fi
    export CARGO_TARGET_DIR="$dir"
    cd "$V/sim" || return 2
    # Cargo decides by modification time; the content hash makes sure.
    if [ "$(cat "$dir/tree.hash" 2>/dev/null)" != "$hash" ]; then
        cargo clean --offline -q -p tower-lsp -p tower-lsp-macros >/dev/null 2>&1
        rm -f "$dir/tree.hash"
    fi
    if ! cargo build --offline -p $pk "${args[@]}" >"$log" 2>&1; then
        echo "build of $what failed:" >&2
        grep -E '^error' -A12 "$log" | head -60 >&2
        return 2
    fi
    echo "$hash" >"$dir/tree.hash"
}
pids=()
for w in "$@"; do
    ( one "$w" ) & pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
