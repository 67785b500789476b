#!/bin/bash
# Builds the harness (and with it the pkstl of /repo's working tree) offline, with the hooks on;
# should only those not compile any more, without them.
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$HERE/harness/target"
LOG=$(mktemp)
build() {
    (cd "$HERE/harness" && RUSTFLAGS="--cap-lints warn $1" flock . cargo build --offline --locked) > "$LOG" 2>&1
}
if ! build "--cfg pkstl_verif"; then
    cp "$LOG" "$LOG.hooks"
    if ! build ""; then
        grep -E -A12 '^error' "$LOG" >&2 || tail -40 "$LOG" >&2
        rm -f "$LOG" "$LOG.hooks"
        exit 2
    fi
    echo "note: built without the hooks of /repo, which do not compile:" >&2
    grep -E -A4 '^error' "$LOG.hooks" >&2
    rm -f "$LOG.hooks"
fi
rm -f "$LOG"
