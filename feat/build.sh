#!/bin/bash
# Builds the program of this folder with each set of pkstl's features, into feat/bin/<set>.
# What does not compile leaves the compiler's message in feat/bin/<set>.err.
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
# the dependencies are those of the harness
export CARGO_TARGET_DIR="$HERE/../harness/target"
mkdir -p "$HERE/bin"
exec 9> "$HERE/bin/.lock"
flock 9
cd "$HERE" || exit 2
build() {
    RUSTFLAGS="--cap-lints warn $2" flock "$HERE/../harness" cargo build --offline --locked --features "$1" > "bin/.log" 2>&1
}
for set in none zip ser bin cbor json bin,cbor bin,json cbor,json bin,cbor,json; do
    features=$set
    [ "$set" = none ] && features=
    rm -f "bin/$set" "bin/$set.err"
    if build "$features" "--cfg pkstl_verif" || build "$features" ""; then
        cp "$CARGO_TARGET_DIR/debug/pkstl-feat" "bin/$set" || exit 2
    else
        grep -E -A8 '^error' "bin/.log" | head -60 > "bin/$set.err"
        [ -s "bin/$set.err" ] || cp "bin/.log" "bin/$set.err"
    fi
done
exit 0
