#!/bin/bash
# Builds the harness once more for coverage-guided search: pkstl and the harness instrumented with
# SanitizerCoverage, libFuzzer linked in, and proptest altered in one place (a generator that reads
# its choices from given bytes no longer gives half of the rest away at each branch).
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
WS=$HERE/harness/target/fuzz
RT=$(ls /usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a 2>/dev/null | tail -1)
PT=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/proptest-1.12.0 2>/dev/null | head -1)
[ -n "$RT" ] && [ -n "$PT" ] || { echo "no libFuzzer runtime or no source of proptest" >&2; exit 2; }
mkdir -p "$WS"
exec 9> "$WS/lock" && flock 9
if [ ! -e "$WS/proptest/done" ]; then
    mkdir -p "$WS/proptest"
    cp -r "$PT/src" "$PT/Cargo.toml" "$WS/proptest/" || exit 2
    python3 - "$WS/proptest/src/test_runner/rng.rs" <<'P' || exit 2
import sys
p = sys.argv[1]
s = open(p).read()
old = s[s.index('                let len = *end - *off;\n                let child_start'):]
old = old[:old.index('            }\n\n            TestRngImpl::Recorder')]
new = '''                let mut seed = [0x5A; 16];
                for (k, b) in data[*off..(*off + 2).min(*end)].iter().enumerate() {
                    seed[k] = *b;
                }
                *off = (*off + 2).min(*end);
                Seed::XorShift(seed)
'''
s = s.replace(old, new).replace('ref mut end,\n                ref data,', 'ref end,\n                ref data,')
# and past the end there are other bytes than zeros, with which some loops of generators do not end
s = s.replace('&data[*off .. *off + bytes_to_copy]', '&data[(*off).min(*end)..][..bytes_to_copy]')
s = s.replace('dest.len().min(*end - *off)', 'dest.len().min(end.saturating_sub(*off))')
s = s.replace('                    dest[i] = 0;\n', '''                    *off += 1;
                    dest[i] = ((*off as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 29) as u8;
''')
s = s.replace('data[*off..(*off + 2).min(*end)]', 'data[(*off).min(*end)..(*off + 2).min(*end)]').replace('*off = (*off + 2).min(*end);', '*off += 2;')
open(p, 'w').write(s)
P
    touch "$WS/proptest/done"
fi
sed -e "s|^path = \"src/main.rs\"|path = \"$HERE/harness/src/main.rs\"|" -e 's|^\[features\]|[features]\nfuzz = []|' "$HERE/harness/Cargo.toml" > "$WS/Cargo.toml"
printf '\n[patch.crates-io]\nproptest = { path = "proptest" }\n' >> "$WS/Cargo.toml"
cp "$HERE/harness/Cargo.lock" "$WS/Cargo.lock"
cat > "$WS/rustc.sh" <<'W'
#!/bin/bash
# $1 is rustc
name=
for ((i = 1; i <= $#; i++)); do [ "${!i}" = --crate-name ] && { j=$((i + 1)); name=${!j}; }; done
C=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table)
case $name in
pkstl) exec "$@" "${C[@]}" -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
pkstl_verif) exec "$@" "${C[@]}" ;;
*) exec "$@" ;;
esac
W
chmod +x "$WS/rustc.sh"
LOG=$(mktemp)
build() {
    (cd "$WS" && RUSTC_WRAPPER="$WS/rustc.sh" CARGO_TARGET_DIR="$WS/target" \
        RUSTFLAGS="--cap-lints warn $1 -Clink-arg=$RT -Clink-arg=-lstdc++" cargo build --offline --features fuzz) > "$LOG" 2>&1
}
if ! build "--cfg pkstl_verif" && ! build ""; then
    grep -E -A12 '^error' "$LOG" >&2 || tail -40 "$LOG" >&2
    rm -f "$LOG"
    exit 2
fi
rm -f "$LOG"
