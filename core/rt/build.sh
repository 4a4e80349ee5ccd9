#!/bin/bash
# build.sh OUT: what the generated Rust libraries are linked against, for wasm32-unknown-unknown.
here=$(cd "$(dirname "$0")" && pwd)
out=$1
set -e
[ -e "$out/ok" ] && exit 0
sys=$(rustc +nightly --print sysroot)
tmp=$(mktemp -d "$out.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
export RUSTC_BOOTSTRAP=1
rc() { rustc +nightly --target wasm32-unknown-unknown -Cpanic=abort --cap-lints allow "$@"; }
rc --edition 2024 --crate-type rlib --crate-name core -Copt-level=1 "$sys/lib/rustlib/src/rust/library/core/src/lib.rs" -o "$tmp/libcore.rlib"
rc --edition 2021 --crate-type rlib --crate-name compiler_builtins -L "$tmp" "$here/compiler_builtins.rs" -o "$tmp/libcompiler_builtins.rlib"
rc --edition 2021 --crate-type rlib --crate-name wee_alloc -Copt-level=2 -L "$tmp" "$here/wee_alloc.rs" -o "$tmp/libwee_alloc.rlib"
touch "$tmp/ok"
mv -T "$tmp" "$out" 2>/dev/null || [ -e "$out/ok" ]
