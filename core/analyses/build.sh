#!/bin/bash
# build.sh REPO OUT: compiles the analyses that come with REPO for wasm32-unknown-unknown, each as its manifest says,
# with the standard library from the sources of the compiler. OUT/NAME.wasm, or OUT/NAME.failed with what was said.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(realpath "$1") out=$(realpath -m "$2")
set -e
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
vendor=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor
tree=$out/tree
rm -rf "$tree"
mkdir -p "$tree/benchmarking-node/input-analyses" "$tree/wastrumentation-instr-lib/tests/analyses"
cp -a "$repo/benchmarking-node/input-analyses/rust" "$tree/benchmarking-node/input-analyses/"
cp -a "$repo/wastrumentation-instr-lib/tests/analyses/rust" "$tree/wastrumentation-instr-lib/tests/analyses/"
find "$tree" -name Cargo.lock -delete
# what changed counts as new, whatever its date
sum=$(cd "$tree" && find . -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$sum" != "$(cat "$out/sum" 2>/dev/null)" ]; then
  find "$tree" -type f -exec touch {} +
fi
config=(--config 'source.crates-io.replace-with="vendor"' --config "source.vendor.directory=\"$vendor\"")
for s in libm wee_alloc strum circular-buffer enum-collections; do
  config+=(--config "patch.crates-io.$s.path=\"$here/stubs/$s\"")
done
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_INCREMENTAL=0
export RUSTFLAGS="-Clink-arg=-zstack-size=65536"
one() {
  local name=$1 dir=$2
  rm -f "$out/$name.wasm" "$out/$name.failed" "$out/$name.log"
  # some have the same name, and share a directory here
  sed -i "0,/^name *=.*/s//name = \"analysis-$name\"/" "$tree/$dir/Cargo.toml"
  # a manifest whose dependencies are not here cannot be built
  if ! (cd "$tree/$dir" && cargo +nightly build --offline --release -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \
      --target-dir "$out/target" "${config[@]}") >"$out/$name.log" 2>&1; then
    mv "$out/$name.log" "$out/$name.failed"
    return
  fi
  local lib=analysis_${name//-/_}
  cp "$out/target/wasm32-unknown-unknown/release/$lib.wasm" "$out/$name.wasm"
}
b=benchmarking-node/input-analyses/rust
for d in block-profiling branches call-graph call-stack-eq-wasabi \
    call-stack-wastrumentation coverage-branch coverage-instruction \
    cryptominer-detection denan forward globals icount loops memory-tracing memstats opcodes safe-heap; do
  one $d $b/$d
done
echo "$sum" >"$out/sum"
