#!/bin/bash
# check.sh PROP [TIER]: builds the simulator PROP needs against /repo's working tree, then decides PROP.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
[ -n "$2" ] && export VERIF_TIER="$2"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
case "$1" in
  C0[1-9]) dir=sim; build=(--bins) bin=wsim ;;
  C14|C18) dir=core; build=(-p csim --bin bsim --features backends) bin=bsim ;;
  C1[0-7]|C20) dir=core; build=(-p csim --bin csim) bin=csim ;;
  C19) dir=core; build=(-p csim --bin isim --features cli) bin=isim ;;
  *) echo "ERROR: no check for $1"; exit 2 ;;
esac
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
if [ $bin = bsim ] || [ $bin = isim ]; then
  # what the generated Rust libraries are linked against
  mkdir -p "$here/core/target"
  "$here/core/rt/build.sh" "$here/core/target/wasm-rt" >"$tmp/rt" 2>&1 &
  rt=$!
  export WSIM_SCRATCH="$tmp"
fi
if [ "$1" = C20 ]; then
  mkdir -p "$here/core/target"
  "$here/core/analyses/build.sh" /repo "$here/core/target/analyses" >"$tmp/rt" 2>&1 &
  rt=$!
fi
build() { (cd "$here/$dir" && cargo build --offline "${build[@]}") >"$tmp/log" 2>&1; }
ok=0
build || ok=1
if [ $ok = 1 ] && [ "$1" = C14 ]; then
  # without the libraries of the other back ends
  build=(-p csim --bin csim) bin=csim
  build && ok=0
fi
if [ $ok = 1 ]; then
  tail -40 "$tmp/log"
  echo "ERROR: the simulator does not build against /repo"
  exit 2
fi
if [ -n "$rt" ] && ! wait $rt; then
  tail -20 "$tmp/rt"
  echo "ERROR: what runs inside of the programs does not build"
  exit 2
fi
"$here/$dir/target/debug/$bin" check "$1"
