#!/bin/bash
# Demonstration: builds a small program against the sources in the current
# directory (the repository) and runs it. Exit 0: behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1 GOFLAGS=-mod=mod GOSUMDB=off
tar xzf "$D/shim.tgz" -C "$T" || exit 2
mkdir -p "$T/go/demo" "$T/lib"
cp "$D"/*.go "$T/go/demo/"
sed "s#=> /repo#=> $R#" "$T/shim/go.mod.in" > "$T/go/go.mod"
export CGO_CFLAGS="-I$T/shim/cpp" CGO_LDFLAGS="-L$T/lib" LD_LIBRARY_PATH="$T/lib"
export TAGS="demo"; [ -f "$D/needs-evmzero" ] && TAGS="$TAGS evmzero"; [ -f "$D/needs-evmrs" ] && TAGS="$TAGS evmrs"
if [ -f "$D/needs-evmzero" ]; then
  for f in "$R"/cpp/vm/evmzero/{evmzero,interpreter,memory,opcodes,stack,allocator}.cc; do
    g++ -std=c++20 -O1 -fPIC -fvisibility=hidden -w -I"$T/shim/cpp" -I"$R/cpp" -DTOSCA_ASSERT_ENABLED -c "$f" -o "$T/$(basename "$f").o" & P="$P $!"
  done
  for p in $P; do wait $p || exit 2; done
  g++ -shared -o "$T/lib/libevmzero.so" "$T"/*.o -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash || exit 2
fi
if [ -f "$D/needs-evmrs" ]; then
  sed -i "s#/repo/#$R/#g" "$T/shim/rust/evmrs/Cargo.toml"
  (cd "$T" && CARGO_TARGET_DIR="$T/rs" cargo build -q --offline --release --manifest-path "$T/shim/rust/evmrs/Cargo.toml" --features "$(cat "$D/needs-evmrs")") || exit 2
  cp "$T/rs/release/libevmrs.so" "$T/lib/" || exit 2
fi
cd "$T/go" && go build -o "$T/demo" ./demo || exit 2
timeout 250 "$T/demo" && echo demonstration passed
