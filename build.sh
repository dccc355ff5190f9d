#!/bin/bash
# build.sh [go] [evmzero] [evmrs] ...: builds what the checks need from the
# working tree in /repo into /verif/build. Results are keyed by the content of
# the sources, so that repeated runs on the same tree are incremental.
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=${REPO:-/repo}
B=$V/build
mkdir -p "$B"
set +e; . /opt/vp/env.sh; set -e
export GOFLAGS= GOCACHE=$B/gocache CGO_CFLAGS="-I$V/shim/cpp" CGO_LDFLAGS="-L$B/lib"
export LD_LIBRARY_PATH=$B/lib VERIF_LIBS=$B
mkdir -p "$B/lib"
hash() { (cd / && find "$@" -type f \( -name '*.h' -o -name '*.hpp' -o -name '*.cc' -o -name '*.cpp' -o -name '*.c' -o -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32); }
evmzero() {
  local k; k=$(hash "$R/cpp" "$V/shim/cpp")
  [ "$(cat "$B/evmzero.key" 2>/dev/null)" = "$k" ] && [ -f "$B/lib/libevmzero.so" ] && return 0
  rm -f "$B/evmzero.key"; mkdir -p "$B/evmzero"; local p=()
  for f in evmzero interpreter memory opcodes stack allocator; do
    [ -f "$R/cpp/vm/evmzero/$f.cc" ] || continue
    g++ -std=c++20 -O1 -fPIC -fvisibility=hidden -w -I"$V/shim/cpp" -I"$R/cpp" -DTOSCA_ASSERT_ENABLED -c "$R/cpp/vm/evmzero/$f.cc" -o "$B/evmzero/$f.o" & p+=($!)
  done
  local e=0; for i in "${p[@]}"; do wait "$i" || e=1; done; [ $e = 0 ]
  g++ -shared -o "$B/lib/libevmzero.so" "$B"/evmzero/*.o -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -Wl,--no-undefined
  echo "$k" > "$B/evmzero.key"
}
evmrs() {
  local k; k=$(hash "$R/rust/src" "$V/shim/rust")
  [ "$(cat "$B/evmrs.key" 2>/dev/null)" = "$k" ] && return 0
  rm -rf "$B/evmrs.key" "$B/evmrs"; local p=() e=0
  v() { mkdir -p "$B/evmrs/$1"; CARGO_TARGET_DIR=$B/rs/$1 cargo build -q --offline --release --manifest-path "$V/shim/rust/evmrs/Cargo.toml" --features "$2" >"$B/evmrs/$1/log" 2>&1 || { cat "$B/evmrs/$1/log" >&2; return 1; }; cp "$B/rs/$1/release/libevmrs.so" "$B/evmrs/$1/"; }
  v default "" & p+=($!)
  v performance "unsafe-stack custom-evmc hash-cache code-analysis-cache alloc-reuse jumptable-dispatch fn-ptr-conversion-expanded-dispatch" & p+=($!)
  v jumptable "jumptable-dispatch thread-local-cache hash-cache code-analysis-cache" & p+=($!)
  v inline "fn-ptr-conversion-inline-dispatch code-analysis-cache unsafe-stack" & p+=($!)
  v tailcall "tail-call fn-ptr-conversion-inline-dispatch alloc-reuse" & p+=($!)
  v tailcall-expanded "tail-call fn-ptr-conversion-expanded-dispatch custom-evmc thread-local-cache code-analysis-cache" & p+=($!)
  for i in "${p[@]}"; do wait "$i" || e=1; done; [ $e = 0 ]
  cp "$B/evmrs/default/libevmrs.so" "$B/lib/libevmrs.so"
  echo "$k" > "$B/evmrs.key"
}
vmcheck() { (cd "$V/go" && go build -tags "evmzero evmrs" -o "$B/vmcheck" ./cmd/vmcheck); }
# ctcheck: vmcheck without the native interpreters
ctcheck() { (cd "$V/go" && go build -o "$B/ctcheck" ./cmd/vmcheck); }
# opcheck: vmcheck with the stand-in of go-ethereum's call machinery (P30)
opcheck() { (cd "$V/go" && go build -tags "evmzero evmrs opera" -o "$B/opcheck" ./cmd/vmcheck); }
conc() {
  local k; k=$(hash "$R/cpp" "$V/shim/cpp" "$V/cpp/conc")
  [ "$(cat "$B/conc.key" 2>/dev/null)" = "$k" ] && return 0
  rm -f "$B/conc.key"; REPO=$R "$V/cpp/conc/build.sh" "$B/conc"
  echo "$k" > "$B/conc.key"
}
# mem: evmzero and evmrs with sanitizers, and the explorer of memory accesses
mem() {
  local k p=() e=0; k=$(hash "$R/cpp" "$V/shim/cpp" "$V/cpp/mem" "$R/rust/src" "$V/shim/rust")
  [ "$(cat "$B/mem.key" 2>/dev/null)" = "$k" ] && return 0
  rm -f "$B/mem.key"
  REPO=$R "$V/cpp/mem/build.sh" "$B/mem" & p+=($!)
  m() { mkdir -p "$B/memrs/$1"; RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" CARGO_TARGET_DIR=$B/rsm/$1 cargo +nightly build -q --offline --release --target x86_64-unknown-linux-gnu --manifest-path "$V/shim/rust/evmrs/Cargo.toml" --features "$2" >"$B/memrs/$1/log" 2>&1 || { cat "$B/memrs/$1/log" >&2; return 1; }; cp "$B/rsm/$1/x86_64-unknown-linux-gnu/release/libevmrs.so" "$B/memrs/$1/"; }
  m performance "unsafe-stack custom-evmc hash-cache code-analysis-cache alloc-reuse jumptable-dispatch fn-ptr-conversion-expanded-dispatch" & p+=($!)
  m inline "fn-ptr-conversion-inline-dispatch code-analysis-cache unsafe-stack" & p+=($!)
  m default "" & p+=($!)
  for i in "${p[@]}"; do wait "$i" || e=1; done; [ $e = 0 ]
  echo "$k" > "$B/mem.key"
}
# goconc: the Go concurrency explorer; the code under test synchronizes by the
# controlled scheduler. Only if that does not compile, without.
goconc() {
  local o e="$R/go/interpreter/lfvm/zz_verif_export.go=$V/go/overlay/lfvm_export.go.txt"
  local r=("$R/go/tosca" "$R/go/interpreter" "$R/go/processor" "$R/go/ct/st" "$R/go/ct/common" "$V/shim/go/lru")
  o=$(python3 "$V/tools/overlay.py" "$B/overlay" "$e" "${r[@]}")
  cd "$V/go"
  go build -race -tags hashcache -overlay "$o" -o "$B/goconc" ./cmd/goconc && { cd - >/dev/null; return 0; }
  o=$(python3 "$V/tools/overlay.py" "$B/overlay" "${r[@]}")
  go build -race -overlay "$o" -o "$B/goconc" ./cmd/goconc || go build -race -o "$B/goconc" ./cmd/goconc
  cd - >/dev/null
}
