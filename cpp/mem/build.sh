#!/bin/bash
# build.sh OUT: builds evmzero and the explorer of its memory accesses with the
# address and undefined behaviour sanitizers. The checks left out concern the
# computation of addresses which are never accessed (evmzero computes the start
# of empty ranges at any offset), and loads of words at odd addresses.
set -e
C=$(cd "$(dirname "$0")" && pwd); V=$(cd "$C/../.." && pwd); R=${REPO:-/repo}; O=$1; rm -rf "$O"; mkdir -p "$O"
F=(clang++ -std=c++20 -O1 -g1 -w -fPIC -fsanitize=address,undefined -fno-sanitize=pointer-overflow,nonnull-attribute,alignment -fno-sanitize-recover=undefined -D_GLIBCXX_SANITIZE_VECTOR=1 -I"$R/cpp" -I"$V/shim/cpp")
for f in evmzero interpreter memory opcodes stack allocator; do
  [ -f "$R/cpp/vm/evmzero/$f.cc" ] || continue
  "${F[@]}" -fvisibility=hidden -DTOSCA_ASSERT_ENABLED -c "$R/cpp/vm/evmzero/$f.cc" -o "$O/$f.o" & p+=($!)
done
"${F[@]}" -rdynamic "$C/evm_mem.cc" -o "$O/evm_mem" -ldl & p+=($!)
e=0; for i in "${p[@]}"; do wait "$i" || e=1; done; [ $e = 0 ]
"${F[@]}" -shared "$O"/*.o -o "$O/libevmzero.so" -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash
