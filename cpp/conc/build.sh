#!/bin/bash
# build.sh OUT: builds the LruCache and evmzero concurrency explorers
set -e
C=$(cd "$(dirname "$0")" && pwd); V=$(cd "$C/../.." && pwd); R=${REPO:-/repo}; O=$1; mkdir -p "$O"; rm -f "$O"/conc_*.o
I=(-std=c++20 -w -I"$R/cpp" -I"$V/shim/cpp" -DTOSCA_ASSERT_ENABLED)
L=(-labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_logging_internal -lpthread)
T=(clang++ "${I[@]}" -O1 -g1 -fsanitize=thread)
g++ -std=c++20 -O2 -w -c "$C/rt.cc" -o "$O/rt.o" & p=($!)
g++ "${I[@]}" -O2 "$C/lru_seq.cc" -o "$O/lru_seq" "${L[@]}" & p+=($!)
g++ "${I[@]}" -O1 -g1 -DNDEBUG_SANITIZER -fsanitize=address,undefined -fno-sanitize-recover=undefined "$C/lru_seq.cc" -o "$O/lru_seq_asan" "${L[@]}" & p+=($!)
"${T[@]}" -c "$C/lru_conc.cc" -o "$O/lru_conc.o" & p+=($!)
"${T[@]}" -DSHARED_VALUES -c "$C/lru_conc.cc" -o "$O/lru_conc_shared.o" & p+=($!)
for f in evmzero interpreter memory opcodes stack allocator; do
  [ -f "$R/cpp/vm/evmzero/$f.cc" ] || continue
  "${T[@]}" -fvisibility=hidden -c "$R/cpp/vm/evmzero/$f.cc" -o "$O/conc_$f.o" & p+=($!)
done
"${T[@]}" -c "$C/ez_conc.cc" -o "$O/conc_main.o" & p+=($!)
e=0; for i in "${p[@]}"; do wait "$i" || e=1; done; [ $e = 0 ]
for n in lru_conc lru_conc_shared; do
  "$C/redefine.sh" "$O/$n.o"; g++ "$O/$n.o" "$O/rt.o" -o "$O/$n" "${L[@]}"
done
for f in "$O"/conc_*.o; do "$C/redefine.sh" "$f"; done
g++ "$O"/conc_*.o "$O/rt.o" -o "$O/ez_conc" "${L[@]}"
