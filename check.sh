#!/bin/bash
# check.sh <property> <quick|thorough>
# exit 0: the property held on everything explored; exit 1: violation.
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-quick}
cd "$V" || exit 2
mkdir -p evidence build
fail() { # the sources do not build any more: not decidable, report it as such
  echo "check $P: cannot build the code under test"; tail -40 "build/$P.log"; exit 3; }
(
  . ./build.sh
  case $P in
  P13) evmzero & a=$!; evmrs & b=$!; goconc; wait $a; wait $b; vmcheck ;;
  P15) conc & a=$!; goconc; wait $a; vmcheck ;;
  P16) conc; vmcheck ;;
  P17) mem; vmcheck ;;
  P25) goconc; vmcheck ;;
  P18 | P27 | P28 | P29) ctcheck ;;
  P30) evmzero & a=$!; evmrs & b=$!; wait $a; wait $b; opcheck ;;
  *) evmzero & a=$!; evmrs & b=$!; wait $a; wait $b; vmcheck ;;
  esac
) >"build/$P.log" 2>&1 || fail
. /opt/vp/env.sh
export LD_LIBRARY_PATH=$V/build/lib VERIF_LIBS=$V/build
bin=vmcheck
case $P in P18 | P27 | P28 | P29) bin=ctcheck ;; P30) bin=opcheck ;; esac
exec ./build/$bin -prop "$P" -tier "$T" -dir "$V"
