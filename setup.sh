#!/bin/bash
# Builds everything the checks need from /repo's working tree.
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence
. ./build.sh
evmzero & a=$!; evmrs & b=$!; wait $a || exit 1; wait $b || exit 1
conc & a=$!; vmcheck || exit 1; ctcheck || exit 1; goconc || exit 1; opcheck || echo "the check of P30 cannot be built"; wait $a || exit 1; mem
