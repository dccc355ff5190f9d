#!/bin/bash
# pack.sh ID: completes /verif/seeded/ID (which holds patch.diff, meta.json, main.go) with what its demo needs
set -e
K=$(cd "$(dirname "$0")" && pwd); V=$K/../..; S=$V/seeded/$1
T=$(mktemp -d); mkdir -p "$T/shim"
cp -r "$V/shim/go" "$V/shim/cpp" "$T/shim/"; [ -f "$S/needs-evmrs" ] && cp -r "$V/shim/rust" "$T/shim/" && rm -rf "$T"/shim/rust/*/target
cp "$V/go/go.mod" "$T/shim/go.mod.in"
tar --sort=name --mtime=@0 --owner=0 --group=0 -cf - -C "$T" shim | gzip -n9 > "$S/shim.tgz"
rm -rf "$T"
if [ ! -f "$S/own-demo" ]; then cp "$K/demolib.go" "$K/keccak.go" "$K/demo.sh" "$S/"; fi
