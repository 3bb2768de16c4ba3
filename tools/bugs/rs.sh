#!/bin/bash
# Builds and runs demo.rs against the library built in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -r "$out"' EXIT
rustc --edition 2021 -A warnings -o "$out/demo" "$here/demo.rs" -L dependency=target/debug/deps --extern scutiger_core=target/debug/libscutiger_core.rlib || exit 2
timeout 120 "$out/demo"
