#!/bin/bash
# Builds every checker crate once, so that the checks only rebuild what changed.
cd /verif || exit 1
. tools/env.sh
for c in core capi game ser; do
    [ -f "$c/Cargo.toml" ] || continue
    build_crate "$c" || exit 1
done
build_gen || exit 1
