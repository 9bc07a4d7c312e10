#!/bin/bash
# Builds all monitors once, so that each check only rebuilds what changed
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
for AREA in lab sparse stat tensor ode pde nonlin sample cross; do
  cargo build --manifest-path "$HERE/harness/Cargo.toml" --offline --features "$AREA" --bin "h$AREA" || exit 1
done
build_cli || exit 1
build_tsan || exit 1
