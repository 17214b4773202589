#!/bin/bash
# Mirrors /repo and builds the checker from it. The optional first argument --only F names the part of `pure` that is needed.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
python3 tools/mkws.py || exit 2
cd mc || exit 2
only=
if [ "$1" = --only ]; then only=$2; shift 2; fi
cargo build --offline --features peek,pure "$@" && exit 0
# without the parts that need internals which the library does not have in this form
[ -n "$only" ] && cargo build --offline --features "$only" "$@" && exit 0
exec cargo build --offline "$@"
