#!/bin/bash
# Builds the analyzer's compiler driver, dumps the model bodies, and warms the cargo target folders
# (dependencies only; every check re-compiles /repo's own source).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence build/nolib
SR=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SR/lib
rustc +nightly --edition 2021 -O analyzer/driver/main.rs -o build/mirdump
MIRDUMP_CRATE=vmodels MIRDUMP_OUT=$PWD/build/models.json MIRDUMP_NONCE=setup ./build/mirdump rustc --edition 2021 \
  --crate-name vmodels --crate-type lib --emit=metadata -o build/vmodels.rmeta analyzer/models/vmodels.rs
python3 analyzer/frontend.py warm
