#!/bin/bash
# build.sh OUT : builds the MIR fact extractor
S=$(rustc +nightly --print sysroot)
exec rustc +nightly -O --edition 2021 -L "$S/lib/rustlib/x86_64-unknown-linux-gnu/lib" -C "link-args=-Wl,-rpath,$S/lib" "$(dirname "$0")/driver.rs" -o "$1"
