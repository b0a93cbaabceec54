#!/bin/bash
# Builds the extractor and the harness once, to see that they build.
set -e
cd "$(dirname "$0")"
(cd vext && env -u RUSTFLAGS CARGO_TARGET_DIR="$PWD/../target" cargo build --release --offline --quiet)
(cd harness && RUSTFLAGS="--cfg rusty_git_verif" CARGO_TARGET_DIR="$PWD/../target/h" cargo build --offline --quiet)
verus --version
