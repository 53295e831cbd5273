#!/usr/bin/env bash
# Builds the machinery once (checks rebuild what changed on their own).
set -eu
cd "$(dirname "${BASH_SOURCE[0]}")"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/harness/target"
cargo build --offline --locked --manifest-path harness/Cargo.toml
# the programs of the repository
CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --manifest-path /repo/Cargo.toml -p mabo-cli -p mabo-lsp -p mabo-go || true
# the programs with generated code
export VERIF_ROOT="$PWD"
./harness/target/debug/code prepare --seed 1 || true
