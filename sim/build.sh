#!/bin/bash
# Builds the simulation against /repo's working tree. Offline.
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Crelocation-model=static -Cllvm-args=-tsan-distinguish-volatile=1 --cfg rtbvh_sim -Awarnings"
export CARGO_TARGET_DIR="${SIM_TARGET:-$PWD/../target}"
exec cargo +nightly build -q --release -Zbuild-std --target x86_64-unknown-linux-gnu
