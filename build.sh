#!/bin/bash
# Builds the harness against /repo's current tree: with debug assertions and overflow checks, as users
# build it, and (for C08) with the feature precision-true-peak; for C23 and C24 the program that starts
# the executions on other machines (which it builds itself, see port/prepare.sh). usage: build.sh [ID]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
b() { cargo build --offline --quiet --manifest-path "$here/$1/Cargo.toml" "${@:2}"; }
case "${1:-all}" in
C23|C24) b port --release --bin port || exit 2; exit 0 ;;
all) b port --release --bin port || exit 2 ;;
esac
b harness --release && b harness --profile plain || exit 2
case "${1:-all}" in all|C08) b harness --profile precise --features precise || exit 2;; esac
