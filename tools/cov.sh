#!/bin/bash
# Line coverage of /repo's library under a tenth of the quick workloads (development only).
# usage: tools/cov.sh [cpu] [features]; prints the report and leaves nothing behind.
set -e
cpu=${1:-x86-64}; feats=${2:-serde}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$(dirname "$0")/../harness"
export CARGO_TARGET_DIR=$T/t LLVM_PROFILE_FILE=$T/%p.profraw
RUSTFLAGS="-C target-cpu=$cpu -C instrument-coverage" cargo build --offline -q --release --features "$feats" --bins
rm -f "$T"/*.profraw
skip=$(grep -oh 'Scenario::new("[a-z_-]*\(giant\|huge\)[a-z_-]*"' src/bin/*.rs | sed 's/.*("//;s/"//' | sort -u | paste -sd,)
ls "$T/t/release" | grep -E '^c[0-9]{2}$' | xargs -P6 -I{} sh -c "timeout 300 $T/t/release/{} --seed 1 --tier quick --scale 0.1 --skip $skip >/dev/null 2>&1 || echo {}: no clean run"
B=$(ls -d ~/.rustup/toolchains/stable*/lib/rustlib/*/bin | head -1)
"$B/llvm-profdata" merge -sparse "$T"/*.profraw -o "$T/p"
O=""; for b in "$T"/t/release/c??; do O="$O -object $b"; done
"$B/llvm-cov" report -instr-profile "$T/p" $O --sources /repo/src | awk '{print $1, "regions", $4, "functions", $7, "lines", $10}'
"$B/llvm-cov" show -instr-profile "$T/p" $O --sources /repo/src --show-instantiations=false | awk '/^\/repo/{f=$0} /\| *0\|/{print f $0}' | grep -v lookup
