#!/bin/bash
# mkir.sh OUT.ll FEATURE ENTRY...   regenerate the LLVM IR of the harness entries from /repo's current tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
out=$1; feat=$2; shift 2
T=${VP_TARGET:-$V/target/sym-$feat}
mkdir -p "$T"
rm -f "$T"/release/deps/libharness* "$T"/release/deps/harness*
cd "$V/harness"
cargo rustc --offline --release --lib --features "$feat" --target-dir "$T" -- --emit=llvm-ir -C save-temps >"$T/cargo.log" 2>&1 || { cat "$T/cargo.log" >&2; exit 3; }
bc=$(ls -S "$T"/release/deps/*.lto.after-restriction.bc | head -1)
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
P=$("$B/llvm-nm" "$bc" 2>/dev/null | awk '{print $NF}' | grep -E '9panicking(9panic_fmt|18panic_nounwind_fmt|14panic_nounwind)$|panicking[0-9]*panic_fmt|_4core9panicking' | sort -u | paste -sd, || true)
L=$(echo "$@" | tr ' ' ',')
[ -n "$P" ] && L="$L,$P"
"$B/opt" -passes='internalize,globaldce,function(lower-invoke,simplifycfg),globaldce,default<O2>,globaldce' -internalize-public-api-list="$L" -vectorize-loops=false -vectorize-slp=false -S "$bc" -o "$out"
rm -f "$T"/release/deps/*.bc "$T"/release/deps/*.rcgu.o
