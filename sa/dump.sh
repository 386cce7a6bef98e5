#!/bin/bash
# dump.sh REPO OUTDIR TARGETDIR : typed, resolved MIR of every workspace crate as JSON
set -e
R=$1 O=$2 T=$3
mkdir -p $O
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export MIRDUMP_OUT=$O MIRDUMP_LEAF=$(dirname "$(readlink -f "$0")")/leaf.txt
export RUSTC_WORKSPACE_WRAPPER=$(dirname "$(readlink -f "$0")")/../engine/target/release/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings"
export CARGO_TARGET_DIR=$T CARGO_INCREMENTAL=0
cd $R
if [ "$4" = gen ]; then touch src/lib.rs; exec cargo +nightly check --offline; fi
exec cargo +nightly check --workspace --all-features --offline --locked
