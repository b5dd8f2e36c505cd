#!/bin/bash
# Binds the models of TCP, tasks and time to reality: runs every operation sequence of
# conform/src/scen.rs up to a length on the real tokio (real sockets, threads, clock) and
# on the models, and compares what each operation returned. Real time is involved, so
# this is no part of the checks.    tools/conform.sh [length, default 4]
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable
D=${1:-4}
(cd conform && cargo build --release --offline 2>/dev/null)
(cd mc && cargo build --release --offline 2>/dev/null)
T=$(mktemp -d)
conform/target/release/conform "$D" > "$T/real"
mc/target/release/mc conform "$D" > "$T/model"
wc -l < "$T/real" | sed 's/$/ sequences/'
diff "$T/real" "$T/model" && echo "no differences"
