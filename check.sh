#!/bin/bash
# check.sh ID [quick|thorough]   decides one property on /repo's current working tree
# check.sh --build               only builds
cd "$(dirname "$0")" || exit 2
here=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p mc/target out evidence
exec 9>mc/target/.check.lock
flock 9

# Cargo looks at time stamps only; here the contents decide.
want=$(cd /repo && { cat Cargo.toml; find src build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat mc/target/.repo.sum 2>/dev/null)" != "$want" ]; then
    rm -f "$here/mc/target/.repo.sum"
    (cd mc && cargo clean --offline --release -p tchannel_rs >/dev/null 2>&1)
fi
if ! (cd mc && cargo build --release --offline >target/.build.log 2>&1); then
    cat mc/target/.build.log
    echo "check.sh: cannot build"
    exit 2
fi
echo "$want" >mc/target/.repo.sum
flock -u 9
[ "$1" = --build ] && exit 0

id=$1
tier=${2:-${VERIF_TIER:-quick}}
exec mc/target/release/mc check "$id" --tier "$tier" --evidence "$here/evidence/$id.json" \
    --known "$here/known_findings.txt" --replays "$here/out"
