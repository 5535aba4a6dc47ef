#!/bin/bash
# check.sh ID [--case N]: builds the monitor and what it needs from /repo's
# working tree, runs the check of property ID and writes evidence/ID.json.
# Exit 0: held. 1: VIOLATION. 2: no answer.
cd "$(dirname "$0")" || exit 2
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
id=$1 tier=${VERIF_TIER:-quick} seed=${VERIF_SEED:-1}
out=$PWD/target
log=$(mktemp)
trap 'rm -f "$log"' EXIT
run() { "$@" >"$log" 2>&1 || { cat "$log"; echo "cannot build: $*"; exit 2; }; }
mkdir -p evidence
rm -f "evidence/$id.json"
run cargo build -q --offline --manifest-path harness/Cargo.toml --profile mon --target-dir "$out"
case $id in
C15 | C12) # the command line program
    run cargo build -q --offline --manifest-path /repo/Cargo.toml --bin avdl --target-dir "$out/cli" \
        --config 'profile.dev.opt-level=1' --config 'profile.dev.debug=0'
    export AVDL_BIN=$out/cli/debug/avdl ;;
esac
case $id in
C11) san=address ;;
C13) san=thread ;;
*) san= ;;
esac
if [ -n "$san" ]; then
    host=$(rustc -vV | sed -n 's/host: //p')
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=$san" run cargo build -q --offline --manifest-path harness/Cargo.toml \
        --profile mon -Zbuild-std --target "$host" --target-dir "$out/$san"
    export MON_SAN=$out/$san/$host/mon/avdl-mon
fi
if [ "$2" = --case ]; then
    exec "$out/mon/avdl-mon" case "$id" "$tier" "$seed" "$3"
fi
"$out/mon/avdl-mon" run "$id" "$tier" "$seed"
