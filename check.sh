#!/bin/bash
# check.sh ID quick|thorough    decide one property on /repo's working tree
# check.sh replay DIR           replay a saved violation
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: could not be decided (build error, engine error).
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_DIR="$PWD"
mkdir -p out evidence
# shared by checks started at the same time; cargo itself locks the target folder
log=$(mktemp "${TMPDIR:-/tmp}/mc-build.XXXXXX") || exit 2
if ! cargo build --release --offline --locked --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    grep -A12 '^error' "$log" | tail -n 60 >&2
    rm -f "$log"
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay) exec mc/target/release/mc replay "$2" ;;
    *) exec mc/target/release/mc check "$1" "${2:-quick}" ;;
esac
