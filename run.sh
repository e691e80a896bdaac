#!/bin/bash
# run.sh PROPERTY quick|thorough : builds the monitor against /repo's working tree and runs it.
# VERIF_SEED sets the seed, VERIF_CASE=group/index replays one case, VERIF_ARGS adds flags.
set -u
prop=$1; tier=${2:-quick}
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO=${VERIF_REPO:-/repo}
work=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bash "$VERIF_ROOT/build.sh" "$prop" "$work" "$REPO" || { echo "build of the monitor failed"; exit 2; }
seed=${VERIF_SEED:-1}
args=(-prop "$prop" -tier "$tier" -seed "$seed" -work "$work")
[ -n "${VERIF_CASE:-}" ] && args+=(-case "$VERIF_CASE")
"$work/vmon" "${args[@]}" ${VERIF_ARGS:-}
