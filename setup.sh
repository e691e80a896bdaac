#!/bin/bash
# warm the build cache (optional: every check builds what it needs itself)
root="$(cd "$(dirname "$0")" && pwd)"
for p in C01 C14; do
  work=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
  bash "$root/build.sh" $p "$work" ${VERIF_REPO:-/repo} || { rm -rf "$work"; exit 1; }
  rm -rf "$work"
done
exit 0
