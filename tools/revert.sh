#!/bin/bash
# revert.sh [COMMIT...] : undo one "fix:" commit at a time in a scratch copy of /repo and run the quick check of its property.
# Prints per commit: CAUGHT, MISSED, CONFLICT (later fixes touch the same lines) or NOBUILD.
here=$(cd "$(dirname "$0")" && pwd); f=$here/../KNOWN_FINDINGS.txt
grep '^fixed:' $f | while read -r _ prop commit what; do
  p=${prop#property=}
  [ $# -gt 0 ] && { case " $* " in *" $commit "*) ;; *) continue;; esac; }
  rm -rf /tmp/revertscratch; cp -a /repo /tmp/revertscratch
  if ! git -C /tmp/revertscratch show --format= -R $commit | (cd /tmp/revertscratch && git apply -3 - >/dev/null 2>&1); then echo "$p $commit CONFLICT $what" | cut -c1-120; continue; fi
  work=$(mktemp -d)
  for q in $p $(echo "$what" | grep -oE '\(C[0-9][0-9]\)' | tr -d '()'); do
    if ! bash $here/../build.sh $q $work /tmp/revertscratch >$work/b.log 2>&1; then echo "$q $commit NOBUILD $what" | cut -c1-120; continue; fi
    VERIF_ROOT=/tmp/revertroot; mkdir -p $VERIF_ROOT/evidence; cp $f $VERIF_ROOT/
    VERIF_ROOT=$VERIF_ROOT timeout 900 $work/vmon -prop $q -tier quick -seed 1 -work $work > $work/out 2>&1
    case $? in 1) r=CAUGHT;; 0) r=MISSED;; *) r="ERROR";; esac
    echo "$q $commit $r $(tail -1 $work/out | cut -c1-90) | $what" | cut -c1-230
  done
  rm -rf $work /tmp/revertroot
done
rm -rf /tmp/revertscratch
