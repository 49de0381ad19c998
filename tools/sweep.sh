#!/bin/bash
# sweep.sh "C03 C04" "2 3 4" [extra args]: runs checks with several seeds, printing only what is not quiet
for p in $1; do for s in $2; do
  out=$(python3 "$(dirname "$0")/../check.py" $p --seed $s --no-evidence ${@:3} 2>&1) || echo "$out"
  echo "$out" | head -1 >> /tmp/sweep.log
done; done; echo swept $1 / $2
