#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides a property on /repo's current tree.
dir=$(cd "$(dirname "$0")" && pwd)
. "$dir/env.sh"
bin="$dir/bin/verif"
if [ ! -x "$bin" ] || [ -n "$(find "$dir/tool" -name '*.go' -newer "$bin" -print -quit)" ]; then
  bash "$dir/setup.sh" >&2 || { echo "the analyser does not build"; exit 3; }
fi
export VERIF_DIR="$dir"
case "$1" in C[0-9]*) ;; *) exec "$bin" "$@" ;; esac
# The time and the stack of the analyser are bounded. A tree on which it gives no answer
# has not been shown to have the property, which is reported like a violation.
log=$(mktemp)
timeout 780 "$bin" "$@" 2>"$log"
r=$?
tail -n 40 "$log" | cut -c1-400 >&2
if [ $r -ne 0 ] && [ $r -ne 1 ]; then
  head -n 3 "$log" | cut -c1-400
  mkdir -p "$dir/evidence"
  cat > "$dir/evidence/$1.json" <<X
{"property": "$1", "tier": "${2:-quick}", "seed": ${VERIF_SEED:-1}, "level": "other", "wall_s": $SECONDS, "violations": 1, "coverage": {"explanation": "undecided: the analyser stopped with status $r before it had decided the property"}}
X
  echo "UNDECIDED: the analyser stopped with status $r"
  echo "VIOLATION property=$1 replay=$dir/evidence/$1.json"
  r=1
fi
rm -f "$log"
exit $r
