#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree, then run the generated-case check of one property.
# check.sh replay FILE: run one recorded case again.
V="$(cd "$(dirname "$0")" && pwd)"
id="$1"
[ "$id" = replay ] && id=$(grep -o '"property": *"C[0-9]*"' "$2" | head -n 1 | grep -o 'C[0-9]*')
case "$id" in C29|C30|C31|C32|C33) T=sdk ;; C02|C04|C12|C21|C28) T=target-sched ;; *) T=target ;; esac
bash "$V/setup.sh" $T || exit 2
export PBT_VERIF="$V"
if [ $T = sdk ]; then
  [ "$1" = replay ] && { f="$(realpath "$2")"; cd / && exec node "$V/sdk-harness/out/sdk.js" replay "$f"; }
  cd / && exec node "$V/sdk-harness/out/sdk.js" check "$@"
fi
if [ "$1" = replay ]; then f="$(realpath "$2")"; cd / && exec "$V/harness/$T/debug/nexo-pbt" replay "$f"; fi
cd / && exec "$V/harness/$T/debug/nexo-pbt" check "$@"
