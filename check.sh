#!/bin/bash
# check.sh PROPERTY [thorough]: builds from /repo's current tree and decides one property.
# VERIF_SEED and VERIF_TIER (quick|thorough) select the seeds and the depth.
V=$(cd "$(dirname "$0")" && pwd); cd "$V"
P=$1; TIER=${VERIF_TIER:-quick}; [ "$2" = thorough ] && TIER=thorough
SEED=${VERIF_SEED:-1}
[ "$TIER" = thorough ] && SECS=600 || SECS=45
mkdir -p evidence
run() { # binary seconds evidence seed
  "$1" check "$P" --tier "$TIER" --secs "$2" --seed "$4" --evidence "$3" --found "$V/found" --base "$V" --level exploration
}
case $P in
P14|P17) # with AddressSanitizer first, then the plain build, which is an order of magnitude faster
  ./build.sh lib asan || exit 3
  run build/dst-asan $((SECS / 2)) "$V/evidence/$P.json" "$SEED" || exit $?
  mv "$V/evidence/$P.json" "build/$P.asan.json"
  run build/dst $((SECS / 2)) "$V/evidence/$P.json" $((SEED + 7)) || exit $?
  python3 tools/merge_evidence.py "$V/evidence/$P.json" "build/$P.asan.json" ;;
P19|P20|P21|P22|P23) ./build.sh tools || exit 3; run build/dst-tools "$SECS" "$V/evidence/$P.json" "$SEED" ;;
*) ./build.sh lib || exit 3; run build/dst "$SECS" "$V/evidence/$P.json" "$SEED" ;;
esac
