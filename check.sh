#!/bin/bash
# check.sh ID [args]: builds and runs the check of one property.
# VERIF_SEED and VERIF_TIER (quick|thorough) select the run;
# check.sh ID --replay FILE re-runs a saved case.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
export ASAN_OPTIONS=detect_leaks=0:detect_container_overflow=0:abort_on_error=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:handle_abort=0:allow_user_segv_handler=1
export UBSAN_OPTIONS=print_stacktrace=1
export TSAN_OPTIONS=halt_on_error=1:exitcode=66:history_size=4
export LC_ALL=C.UTF-8
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
BIN=$($V/build.sh $ID) || exit 2
FUZZ=
if [ $TIER = thorough ] && [ "$1" != --replay ] && [ -n "$VERIF_FUZZ$(grep -l '^// FUZZ: yes' $V/props/${ID}_*.cc)" ]; then
    FB=$($V/build.sh $ID fuzz) && FUZZ="--fuzzbin $FB"
fi
mkdir -p $V/evidence $V/replays
exec $BIN --tier $TIER --seed $SEED --evidence $V/evidence/$ID.json --replays $V/replays --known $V/known_findings.txt $FUZZ "$@"
