#!/bin/bash
# neutral.sh [SECONDS] [ID...]: runs every check against copies of /repo with the behaviour-preserving rewrites of
# neutral/*.diff applied (write(2), stdio, other locks, other MPI calls, ...).  All of them must stay quiet.  A self-test of
# the machinery, not a check.
here="$(cd "$(dirname "$0")" && pwd)"; sec=${1:-8}; shift; ids="$*"; [ -n "$ids" ] || ids="$(cd $here/neutral; ls *.diff | sed 's/.diff//')"
bad=0
for id in $ids; do
  w="$(mktemp -d /tmp/neutral-XXXXXX)"; cp -r /repo/src "$w/src"
  ( cd "$w" && patch -s -p1 < "$here/neutral/$id.diff" ) || { echo "$id: does not apply"; bad=1; }
  for p in ${PROPS:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P22 P23 P24}; do
    SIM_REPO="$w" python3 "$here/check.py" $p $sec > "$w/log" 2>&1; rc=$?
    [ $rc = 0 ] || { bad=1; echo "$id $p rc=$rc"; grep -a -e ERROR -e '^violation' -e error: "$w/log" | head -3; }
  done
  echo "$id done"; rm -rf "$w"
done
exit $bad
