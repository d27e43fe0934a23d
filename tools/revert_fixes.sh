#!/bin/bash
# developer helper: for every fixed: line of known_findings.txt whose property has a check, revert the fix in a scratch copy and
# report whether the check raises the alarm again. Usage: revert_fixes.sh [property...]
. /opt/vp/env.sh
sel="$*"
grep '^fixed:' /verif/known_findings.txt | while read -r _ prop commit rest; do
  p=${prop#property=}
  [ -n "$sel" ] && [[ " $sel " != *" $p "* ]] && continue
  w=/tmp/rv/$p-$commit; rm -rf "$w"; mkdir -p "$w"
  cp -a /repo/. "$w/"
  if ! (cd "$w" && git reset -q --hard && git show "$commit" | git apply -R -3 >/dev/null 2>&1); then echo "$p $commit CONFLICT"; rm -rf "$w"; continue; fi
  if ! (cd "$w" && go build ./... >/dev/null 2>&1); then echo "$p $commit NOBUILD"; rm -rf "$w"; continue; fi
  /verif/bin/wrcheck "$p" -repo "$w" -verif /tmp/rv >/tmp/rv/out.txt 2>&1; rc=$?
  echo "$p $commit rc=$rc $(grep -c '^  ' /tmp/rv/out.txt) $rest"
  rm -rf "$w"
done
