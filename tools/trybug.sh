#!/bin/bash
# developer helper: trybug.sh <file> <python-expr replacing s> <check ids...>: edits a scratch copy and runs the checks on it
. /opt/vp/env.sh
f=$1; expr=$2; shift 2
w=/tmp/rv/try$$; mkdir -p $w /tmp/rv/evidence; cp -a /repo/. $w/
(cd $w && python3 - "$f" "$expr" <<'P'
import sys,re
f,e=sys.argv[1:]
s=open(f).read(); o=s
s=eval(e)
assert s!=o,'no change'
open(f,'w').write(s)
P
) && (cd $w && go build ./... ) && for p in "$@"; do /verif/bin/wrcheck $p -repo $w -verif /tmp/rv 2>&1 | cut -c1-${WIDTH:-230} | tail -${LINES_:-4}; done
rm -rf $w
