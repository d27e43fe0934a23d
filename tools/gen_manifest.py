#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the table below (developer helper)
import json
AI="abstract interpretation of the SSA form (relational numeric domain, inlined calls)"
claimed={
 "C01":(AI,"Sound for the modelled language subset: every panic site reachable from the four entry points on any input is proved safe. Trusts the models of the standard library calls, the container invariants of the resource tree (established by this check's own container obligations and C15) and ResourceSet.write's contract (C23/C24); callers pass non-nil readers and identifiers."),
 "C02":(AI,"As C01 for the icon and cursor entry points; resource bytes and group bytes are arbitrary. Third-party image decoders are treated as arbitrary but non-panicking."),
}
na={
 "C38":"content equality of a whole encode/decode round trip quantifies over run-time bytes; the layout halves that a static argument can reach are claimed separately (C23, C26, C28, C32, C42)",
 "C39":"value equality of a checksum recurrence over arbitrary chunkings is an arithmetic induction over run-time data; no dataflow or type-level argument in reach decides it",
 "C40":"a numeric identity over 64-bit arithmetic with a bounded time domain; needs arithmetic reasoning on run-time values, not a static code analysis",
 "C41":"pixel equality depends on run-time image contents and on a third-party resampler",
}
import sys
sys.path.insert(0,'/verif/tools')
try:
    from manifest_more import more, na_more
    claimed.update(more); na.update(na_more)
except ImportError: pass
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh",
   "checks":[{"property":p,"quick_cmd":"bash check.sh %s"%p,"thorough_cmd":"bash check.sh %s thorough"%p,"technique":claimed[p][0],"level":"other","level_note":claimed[p][1]} for p in props if p in claimed],
   "not_applicable":[{"property":p,"reason":na.get(p,"no check built yet")} for p in props if p not in claimed],
   "notes":"All checks are static: they load and type-check /repo's current source, build its SSA form and decide obligations on it without running it. No hooks are needed in /repo."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
