#!/bin/bash
# rebuild /repo + stable tests; prints how many of the baseline pass
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
bash /opt/vp/build.sh >"$T/b.log" 2>&1 || { tail -5 "$T/b.log"; exit 1; }
bash /opt/vp/test.sh "$T/t.json" >"$T/t.log" 2>&1
python3 - "$T/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k] if isinstance(x[k],list) else [a for a,v in x[k].items()])
    return set()
print(len(names(b)), len(names(t)), sorted(names(b)-names(t)))
P
