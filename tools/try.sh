#!/bin/bash
# tools/try.sh HARNESS ARGS [engine options]: run one harness on the last built bitcode
h=$1; a=$2; shift 2
/verif/build/engine/release/engine run ${BC:-/verif/build/final.bc} $h --args $a --out /tmp/o "$@" > /tmp/try.json; rc=$?
python3 - <<'PY'
import json
try: d=json.load(open('/tmp/try.json'))
except Exception: print('no output'); raise SystemExit
d['functions']=len(d['functions']); print(json.dumps(d)[:3000])
PY
echo rc=$rc
