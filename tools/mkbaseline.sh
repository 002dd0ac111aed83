#!/bin/sh
# records the binder names and the skeleton of every function under contract, on the unchanged tree
cd "$(dirname "$0")/.." && python3 - <<'P'
import json,subprocess,sys
sys.path.insert(0,'tools'); import plan
out={}
for b,fs in plan.BUNDLES.items():
    cmd=['extract/target/release/extract','--src','/repo/src','--out','/tmp/mkb.rs','--meta','/tmp/mkb.json']
    for o,f in fs: cmd+=['--'+o,'contracts/'+f]
    subprocess.check_call(cmd)
    out.update(json.load(open('/tmp/mkb.json'))['baseline'])
json.dump(out,open('contracts/baseline.json','w'),indent=0,sort_keys=True)
P
