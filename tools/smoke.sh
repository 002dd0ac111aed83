#!/bin/bash
# vacuity: bash tools/smoke.sh BUNDLE REGEX - every function must report a failing assert(false) at its end
cd /verif && python3 - "$1" "$2" <<'P'
import sys,re,json,subprocess
sys.path.insert(0,'/verif/tools'); import plan
b,rx=sys.argv[1],sys.argv[2]
cmd=['extract/target/release/extract','--src','/repo/src','--out','/verif/build/sm.rs','--meta','/verif/build/sm.json']
for o,f in plan.BUNDLES[b]: cmd+=['--'+o,'contracts/'+f]
subprocess.check_call(cmd)
m=json.load(open('/verif/build/sm.json'))
ids=[i['id'] for i in m['items'] if i['kind']=='fn' and not i['assumed'] and re.search(rx,i['id'])]
open('/verif/build/keep2','w').write('\n'.join(ids)); subprocess.check_call(cmd+['--keep','/verif/build/keep2','--smoke','1'])
print(len(ids),'functions: each must report an assertion failure')
P
cd /verif/build && verus sm.rs --rlimit 60 --verify-root --multiple-errors ${3:-200} > /verif/build/sm.out 2>&1; tail -3 /verif/build/sm.out
grep -A3 "assertion failed" /verif/build/sm.out | grep -c "assert(false)"
