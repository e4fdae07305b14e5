#!/bin/bash
# dev: run-time reading of contracts: con.sh PROP [seconds] [harness...]
p=$1; s=${2:-8}; shift; shift
/opt/venv/bin/python /verif/rtv/concrete.py run $p ${SEED:-1} $s /tmp/o_$p.json "$@"; python3 -c "
import json,sys;d=json.load(open('/tmp/o_$p.json'))
for h in d['harnesses']:print('%-45s cases %d ok %d discarded %d checks %d %.1fs'%(h['name'],h['cases'],h['checked'],h['discarded'],h['checks'],h['seconds']))
for f in d['failures']:print(f['harness'],f['message'],f['case'],str(f['inputs'])[:600])"
