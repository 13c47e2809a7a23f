#!/bin/sh
# go.sh ID...: run the engine and list what is not discharged
for p in "$@"; do
timeout 900 /opt/veriftools/pyvenv/bin/python3 /verif/engine/run.py $p --repo ${R:-/repo} --tier quick --out /tmp/eng-$p.json
python3 -c "
import json,sys
d=json.load(open('/tmp/eng-$p.json'))
for k in ('failed','undecided'):
  for f in d[k][:12]: print(' ',k,f['name'],'|',f['why'][-700:],f.get('hints'))"
done
