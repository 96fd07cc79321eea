#!/bin/bash
# w.sh CHECK GROUP ENTRY ARG MAXTIME [opts]: one engine run on already linked bitcode
bc=/verif/build/run/$1/$2.linked.bc; e=$3; a=$4; t=$5; shift 5
timeout $((t+60)) /verif/build/wsym $bc --entry=$e --name=$e --arg=$a --out=/tmp/w.$e.json --cexdir=/tmp --max-time=$t "$@" 2>&1 | tail -8
python3 -c "
import json;d=json.load(open('/tmp/w.$e.json'));print({k:v for k,v in d.items() if not isinstance(v,(list,dict,str))});print([ (v['kind'],v['msg'],v.get('loc')) for v in d.get('violations',[])][:4])" | cut -c1-900
