#!/bin/sh
# rep.sh OUTDIR SHARD IDX [ENV=..]: reruns one history with stderr
cd /verif; f=out/$1/t.$2.ndjson; E=$(python3 tools/build.py $QT)
L=$(sed -n ${3}p $f); n=$(echo "$L" | python3 -c 'import json,sys; print(json.loads(sys.stdin.readline())["prog"])'); c=$(echo "$L" | python3 -c 'import json,sys; print(json.loads(sys.stdin.readline())["cfg"])')
echo "$E out/$1/programs /tmp/w/rep.out program=$n cfg=$c err=1"
$E out/$1/programs /tmp/w/rep.out program=$n cfg=$c err=1 2>&1
