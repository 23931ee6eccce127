#!/bin/sh
# ex.sh OUTDIR SHARD IDX : history and its program
cd /verif; f=out/$1/t.$2.ndjson; python3 tools/show.py $f $3
n=$(sed -n ${3}p $f | python3 -c 'import json,sys; print(json.loads(sys.stdin.readline())["prog"])')
sed -n "/^program $n\$/,/^endprogram/p" out/$1/programs
