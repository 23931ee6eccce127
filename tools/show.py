#!/usr/bin/env python3
"""show.py TRACES INDEX [FROM]: prints one recorded history (1-based index)"""
import sys,json
ls=open(sys.argv[1]).read().splitlines()
d=json.loads(ls[int(sys.argv[2])-1]); fr=int(sys.argv[3]) if len(sys.argv)>3 else 1
print(d["prog"],d["cfg"],"jump",d["jump"])
for i,e in enumerate(d["ev"],1):
    if i>=fr: print("%4d t%-2d %6d  %s"%(i,e[1],e[2],e[0])," ".join(str(x) for x in e[3:]))
