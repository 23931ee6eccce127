# usage: repfile.sh REPLAY.json : reruns a replay file with library trace
d=$(mktemp -d); python3 - "$1" $d <<'P'
import json,sys
d=json.load(open(sys.argv[1])); open(sys.argv[2]+"/p","w").write(d["program"]); print(d["cfg"],file=open(sys.argv[2]+"/c","w"))
P
$(python3 /verif/tools/build.py $QT) $d/p $d/t cfg=$(cat $d/c)
