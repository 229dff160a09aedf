#!/bin/bash
# mut.sh CHECK[,CHECK] patch|-R commit|-s 'file' 'old' 'new'
checks=$1; shift
d=$(mktemp -d /tmp/mut/XXXXXX); cp -a /repo/. $d/
cd $d
if [ "$1" = "-R" ]; then git show $2 | git apply -R || { echo APPLYFAIL; exit 2; }
elif [ "$1" = "-s" ]; then python3 - "$2" "$3" "$4" <<'P' || { rm -rf $d; exit 2; }
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert s.count(o)>=1,"pattern missing: "+o
open(f,'w').write(s.replace(o,n,1))
P
else git apply $1 || { echo APPLYFAIL; rm -rf $d; exit 2; }; fi
for c in ${checks//,/ }; do cd /verif; mkdir -p /tmp/mutev; s=$(date +%s); cp evidence/$c.json /tmp/mutev/ 2>/dev/null; MEDIL_REPO=$d timeout 900 python3-vt run_check.py $c > $d.out 2>&1; echo "$c exit=$? $(( $(date +%s)-s ))s $(grep -m1 -E 'counterexample|INCONCLUSIVE' $d.out | cut -c1-260)"; cp /tmp/mutev/$c.json evidence/ 2>/dev/null; done
rm -rf $d
