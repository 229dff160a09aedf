#!/bin/bash
# refrun.sh DIR check...
d=$1; shift; mkdir -p /tmp/mutev
for c in "$@"; do cd /verif; s=$(date +%s); cp evidence/$c.json /tmp/mutev/ 2>/dev/null; MEDIL_REPO=$d timeout 900 python3-vt run_check.py $c > $d.$c.out 2>&1; echo "$c exit=$? $(( $(date +%s)-s ))s $(grep -m2 -E 'VIOLATION|counterexample|UNREPRO|INCONCLUSIVE' $d.$c.out | cut -c1-360)"; cp /tmp/mutev/$c.json evidence/ 2>/dev/null; done
