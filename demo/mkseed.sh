#!/bin/bash
# mkseed.sh ID PROP : collects /tmp/seed/{demo.cpp,demo.sh,needs,breaks} and the diff of /tmp/mr into seeded/ID
set -e
d=/verif/seeded/$1
mkdir -p $d
git -C /tmp/mr diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
cp /tmp/seed/demo.cpp $d/ 2>/dev/null || true
cp /tmp/seed/demo.sh $d/
for f in /tmp/seed/extra/*; do [ -e "$f" ] && cp -r $f $d/; done
cp /verif/demo/lib.sh $d/
if grep -q "fix.hpp" $d/demo.cpp 2>/dev/null; then cp /verif/demo/fix.hpp $d/; fi
if grep -q "cxx " $d/demo.sh; then cp -r /verif/demo/shim $d/; fi
python3 - "$1" "$2" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":open("/tmp/seed/needs").read().strip(),"what_it_breaks":open("/tmp/seed/breaks").read().strip()},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
(cd /repo && bash $d/demo.sh) && echo "unchanged: ok" || { echo "DEMO FAILS ON UNCHANGED"; exit 1; }
(cd /tmp/mr && bash $d/demo.sh) && { echo "DEMO PASSES ON PATCHED"; exit 1; } || echo "patched: detected rc=$?"
VF_REPO=/tmp/mr timeout 900 python3 /verif/run.py $2 | cut -c1-250 | tail -${N:-4}
git -C /tmp/mr checkout -q .
