#!/bin/bash
# newseed.sh ID PROPERTY : makes seeded/ID from the uncommitted changes in
# /repo and undoes them; the demo body is read from stdin, needs and
# what_it_breaks from $NEEDS and $WHAT.
set -e
d=/verif/seeded/$1
mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/demo/lib.sh $d/
{ echo '#!/bin/bash'; echo '. "$(dirname "$0")/lib.sh"'; cat; } > $d/demo.sh
python3 - "$1" "$2" <<'P'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["WHAT"]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
