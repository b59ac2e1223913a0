#!/bin/bash
# tools/mkseed.sh ID PROP "needs" "what" [extra libs] < demo source (C; C++ if first line contains //cpp); takes the current /repo diff
id=$1; D=/verif/seeded/$id
bash /verif/tools/seed.sh take $id
src=$(cat); if head -1 <<<"$src" | grep -q '//cpp'; then f=demo.cpp; else f=demo.c; fi
printf '%s\n' "$src" > $D/$f
sed "s#EXTRA#${5:-}#" /verif/tools/demo.sh.tpl > $D/demo.sh
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(d+'/meta.json','w'),indent=1)
P
