#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" < patch ; demo test must be at seeded/ID/demo_test.go
S=/verif/seeded/$1; mkdir -p $S; cp /verif/tools/demo_template.sh $S/demo.sh; chmod +x $S/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
