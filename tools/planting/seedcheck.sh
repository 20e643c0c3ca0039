#!/bin/bash
# seedcheck.sh [ids]: which registered quick check (the one of the property) detects which seeded change; scratch copies only
cd /verif
ids=${*:-$(ls seeded)}
one() { id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 w=/tmp/sc_$id; rm -rf "/tmp/sc_$id"; cp -a /repo $w; git -C $w checkout -q -- .; git -C $w apply /verif/seeded/$id/patch.diff || echo "no apply $id"
 o=$(VERIF_REPO=$w VERIF_EVIDENCE=/tmp/sc_ev_$id ./run.sh $p 2>&1); rc=$?
 echo "$id $p rc=$rc $(echo "$o" | grep -c VIOLATION) $(echo "$o" | tail -1 | cut -c1-150)"; rm -rf "/tmp/sc_$id"; }
export -f one
printf '%s\n' $ids | xargs -P 2 -I{} bash -c 'one {}'
