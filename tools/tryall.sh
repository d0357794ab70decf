#!/bin/bash
# tryall.sh [ID...]: every planted bug against the check of its property.
cd /verif
for d in ${@:-$(ls seeded)}; do
  c=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  echo "-- $d $c"; tools/trybug.sh $d $c
done
