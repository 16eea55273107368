#!/bin/bash
# hunt.sh ID... : for each planted bug, runs the check of its property against it. Prints who caught what.
# Works on copies of /repo and of /verif's machinery in /tmp/hunt, so that both can be worked on meanwhile.
# ALL=1 runs every check against each bug.
h=/tmp/hunt
mkdir -p $h/verif
rm -rf $h/repo; git clone -q /repo $h/repo
rm -rf $h/verif/mc $h/verif/mcweb $h/verif/mcgui; cp -a /verif/mc /verif/mcweb /verif/mcgui /verif/check.sh /verif/MANIFEST.json /verif/known_findings.jsonl $h/verif/
sed -i "s#/repo\b#$h/repo#g" $h/verif/check.sh
cd $h/verif
for id in "$@"; do
  dir=/verif/seeded/$id; [ -d $dir ] || dir=/verif/uncounted/$id
  prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
  checks=$prop; [ -n "$ALL" ] && checks=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  git -C $h/repo apply "$dir/patch.diff" || { echo "$id: patch does not apply"; continue; }
  for c in $checks; do
    s=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 ./check.sh $c 2>/tmp/hunt.err); rc=$?
    e=$(( $(date +%s) - s ))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" <<<"$out"; then echo "$id: $c CAUGHT (${e}s) $(grep -m1 -v '^VIOLATION' <<<"$out" | head -c 150)"
    else echo "$id: $c missed rc=$rc (${e}s)"; fi
  done
  git -C $h/repo checkout -q -- .
done
