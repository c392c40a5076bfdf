#!/bin/bash
# plant.sh ID : verifies seeded/ID (patch + demo) in a scratch copy: stable tests pass, demo 0 before / nonzero after; then runs the property's check against the patched copy.
id=$1; d=/verif/seeded/$id; w=/tmp/wt_$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 2
mkdir -p /tmp/demo_$id; cp "$d"/* /tmp/demo_$id/; rm -f /tmp/demo_$id/*.diff /tmp/demo_$id/meta.json
bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/o1 2>&1; a=$?
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 2; }
bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/o2 2>&1; b=$?
[ $a = 0 ] || tail -3 /tmp/demo_$id/o1
t=$(PYTHONPATH=/opt/vp/plugins:$w PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m pytest -q -p vp_seed_rng -p no:cacheprovider --continue-on-collection-errors tests 2>/dev/null | tail -1)
echo "$id demo unpatched=$a patched=$b tests: $t"
if [ "$2" != nocheck ]; then
  p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  cd /verif; SPA_REPO=$w timeout 880 /opt/venv/bin/python -W ignore -m spaverify.check $p > /tmp/plant_$id.log 2>&1; echo "check $p exit $?"; grep VIOLATION /tmp/plant_$id.log | head -3 | cut -c1-200
fi
cd /; rm -rf "$w" "/tmp/demo_$id"
