#!/bin/bash
# seed.sh ID: /repo's working tree holds a planted bug and /verif/seeded/ID holds demo.rs (or its own demo.sh) and meta.json.
# Saves the patch, confirms it (build, tests, demo), runs the property's check, restores /repo, confirms the demo there.
id="$1"; d=/verif/seeded/$id
cd /repo
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
[ -f "$d/demo.sh" ] || cp /verif/tools/demo/demo.sh "$d/demo.sh"
bash /opt/vp/build.sh > /tmp/seed.build 2>&1; grep -E "^(warning|error)" -A6 /tmp/seed.build
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1; echo "tests: $(tail -1 /tmp/seed.test)"
bash "$d/demo.sh" > /tmp/seed.demo 2>&1; echo "demo with the patch: $?"; tail -3 /tmp/seed.demo
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0])")
if [ -z "$NOCHECK" ]; then ( cd /verif; VERIF_SEED=1 timeout 900 $cmd 2>&1 | cut -c1-600 | tail -12 ); fi
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
bash "$d/demo.sh" > /tmp/seed.demo 2>&1; echo "demo without: $?"; tail -3 /tmp/seed.demo
