#!/bin/bash
# confirm a planted bug: tools/seed.sh ID  (patch applies, tests pass, demo passes without and fails with it; then the check)
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/seedwt-$id
rm -rf "/tmp/seedwt-$id"; cp -a /repo $w
cd $w
res="$id $prop"
run_demo() { (cd $w && PYTHONPATH=$w timeout 300 bash $d/demo.sh >/tmp/seed-$id.$1 2>&1; echo $?); }
a=$(run_demo clean)
git apply $d/patch.diff
b=$(run_demo bug)
t=$(cd $w && PYTHONPATH=$w TZ=UTC AWS_EC2_METADATA_DISABLED=true /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=120 2>/dev/null | grep -E '^FAILED|^ERROR|^=+ .*passed' | cut -c1-90 | grep -v "test_post_chunked\|test_remote" | tr "\n" ";")
echo "$res demo clean=$a bug=$b tests: $t"
if [ "$2" != nocheck ]; then
cd /verif && PYVC_REPO=$w python3-vt check.py $prop > /tmp/seed-$id.check 2>&1; echo "check exit $?"; grep -E "VIOLATION|failing input|failed oblig" /tmp/seed-$id.check | cut -c1-200 | head -8
fi
rm -rf "/tmp/seedwt-$id"
