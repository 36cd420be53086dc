#!/bin/bash
# bash tools/seed.sh <id> <property> "<needs>" "<what it breaks>"
# The change is the working-tree diff of the scratch copy /tmp/seed/repo; main.rs lies in /tmp/seed/<id>.rs.
# Validates: builds, stable tests pass, demo passes without and fails with the change. Then stores it.
set -u
id="$1"; S=/tmp/seed; V=/verif
d=${OUT:-$V/seeded}/$id; mkdir -p "$d"
git -C $S/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp $V/tools/demo/demo.sh "$d/"; cp $S/$id.rs "$d/main.rs"; cp $V/tools/demo/demo.lock "$d/"
grep -q "mod mk;" "$d/main.rs" && cp $V/tools/demo/mk.rs "$d/"
[ -f $S/$id.bin ] && cp $S/$id.bin "$d/pack.bin"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
. /opt/vp/env.sh 2>/dev/null
cd $S/repo
git stash -q
(bash "$d/demo.sh") > $S/$id.clean.log 2>&1; a=$?
git stash pop -q
(bash "$d/demo.sh") > $S/$id.patched.log 2>&1; b=$?
cargo test --workspace --offline --features json --no-fail-fast --target-dir $S/target -- --test-threads 8 > $S/$id.test.log 2>&1
python3 /opt/vp/results.py $S/$id.json "cargo:$S/$id.test.log" >/dev/null
t=$(python3 - $S/$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b.get('tests')
miss=[x for x in st if x not in o['passed']]
print(len(miss), miss[:3])
P
)
echo "$id: clean=$a patched=$b missing-tests=$t"
tail -3 $S/$id.patched.log
if [ $a = 0 ] && [ $b != 0 ] && [ "${t%% *}" = 0 ]; then git checkout -q -- .; echo KEPT; else echo REJECTED; [ "${KEEPBAD:-}" ] || rm -rf "$d"; fi
