# catch.sh ID...: apply the plant to /repo, run its property's check, undo
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
 (cd /verif; /usr/bin/time -f %es ./check $p > /tmp/w/catch_$id.log 2>&1; echo "$id $p rc=$? $(grep -c ^VIOLATION /tmp/w/catch_$id.log) $(tail -1 /tmp/w/catch_$id.log)")
 git -C /repo checkout -q -- .
done
