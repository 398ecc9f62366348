#!/bin/bash
# tools/try_bug.sh ID [run.py options]: demonstrates a planted bug in a scratch
# copy of /repo and runs the check of its property against that copy.
id=$1; shift
bug=/verif/seeded/$id
work=$(mktemp -d /tmp/try_bug.XXXXXX)
trap 'rm -rf "$work"' EXIT
git clone -q /repo "$work/repo" || exit 2
cp -r "$bug" "$work/demo"; rm -f "$work/demo/"{patch.diff,meta.json}
cd "$work/repo" || exit 2
bash "$work/demo/demo.sh" > "$work/before.log" 2>&1; before=$?
git apply "$bug/patch.diff" || exit 2
bash "$work/demo/demo.sh" > "$work/after.log" 2>&1; after=$?
echo "$id: demo before=$before after=$after"
[ $before -ne 0 ] && tail -5 "$work/before.log"
tail -2 "$work/after.log"
prop=$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")
cd /verif && VERIF_REPO="$work/repo" python3 run.py "$prop" "$@" 2>&1 | tail -5
