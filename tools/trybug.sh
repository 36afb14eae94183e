#!/bin/bash
# trybug.sh ID...: runs the check of each planted bug's property against a scratch clone of /repo with the bug applied.
# (developer's tool; the registered checks always run against /repo itself)
here=$(dirname "$(dirname "$(realpath "$0")")")
W=${TRYBUG_DIR:-/tmp/trybug}
[ -d "$W" ] || git clone -q /repo "$W"
git -C "$W" checkout -q -- . && git -C "$W" pull -q --ff-only
for id in "$@"; do
    d=$here/seeded/$id; [ -d "$d" ] || d=/verif/seeded/$id
    prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    git -C "$W" checkout -q -- .
    git -C "$W" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(cd "$here" && VERIF_REPO=$W ./check "$prop" quick 2>&1); rc=$?
    echo "$id $prop rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -B1 -m1 ^VIOLATION | head -1)"
    git -C "$W" checkout -q -- .
done
