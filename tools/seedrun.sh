#!/bin/bash
# seedrun.sh [id...]: run the check of its property against each planted bug, in a scratch copy of
# this directory and of /repo (LAB, default /tmp/lab), so that /repo and running checks are left alone.
# PROP=<id> runs another property's check; EDIT=<file.diff> applies that instead of a planted bug.
cd "$(dirname "$0")/.." || exit 1
LAB=${LAB:-/tmp/lab}
mkdir -p "$LAB/verif"
[ -d "$LAB/repo" ] || git clone -q /repo "$LAB/repo"
git -C "$LAB/repo" fetch -q origin && git -C "$LAB/repo" checkout -q -f --detach origin/HEAD
cp -a check.sh build.sh known_findings.txt "$LAB/verif/"
rm -rf "$LAB/verif/harness" "$LAB/verif/shim"; cp -a harness shim "$LAB/verif/"
[ -d "$LAB/verif/target" ] || cp -a target "$LAB/verif/target"
sed -i "s|\"/repo\"|\"$LAB/repo\"|" "$LAB/verif/harness/Cargo.toml"
sed -i "s|/repo/Cargo.toml|$LAB/repo/Cargo.toml|" "$LAB/verif/build.sh"
for id in ${@:-$(ls seeded)}; do
    p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    git -C "$LAB/repo" checkout -q -- .
    git -C "$LAB/repo" apply "${EDIT:-$PWD/seeded/$id/patch.diff}" || { echo "$id: patch does not apply"; continue; }
    s=$SECONDS
    out=$(bash "$LAB/verif/check.sh" "$p" quick 2>"$LAB/err"); rc=$?
    v=$(echo "$out" | grep -c '^VIOLATION')
    echo "$id $p rc=$rc $((SECONDS-s))s $v $([ "$v" = 0 ] || sed -n 2p "$LAB/verif/replay/$p/violation.txt")"
done
git -C "$LAB/repo" checkout -q -- .
