#!/bin/bash
# Runs the quick check of the property each planted bug breaks against it, in a copy of /verif and
# /repo under /tmp which is removed afterwards.  usage: catch.sh [-a] [-o OTHER] [ID...]
# (-a: all checks, -o: this check instead)
checks=; only=
while :; do
    case "$1" in
        -a) checks=$(seq -f 'C%02g' 21); shift ;;
        -o) only=$2; shift 2 ;;
        *) break ;;
    esac
done
work=$(mktemp -d /tmp/catch-XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
mkdir "$work/verif"
(cd /verif && tar c --exclude=harness/target tools spec harness KNOWN_FINDINGS.json MANIFEST.json) | tar x -C "$work/verif"
git clone -q /repo "$work/repo"
sed -i "s|path = \"/repo\"|path = \"$work/repo\"|" "$work/verif/harness/Cargo.toml"
cd "$work/verif" || exit 1
for id in ${@:-$(ls /verif/seeded)}; do
    prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    [ -n "$only" ] && prop=$only
    git -C "$work/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    line= first=
    for c in $prop $(tr ' ' '\n' <<< "$checks" | grep -v "^$prop$"); do
        out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $c quick 2>&1); rc=$?
        line="$line $c:rc=$rc,v=$(grep -c '^VIOLATION' <<< "$out")"
        [ $rc -gt 1 ] && tail -3 <<< "$out"
        [ $c = $prop ] && first=$(grep -v '^KNOWN' <<< "$out" | grep -A1 '^VIOLATION' | head -2 | tail -1 | cut -c1-160)
    done
    git -C "$work/repo" checkout -q -- .
    echo "$id $line   $first"
done
