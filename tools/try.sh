#!/bin/bash
# usage: tools/try.sh BUG... ; runs the check of each planted bug's property against a scratch copy of /repo with the bug in it
cd "$(dirname "$0")/.." || exit 1
for b in "$@"; do
	p=$(python3 -c "import json,sys; print(json.load(open('seeded/$b/meta.json'))['property'])")
	d=$(mktemp -d /tmp/try_XXXXXX)
	cp -a /repo/. "$d/"
	if git -C "$d" apply "$PWD/seeded/$b/patch.diff"; then
		VERIF_REPO=$d ./check "$p" "${TIER:-quick}" > "$d.out" 2>&1; rc=$?
		echo "$b property=$p exit=$rc $(grep -m1 VIOLATION "$d.out")"
	else
		echo "$b: does not apply"
	fi
	rm -rf "$d" "$d.out"
done
