#!/bin/bash
# trial.sh ID...: run the check of each planted bug's property against a scratch copy of /repo with the bug
cd /verif
for id in "$@"; do
	t=$(mktemp -d /tmp/trialXXXX)
	git -C /repo archive HEAD | tar x -C "$t"
	(cd "$t" && git init -q . && git apply "/verif/seeded/$id/patch.diff") || echo "$id: patch does not apply"
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	s=$(date +%s)
	VC_REPO="$t" VC_OUT="$t/.out" VERIF_SEED=1 python3-vt vc/run.py "$p" --tier quick > "$t/.log" 2>&1
	rc=$?
	echo "$id $p rc=$rc $(($(date +%s) - s))s $(grep -h VIOLATION "$t/.log" | head -1) $(grep -v VIOLATION "$t/.log" | head -2 | cut -c-160 | tr '\n' '|')"
	rm -rf "$t"
done
