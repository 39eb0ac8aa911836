#!/bin/bash
# tools/seedtest.sh ID... : tries planted bugs in a scratch worktree (/tmp/sd/repo, with its own copy of the build scripts).
R=${SD:-/tmp/sd/repo}
for id in "$@"; do
	S=/verif/seeded/$id
	P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	git -C $R checkout -q -- . && git -C $R checkout -q --detach $(git -C /repo rev-parse HEAD)
	D=/tmp/sd/demo${SD:+2}_$id; mkdir -p $D; cp $S/demo.sh $D/; find $S -type f ! -name '*.diff' ! -name meta.json -exec cp {} $D/ \;
	sed -i "s#/repo#$R#g" $D/demo.sh
	(cd $R && timeout 300 bash $D/demo.sh >$D/clean.log 2>&1); c=$?
	git -C $R apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	(cd $R && timeout 300 bash $D/demo.sh >$D/bug.log 2>&1); b=$?
	t=skip
	if [ -z "$NOTEST" ]; then
		bash /tmp/sd/vp/build.sh >$D/build.log 2>&1 || echo "$id: BUILD FAILS"
		bash /tmp/sd/vp/test.sh $D/t.json >$D/test.log 2>&1
		t=$(python3 -c "
import json;a=json.load(open('$D/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed']);print('ok' if not m else 'BROKEN %s'%sorted(m)[:4])")
	fi
	k=skip
	if [ -z "$NOCHECK" ]; then VERIF_REPO=$R /verif/check.py $P >$D/check.log 2>&1; k=$?; grep -m1 VIOLATION $D/check.log; fi
	echo "$id ($P): demo clean=$c bug=$b tests=$t check=$k"
	git -C $R checkout -q -- .
done
