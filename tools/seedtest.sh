#!/bin/bash
# development aid: check a seed: demo passes on /repo, patched copy builds, passes tests, demo fails, which checks catch it
# usage: seedtest.sh SEED [PIDs...]
S=/verif/seeded/$1; shift
T=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$T/repo"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && bash $S/demo.sh >/tmp/seed.out 2>&1; echo "demo on unchanged: $?"
cd $T/repo && git apply $S/patch.diff || { echo "APPLY FAILED"; exit 1; }
cat > $T/build.sh <<X
cd $T/repo
X
D=$(mktemp -d /tmp/seeddemoXXXX); cp $S/demo.sh $D/; for f in $S/*; do case $f in *.diff|*.json|*.patch) ;; *) cp $f $D/;; esac; done
(cd $T/repo && bash $D/demo.sh >/tmp/seed.out2 2>&1; echo "demo with patch: $?")
for q in ${@:-$P}; do VERIF_REPO=$T/repo python3-vt /verif/run.py $q | tail -2; done
rm -rf "$T" "$D"
