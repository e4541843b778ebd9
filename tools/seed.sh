#!/bin/bash
# seed.sh <id>...: applies a planted change to a copy of /repo, runs build, tests, demo and the property's check there. The copy
# (with a copy of the build folder) lies over /repo and /verif/build in a mount namespace of its own, so the real ones stay as they are.
if [ -z "$SEED_INSIDE" ]; then
    flock /tmp/seed.lock true
    S=/tmp/seedbox; mkdir -p $S/repo $S/build $S/ev
    rsync -a --delete /repo/ $S/repo/ 2>/dev/null || { rm -rf /tmp/seedbox/repo; cp -a /repo $S/repo; }
    [ -d $S/build/target ] || cp -a /verif/build/. $S/build/
    SEED_INSIDE=1 exec unshare -m bash "$0" "$@"
fi
mount --make-rprivate /
mount --bind /tmp/seedbox/repo /repo && mount --bind /tmp/seedbox/build /verif/build && mount --bind /tmp/seedbox/ev /verif/evidence || exit 2
exec 9>/tmp/seed.lock; flock 9
for id in "$@"; do
d=/verif/seeded/$id
[ -d $d ] || d=$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
id=$(basename $id)
cd /repo || exit 2
git checkout -q -- .
if [ -z "$SKIP_DEMO" ]; then bash $d/demo.sh > /tmp/seed.$id.clean 2>&1; c=$?; else c=skip; fi
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
b=skip t=skip s=skip
if [ -z "$SKIP_DEMO" ]; then
bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1; t=$(tail -1 /tmp/seed.$id.test)
bash $d/demo.sh > /tmp/seed.$id.demo 2>&1; s=$?
fi
cd /verif; t0=$(date +%s)
python3 check.py ${CHECK:-$prop} > /tmp/seed.$id.check 2>&1; k=$?
t1=$(date +%s)
git -C /repo checkout -q -- .
echo "$id ($prop): demo clean=$c; patched: build=$b tests=[$t] demo=$s check=$k ($((t1-t0))s)"
done
