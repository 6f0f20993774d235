#!/bin/bash
# dev helper: tools/seed.sh ID [nocheck]: validate a planted bug in a scratch copy that a mount namespace lays over /repo (demo clean/planted, build, stable tests), then the property's quick check on it
# JOBS parallel runs are possible: ls seeded | xargs -P4 -n1 bash tools/seed.sh
if [ -z "$IN" ]; then
  W=$(mktemp -d /var/tmp/seed.XXXX); cp -a /repo "$W/repo"; mkdir "$W/tmp"
  IN=$W unshare -Urm bash -c 'mount --bind "$IN/repo" /repo && mount --bind "$IN/tmp" /tmp && exec bash /verif/tools/seed.sh "$@"' x "$@"; case $W in /var/tmp/seed.*) rm -rf "$W";; esac; exit
fi
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); L=/tmp/log; : >$L; T=/tmp/demo; mkdir $T; cp -r "$D"/. "$T"; rm -f "$T"/*.diff "$T"/meta.json
bash /opt/vp/build.sh >>$L 2>&1 || { echo "clean build fails"; exit 1; }
(cd /repo && timeout 300 bash "$T/demo.sh" >>$L 2>&1); c=$?
git -C /repo apply "$D/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >>$L 2>&1 || { echo "$1: planted build fails"; tail -5 $L; exit 1; }
p=; for i in 1 2 3; do (cd /repo && timeout 300 bash "$T/demo.sh" >>$L 2>&1); p="$p,$?"; done
t=skip; bash /opt/vp/test.sh /tmp/t.json >>$L 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'));print(len(set(b['stable'])-set(t['passed'])))")
k=skip; s=$(date +%s); [ "$2" = nocheck ] || { (cd /verif && timeout 900 ./mc check $P --tier quick >/tmp/chk 2>&1); k=$?; }
echo "$1 $P: demo clean=$c planted=${p#,} tests-failed=$t check=$k ($(($(date +%s)-s))s) $(grep -c '^VIOLATION' /tmp/chk) violations: $(grep VIOLATED /tmp/chk | grep scenario | awk '{print $2}' | head -3 | tr '\n' ' ')"
