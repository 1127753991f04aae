#!/bin/bash
# seedcheck.sh ID : confirms a planted bug in a scratch copy (applies, original lines, builds, tests pass, demo 0 / nonzero).
id=$1; d=/verif/seeded/$id; s=$(mktemp -d /tmp/seed.XXXX)
. /opt/vp/env.sh
cp -a /repo "$s/repo"; cd "$s/repo" || exit 1
mkdir "$s/demo"; cp -r "$d"/. "$s/demo/"; rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
bash "$s/demo/demo.sh" > "$s/clean.log" 2>&1; rc=$?
[ $rc = 0 ] || { echo "FAIL $id: demo exits $rc on the clean tree"; tail -20 "$s/clean.log"; }
git apply --check "$d/patch.diff" || { echo "FAIL $id: does not apply"; exit 1; }
# original lines
python3 - "$d/patch.diff" <<'P' || echo "FAIL $id: no original line"
import re,subprocess,sys
f=None;ok=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'):
        ln=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
    elif l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-l','-L','%d,%d'%(ln,ln),f],stdout=subprocess.PIPE,text=True).stdout
        n+=1; ok+=(b.startswith('a7d5613') or b.startswith('^a7d5613')); ln+=1
    elif l.startswith('+'): pass
    else: ln+=1
print('changed lines',n,'original',ok); sys.exit(0 if ok and ok==n else 1)
P
git apply "$d/patch.diff"
go build ./... && (cd cmd/fontcmd && go build -o /dev/null ./...) || echo "FAIL $id: build"
(go test -vet=off -count=1 ./... ; cd cmd/fontcmd; go test -vet=off -count=1 ./...) > "$s/test.log" 2>&1 || { echo "FAIL $id: tests"; grep -- "--- FAIL" "$s/test.log" | head; }
bash "$s/demo/demo.sh" > "$s/bug.log" 2>&1; rc=$?
[ $rc != 0 ] && echo "$id: demo fails with the patch ($rc): $(grep -v '^ok\|^FAIL\|^---' "$s/bug.log" | head -3 | cut -c1-200)" || echo "FAIL $id: demo passes with the patch"
rm -rf "$s"
