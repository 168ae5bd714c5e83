#!/bin/bash
# plant.sh ID [CHECK...]   validates a planted bug: applies, builds, passes the tests, its demo tells it apart; then runs the checks on it
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
t=$(mktemp -d); cp "$d"/* "$t"; rm -f "$t"/*.diff "$t"/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build of the unchanged tree failed"; exit 2; }
timeout 300 bash "$t/demo.sh" >"$t/out0" 2>&1; r0=$?
git apply "$d/patch.diff" || exit 2
trap 'undo; rm -rf "$t"' EXIT
# removed lines must be of the original tree
python3 - "$d/patch.diff" <<'P'
import re, subprocess, sys
f = None; n = 0; old = []
for l in open(sys.argv[1], errors="replace"):
    if l.startswith("--- "): f = l[6:].split("\t")[0].strip()
    elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
    elif l.startswith("-"): old.append((f, n)); n += 1
    elif l.startswith(" "): n += 1
base = subprocess.check_output("git rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
bl = {}
bad = 0
for f, n in old:
    if f not in bl: bl[f] = subprocess.check_output(["git", "blame", "-l", "-s", "--root", "HEAD", "--", f], text=True).split("\n")
    if not bl[f][n - 1].lstrip("^").startswith(base[:39]): bad += 1
print("removed lines: %d, of own commits: %d" % (len(old), bad))
P
if ! bash /opt/vp/build.sh >"$t/b" 2>&1; then echo "$id: DOES NOT BUILD"; tail -5 "$t/b"; exit 1; fi
timeout 300 bash "$t/demo.sh" >"$t/out1" 2>&1; r1=$?
bash /opt/vp/test.sh "$t/o.json" >/dev/null 2>&1
p=$(python3 -c "import json;print(len(json.load(open('$t/o.json'))['passed']))")
echo "$id: demo unchanged $r0, patched $r1, tests passed $p"
[ $r0 = 0 ] || tail -5 "$t/out0"
tail -3 "$t/out1"
cd /verif; [ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
for c in "$@"; do python3-vt check.py $c 2>&1 | grep -E "^VIOLATION|^$c|^---" -A1 | cut -c1-250 | head -5; done
