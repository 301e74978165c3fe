#!/bin/bash
# usage: eval_bugs.sh VERIF_DIR OUT.tsv [ID...] ; with CHECKS=all every check is run, NOTEST=1 skips the repository's tests.
# Applies each planted bug to /repo, runs tests, demo and checks, and undoes it.
V="$1"; OUT="$2"; shift 2
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$V/seeded"))
for id in "${ids[@]}"; do
    d="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    t=-; dc=-; db=-
    if [ -z "$NOTEST" ]; then bash "$d/demo.sh" >/dev/null 2>&1; dc=$?; fi
    git apply "$d/patch.diff" || { echo -e "$id\tAPPLY-FAILED" >> "$OUT"; continue; }
    if [ -z "$NOTEST" ]; then
        if bash /opt/vp/build.sh >/tmp/eb.log 2>&1; then
            bash /opt/vp/test.sh /tmp/eb.json >/dev/null 2>&1
            t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/eb.json'))
ok=set(r.get('passed',r.get('pass',[])))
m=[x for x in b if x not in ok]
print('ok' if not m else 'FAIL:'+','.join(x.split('::')[-1] for x in m))
P
)
        else t=BUILDFAIL; fi
        bash "$d/demo.sh" >/tmp/eb.demo 2>&1; db=$?
    fi
    c=""
    if [ "$CHECKS" = all ]; then list=$(seq -f 'C%02g' 1 22); else list=$prop; fi
    for p in $list; do
        s=$(date +%s.%N); "$V/check.sh" $p quick >/tmp/eb.chk 2>&1; rc=$?
        if [ $rc != 0 ]; then c="$c $p:$rc:$(grep -c '^VIOLATION' /tmp/eb.chk)"; fi
    done
    git checkout -q -- .
    echo -e "$id\t$prop\ttests=$t\tdemo=$dc/$db\tcaught:$c" >> "$OUT"
done
