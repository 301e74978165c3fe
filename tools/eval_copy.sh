#!/bin/bash
# usage: eval_copy.sh OUT.tsv [ID...]   evaluates planted bugs in scratch copies (leaves /repo alone).
# CHECKS=all runs every check; NOTEST=1 skips the repository's tests and the demo.
OUT="$(realpath "$1")"; shift
V="$(cd "$(dirname "$0")/.." && pwd)"; B=${EVB:-/tmp/ev}
mkdir -p $B; R=$B/repo; H=$B/verif
mkdir -p $R $H
git -C /repo archive HEAD | tar x -C $R; cp /repo/Cargo.lock $R/ 2>/dev/null
(cd "$V" && tar c harness port build.sh check.sh known_findings.txt) | tar x -C $H
sed -i "s#path = \"/repo\"#path = \"$R\"#" $H/harness/Cargo.toml $H/port/Cargo.toml
export CARGO_NET_OFFLINE=true
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$V/seeded"))
for id in "${ids[@]}"; do
    d="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    t=-; dc=-; db=-
    cd $R
    if [ -z "$NOTEST" ]; then bash "$d/demo.sh" >/dev/null 2>&1; dc=$?; fi
    patch -s -p1 < "$d/patch.diff" || { echo -e "$id\tAPPLY-FAILED" >> "$OUT"; continue; }
    if [ -z "$NOTEST" ]; then
        if QUICKCHECK_TESTS=10 cargo test --offline --lib --features c-tests,internal-tests > $B/test.log 2>&1; then t=ok
        else t="FAIL:$(grep -E '^test .*FAILED|could not compile' $B/test.log | tr '\n' ' ' | cut -c1-200)"; fi
        bash "$d/demo.sh" >$B/demo.log 2>&1; db=$?
    fi
    c=""
    if [ "$CHECKS" = all ]; then list=$(seq -f "C%02g" 1 26); else list=$prop; fi
    for p in $list; do
        "$H/check.sh" $p quick >$B/chk.log 2>&1; rc=$?
        if [ $rc != 0 ]; then c="$c $p:$rc:$(grep -c '^VIOLATION' $B/chk.log)"; fi
    done
    cd $R && patch -s -R -p1 < "$d/patch.diff"
    echo -e "$id\t$prop\ttests=$t\tdemo=$dc/$db\tcaught:$c" >> "$OUT"
done
