#!/bin/bash
# tools/seed.sh ID : confirms seeded/ID (build, stable tests, demo on both trees) in a scratch copy
set -u
id=$1; d=/verif/seeded/$id
w=/tmp/seed.$id; rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
bash "$d/demo.sh" >"$w/o1" 2>&1; r1=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
cargo test --offline --lib -q -- --test-threads=1 >"$w/t" 2>&1
python3 - "$w/t" <<'P'
import json,re,sys
t=open(sys.argv[1]).read()
m=re.search(r"test result.*",t); print("   tests:",m.group(0) if m else t[-1500:])
f=re.findall(r"^    (\S+)$",t,re.M)
print("   failing:",sorted(set(f)))
P
bash "$d/demo.sh" >"$w/o2" 2>&1; r2=$?
echo "$id: demo unchanged=$r1 changed=$r2"; [ $r1 = 0 ] || tail -5 "$w/o1"; tail -3 "$w/o2"
rm -rf "/tmp/seed.$id"
