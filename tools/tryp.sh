#!/bin/bash
# tools/tryp.sh PATCH PROP... : runs checks against a scratch copy of /repo with the patch applied
p=$(realpath "$1"); shift
n=$(echo "$p" | md5sum | cut -c1-8); w=/tmp/try.$n; rm -rf "$w"; mkdir -p "$w"
git -C /repo archive HEAD | (mkdir -p $w/repo && tar -x -C $w/repo); cp /repo/Cargo.lock $w/repo/
cd $w/repo && git init -q . && git apply "$p" || { echo "patch failed"; exit 2; }
mkdir -p $w/build; cp -a /verif/build/exporter $w/build/ 2>/dev/null; cp -a /verif/build/harness $w/build/ 2>/dev/null
cd /verif
for q in "$@"; do VERIF_REPO=$w/repo VERIF_BUILD=$w/build VERIF_EVIDENCE=$w/ev python3 check.py $q; echo "== $q exit $?"; done
rm -rf "$w"
