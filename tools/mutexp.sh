#!/bin/bash
# tools/mutexp.sh FILE NAME OUT.json : exports the MIR of /repo with the planted edit NAME of FILE applied
w=/tmp/mexp.$$; mkdir -p $w/repo $w/build
git -C /repo archive HEAD | tar -x -C $w/repo; cp /repo/Cargo.lock $w/repo/; cp -a /verif/build/exporter /verif/build/harness $w/build/
python3 - "$1" "$2" $w/repo <<'P'
import re,sys,os
for m in re.split(r"^@@ ", open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, body = m.split("\n", 1)
    if head.split()[0] != sys.argv[2]: continue
    for e in body.split("####\n"):
        f, rest = e.split("\n", 1); old, new = rest.split("====\n"); p=os.path.join(sys.argv[3], f.strip()); s=open(p).read()
        assert s.count(old.rstrip("\n"))==1; open(p,"w").write(s.replace(old.rstrip("\n"), new.rstrip("\n")))
P
cd /verif && VERIF_REPO=$w/repo VERIF_BUILD=$w/build VERIF_EVIDENCE=$w/ev python3 -c "
import sys; sys.argv=['x']; import check; print(check.export())" 2>&1 | tail -3; cp $w/build/export.json $3; rm -rf /tmp/mexp.$$
