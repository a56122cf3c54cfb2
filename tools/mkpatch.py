"""mkpatch.py NAME FILE : reads OLD and NEW from stdin separated by a line '====' (several edits separated by '####')"""
import shutil, subprocess, sys, tempfile
W = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])
name = sys.argv[1]
edits = sys.stdin.read().split("####\n")
for e in edits:
    f, rest = e.split("\n", 1)
    old, new = rest.split("====\n")
    p = W + "/repo/" + f.strip()
    s = open(p).read()
    old, new = old.rstrip("\n"), new.rstrip("\n")
    assert s.count(old) == 1, (name, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", W + "/repo", "diff"], text=True)
shutil.rmtree(W)
open(sys.argv[2] if len(sys.argv) > 2 else "/verif/seeded/%s/patch.diff" % name, "w").write(d)
