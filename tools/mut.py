#!/usr/bin/env python3
"""mut.py FILE [NAME-REGEX]: runs the checks against every planted edit in FILE, in a scratch copy of /repo.

Format, per edit:   @@ name bug|same P05[,P03] [roots a,b]
                    path
                    OLD text
                    ====
                    NEW text
                    (####  and another path/OLD/NEW)
'bug' edits must be reported by at least one of the checks, 'same' edits by none."""
import os, re, shutil, subprocess, sys, time

W = "/tmp/mut.%d" % os.getpid()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    text = open(sys.argv[1]).read()
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
    os.makedirs(W)
    sh("mkdir -p %s/repo %s/build; git -C /repo archive HEAD | tar -x -C %s/repo; cp /repo/Cargo.lock %s/repo/; cp -a /verif/build/exporter /verif/build/harness %s/build/" % (W, W, W, W, W))
    bad = 0
    for m in re.split(r"^@@ ", text, flags=re.M)[1:]:
        head, body = m.split("\n", 1)
        h = head.split()
        name, kind, props = h[0], h[1], h[2].split(",")
        roots = h[4] if len(h) > 4 and h[3] == "roots" else None
        if not rx.search(name):
            continue
        saved = {}
        ok = True
        for e in body.split("####\n"):
            f, rest = e.split("\n", 1)
            old, new = rest.split("====\n")
            p = os.path.join(W, "repo", f.strip())
            s = open(p).read()
            saved.setdefault(p, s)
            old, new = old.rstrip("\n"), new.rstrip("\n")
            if s.count(old) != 1:
                print("%-28s edit does not apply (%d matches): %s" % (name, s.count(old), old[:80]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if ok:
            env = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_BUILD=W + "/build", VERIF_EVIDENCE=W + "/ev")
            res = []
            for q in props:
                t = time.time()
                r = sh("python3 check.py %s %s" % (q, "--roots " + roots if roots else ""), cwd="/verif", env=env)
                lines = [l for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("      ")]
                res.append((q, r.returncode, lines, r.stdout))
            hit = [q for q, c, _, o in res if c == 1 and "VIOLATION" in o]
            odd = [q for q, c, _, o in res if c not in (0, 1) or (c == 1 and "VIOLATION" not in o)]
            good = not odd and (bool(hit) == (kind == "bug"))
            bad += not good
            print("%-28s %-4s %s %s" % (name, kind, "ok  " if good else "WRONG", " ".join("%s=%d" % (q, c) for q, c, _, _ in res)), flush=True)
            for q, c, l, o in res:
                if c and (not good or "-v" in sys.argv):
                    print("      " + "\n      ".join(x[:300] for x in (l[:6] or o.splitlines()[-6:])))
                elif c:
                    print("      " + "\n      ".join(x[:160] for x in l[:2]))
        for p, s in saved.items():
            open(p, "w").write(s)
    shutil.rmtree(W)
    print("%d wrong" % bad)


main()
