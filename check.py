#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--export FILE]

Re-exports the type-checked MIR of /repo's current tree, runs the abstract interpreter on the analysis
roots the property needs and applies the property's rules to the resulting effect graphs and values.
Exit 0: every obligation discharged.  Exit 1: at least one violated (VIOLATION line).
"""
import argparse
import gc
import hashlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.path.insert(0, os.path.join(HERE, "engine"))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, "build")


# ------------------------------------------------------------------ export
def tree_hash():
    h = hashlib.sha256()
    paths = []
    for base in (os.path.join(REPO, "src"), os.path.join(HERE, "harness", "src"), os.path.join(HERE, "exporter", "src")):
        for d, _, fs in sorted(os.walk(base)):
            paths += [os.path.join(d, f) for f in fs]
    paths += [os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness", "Cargo.toml"), os.path.join(HERE, "exporter", "Cargo.toml")]
    if os.path.exists(os.path.join(REPO, "build.rs")):
        paths.append(os.path.join(REPO, "build.rs"))
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


class ExportFailed(Exception):
    pass


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ExportFailed("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


DESCEND = "harness,franka,core,alloc,std,nalgebra,simba,num_traits,num_complex,approx,generic_array,typenum,serde,serde_core,bincode,byteorder,hashbrown"


def export():
    """path of the MIR export of the current tree (content addressed)"""
    import fcntl

    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsh = tree_hash()
        out = os.path.join(BUILD, "export.json")
        stamp = os.path.join(BUILD, "export.hash")
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == hsh:
            return out, hsh
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env["CARGO_NET_OFFLINE"] = "true"
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e1 = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "exporter"))
        run(["cargo", "+nightly", "build", "--offline", "-q"], os.path.join(HERE, "exporter"), e1)
        tgt = os.path.join(BUILD, "harness")
        # never trust time stamps: forget the crate under analysis and the harness
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            import shutil

            for d in os.listdir(fp):
                if d.startswith(("libfranka-rs-", "harness-")):
                    shutil.rmtree(os.path.join(fp, d))
        hd = os.path.join(BUILD, "hcrate")
        sync_harness(hd)
        if os.path.exists(out):
            os.remove(out)
        e2 = dict(
            env,
            CARGO_TARGET_DIR=tgt,
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0",
            RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, "exporter", "debug", "mir-export"),
            MIR_EXPORT_OUT=out,
            MIR_EXPORT_DESCEND=DESCEND,
        )
        run(["cargo", "+nightly", "check", "--offline", "-q"], hd, e2)
        if not os.path.exists(out):
            raise ExportFailed("the exporter produced no output")
        with open(stamp, "w") as f:
            f.write(hsh)
        return out, hsh


def sync_harness(hd):
    """working copy of the harness crate next to its build output (keeps /verif/harness clean)"""
    import shutil

    os.makedirs(os.path.join(hd, "src"), exist_ok=True)
    src = os.path.join(HERE, "harness")
    shutil.copyfile(os.path.join(src, "src", "lib.rs"), os.path.join(hd, "src", "lib.rs"))
    t = open(os.path.join(src, "Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    with open(os.path.join(hd, "Cargo.toml"), "w") as f:
        f.write(t)
    lock = os.path.join(src, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(hd, "Cargo.lock"))


# ------------------------------------------------------------------ jobs
def job(a):
    """run one analysis root and apply the rules of one property to it"""
    pid, path, root, tier = a
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    gc.disable()  # terms are hash-consed and live until the process ends
    import base
    import props

    t0 = time.time()
    rep = props.Report(pid, root)

    def go():
        p = props.PROPS[pid]
        eng = base.load(path, p.policy(root))
        cx = props.Ctx(eng, root, tier, rep)
        p.rule(cx)
        rep.note_engine(eng)

    try:
        base.in_big_stack(go)
    except BaseException as ex:  # noqa
        tb = traceback.format_exc().strip().splitlines()
        rep.fail("not-analysable", "%s: %s" % (type(ex).__name__, str(ex)[:300]), "\n".join(tb[-6:]))
    rep.wall = time.time() - t0
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--export")
    ap.add_argument("--roots")
    ap.add_argument("-v", action="store_true")
    ar = ap.parse_args()
    t0 = time.time()
    import props

    pid = ar.pid
    P = props.PROPS[pid]
    reports = []
    fatal = None
    hsh = None
    try:
        if ar.export:
            path, hsh = ar.export, "given"
        else:
            path, hsh = export()
    except ExportFailed as ex:
        fatal = str(ex)
    if fatal is None:
        roots = P.roots
        if ar.roots:
            roots = [r for r in roots if r in ar.roots.split(",")]
        jobs = [(pid, path, r, ar.tier) for r in sorted(roots, key=lambda r: -props.weight(r))]
        n = min(len(jobs), max(2, os.cpu_count() or 6))
        if n <= 1:
            reports = [job(j) for j in jobs]
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(n, maxtasksperchild=1) as pool:
                reports = list(pool.imap_unordered(job, jobs))
        reports.sort(key=lambda r: r.root)
        fin = props.Report(pid, "all")
        try:
            P.final(reports, fin, not ar.roots)
        except Exception as ex:  # noqa
            fin.fail("final", repr(ex), traceback.format_exc()[-600:])
        reports.append(fin)
    else:
        fin = props.Report(pid, "all")
        fin.fail("export", "the current tree cannot be exported for analysis", fatal)
        reports.append(fin)
    props.finish(pid, ar.tier, reports, t0, hsh, HERE, ar.v)


if __name__ == "__main__":
    main()
