"""Property registry, per-root context and reporting."""
import json
import os
import sys
import time

from base import *  # noqa

CONTROL = [
    "control_joint_positions", "control_joint_velocities", "control_cartesian_pose", "control_cartesian_velocities",
    "control_torques", "control_torques_and_joint_positions", "control_torques_and_joint_velocities",
    "control_torques_and_cartesian_pose", "control_torques_and_cartesian_velocities",
]


def weight(root):
    if root.startswith("control") or root == "robot_joint_motion":
        return 100 + ("pose" in root) * 50 + ("torques_and" in root) * 10
    return 1


class Report:
    def __init__(self, pid, root):
        self.pid, self.root = pid, root
        self.done = []      # (obligation key, text)
        self.bad = []       # (key, message, detail)
        self.facts = {}
        self.stats = {}
        self.wall = 0.0

    def ok(self, key, text=""):
        self.done.append((self.root + "/" + key, text))

    def fail(self, key, msg, detail=""):
        self.bad.append((self.root + "/" + key, msg, detail))

    def check(self, cond, key, msg, detail="", text=""):
        if cond:
            self.ok(key, text or msg)
        else:
            self.fail(key, msg, detail() if callable(detail) else detail)
        return cond

    def fact(self, k, v):
        self.facts[k] = v

    def note_engine(self, eng):
        self.stats = {
            "functions_interpreted": len(eng.inlined),
            "functions": sorted({eng.insts[i]["name"] for i in eng.inlined if eng.insts[i]["crate"] == "franka"}),
            "boundary_calls": sorted(eng.opaque),
            "events": len(eng.events),
            "mir_steps": eng.steps,
            "loops": len(eng.loop_info),
        }


class Ctx:
    """one analysed root"""

    def __init__(self, eng, root, tier, rep):
        self.eng, self.root, self.tier, self.rep = eng, root, tier, rep

    def run(self, root=None):
        self.eng.reset()
        self.eng._expand_memo = None
        r, self.inst = self.eng.run_root(root or self.root)
        self.retty = self.inst["locals"][0]
        if r is None:
            self.st, self.rv = None, None
        else:
            self.st, self.rv = r
        self.events = list(self.eng.events.values())
        return self

    # ---- result shape
    def variant(self, name, rv=None, ty=None):
        return variant_cond(self.eng, ty if ty is not None else self.retty, rv if rv is not None else self.rv, name)[0]

    def payload(self, variant, rv=None, ty=None, idx=0):
        """(cells, type) of the field of a variant"""
        ty = ty if ty is not None else self.retty
        rv = rv if rv is not None else self.rv
        v = [x for x in self.eng.tys[ty]["variants"] if x["n"] == variant][0]
        off, fty = v["fields"][idx][0], v["fields"][idx][1]
        return sub_cells(rv, off, self.eng.size(fty) or 0), fty

    def exception(self):
        """dict variant name -> condition, of the error result"""
        cells, ety = self.payload("Err")
        err = self.variant("Err")
        out = {}
        for v in self.eng.tys[ety]["variants"]:
            out[v["n"]] = band(err, variant_cond(self.eng, ety, cells, v["n"])[0])
        return out


class Prop:
    def __init__(self, roots, rule, final=None, policy=None, floor=1, rule_text=""):
        self.roots = roots
        self.rule = rule
        self._final = final
        self._policy = policy
        self.floor = floor
        self.rule_text = rule_text

    def policy(self, root):
        if self._policy:
            return self._policy(root)
        return default_policy(root)

    def final(self, reports, fin, complete):
        if self._final and complete:
            self._final(reports, fin)
        n = sum(len(r.done) for r in reports) + sum(len(r.bad) for r in reports)
        if complete:
            fin.check(n >= self.floor, "instance-count", "at least %d rule instances were found (got %d)" % (self.floor, n))


def default_policy(root):
    return Policy(pure_ret=("franka::robot::errors::FrankaErrors",))


PROPS = {}


def finish(pid, tier, reports, t0, hsh, here, verbose):
    P = PROPS[pid]
    known = {}
    kf = os.path.join(here, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("known", []):
            if k["property"] == pid:
                known[k["key"]] = k
    bad = [(k, m, d) for r in reports for k, m, d in r.bad]
    new = [b for b in bad if b[0] not in known]
    old = [b for b in bad if b[0] in known]
    done = [k for r in reports for k, _ in r.done]
    funcs = sorted({f for r in reports for f in r.stats.get("functions", [])})
    bnd = sorted({f for r in reports for f in r.stats.get("boundary_calls", [])})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the compiler's MIR of the current tree (sha256 of sources: %s). Rule: %s" % (hsh, P.rule_text),
            "roots_analysed": [r.root for r in reports if r.root != "all"],
            "obligations": len(done) + len(bad),
            "discharged": len(done),
            "violated": len(new),
            "known_findings": len(old),
            "library_functions_interpreted": len(funcs),
            "functions": funcs[:400],
            "boundary_calls": bnd[:200],
            "events": sum(r.stats.get("events", 0) for r in reports),
            "loops_summarised": sum(r.stats.get("loops", 0) for r in reports),
            "mir_steps": sum(r.stats.get("mir_steps", 0) for r in reports),
            "obligation_keys": done[:600],
            "violations_found": [{"key": k, "message": m, "detail": str(d)[:2000]} for k, m, d in new],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "functions outside the crates franka, core, alloc and nalgebra behave as their boundary model in engine/models.py states",
            "the harness instantiation with function pointers as callbacks is representative of every closure type",
        ],
        "violations": len(new),
    }
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(here, "evidence")
    os.makedirs(evd, exist_ok=True)
    path = os.path.join(evd, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d roots, %d obligations, %d discharged, %d violated, %.1fs" % (pid, len(reports) - 1, len(done) + len(bad), len(done), len(new), time.time() - t0))
    if verbose:
        for r in reports:
            print("   %-45s %.1fs %d ok %d bad" % (r.root, r.wall, len(r.done), len(r.bad)))
            for k, t in r.done:
                print("        ok %s   %s" % (k, t))
    for k, m, d in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k].get("what", m)))
    if new:
        rp = os.path.join(evd, pid + ".replay.txt")
        with open(rp, "w") as f:
            for k, m, d in new:
                f.write("%s\n  %s\n%s\n\n" % (k, m, d))
        for k, m, d in new[:20]:
            print("  %s: %s" % (k, m))
            if d:
                print("      " + str(d)[:600].replace("\n", "\n      "))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


import importlib  # noqa

for _m_ in ("commands", "model", "connect", "state", "fresh", "misc", "control", "motion", "lifecycle", "net", "load", "utilities", "log", "tcp"):
    importlib.import_module(_m_)
