"""python3-vt -m sa.run <property id> : decide one property from the current source of /repo"""
import hashlib
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load_known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                out.append((f["property"], f["key"], line[7:].split(" ", 2)[2] if line.count(" ") > 2 else ""))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from .check import Checker
    from .interp import Budget
    from .checks import find
    mod = find(prop)
    ck = Checker(prop, tier, seed)
    err = None
    ck.deadline(float(os.environ.get("SA_SECONDS", "800")))
    try:
        mod(ck)
        ck.deadline(0)
    except Budget as e:
        ck.deadline(0)
        ck.undec("out of time (%s)" % e)
    except Exception as e:     # the check itself failed
        ck.deadline(0)
        if os.environ.get("SA_DEBUG"):
            raise
        import traceback
        err = "".join(traceback.format_exception(e))[-1500:]
    minimum = getattr(mod, "minimum", 1)
    known = [k for k in load_known() if k[0] == prop]
    listed, new = [], []
    for v in ck.violations:
        hit = [k for k in known if k[1] == v.key]
        (listed if hit else new).append((v, hit))
    files = sorted({f for f, q in ck.funcs if "/stubs/" not in f})
    funcs = sorted("%s:%d %s" % (os.path.relpath(f, "/repo") if f.startswith("/repo") else f, v[0], q)
                   for (f, q), v in ck.funcs.items() if "/stubs/" not in f)
    srcs = {f: hashlib.sha256(open(f, "rb").read()).hexdigest()[:16] for f in files if os.path.exists(f)}
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Interprocedural abstract interpretation of the current source (gated value graphs in algebraic "
                           "normal form, guards as BDDs over polynomial sign literals). Every obligation compares a derived "
                           "value, guard or effect with the required one: " + (mod.__doc__ or "").strip(),
            "rule": (mod.__doc__ or "").strip(),
            "obligations": ck.obligations, "discharged": ck.discharged, "discharged_by": ck.how,
            "undecided": [list(map(str, u)) for u in ck.undecided][:20],
            "cases": [{"case": n, "seconds": s} for n, s in ck.cases],
            "functions_analysed": funcs, "calls_interpreted": sum(v[1] for v in ck.funcs.values()),
            "source_digests": srcs,
            "notes": ck.notes,
            "samples": [c[0] for c in ck.cases][:12],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v, hit in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2] or v.what))
    if new:
        rp = os.path.join(ROOT, "evidence", "%s.replay.json" % prop)
        with open(rp, "w") as f:
            json.dump([v.as_dict() for v, _ in new], f, indent=1, default=str)
        for v, _ in new[:12]:
            print("%s\n    at %s\n    %s\n    derived  %s\n    required %s\n    under %s\n    witness %s" % (
                v.key, v.where, v.what, v.got, v.want, v.guard, v.point))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err or ck.undecided:
        if err:
            print("ERROR in check: " + err)
        for u in ck.undecided[:12]:
            print("UNDECIDED %s" % (u,))
        return 2
    if ck.obligations < minimum:
        print("ERROR only %d obligations (expected at least %d)" % (ck.obligations, minimum))
        return 2
    print("property %s holds: %d obligations in %d cases over %d functions, %.1f s" % (
        prop, ck.obligations, len(ck.cases), len(funcs), time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
