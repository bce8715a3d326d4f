#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current tree by static analysis.

exit 0  every obligation discharged (known findings are printed and do not count)
exit 1  VIOLATION property=<id> replay=<file>: some obligation is violated or cannot be established
exit 2  the check itself failed (build error, internal error)
"""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)
import registry  # noqa: E402


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    ent = registry.ENTRIES[pid]
    try:
        rep, cov = registry.decide(pid, tier)
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % pid)
        return 2
    known = known_findings(pid)
    fresh, old = [], []
    for where, msg, key in rep.bad:
        ident = "%s @ %s" % (key, registry.anchor(where))
        (old if ident in known else fresh).append((where, msg, ident))
    vdir = os.path.join(VERIF, "build", "violations")
    replay = os.path.join(vdir, pid + ".txt")
    os.makedirs(vdir, exist_ok=True)
    if fresh:
        with open(replay, "w") as f:
            f.write("property %s: %s\n" % (pid, ent["title"]))
            f.write("reproduce: python3 /verif/check.py %s   (deterministic: the source alone decides)\n" % pid)
            for where, msg, ident in fresh:
                f.write("violated obligation: %s\n    at: %s\n    id: %s\n" % (msg, where, ident))
    elif os.path.exists(replay):
        os.unlink(replay)
    coverage = {
        "explanation": ent["how"],
        "rule": ent["rule"],
        "obligations": rep.n,
        "discharged": rep.n - len(rep.bad),
        "samples": rep.samples[:6] + [{"violated": m, "at": str(w)} for w, m, k in rep.bad[:6]],
    }
    coverage.update(cov)
    for k, v in rep.notes.items():
        coverage["n_" + k if isinstance(v, int) else k] = v
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": coverage,
          "assumptions": ent["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for where, msg, ident in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, ident))
    for where, msg, ident in fresh[:20]:
        print("%s: %s" % (where, msg))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, rep.n, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
