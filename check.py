#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vf import build, bounded, cli, known

PROGRAM = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P15", "P18"}

def save_replay(prop, n, obj):
    d = os.path.join(VERIF, "work", "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f: json.dump(obj, f, indent=1, default=str)
    return p

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build.replay()
    if prop not in PROGRAM: build.afmt()
    from vf import prove
    proof = prove.prove(prop, tier, seed)
    b = bounded.run_program_check(prop, tier, seed) if prop in PROGRAM else cli.run(prop, tier, seed)
    lines = []; nviol = 0
    kf = known.findings(prop)
    concrete = []
    for v in b.viol:
        f = known.match(kf, v)
        if f: 
            l = "KNOWN-FINDING: property=%s %s" % (prop, f["what"])
            if l not in lines: lines.append(l)
        else: concrete.append(v)
    failed = proof.failed()
    if concrete:
        nviol = len(concrete)
        p = save_replay(prop, 1, {"property": prop, "kind": "failing input", "failed_obligations": [o.brief() for o in failed], "violations": concrete[:10]})
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    elif failed:
        nviol = len(failed)
        p = save_replay(prop, 1, {"property": prop, "kind": "failed obligation, no failing input found", "failed_obligations": [o.full() for o in failed]})
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": proof.level, "coverage": proof.coverage(), "assumptions": proof.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    ev["coverage"].update({"evaluations": b.evaluations, "distinct_nontrivial": len(b.distinct),
        "rule": "bounded stand-in / replay, never counted as proved: " + "; ".join(b.rules or ["see cli.py: runs of the real binary in scratch directories compared with the library"]) + ". Non-trivial: the formatter produced output and the contract was evaluated on it.",
        "samples": b.samples, "bounded_status": b.status})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for l in lines: print(l)
    print("%s %s: %s; bounded: %d evaluations, %d violations; %.1f s" % (prop, tier, proof.summary(), b.evaluations, len(concrete), time.time() - t0))
    return 1 if nviol else 0

if __name__ == "__main__":
    try: rc = main()
    except build.BuildError as e:
        print("cannot build: %s" % e, file=sys.stderr); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
