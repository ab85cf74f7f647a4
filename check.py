#!/usr/bin/env python3
"""Decides one property: check.py ID quick|thorough

Exit 0: it held on everything explored; 1: it does not, with a VIOLATION line;
anything else: the check itself did not work."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from base import Ctx, ToolError          # noqa: E402
from props import PROPS                  # noqa: E402


def known_findings():
    out = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def main():
    if len(sys.argv) != 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    prop = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="joeson-" + pid + "-")
    os.chmod(tmp, 0o755)
    ctx = Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1")), tmp)
    ctx.flags = prop["flags"]
    try:
        ctx.build()
        stages = prop["stages"](ctx)
        only = os.environ.get("STAGES")
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            results = list(ex.map(lambda s: s.run(ctx), [s for s in stages if not only or s.name in only]))
        violations = [v for r in results for v in r.violations]
        states = sum(r.states for r in results)
        transitions = sum(r.transitions for r in results)
        traces = sum(r.traces for r in results)
        samples = [s for r in results for s in r.samples]
        known = {k: what for p, k, what in known_findings() if p == pid}
        new, seen = [], set()
        for v in violations:
            if v.get("key") in known:
                seen.add(v["key"])
            else:
                new.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        ev = os.environ.get("EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        json.dump({
            "property": pid, "tier": tier, "seed": ctx.seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": traces,
                "samples": samples[:12],
                "stages": [dict(name=r.name, states=r.states, transitions=r.transitions,
                                traces=r.traces, note=r.note, wall_s=round(r.wall, 1)) for r in results],
            },
            "assumptions": prop.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(new),
        }, open(os.path.join(ev, pid + ".json"), "w"), indent=1, ensure_ascii=True)
        if not new:
            print("%s: held on %d states, %d traces, %.0fs" % (pid, states, traces, time.time() - t0))
            return 0
        new.sort(key=lambda v: len(v["text"]))  # the simplest one first
        replay = os.path.join(ev, pid + ".replay.json")
        json.dump({"property": pid, "seed": ctx.seed, "tier": tier, "violations": new[:20]},
                  open(replay, "w"), indent=1, ensure_ascii=True)
        v = new[0]
        print("%d violations; the simplest one: [%s]" % (len(new), v["what"]))
        print(v["text"])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    except ToolError as e:
        print("check failed:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
