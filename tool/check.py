#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property statically on /repo's current source.

Exit 0: every obligation that the analysis could decide holds (obligations it could not decide are listed in the
evidence file and printed).  Exit 1 and 'VIOLATION property=<id> replay=<file>': an obligation is violated; the replay
file names the construct, the path (its branch conditions) and the offending term.
"""
import sys, os, time, json, traceback, threading
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract as X

V = X.VERIF
KNOWN = os.path.join(V, "known_findings.txt")

def known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> | <what fails>' suppress; 'fixed: ...' lines do not."""
    r = {}
    for l in open(KNOWN):
        l = l.strip()
        if l.startswith("known: property=%s key=" % pid):
            k, _, msg = l[len("known: property=%s key=" % pid):].partition(" | ")
            r[k.strip()] = msg.strip()
    return r

def rules():
    import importlib
    R = {}
    for m in ("rules_ws", "rules_hs", "rules_http", "rules_core", "rules_lv", "rules_js"):
        R.update(importlib.import_module(m).RULES)
    return R

def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import lib
    R = rules()
    crates = ("puck", "puck_liveview") if pid.startswith("L") else ("puck",)
    try:
        raw = X.extract(lambda s: print("[build] " + s, flush=True), crates)
    except X.BuildError as e:
        print("cannot analyse: the crates do not compile\n%s" % e)
        if not pid.startswith("L"):
            return 2
        # the live view is compiled against stand-ins for two of its dependencies (stubs/): a use of an item they
        # lack is a limit of the analysis, not a violation
        raw = {}
        failed = str(e)
    else:
        failed = None
    progs = {k: lib.Prog(v) for k, v in raw.items()}
    t1 = time.time()
    c = lib.Ctx(progs)
    c.tier = tier
    try:
        if failed:
            raise lib.Unclear("puck_liveview does not compile against the stand-ins for its dependencies: %s" % failed[:300])
        R[pid](c)
    except lib.Missing as e:
        c.bad("anchor:" + str(e), "public anchor missing: %s - the rule has nothing to inspect (failing closed)" % e)
    except lib.Unclear as e:
        c.unk("analysis", "private construct not in a form the analysis reads: %s" % e)
    except Exception as e:
        traceback.print_exc()
        c.unk("analysis", "internal error of the analysis: %s: %s" % (type(e).__name__, e))
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    kn = known(pid)
    new = []
    for key, (msg, where, detail) in c.viol.items():
        if key in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[key], key))
        else:
            new.append((key, msg, where, detail))
    nd = sum(1 for _, v in c.obl if v == "holds")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (R[pid].__doc__ or "").strip() + " Decided by abstract interpretation of the compiler's MIR of "
                "/repo (re-exported on this run): every path of the functions listed is summarised symbolically, and the rule is "
                "evaluated on each summary. No code of the repository is executed.",
            "obligations": len(c.obl), "discharged": nd,
            "undecided": [{"obligation": a, "reason": b[:400]} for a, b in c.undecided],
            "obligation_list": [{"obligation": a[:200], "verdict": b} for a, b in c.obl][:400],
            "functions_analysed": sorted(c.used), "functions": len(c.used), "paths": c.paths, "call_sites": c.callsites,
            "opaque_calls": dict(sorted(c.opaque.items())[:80]), "samples": c.samples[:40],
            "build_s": round(t1 - t0, 2), "analysis_s": round(time.time() - t1, 2),
        },
        "assumptions": ["models of the standard library and of httparse, url, byteorder, sha-1, base64, serde_json, lunatic in tool/models.py",
                        "rustc's MIR is what is compiled"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d paths, %.1fs build, %.1fs analysis"
          % (pid, len(c.obl), nd, len(c.undecided), len(c.viol), len(c.used), c.paths, t1 - t0, time.time() - t1))
    for a, b in c.undecided[:20]:
        print("  undecided: %s: %s" % (a, b[:300]))
    for i, (key, msg, where, detail) in enumerate(new):
        rp = os.path.join("evidence", "replay", "%s-%d.txt" % (pid, i + 1))
        with open(os.path.join(V, rp), "w") as f:
            f.write("property: %s\nrule: %s\nobligation: %s\nwhere: %s\nwhat: %s\n\n%s\n" % (pid, (R[pid].__doc__ or "").strip(), key, where, msg, detail or ""))
        print("  %s: %s (%s)" % (key, msg, where))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1 if new else 0

if __name__ == "__main__":
    rc = [2]
    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
