#!/usr/bin/env python3-vt
"""dev/seedcheck.py [ID...]: run every rule on a scratch copy of /repo with each seeded patch applied."""
import sys, os, subprocess, shutil, json, collections, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDCHECK_DIR", "/tmp/seedcheck")
os.environ["PUCK_REPO"] = S + "/repo"
os.environ["PUCK_SA_BUILD"] = S + "/build"
sys.path.insert(0, V + "/tool")
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
def main():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/build"):
        subprocess.run(["cp", "-a", V + "/.build", S + "/build"], check=True)
    import extract as X, lib, check
    R = check.rules()
    for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
        shutil.rmtree(S + "/repo", ignore_errors=True)
        shutil.copytree("/repo", S + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
        d = V + "/seeded/" + i
        subprocess.run(["git", "init", "-q", S + "/repo"]); subprocess.run(["git", "-C", S + "/repo", "apply", d + "/patch.diff"], check=True)
        want = json.load(open(d + "/meta.json"))["property"]
        progs = {c: lib.Prog(v) for c, v in X.extract(lambda s: None).items()}
        fired, und = {}, set()
        for p in sorted(x for x in R if x[0] in os.environ.get("SEEDCHECK_ONLY", x)):
            c = lib.Ctx(progs); c.tier = "quick"; c.repo = S + "/repo"
            try: R[p](c)
            except lib.Missing as e: c.bad("anchor", str(e))
            except Exception as e: c.unk("analysis", "%s: %s" % (type(e).__name__, e))
            kn = check.known(p)
            v = {x: y for x, y in c.viol.items() if x not in kn}
            if v: fired[p] = v
            if c.undecided: und.add(p)
        print("%-26s %-7s want %s fired %s undecided %s" % (i, "caught" if want in fired else "MISSED", want, ",".join(fired), ",".join(sorted(und))), flush=True)
        if want in fired:
            k, y = next(iter(fired[want].items())); print("      %s: %s" % (k, y[0][:160]))
t = threading.Thread(target=main); t.start(); t.join()
