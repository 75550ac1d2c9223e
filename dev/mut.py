#!/usr/bin/env python3
"""dev/mut.py [-k SUBSTR] [-p PID,...] [-v]: developer regression. Applies each mutant / refactoring of dev/mutants/*.txt to a scratch
copy of /repo and runs every rule on it. Not part of any registered check.

File format, records separated by lines '=== name | kind | properties' where kind is bug|same:
  <<<< path
  old text
  ----
  new text
  >>>>
"""
import sys, os, json, re, subprocess, shutil, time, threading, glob
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_DIR", "/tmp/mut")
os.environ["PUCK_REPO"] = S + "/repo"
os.environ["PUCK_SA_BUILD"] = S + "/build"
sys.path.insert(0, V + "/tool")

def load(f):
    recs, cur = [], None
    txt = open(f).read()
    for m in re.split(r"^=== ", txt, flags=re.M)[1:]:
        head, _, body = m.partition("\n")
        name, kind, props = [x.strip() for x in (head.split("|") + ["", ""])[:3]]
        eds = re.findall(r"^<<<< (.*?)\n(.*?)\n----\n(.*?)\n?>>>>", body, flags=re.M | re.S)
        recs.append((name, kind, [p for p in props.split(",") if p], eds))
    return recs

def main():
    a = sys.argv[1:]
    k = a[a.index("-k") + 1] if "-k" in a else ""
    pids = a[a.index("-p") + 1].split(",") if "-p" in a else None
    verbose = "-v" in a
    if "-j" in a:
        n = int(a[a.index("-j") + 1])
        rest = [x for i, x in enumerate(a) if x != "-j" and (i == 0 or a[i - 1] != "-j")]
        ps = [subprocess.Popen([sys.executable, "-u", __file__] + rest + ["-s", "%d/%d" % (i, n)], env=dict(os.environ, MUT_DIR="%s%d" % (S, i))) for i in range(n)]
        return [p.wait() for p in ps]
    shard = [int(x) for x in a[a.index("-s") + 1].split("/")] if "-s" in a else [0, 1]
    num = 0
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/build"):
        subprocess.run(["cp", "-a", V + "/.build", S + "/build"], check=True)
    import extract as X, lib, check
    R = check.rules()
    import collections
    tot = collections.Counter()
    for f in sorted(glob.glob(V + "/dev/mutants/*.txt")):
        for name, kind, props, eds in load(f):
            if k and k not in name and k not in os.path.basename(f):
                continue
            num += 1
            if num % shard[1] != shard[0]:
                continue
            subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", S + "/repo/"], check=True) if shutil.which("rsync") else (shutil.rmtree(S + "/repo", ignore_errors=True), shutil.copytree("/repo", S + "/repo", ignore=shutil.ignore_patterns("target", ".git")))
            bad = False
            for p, old, new in eds:
                fp = S + "/repo/" + p
                t = open(fp).read()
                if t.count(old) < 1:
                    print("%-40s CANNOT APPLY: %r" % (name, old[:60])); bad = True; break
                open(fp, "w").write(t.replace(old, new, 1))
            if bad:
                tot["broken"] += 1
                continue
            lv = any("puck_liveview" in e[0] for e in eds)
            t0 = time.time()
            try:
                raw = X.extract(lambda s: None, ("puck", "puck_liveview") if lv else ("puck",))
            except X.BuildError as e:
                print("%-40s DOES NOT COMPILE\n%s" % (name, "\n".join(str(e).splitlines()[-25:]) if verbose else [l for l in str(e).splitlines() if l.startswith("error")][:2]))
                tot["nocompile"] += 1
                continue
            progs = {c: lib.Prog(v) for c, v in raw.items()}
            fired, und = {}, {}
            sel = [p for p in sorted(R) if (pids is None or p in pids) and ((p.startswith("L") and lv) or not p.startswith("L"))]
            if pids is None and lv and not any("puck/" in e[0] for e in eds):
                sel = [p for p in sel if p.startswith("L")]
            if pids is None and all(e[0].endswith(".js") for e in eds):
                sel = [p for p in sel if p in ("L11", "L12", "L13")]
            cache = {}
            for p in sel:
                c = lib.Ctx(progs)
                c.cache = cache      # summaries are shared between the rules
                c.tier = "quick"
                c.repo = S + "/repo"
                try:
                    R[p](c)
                except lib.Missing as e:
                    c.bad("anchor", str(e))
                except Exception as e:
                    c.unk("analysis", "%s: %s" % (type(e).__name__, e))
                kn = check.known(p)
                v = {x: y for x, y in c.viol.items() if x not in kn}
                if v: fired[p] = v
                if c.undecided: und[p] = c.undecided
            want = set(props)
            if kind == "bug":
                hit = want & set(fired) if want else set(fired)
                tag = "caught" if hit == want and want else "caught*" if hit else "MISSED"
            else:
                tag = "FALSE ALARM" if fired else "quiet"
            tot[tag] += 1
            print("%-40s %-8s want %-12s fired %-20s undecided %s (%.0fs)" % (name, tag, ",".join(props), ",".join(sorted(fired)), ",".join(sorted(und)), time.time() - t0), flush=True)
            if verbose or tag in ("MISSED", "FALSE ALARM"):
                for p, v in fired.items():
                    for x, y in v.items():
                        print("      %s %s: %s" % (p, x, y[0][:300]))
                for p, u in und.items():
                    if p in want or verbose:
                        for x, y in u[:6]:
                            print("      undecided %s %s: %s" % (p, x, y[:300]))
    print(dict(tot))

if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
