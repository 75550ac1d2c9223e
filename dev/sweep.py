#!/usr/bin/env python3
"""dev/sweep.py FILE.. [-j N] [-o OUT]: developer tool. Mechanical single-site mutants of the given source files (relative
to /repo): flipped comparisons, changed literals, deleted statements, ... Each is analysed with every rule; the ones no
rule reports are listed as survivors, to be read by a person (equivalent? outside every property? a miss?).
Not part of any registered check."""
import sys, os, re, subprocess, shutil, time, threading
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_DIR", "/tmp/sweep")
os.environ["PUCK_REPO"] = S + "/repo"
os.environ["PUCK_SA_BUILD"] = S + "/build"
sys.path.insert(0, V + "/tool")

OPS = [
    (r"(?<![-=<>])<(?![<=A-Z'a-z_])", ["<="]), (r"(?<![-=>])>(?![>=])(?= \d| [a-z_]+[ .)])", [">="]),
    (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \^ ", [" | "]), (r" & ", [" | "]), (r" << ", [" >> "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.'\"])(\d+)(?![\w.'\"])", [lambda m: str(int(m.group(0)) + 1), lambda m: str(int(m.group(0)) - 1) if int(m.group(0)) else None]),
    (r"0b[01_]+", [lambda m: bin(int(m.group(0).replace("_", ""), 2) ^ 1), lambda m: bin(int(m.group(0).replace("_", ""), 2) ^ 128)]),
    (r"0x[0-9a-fA-F]+", [lambda m: hex(int(m.group(0), 16) + 1)]),
    (r"!(?=[a-z(])", [""]), (r"\bbreak\b(?=[;,])", ["continue"]), (r"\bcontinue\b(?=[;,])", ["break"]),
    (r'"([^"{}\\]+)"', [lambda m: '"%s"' % (m.group(1)[:-1] + chr(ord(m.group(1)[-1]) ^ 1)), lambda m: '"%s"' % (m.group(1)[:-1]), lambda m: '"%s"' % m.group(1).swapcase() if m.group(1).swapcase() != m.group(1) else None]),
    (r"\.clone\(\)", [""]), (r"\bSome\((\w+)\)(?!\s*(=>|=|\|))", ["None"]), (r"\?;", [".ok();"]),
    (r"\.take\(([^()]*)\)", [""]), (r"\bmin\b", ["max"]), (r"\.rev\(\)", [""]), (r"\.skip\(([^()]*)\)", [""]),
    (r"^\s*[^\s{}][^{}]*;\s*$", [""]),      # a statement on its own line
    (r"\bif (?!let)(.*?) \{$", [lambda m: "if true {", lambda m: "if false {"]),
]

def code_lines(t):
    """indices of the lines that are code: no comments, attributes, uses, tests"""
    r, skip = [], False
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("#[cfg(test)]") and i + 1 < len(t) and re.match(r"\s*(pub )?mod \w+ \{", t[i + 1]):
            break
        if not s or s.startswith(("//", "#", "use ", "pub use", "pub mod", "mod ", "/*", "*")):
            continue
        r.append(i)
    return r

def mutants(path):
    src = open("/repo/" + path).read()
    t = src.split("\n")
    seen = set()
    for i in code_lines(t):
        for pat, reps in OPS:
            for m in re.finditer(pat, t[i]):
                for rep in reps:
                    n = rep(m) if callable(rep) else m.expand(rep) if rep else rep
                    if n is None:
                        continue
                    nl = t[i][:m.start()] + n + t[i][m.end():]
                    if nl == t[i] or (i, nl) in seen:
                        continue
                    seen.add((i, nl))
                    yield i, nl, "\n".join(t[:i] + [nl] + t[i + 1:])
    # arms and statements swapped: adjacent one-line statements
    for i in code_lines(t)[:-1]:
        a, b = t[i], t[i + 1]
        if re.match(r"^\s*[^{}]+;\s*$", a) and re.match(r"^\s*[^{}]+;\s*$", b) and a.strip() != b.strip():
            yield i, b.strip() + " // <-> " + a.strip(), "\n".join(t[:i] + [b, a] + t[i + 2:])

def main():
    a = sys.argv[1:]
    out = a[a.index("-o") + 1] if "-o" in a else "/tmp/sweep.log"
    files = [x for i, x in enumerate(a) if not x.startswith("-") and (i == 0 or a[i - 1] not in ("-j", "-o", "-s"))]
    if "-j" in a:
        n = int(a[a.index("-j") + 1])
        ps = [subprocess.Popen([sys.executable, "-u", __file__] + files + ["-s", "%d/%d" % (i, n), "-o", out + ".%d" % i], env=dict(os.environ, MUT_DIR=S + "%d" % i)) for i in range(n)]
        return [p.wait() for p in ps]
    k, n = [int(x) for x in a[a.index("-s") + 1].split("/")] if "-s" in a else (0, 1)
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/build"):
        subprocess.run(["cp", "-a", V + "/.build", S + "/build"], check=True)
    subprocess.run(["rm", "-rf", S + "/repo"])
    shutil.copytree("/repo", S + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    import extract as X, lib, check
    R = check.rules()
    log = open(out, "w")
    num = 0
    for path in files:
        lv = "puck_liveview" in path
        orig = open("/repo/" + path).read()
        for i, nl, txt in mutants(path):
            num += 1
            if num % n != k:
                continue
            open(S + "/repo/" + path, "w").write(txt)
            try:
                raw = X.extract(lambda s: None, ("puck", "puck_liveview") if lv else ("puck",))
            except X.BuildError as e:
                log.write("nocompile %s:%d %s\n" % (path, i + 1, nl.strip()[:110])); log.flush()
                continue
            progs = {c: lib.Prog(v) for c, v in raw.items()}
            cache, hit, und = {}, None, []
            order = [p for p in sorted(R) if p.startswith("L") == lv and p not in os.environ.get("SWEEP_SKIP", "").split(",")]
            order.sort(key=lambda p: p in ("L05", "L06", "L07", "L08", "L09", "L11"))
            for p in order:
                c = lib.Ctx(progs)
                c.cache, c.tier, c.repo = cache, "quick", S + "/repo"
                try:
                    R[p](c)
                except lib.Missing as e:
                    c.bad("anchor", str(e))
                except Exception as e:
                    c.unk("analysis", "%s: %s" % (type(e).__name__, e))
                kn = check.known(p)
                if any(x not in kn for x in c.viol):
                    hit = p
                    break
                if c.undecided:
                    und.append(p)
            log.write("%s %s:%d %s\n" % ("caught(%s)" % hit if hit else "SURVIVES und=%s" % ",".join(und), path, i + 1, nl.strip()[:140])); log.flush()
        open(S + "/repo/" + path, "w").write(orig)

if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
