#!/usr/bin/env python3
"""dev/seed.py [ID...]: build /verif/seeded/<id>/ from dev/seeds/<id>.txt and confirm it in a scratch copy (patch applies, tests pass,
demo passes without and fails with the patch). Not part of any check.

Spec: 'property: P', 'needs: ..', 'breaks: ..', edits as in dev/mutants, then '=== main.rs' followed by the demo program
(or '=== demo.sh' with a complete script, and '=== file NAME' for further files)."""
import sys, os, re, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def fresh():
    sh("rm -rf %s/repo && mkdir -p %s && git -C /repo worktree prune; git clone -q /repo %s/repo" % (W, W, W))
    if not os.path.exists(W + "/ws"):
        os.makedirs(W + "/ws/examples")
        sh("cp /opt/vp/ws/Cargo.lock /opt/vp/ws/Cargo.toml %s/ws/; ln -s %s/repo/puck %s/ws/puck; ln -s %s/repo/examples/list %s/ws/examples/list; ln -s %s/repo/.cargo %s/ws/.cargo" % ((W,) * 7))

def main():
    ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(V + "/dev/seeds") if f.endswith(".txt"))
    fresh()
    env = dict(os.environ, DEMO_TARGET=W + "/demo_target")
    for i in ids:
        t = open("%s/dev/seeds/%s.txt" % (V, i)).read()
        parts = re.split(r"^=== (.*)\n", t, flags=re.M)
        head = parts[0]
        files = {parts[k].strip(): parts[k + 1] for k in range(1, len(parts), 2)}
        meta = {k: re.search(r"^%s: (.*)$" % k, head, re.M).group(1) for k in ("property", "needs", "breaks")}
        eds = re.findall(r"^<<<< (.*?)\n(.*?)\n----\n(.*?)\n?>>>>", head, flags=re.M | re.S)
        d = "%s/seeded/%s" % (V, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git -C %s/repo checkout -q -- ." % W)
        bad = None
        for p, old, new in eds:
            fp = "%s/repo/%s" % (W, p)
            s = open(fp).read()
            if s.count(old) < 1:
                bad = "cannot apply %r" % old[:70]
                break
            open(fp, "w").write(s.replace(old, new, 1))
        if bad:
            print(i, bad)
            continue
        diff = sh("git -C %s/repo diff" % W).stdout
        open(d + "/patch.diff", "w").write(diff)
        if "demo.sh" in files:
            open(d + "/demo.sh", "w").write(files.pop("demo.sh"))
        elif any("puck_liveview" in p for p, _, _ in eds) and "main.rs" not in files:
            shutil.copy(V + "/dev/lv/page.sh", d + "/demo.sh")
        elif any("puck_liveview" in p for p, _, _ in eds):
            shutil.copy(V + "/dev/demo_lv.sh", d + "/demo.sh")
            shutil.copytree(V + "/stubs", d + "/stubs", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            if "harness" in files["main.rs"]:
                shutil.copy(V + "/dev/lv/harness.rs", d + "/harness.rs")
        else:
            shutil.copy(V + "/dev/demo.sh", d + "/demo.sh")
        if "scenario.js" in files:
            shutil.copy(V + "/dev/lv/dom.js", d + "/dom.js")
        os.chmod(d + "/demo.sh", 0o755)
        for n, x in files.items():
            open(d + "/" + n, "w").write(x)
        json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # original lines only?
        mine = []
        for f in {p for p, _, _ in eds}:
            hunks = re.findall(r"^@@ -(\d+)", sh("git -C %s/repo diff -U0 -- %s" % (W, f)).stdout, re.M)
            bl = sh("git -C %s/repo blame -s HEAD -- %s" % (W, f)).stdout.splitlines()
            dl = sh("git -C %s/repo diff -U0 -- %s" % (W, f)).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dl, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if not bl[k - 1].startswith("^"):
                        mine.append(bl[k - 1][:90])
        dirty = sh("bash %s/demo.sh" % d, cwd=W + "/repo", env=env)
        tst = ""
        if any(p.startswith("puck/") for p, _, _ in eds):
            te = sh(". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s/ws && cargo test --workspace --no-fail-fast --offline" % (W, W), executable="/bin/bash")
            ok = len(re.findall(r"test .*ok", re.sub(r"\x1b\[[0-9;]*m", "", te.stdout)))
            tst = "tests ok=%d" % ok
            if ok < 5 or "FAILED" in te.stdout:
                tst += " TESTS FAIL\n" + te.stdout[-1500:]
        sh("git -C %s/repo checkout -q -- ." % W)
        clean = sh("bash %s/demo.sh" % d, cwd=W + "/repo", env=env)
        good = clean.returncode == 0 and dirty.returncode != 0 and "TESTS" not in tst and "error" not in dirty.stdout.split("\n")[0]
        print("%-24s %s clean=%d patched=%d %s %s" % (i, "GOOD" if good else "BAD", clean.returncode, dirty.returncode, tst, "touches non-original lines: %s" % mine if mine else ""), flush=True)
        if not good:
            print("  clean:", clean.stdout[-800:], "\n  patched:", dirty.stdout[-800:])
        elif "-v" in sys.argv or True:
            print("     patched says:", dirty.stdout.strip()[-160:].replace("\n", " | "))
main()
