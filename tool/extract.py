"""Build the MIR exporter and the analysis workspace (setup), and re-export the program (extract).

Everything is written below /verif/.build (git-ignored); /repo is only read (through symlinks).
"""
import json, os, shutil, subprocess, sys, hashlib, tomllib, time, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PUCK_REPO", "/repo")
B = os.environ.get("PUCK_SA_BUILD", os.path.join(VERIF, ".build"))
LOCK = "/opt/vp/ws/Cargo.lock"
REGS = ["/root/.cargo/registry/src", os.path.expanduser("~/.cargo/registry/src")]
TARGET = "wasm32-wasip1"

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()

def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def build_driver(log):
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(B, "puck-sa-driver")
    stamp = out + ".stamp"
    h = filehash(src) + sysroot()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    log("building the MIR exporter (rustc +nightly, rustc_private)")
    run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out])
    open(stamp, "w").write(h)
    return out

def build_vendor(log):
    dst = os.path.join(B, "vendor")
    stamp = os.path.join(B, "vendor.stamp")
    h = filehash(LOCK) + sysroot()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return dst
    log("linking the offline registry sources")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    lock = tomllib.load(open(LOCK, "rb"))
    srcs = [d for r in REGS if os.path.isdir(r) for d in sorted(glob.glob(r + "/*"))]
    for p in lock["package"]:
        if "source" not in p:
            continue
        n = "%s-%s" % (p["name"], p["version"])
        s = next((os.path.join(d, n) for d in srcs if os.path.isdir(os.path.join(d, n))), None)
        if s is None:
            continue
        d = os.path.join(dst, n)
        os.makedirs(d)
        for e in os.listdir(s):
            if not e.startswith(".cargo"):
                os.symlink(os.path.join(s, e), os.path.join(d, e))
        json.dump({"files": {}, "package": p["checksum"]}, open(os.path.join(d, ".cargo-checksum.json"), "w"))
    lib = os.path.join(sysroot(), "lib/rustlib/src/rust/library/vendor")
    for e in os.listdir(lib):
        t = os.path.join(dst, e)
        if not os.path.lexists(t):
            os.symlink(os.path.join(lib, e), t)
    open(stamp, "w").write(h)
    return dst

def build_ws():
    ws = os.path.join(B, "ws")
    os.makedirs(os.path.join(ws, ".cargo"), exist_ok=True)
    os.makedirs(os.path.join(ws, "liveview"), exist_ok=True)
    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    put(os.path.join(ws, ".cargo/config.toml"),
        '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % os.path.join(B, "vendor"))
    put(os.path.join(ws, "Cargo.toml"), '[workspace]\nresolver = "2"\nmembers = ["puck", "liveview"]\n')
    t = open(os.path.join(VERIF, "ws/liveview/Cargo.toml.in")).read()
    put(os.path.join(ws, "liveview/Cargo.toml"), t.replace("@REPO@", REPO).replace("@VERIF@", VERIF).replace("@WS@", ws))
    p = os.path.join(ws, "puck")
    if os.path.islink(p) and os.readlink(p) != REPO + "/puck":
        os.unlink(p)
    if not os.path.lexists(p):
        os.symlink(REPO + "/puck", p)
    lk = os.path.join(ws, "Cargo.lock")
    if not os.path.exists(lk):
        shutil.copy(LOCK, lk)
    return ws

def extract(log=lambda s: None, crates=("puck", "puck_liveview")):
    """Re-export the MIR of `crates` from /repo's current source. Returns {crate: parsed json}."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver(log)
        build_vendor(log)
        ws = build_ws()
        out = os.path.join(B, "out")
        os.makedirs(out, exist_ok=True)
        for c in crates:
            f = os.path.join(out, c + ".json")
            if os.path.exists(f):
                os.unlink(f)
            # cargo must run the exporter again, whichever fingerprint layout it uses
            dbg = os.path.join(B, "target", TARGET, "debug")
            for d in glob.glob(os.path.join(dbg, ".fingerprint", c + "-*")) + glob.glob(os.path.join(dbg, "build", c, "*", "fingerprint")):
                shutil.rmtree(d)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_HOME"):
            if k in ("CARGO_HOME",):
                continue
            env.pop(k, None)
        env.update(RUSTFLAGS="-Zalways-encode-mir", RUSTC_WORKSPACE_WRAPPER=drv, PUCK_SA_OUT=out,
                   PUCK_SA_CRATES=",".join(crates), CARGO_TARGET_DIR=os.path.join(B, "target"),
                   LD_LIBRARY_PATH=os.path.join(sysroot(), "lib") + ":" + env.get("LD_LIBRARY_PATH", ""))
        cmd = ["cargo", "+nightly", "check", "-q", "-Zbuild-std=std,panic_abort", "--offline", "--target", TARGET]
        for c in crates:
            cmd += ["-p", c]
        if "puck_liveview" in crates:
            cmd += ["--features", "puck_liveview/apply"]
        run(cmd, cwd=ws, env=env)
        res = {}
        for c in crates:
            f = os.path.join(out, c + ".json")
            if not os.path.exists(f):
                raise BuildError("the exporter produced no output for crate %s" % c)
            res[c] = json.load(open(f))
        return res

if __name__ == "__main__":
    t = time.time()
    r = extract(lambda s: print("[setup]", s))
    for c, j in r.items():
        print("%s: %d roots, %d bodies, %d types, %.1fs" % (c, len(j["roots"]), len(j["bodies"]), len(j["types"]), time.time() - t))
