"""debug: abstractly run one function and print its path summaries.  run.py CRATE PATH-SUFFIX"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import *
import engine

D = int(os.environ.get("D", "9"))      # printing depth: D=14 prints everything
def str(x):
    import builtins
    if isinstance(x, (Term, tuple)):
        r = ps(x, 14 - D)
        return r if len(r) < 60 * D else r[:60 * D] + "..."
    return builtins.str(x)

def pev(e, ind="    "):
    if e[0] == "loop":
        print(ind + "LOOP", e[1].where, "counter", str(e[1].counter))
        for fs, evs, st in e[1].backs:
            print(ind + "  back:", " & ".join(("" if t else "!") + str(f) for f, t in fs))
            for x in evs:
                pev(x, ind + "    ")
    elif e[0] == "spawn":
        print(ind + "SPAWN", str(e[1]), str(e[2]))
        for o in e[3] or []:
            pout(o, ind + "    ")
    else:
        print(ind + str(e[0]), ", ".join(str(x) for x in e[1:]))

def pout(o, ind=""):
    print(ind + o.kind.upper(), str(o.val if o.kind != "ret" else I_.snap(o.st, o.val)), o.where or "")
    fs = o.facts()
    if fs:
        print(ind + "  if", " & ".join(("" if t else "!") + str(f) for f, t in fs))
    for e in o.events():
        pev(e, ind + "  ")

def mkargs(I, st, body):
    args = []
    for i in range(body["argc"]):
        ty = body["locals"][i + 1][0]
        args.append(I.mkarg(st, T("arg", i), ty))
    return args

if __name__ == "__main__":
    cr, suf = sys.argv[1:3]
    p = Prog(json.load(open("/verif/.build/out/%s.json" % cr)))
    I_ = Interp(p)
    for r in p.find(suffix=suf):
        if r["key"] not in p.bodies:
            continue
        b = p.bodies[r["key"]]
        print("==", r["path"])
        st = St()
        args = mkargs(I_, st, b)
        import time
        t = time.time()
        outs = I_.exec_fn(st, r["key"], args)
        print("%d outs, %d steps, %.2fs" % (len(outs), I_.steps, time.time() - t))
        for o in outs:
            pout(o)
        print("opaque:", I_.opaque)
