"""Path-partitioned abstract interpreter over the exported MIR.

Domain: origin terms (where a value comes from) x intervals/value sets on terms x linear inequalities
between terms x a trace of boundary effects (reads, writes, spawns, sends, opaque calls).  Local functions,
closures and the whitelisted core/alloc combinators are inlined from their MIR; library boundaries are
models (models.py).  Loops are summarised by widening to a fixpoint, never unrolled on unknown data.
"""
import itertools
from terms import *

class Undecided(Exception):
    """The abstraction met a construct it has no transfer function for (or ran out of budget)."""

class Bottom(Exception):
    pass

INF = None
ISIZE = (1 << 31) - 1
TYHINT = {}
DISCRS = {}

TRANSPARENT = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::pin::Pin",
               "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling")

def hint(t, lo, hi):
    if t.op != "int" and t not in TYHINT:
        TYHINT[t] = (lo, hi)

class St:
    __slots__ = ("cells", "dom", "lin", "ev", "path", "cnt", "stack", "eqs")
    def __init__(s):
        s.cells, s.dom, s.lin, s.ev, s.path, s.cnt, s.stack, s.eqs = {}, {}, (), None, None, 0, (), {}
    def clone(s):
        n = St.__new__(St)
        n.cells, n.dom, n.lin, n.ev, n.path, n.cnt, n.stack, n.eqs = dict(s.cells), dict(s.dom), s.lin, s.ev, s.path, s.cnt, s.stack, s.eqs
        return n
    # ---------------- bounds
    def bounds(s, t):
        op, a = t.op, t.a
        if op == "int":
            return a[0], a[0]
        if op == "lin":
            lo = hi = a[0]
            for k, c in a[1]:
                l, h = s.bounds(k)
                if c < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            return lo, hi
        lo, hi = None, None
        if op == "byte":
            lo, hi = 0, 255
        elif op in ("lt", "eq", "not", "streq", "bool"):
            lo, hi = 0, 1
        elif op == "band":
            h = None
            for x in a:
                l1, h1 = s.bounds(x)
                if h1 is not None and l1 is not None and l1 >= 0:
                    h = h1 if h is None else min(h, h1)
            lo, hi = 0, h
        elif op in ("bor", "bxor"):
            l1, h1 = s.bounds(a[0]); l2, h2 = s.bounds(a[1])
            if None not in (l1, h1, l2, h2) and l1 >= 0 and l2 >= 0:
                hi = (1 << max(h1.bit_length(), h2.bit_length())) - 1
                lo = max(l1, l2) if op == "bor" else 0
        elif op == "trunc":
            lo, hi = 0, (1 << a[1]) - 1
            l1, h1 = s.bounds(a[0])
            if l1 is not None and h1 is not None and 0 <= l1 and h1 <= hi:
                lo, hi = l1, h1
        elif op == "icast":
            lo, hi = -(1 << (a[1] - 1)), (1 << (a[1] - 1)) - 1
        elif op == "rem":
            l1, h1 = s.bounds(a[0]); l2, h2 = s.bounds(a[1])
            if l1 is not None and l1 >= 0:
                lo = 0
                hi = h1
                if h2 is not None and (hi is None or h2 - 1 < hi):
                    hi = h2 - 1
        elif op == "shr":
            if a[1].op == "int":
                l1, h1 = s.bounds(a[0])
                lo = None if l1 is None else l1 >> a[1].a[0]
                hi = None if h1 is None else h1 >> a[1].a[0]
        elif op == "div":
            if a[1].op == "int" and a[1].a[0] > 0:
                l1, h1 = s.bounds(a[0])
                if l1 is not None and l1 >= 0:
                    lo = l1 // a[1].a[0]
                    hi = None if h1 is None else h1 // a[1].a[0]
        elif op == "len":
            lo, hi = 0, ISIZE
        elif op in ("be", "le_int"):
            lo, hi = 0, (1 << (8 * a[2])) - 1
        elif op == "discr":
            d = DISCRS.get(t)
            if d:
                lo, hi = d
        h = TYHINT.get(t)
        if h:
            lo = h[0] if lo is None else max(lo, h[0])
            hi = h[1] if hi is None else min(hi, h[1])
        d = s.dom.get(t)
        if d:
            if d[0] is not None:
                lo = d[0] if lo is None else max(lo, d[0])
            if d[1] is not None:
                hi = d[1] if hi is None else min(hi, d[1])
            if d[2]:
                while lo is not None and lo in d[2]:
                    lo += 1
                while hi is not None and hi in d[2]:
                    hi -= 1
        return lo, hi
    def canon(s, e):
        """Rewrite a linear form with the known equalities."""
        if not s.eqs or e.op == "int":
            return e
        c, d = as_lin(e)
        if not any(k in s.eqs for k in d):
            return e
        r = I(c)
        for k, v in d.items():
            r = add(r, scale(s.eqs.get(k, k), v))
        return r
    def lb(s, e, depth=3, memo=None):
        """A lower bound of e from intervals and up to `depth` linear facts."""
        memo = {} if memo is None else memo
        if (e, depth) not in memo:
            memo[e, depth] = s.lb_(e, depth, memo)
        return memo[e, depth]
    def lb_(s, e, depth, memo):
        e = s.canon(e)
        best = s.bounds(e)[0]
        if e.op == "int" or depth == 0:
            return best
        if best is not None and best >= 1:
            return best
        d = as_lin(e)[1]
        for k, w in d.items():
            # 0 <= x - c*(x/c) <= c - 1
            if k.op == "div" and k.a[1].op == "int" and k.a[1].a[0] > 0 and abs(w) == 1:
                c, x = k.a[1].a[0], k.a[0]
                if (s.bounds(x)[0] or -1) < 0 and s.bounds(x)[0] != 0:
                    continue
                f = sub(x, scale(k, c)) if w < 0 else add(sub(scale(k, c), x), I(c - 1))
                l = s.lb(sub(scale(e, c), f), depth - 1, memo)
                if l is not None:
                    l = -(-l // c)
                    if best is None or l > best:
                        best = l
                        if best >= 1:
                            return best
        for f in s.lin:
            fd = f.a[1] if f.op == "lin" else ((f, 1),)
            for k, v in fd:
                w = d.get(k)
                if w is not None and (w > 0) == (v > 0):
                    if abs(v) == 1:
                        l = s.lb(sub(e, scale(f, abs(w))), depth - 1, memo)
                    elif w == v:
                        l = s.lb(sub(e, f), depth - 1, memo)
                    else:
                        continue
                    if l is not None and (best is None or l > best):
                        best = l
                        if best >= 1:
                            return best
        return best
    def equate(s, e):
        """Record e == 0."""
        e = s.canon(e)
        c, d = as_lin(e)
        if not d:
            return c == 0
        lo, hi = s.bounds(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        cand = [k for k, v in d.items() if abs(v) == 1]
        if not cand:
            return s.add_lin1(e) and s.add_lin1(scale(e, -1))
        k = max(cand, key=lambda k: (k.op in ("hv", "ext", "len"), k.id))
        v = d[k]
        # k = -v * (e - v*k)
        rest = scale(sub(e, scale(k, v)), -v)
        lo, hi = s.bounds(k)
        neqs = {}
        for x, y in s.eqs.items():
            cy, dy = as_lin(y)
            if k in dy:
                y = add(sub(y, scale(k, dy[k])), scale(rest, dy[k]))
            neqs[x] = y
        neqs[k] = rest
        s.eqs = neqs
        if rest.op == "int":
            x = rest.a[0]
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                return False
            o = s.dom.get(k, (None, None, frozenset()))
            if x in o[2]:
                return False
            s.dom[k] = (x, x, o[2])
        ok = True
        if lo is not None:
            ok = ok and s.add_lin1(sub(rest, I(lo)))
        if hi is not None:
            ok = ok and s.add_lin1(sub(I(hi), rest))
        old = s.lin
        s.lin = ()
        for f in old:
            ok = ok and s.add_lin1(f)
        return ok
    def simp(s, t):
        if t.op == "int":
            return t
        t2 = s.canon(t)
        if t2.op == "int":
            return t2
        lo, hi = s.bounds(t)
        if lo is not None and lo == hi:
            return I(lo)
        if t2 is not t:
            lo, hi = s.bounds(t2)
            if lo is not None and lo == hi:
                return I(lo)
        return t
    # ---------------- conditions
    def decide(s, c):
        op, a = c.op, c.a
        if op == "int":
            return bool(a[0])
        if op == "not":
            r = s.decide(a[0])
            return None if r is None else not r
        if op == "lt":
            l = s.lb(sub(a[1], a[0]))
            if l is not None and l >= 1:
                return True
            l = s.lb(sub(a[0], a[1]))
            if l is not None and l >= 0:
                return False
        elif op == "eq":
            l1 = s.lb(sub(a[0], a[1])); l2 = s.lb(sub(a[1], a[0]))
            if (l1 is not None and l1 >= 1) or (l2 is not None and l2 >= 1):
                return False
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                return True
            if a[1].op == "int":
                d = s.dom.get(a[0])
                if d and a[1].a[0] in d[2]:
                    return False
        lo, hi = s.bounds(c)
        if lo is not None and lo == hi:
            return bool(lo)
        return None
    def assume(s, c, truth=True):
        """Add the fact; False if it contradicts what is known."""
        r = s.decide(c)
        if r is not None:
            return r == truth
        if c.op == "not":
            return s.assume(c.a[0], not truth)
        s.path = (s.path, (c, truth))
        if c.op == "lt":
            a, b = c.a
            return s.add_lin(sub(sub(b, a), I(1)) if truth else sub(a, b))
        if c.op == "eq":
            a, b = c.a
            if truth:
                s.dom[c] = (1, 1, frozenset())
                return s.equate(sub(a, b))
            s.dom[c] = (0, 0, frozenset())
            if b.op == "int":
                d = s.dom.get(a, (None, None, frozenset()))
                s.dom[a] = (d[0], d[1], d[2] | {b.a[0]})
                lo, hi = s.bounds(a)
                return not (lo is not None and hi is not None and lo > hi)
            return True
        v = 1 if truth else 0
        s.dom[c] = (v, v, frozenset())
        return True
    def add_lin(s, e):
        return s.add_lin1(e)
    def add_lin1(s, e):
        e = s.canon(e)
        c, d = as_lin(e)
        if not d:
            return c >= 0
        if len(d) == 1:
            (t, k), = d.items()
            if abs(k) == 1:
                o = s.dom.get(t, (None, None, frozenset()))
                if k == 1:
                    lo = -c if o[0] is None else max(o[0], -c)
                    s.dom[t] = (lo, o[1], o[2])
                else:
                    hi = c if o[1] is None else min(o[1], c)
                    s.dom[t] = (o[0], hi, o[2])
                lo, hi = s.bounds(t)
                return not (lo is not None and hi is not None and lo > hi)
        hi = s.bounds(e)[1]
        if hi is not None and hi < 0:
            return False
        if e not in s.lin:
            s.lin = s.lin + (e,)
        return True
    # ---------------- events
    def event(s, *e):
        s.ev = (s.ev, e)
    def fresh(s, name, *a):
        s.cnt += 1
        return T("ext", name, s.cnt, *a)

def linked(x, stop=None):
    out = []
    while x is not None and x is not stop:
        out.append(x[1])
        x = x[0]
    out.reverse()
    return out

UNKNOWN_EXT = set()     # what library calls the models do not know returned (they were handed something to change)
LOOPBY = {}     # counter -> its loop
COMPHV = {}     # comprehension -> the counter its bound variable stands for

class LoopEv:
    """Summary of a widened loop: for each class of iteration, the facts and events of one arbitrary pass."""
    def __init__(s, where):
        s.where, s.backs, s.exits = where, [], 0
        s.counter = None   # (hv term, bound term) of a count from 0
        s.count = None     # (hv term, start, bound) of any count upwards by one
        s.accs = {}        # accumulator hv -> what each class of pass appends (None: not an append)
    def __repr__(s):
        return "Loop(%s, %d backs)" % (s.where, len(s.backs))

class Out:
    __slots__ = ("kind", "st", "val", "where")
    def __init__(s, kind, st, val=None, where=None):
        s.kind, s.st, s.val, s.where = kind, st, val, where
    def events(s):
        return linked(s.st.ev)
    def facts(s):
        return linked(s.st.path)
    def __repr__(s):
        return "Out(%s %s)" % (s.kind, s.val)

class Prog:
    def __init__(p, j):
        p.j = j
        p.crate = j["crate"]
        p.types = j["types"]
        p.bodies = {b["key"]: b for b in j["bodies"]}
        p.adts = {a["path"]: a for a in j["adts"]}
        p.roots = j["roots"]
        p.fns = []
        p.fnix = {}
        p.loops = {}
        p.implix = {}
        for r in p.roots:
            if "trait" in r:
                d = p.tydef(r["self"])
                p.implix.setdefault((r["trait"].split("<")[0].split("::")[-1], d, r["name"]), []).append(r)
    def tydef(p, i):
        t = p.types[i]
        if t["k"] == "adt":
            return t["def"]
        if t["k"] in ("ref", "ptr"):
            return p.tydef(t["t"])
        return t["s"]
    def ty(p, i):
        return p.types[i]
    def tys(p, i):
        return p.types[i]["s"]
    def has_writers(p):
        """does the program use a buffering writer, whose drop writes"""
        if not hasattr(p, "_writers"):
            p._writers = any(t["k"] == "adt" and t["def"].endswith("::BufWriter") for t in p.types)
        return p._writers
    def strip(p, i):
        while p.types[i]["k"] in ("ref", "ptr"):
            i = p.types[i]["t"]
        return i
    def fnval(p, callee):
        import json as _j
        k = _j.dumps(callee, sort_keys=True)
        if k not in p.fnix:
            p.fnix[k] = len(p.fns)
            p.fns.append(callee)
        return T("fn", p.fnix[k], callee.get("path") or callee["decl"])
    def find(p, **kw):
        """Roots by attributes: path suffix / name / trait."""
        out = []
        for r in p.roots:
            ok = True
            for k, v in kw.items():
                if k == "suffix":
                    ok = strip_generics(r["path"]).endswith(v)
                elif k == "self":
                    ok = "self" in r and p.tydef(r["self"]).endswith(v)
                else:
                    ok = r.get(k) == v
                if not ok:
                    break
            if ok:
                out.append(r)
        return out
    def cfg(p, key):
        """natural loops: header -> set of blocks"""
        if key in p.loops:
            return p.loops[key]
        b = p.bodies[key]
        bl = b["blocks"]
        succ = [succs(x["t"]) for x in bl]
        n = len(bl)
        order, state, back = [], [0] * n, []
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if bl[v]["c"]:
                    continue
                if state[v] == 0:
                    state[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif state[v] == 1:
                    back.append((u, v))
            else:
                state[u] = 2
                order.append(u)
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        loops = {}
        for u, h in back:
            s = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x not in s:
                    s.add(x)
                    w.extend(pred[x])
        p.loops[key] = loops
        return loops

def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    return []

def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or s[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")

def norm_path(callee):
    """'Type::method' for inherent functions, 'Trait::method' for trait methods."""
    n = callee.get("_n")
    if n is not None:
        return n
    if callee.get("trait"):
        n = callee["trait"].split("<")[0].split("::")[-1] + "::" + callee["method"]
    else:
        p = callee.get("path") or callee["decl"]
        q = p
        import re
        m = re.search(r"<impl ([^<>]*(?:<[^<>]*>)?)>::(\w+)$", q)
        if m:
            base = m.group(1).strip("&").strip()
            base = "slice" if base.startswith("[") else base.split("<")[0].split("::")[-1]
            if base in INTNAMES:
                base = "num"
            n = base + "::" + m.group(2)
        else:
            q = strip_generics(q)
            n = "::".join(q.split("::")[-2:])
    callee["_n"] = n
    return n

INTNAMES = {x + str(n) for x in "iu" for n in (8, 16, 32, 64, 128)} | {"usize", "isize"}

_cellctr = itertools.count(1)

class Frame:
    __slots__ = ("body", "fid", "key", "loops")
    def __init__(s, body, fid, key, loops):
        s.body, s.fid, s.key, s.loops = body, fid, key, loops

MAXDEPTH = 60

class Interp:
    def __init__(s, prog, budget=400000):
        s.p = prog
        s.budget = budget
        s.steps = 0
        s.hooks = {}          # extra models: norm path -> fn
        s.recs = {}           # functions that were found to recurse: path -> norm path
        s.used = set()        # bodies analysed
        s.opaque = {}         # external calls met
        s.callsites = 0
        s.ctx = None
        s.spawn_exec = True
        s.retry = False       # a filter may answer "one more pass" instead of searching on
        s.athead = False
        import models
        s.models = models.MODELS
        s.mods = models

    # ------------------------------------------------------------------ memory
    def newcell(s, st, v, tag="h"):
        c = (tag, next(_cellctr))
        st.cells[c] = v
        return c
    def mkref(s, st, v):
        return T("ref", s.newcell(st, v), ())
    def mkarg(s, st, t, ty):
        """An unknown argument value of type ty, references materialised as cells."""
        x = s.p.types[ty]
        if x["k"] == "ref":
            return s.mkref(st, s.mkarg(st, t, x["t"]))
        if x["k"] == "adt" and x["def"] in s.p.adts and s.p.adts[x["def"]]["kind"] == "struct" and False:
            pass
        s.hint_ty(t, ty)
        return t
    def load(s, st, v):
        """Follow references to a value."""
        while v.op in ("ref", "cref"):
            v = s.read(st, v.a[0], v.a[1]) if v.op == "ref" else v.a[0]
        return v
    def deref1(s, st, v):
        if v.op == "ref":
            return s.read(st, v.a[0], v.a[1])
        if v.op == "cref":
            return v.a[0]
        return v
    def read(s, st, cell, proj):
        v = st.cells.get(cell)
        if v is None:
            v = T("uninit")
        for p in proj:
            v = s.proj1(st, v, p)
        return v
    def proj1(s, st, v, p):
        k = p[0]
        if v.op in ("ref", "cref"):
            v = s.load(st, v)
        if k == "f":
            i = p[1]
            if v.op == "adt":
                return v.a[2 + i] if 2 + i < len(v.a) else T("fld", v, p[2])
            if v.op == "tup":
                if i < len(v.a):
                    return v.a[i]
            if v.op == "clo":
                return v.a[2 + i]
            return s.typed(T("fld", v, p[2]), p[4] if len(p) > 4 else None)
        if k == "vf":
            if v.op == "adt":
                if v.a[1] == p[1]:
                    return v.a[2 + p[2]] if 2 + p[2] < len(v.a) else T("vf", v, p[1], p[2])
                return T("bottom")
            return s.typed(T("vf", v, p[1], p[2]), p[5] if len(p) > 5 else None)
        if k == "i":
            return s.index(st, v, p[1])
        if k == "s":
            return s.subseq(st, v, p[1], p[2])
        if k == "mk":
            for o in reversed(v.a if v.op == "map" else ()):
                if o.op == "ins" and o.a[0] is p[1]:
                    return o.a[1]
                if o.op == "splice":
                    return T("mget", o.a[0], p[1])
            return T("mget", v, p[1])
        raise Undecided("projection " + k)
    def tracks_bytes(s, v):
        return v.op == "data" or (v.op == "seq" and all(p.op in ("lit", "one") or p.a[0].op == "data" for p in v.a))
    def typed(s, t, ty):
        if ty is not None:
            s.hint_ty(t, ty)
        return t
    def hint_ty(s, t, ty):
        if t.op == "int" or t in TYHINT:
            return
        x = s.p.types[ty]
        k = x["k"]
        if k == "int":
            b = x["bits"]
            TYHINT[t] = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if x["signed"] else (0, (1 << b) - 1)
        elif k == "bool":
            TYHINT[t] = (0, 1)
        elif k == "char":
            TYHINT[t] = (0, 0x10FFFF)
        elif k == "adt":
            a = s.p.adts.get(x["def"])
            if a and a["kind"] == "enum" and a["variants"]:
                ds = [int(v["discr"]) for v in a["variants"]]
                d = T("discr", t)
                DISCRS[d] = (min(ds), max(ds))
    def expand(s, v, p):
        """Give an opaque struct value explicit fields so one of them can be overwritten."""
        info = p[3] if p[0] == "f" else p[4]
        if info is None:
            raise Undecided("write into an opaque value")
        if info[0] == "tup":
            return T("tup", *[T("fld", v, i) for i in range(info[1])])
        a = s.p.adts[info[0]]
        var = 0 if p[0] == "f" else p[1]
        fs = a["variants"][var]["fields"]
        if p[0] == "f":
            return T("adt", info[0], 0, *[T("fld", v, f[0]) for f in fs])
        return T("adt", info[0], var, *[T("vf", v, var, i) for i in range(len(fs))])
    def upd(s, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if v.op == "ref":
            s.write(st, v.a[0], v.a[1] + proj, val)
            return v
        if v.op == "cref":
            v = v.a[0]
        k = p[0]
        if k == "f":
            if v.op not in ("adt", "tup", "clo"):
                v = s.expand(v, p)
            off = 0 if v.op == "tup" else 2
            i = off + p[1]
            a = list(v.a)
            if i >= len(a):
                raise Undecided("field write out of shape")
            a[i] = s.upd(st, a[i], proj[1:], val)
            return T(v.op, *a)
        if k == "vf":
            if v.op != "adt":
                v = s.expand(v, p)
            a = list(v.a)
            a[2 + p[2]] = s.upd(st, a[2 + p[2]], proj[1:], val)
            return T("adt", *a)
        if k == "i":
            old = s.index(st, v, p[1]) if len(proj) > 1 else None
            nv = s.upd(st, old, proj[1:], val) if len(proj) > 1 else val
            return s.store(st, v, p[1], nv)
        if k == "s":
            old = s.subseq(st, v, p[1], p[2]) if len(proj) > 1 else None
            nv = s.upd(st, old, proj[1:], val) if len(proj) > 1 else val
            n = length(v)
            if p[1].op == "int" and p[1].a[0] == 0 and st.decide(eq(n, p[2])) is True:
                return nv
            return seq(s.subseq(st, v, I(0), p[1]), nv, s.subseq(st, v, p[2], n))
        if k == "mk":
            nv = s.upd(st, s.proj1(st, v, p), proj[1:], val)
            old = v.a if v.op == "map" else (T("splice", v),)
            if old and old[-1].op == "ins" and old[-1].a[0] is p[1]:
                old = old[:-1]
            return T("map", *old, T("ins", p[1], nv))
        raise Undecided("update " + k)
    def write(s, st, cell, proj, val):
        st.cells[cell] = s.upd(st, st.cells.get(cell, T("uninit")), proj, val)
    # ------------------------------------------------------------------ sequences
    def elem(s, st, c, j):
        op, a = c.op, c.a
        if op == "data":
            return T("byte", a[0], add(a[1], j))
        if op == "comp" and len(a[1]) == 1 and len(a[1][0][1]) == 1 and a[1][0][1][0].op == "one" and not a[1][0][0]:
            return subst(a[1][0][1][0].a[0], {T("bv", compdepth(c)): j})
        if op == "store":
            r = st.decide(eq(a[1], j))
            if r is True:
                return a[2]
            if r is False:
                return s.index(st, a[0], j)
        if op == "be_bytes" and j.op == "int":
            return trunc(shr(a[0], I(8 * (a[1] - 1 - j.a[0]))), 8)
        if op == "le_bytes" and j.op == "int":
            return trunc(shr(a[0], I(8 * j.a[0])), 8)
        if op == "repeat":
            return a[0]
        if op == "sub":
            return s.index(st, a[0], add(a[1], j))
        if op == "cyc":
            return s.index(st, a[0], rem(j, length(a[0])))
        return T("elem", c, j)
    def index(s, st, v, idx):
        idx = st.simp(idx)
        if v.op in ("ref", "cref"):
            v = s.load(st, v)
        if v.op != "seq":
            return s.elem(st, v, idx)
        off = I(0)
        for p in v.a:
            rel = sub(idx, off)
            n = piece_len(p)
            inside = st.decide(lt(rel, n))
            if inside is True:
                if p.op == "lit":
                    if rel.op == "int":
                        return I(p.a[0][rel.a[0]])
                    break
                if p.op == "one":
                    return p.a[0]
                return s.elem(st, p.a[0], rel)
            if inside is None:
                break
            off = add(off, n)
        return T("elem", v, idx)
    def store(s, st, v, idx, val):
        idx = st.simp(idx)
        if v.op == "seq" and idx.op == "int":
            out, off, done = [], 0, False
            for p in v.a:
                n = piece_len(p)
                if done or n.op != "int":
                    out.append(p)
                    if not done and n.op != "int":
                        return T("store", v, idx, val)
                    continue
                rel = idx.a[0] - off
                if rel < n.a[0]:
                    if p.op == "lit":
                        out += [T("lit", p.a[0][:rel])] if rel else []
                        out.append(one(val))
                        if p.a[0][rel + 1:]:
                            out.append(T("lit", p.a[0][rel + 1:]))
                    elif p.op == "one":
                        out.append(one(val))
                    else:
                        return T("store", v, idx, val)
                    done = True
                else:
                    out.append(p)
                off += n.a[0]
            if done:
                return seq(*out)
        if v.op == "repeat" and v.a[1].op == "int" and idx.op == "int" and v.a[1].a[0] <= 64 and idx.a[0] < v.a[1].a[0]:
            n = v.a[1].a[0]
            return seq(*[one(val if i == idx.a[0] else v.a[0]) for i in range(n)])
        return T("store", v, idx, val)
    def subseq(s, st, v, lo, hi):
        if v.op in ("ref", "cref"):
            v = s.load(st, v)
        lo, hi = st.simp(lo), st.simp(hi)
        n = length(v)
        if lo.op == "int" and lo.a[0] == 0 and (hi is n or st.decide(eq(hi, n)) is True):
            return v
        if v.op == "sub":
            return s.subseq(st, v.a[0], add(v.a[1], lo), add(v.a[1], hi))
        if v.op == "data":
            return T("data", v.a[0], add(v.a[1], lo), sub(hi, lo))
        if v.op == "repeat":
            return T("repeat", v.a[0], sub(hi, lo))
        if st.decide(eq(lo, hi)) is True:
            return seq()
        if v.op == "seq":
            out, off, ok = [], I(0), True
            for p in v.a:
                n1 = piece_len(p)
                end = add(off, n1)
                # entirely before / after
                if st.decide(le(end, lo)) is True:
                    off = end
                    continue
                if st.decide(le(hi, off)) is True:
                    break
                a_in = st.decide(le(lo, off)) is True
                b_in = st.decide(le(end, hi)) is True
                if a_in and b_in:
                    out.append(p)
                else:
                    r0 = I(0) if a_in else sub(lo, off)
                    r1 = n1 if b_in else sub(hi, off)
                    if not a_in and st.decide(le(off, lo)) is not True or not b_in and st.decide(le(hi, end)) is not True:
                        ok = False
                        break
                    if p.op == "lit" and r0.op == "int" and r1.op == "int":
                        out.append(T("lit", p.a[0][r0.a[0]:r1.a[0]]))
                    elif p.op == "splice":
                        out.append(T("splice", s.subseq(st, p.a[0], r0, r1)))
                    else:
                        ok = False
                        break
                off = end
            if ok:
                return seq(*out)
        return T("sub", v, lo, hi)
    # ------------------------------------------------------------------ places / operands
    def place(s, fr, st, pl, store=False):
        cell, proj, ty = (fr.fid, pl[0]), (), fr.body["locals"][pl[0]][0]
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = s.read(st, cell, proj)
                if v.op == "ref":
                    cell, proj = v.a[0], v.a[1]
                elif v.op == "cref":
                    cell, proj = s.newcell(st, v.a[0], "t"), ()
                t = s.p.types[ty]
                if store and v.op != "ref" and t["k"] in ("ref", "ptr") and v.op != "uninit":
                    raise Undecided("store through an unknown reference")
                ty = t.get("t", ty) if t["k"] in ("ref", "ptr") else (t["args"][0] if t.get("args") else ty)
                var = None
            elif k == "f":
                t = s.p.types[ty]
                if t["k"] == "adt" and t["def"] in TRANSPARENT:
                    ty = e[2]
                    continue
                if t["k"] == "adt" and t["def"] == "alloc::borrow::Cow":
                    if s.read(st, cell, proj).op != "adt":
                        ty, var = e[2], None
                        continue
                if t["k"] == "adt":
                    a = s.p.adts.get(t["def"])
                    if a["kind"] == "union":
                        ty = e[2]
                        continue
                    vi = var if var is not None else 0
                    fs = a["variants"][vi]["fields"]
                    nm = fs[e[1]][0] if e[1] < len(fs) else str(e[1])
                    if a["kind"] == "enum":
                        proj = proj + (("vf", vi, e[1], nm, (t["def"], len(fs)), e[2]),)
                    else:
                        proj = proj + (("f", e[1], nm, (t["def"], len(fs)), e[2]),)
                elif t["k"] == "tuple":
                    proj = proj + (("f", e[1], str(e[1]), ("tup", len(t["args"])), e[2]),)
                else:
                    proj = proj + (("f", e[1], str(e[1]), None, e[2]),)
                ty, var = e[2], None
            elif k == "v":
                var = e[1]
            elif k == "i":
                idx = s.read(st, (fr.fid, e[1]), ())
                proj = proj + (("i", st.simp(idx)),)
                ty = s.p.types[ty].get("t", ty)
            elif k == "c":
                v = s.read(st, cell, proj)
                idx = I(e[1]) if not e[3] else sub(length(s.load(st, v)), I(e[1]))
                proj = proj + (("i", idx),)
                ty = s.p.types[ty].get("t", ty)
            elif k == "s":
                v = s.load(st, s.read(st, cell, proj))
                hi = sub(length(v), I(e[2])) if e[3] else I(e[2])
                proj = proj + (("s", I(e[1]), hi),)
            else:
                raise Undecided("place projection " + k)
        return cell, proj, ty
    def getplace(s, fr, st, pl):
        cell, proj, ty = s.place(fr, st, pl)
        v = s.read(st, cell, proj)
        if v.op not in ("int", "adt", "tup", "seq", "ref", "clo", "fn", "lin"):
            s.hint_ty(v, ty)
        return v
    def operand(s, fr, st, o):
        if o[0] in ("cp", "mv"):
            # a raw pointer taken out of a Box keeps aliasing the box
            if len(o[1][1]) and o[1][1][-1][0] == "f":
                ty = fr.body["locals"][o[1][0]][0]
                t0 = s.p.types[ty]
                if any(e[0] == "f" for e in o[1][1]) and s.boxpath(fr, o[1]):
                    cell, proj, _ = s.place(fr, st, o[1])
                    v = s.read(st, cell, proj)
                    if v.op == "ref":
                        return v
                    return T("ref", cell, proj)
            return s.getplace(fr, st, o[1])
        if o[0] == "k":
            return s.const(fr, st, o[1])
        return s.unknown_rc()
    def unknown_rc(s):
        return I(0)
    def boxpath(s, fr, pl):
        ty = fr.body["locals"][pl[0]][0]
        for e in pl[1][:-1]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "*":
                t = s.p.types[ty]
                ty = t.get("t", ty)
        t = s.p.types[ty]
        return t["k"] == "adt" and t["def"] in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::boxed::Box")
    def const(s, fr, st, c):
        if "fn" in c:
            return s.p.fnval(c["fn"])
        return s.constval(fr, st, c)
    def constval(s, fr, st, c):
        if "int" in c:
            return I(int(c["int"]))
        if "str" in c:
            return lit(c["str"])
        if "bytes" in c:
            return lit(bytes(c["bytes"]))
        if "fn" in c:
            return s.p.fnval(c["fn"])
        if "refto" in c:
            v = s.constval(fr, st, c["refto"])
            return v if v.op not in ("ref", "cref") else T("cref", v)
        if "agg" in c:
            t = s.p.types[c["ty"]] if "ty" in c else None
            fs = [s.constval(fr, st, x) for x in c["agg"]["fields"]]
            if t is None:
                return T("tup", *fs)
            return s.aggregate_ty(t, c["agg"]["variant"], fs)
        if "promoted" in c or "item" in c:
            k = c.get("promoted") or c["item"]
            if k not in s.p.bodies:
                return T("const", c.get("path", k))
            outs = s.exec_fn(st, k, [])
            if len(outs) != 1 or outs[0].kind != "ret":
                raise Undecided("constant %s does not evaluate to one value" % k)
            # effects on memory are confined to fresh cells
            st.cells.update(outs[0].st.cells)
            return outs[0].val
        t = s.p.types[c["ty"]] if "ty" in c else None
        if "zst" in c or (t and t["k"] == "tuple" and not t["args"]):
            if t and t["k"] == "closure":
                return T("clo", t.get("key"), t["def"])
            if t and t["k"] == "adt":
                return s.aggregate_ty(t, 0, [])
            return UNIT
        if t and t["k"] == "fndef":
            return s.p.fnval(t["callee"])
        return T("const", c.get("path") or c.get("opaque", "?"), str(c.get("opaque", ""))[:60])
    def aggregate_ty(s, t, var, fs):
        if t["k"] == "tuple":
            return T("tup", *fs)
        if t["k"] == "array":
            return seq(*[one(f) for f in fs])
        if t["k"] == "adt":
            return s.mkadt(t["def"], var, fs)
        return T("tup", *fs)
    def mkadt(s, d, var, fs):
        if d in TRANSPARENT or d == "alloc::borrow::Cow":
            return fs[0] if fs else UNIT
        if d == "alloc::vec::Vec" or d == "alloc::string::String":
            return seq()
        return T("adt", d, var, *fs)
    # ------------------------------------------------------------------ rvalues
    def rvalue(s, fr, st, r, dty):
        k = r[0]
        if k == "use":
            return s.operand(fr, st, r[1])
        if k == "ref":
            cell, proj, ty = s.place(fr, st, r[2])
            if not r[1]:
                # shared reference to something that is itself only reachable by value
                pass
            v = s.read(st, cell, proj)
            if v.op == "ref" and s.p.types[ty]["k"] not in ("ref", "ptr") :
                # transparent box holding a reference
                return v
            return T("ref", cell, proj)
        if k == "cast":
            return s.cast(fr, st, r, dty)
        if k == "bin":
            return s.binop(fr, st, r[1], s.operand(fr, st, r[2]), s.operand(fr, st, r[3]), s.opty(fr, st, r[2]))
        if k == "un":
            v = s.operand(fr, st, r[2])
            if r[1] == "Not":
                t = s.p.types[s.opty(fr, st, r[2])]
                if t["k"] == "bool":
                    return NOT(v)
                if t["k"] == "int" and not t["signed"]:
                    return sub(I((1 << t["bits"]) - 1), v)
                return T("bitnot", v)
            if r[1] == "Neg":
                return scale(v, -1)
            if r[1] == "PtrMetadata":
                return length(s.load(st, v))
            return T("un", r[1], v)
        if k == "discr":
            v = s.load(st, s.getplace(fr, st, r[1]))
            return s.discr(v)
        if k == "agg":
            fs = [s.operand(fr, st, x) for x in r[2]]
            kk = r[1][0]
            if kk == "tuple":
                return T("tup", *fs)
            if kk == "array":
                return seq(*[one(f) for f in fs])
            if kk == "adt":
                return s.mkadt(r[1][1], r[1][2], fs)
            if kk == "closure":
                return T("clo", r[1][1], r[1][2], *fs)
            if kk == "rawptr":
                return fs[0]
            return T("agg", *fs)
        if k == "repeat":
            v = s.operand(fr, st, r[1])
            if r[2] is None:
                return T("repeat", v, T("constlen"))
            n = int(r[2])
            if n <= 64:
                return seq(*[one(v)] * n)
            return T("repeat", v, I(n))
        raise Undecided("rvalue " + k)
    def discr(s, v):
        if v.op == "adt":
            a = s.p.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                return I(int(a["variants"][v.a[1]]["discr"]))
            return I(v.a[1])
        return T("discr", v)
    def opty(s, fr, st, o):
        if o[0] == "k":
            return o[1].get("ty")
        ty = fr.body["locals"][o[1][0]][0]
        for e in o[1][1]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] in ("*", "i", "c"):
                t = s.p.types[ty]
                ty = t.get("t") if "t" in t else (t["args"][0] if t.get("args") else ty)
        return ty
    def fits(s, st, v, t):
        lo, hi = st.bounds(v)
        if t["k"] == "bool":
            return lo is not None and hi is not None and 0 <= lo and hi <= 1
        b = t["bits"]
        l, h = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.get("signed") else (0, (1 << b) - 1)
        if lo is not None and hi is not None and l <= lo and hi <= h:
            return True
        if v.op in ("lin", "be", "ext", "div") and v.op != "int":
            a = s_lb = st.lb(v)
            b2 = st.lb(scale(v, -1))
            return a is not None and b2 is not None and a >= l and -b2 <= h
        return False
    def cast(s, fr, st, r, dty):
        v = s.operand(fr, st, r[2])
        t = s.p.types[r[3]]
        kind = r[1]
        if kind.startswith("IntToInt") or kind.startswith("Int"):
            if t["k"] == "int":
                if v.op == "adt":
                    v = s.discr(v)
                src = s.p.types[s.opty(fr, st, r[2])]
                if src["k"] == "adt":
                    v = T("discr", v) if v.op != "int" else v
                if v.op == "int":
                    b = t["bits"]
                    x = v.a[0] & ((1 << b) - 1)
                    if t["signed"] and x >> (b - 1):
                        x -= 1 << b
                    return I(x)
                if src["k"] in ("bool", "char"):
                    s.hint_ty(v, s.opty(fr, st, r[2]))
                if s.fits(st, v, t):
                    return v
                if not t["signed"]:
                    return trunc(v, t["bits"])
                return T("icast", v, t["bits"])
            return v
        if kind.startswith("PointerCoercion"):
            return v
        return v
    def binop(s, fr, st, op, a, b, aty):
        t = s.p.types[aty] if aty is not None else {"k": "int", "bits": 64, "signed": False}
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if t["k"] == "adt" or t["k"] in ("ptr", "fnptr", "ref"):
            if base in ("Eq", "Ne"):
                r = T("valeq", a, b) if a is not b else TRUE
                return r if base == "Eq" else NOT(r)
        if a.op not in ("int", "lin") and aty is not None:
            s.hint_ty(a, aty)
        if b.op not in ("int", "lin") and aty is not None and base not in ("Shl", "Shr"):
            s.hint_ty(b, aty)
        a, b = st.simp(a), st.simp(b)
        if t["k"] == "bool":
            if base == "Eq":
                r = NOT(a) if b is FALSE else a if b is TRUE else NOT(b) if a is FALSE else b if a is TRUE else T("eq", a, b)
                return r
            if base == "Ne":
                return NOT(s.binop(fr, st, "Eq", a, b, aty))
            if base == "BitAnd":
                if a is TRUE: return b
                if b is TRUE: return a
                if a is FALSE or b is FALSE: return FALSE
                return T("and", a, b)
            if base == "BitOr":
                if a is FALSE: return b
                if b is FALSE: return a
                if a is TRUE or b is TRUE: return TRUE
                return T("or", a, b)
            if base == "BitXor":
                if a is FALSE: return b
                if b is FALSE: return a
                if a is TRUE: return NOT(b)
                if b is TRUE: return NOT(a)
                return T("xor", a, b)
        if base == "Eq":
            return eq(a, b)
        if base == "Ne":
            return NOT(eq(a, b))
        if base == "Lt":
            return lt(a, b)
        if base == "Gt":
            return lt(b, a)
        if base == "Le":
            return le(a, b)
        if base == "Ge":
            return le(b, a)
        if base == "Cmp":
            return T("cmp", a, b)
        if base == "BitAnd":
            return band(a, b)
        if base == "BitOr":
            return bor(a, b)
        if base == "BitXor":
            return bxor(a, b)
        if base in ("Add", "Sub", "Mul", "Shl"):
            if base == "Add":
                r = add(a, b)
            elif base == "Sub":
                r = sub(a, b)
            elif base == "Mul":
                r = scale(a, b.a[0]) if b.op == "int" else scale(b, a.a[0]) if a.op == "int" else T("mul", *sorted((a, b)))
            else:
                r = shl(a, b)
            if op.endswith("WithOverflow"):
                if t["k"] == "int":
                    if s.fits(st, r, t):
                        ov = FALSE
                    else:
                        bts = t["bits"]
                        l, h = (-(1 << (bts - 1)), (1 << (bts - 1)) - 1) if t["signed"] else (0, (1 << bts) - 1)
                        # overflow <=> r < l or r > h
                        lo_ok, hi_ok = st.decide(le(I(l), r)), st.decide(le(r, I(h)))
                        if lo_ok is True:
                            ov = lt(I(h), r)
                        elif hi_ok is True:
                            ov = lt(r, I(l))
                        else:
                            ov = T("ovf", base, r)
                    return T("tup", r, ov)
                return T("tup", r, FALSE)
            if op.endswith("Unchecked") or t["k"] != "int" or s.fits(st, r, t):
                return r
            return trunc(r, t["bits"]) if not t["signed"] else T("wrap", r, t["bits"])
        if base == "Rem":
            return rem(a, b)
        if base == "Div":
            return div(a, b)
        if base == "Shr":
            return shr(a, b)
        return T("bin", op, a, b)
    # ------------------------------------------------------------------ functions
    def exec_fn(s, st, key, args):
        body = s.p.bodies.get(key)
        if body is None:
            raise Undecided("no body " + str(key))
        retry, s.retry = s.retry, False
        try:
            return s.exec_body(st, key, args, body)
        finally:
            s.retry = retry
    def exec_body(s, st, key, args, body):
        s.used.add(key)
        fid = ("f", next(_cellctr))
        fr = Frame(body, fid, key, s.p.cfg(key))
        st = st.clone()
        st.stack = st.stack + (key,)
        if len(st.stack) > MAXDEPTH:
            raise Undecided("call depth")
        if body.get("spread") is not None and len(args) == body["argc"]:
            pass
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        outs = s.run(fr, st, 0, None, None)
        res = []
        for o in outs:
            if o.kind == "exit":
                raise Undecided("stray exit")
            o.st.stack = o.st.stack[:-1]
            # drop this frame's locals unless still referenced by the result
            dead = [c for c in o.st.cells if c[0] == fid]
            if o.kind == "ret" and o.val.op in ("int", "tup") and not contains_op(o.val, "ref"):
                pass
            keep = set()
            if o.kind == "ret":
                refs_in(o.val, keep)
                work = list(keep)
                while work:
                    c = work.pop()
                    if c in o.st.cells:
                        more = set()
                        refs_in(o.st.cells[c], more)
                        for m in more - keep:
                            keep.add(m)
                            work.append(m)
            for c in dead:
                if c not in keep:
                    del o.st.cells[c]
            res.append(o)
        return res
    def run(s, fr, st, bb, stop, blocks):
        """Explore from block bb.  stop/blocks: inside a loop summary - report arrivals at the header
        ('hdr') and leaving edges ('exit', bb)."""
        outs = []
        work = [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            while True:
                if stop is not None and not first:
                    if bb == stop:
                        outs.append(Out("hdr", st))
                        break
                    if bb not in blocks:
                        outs.append(Out("exit", st, bb))
                        break
                if bb in fr.loops and not (first and bb == stop):
                    first = False
                    for o in s.loop(fr, st, bb, fr.loops[bb]):
                        if o.kind == "exit":
                            work.append((o.st, o.val, False))
                        else:
                            outs.append(o)
                    break
                first = False
                s.steps += 1
                if s.steps > s.budget:
                    raise Undecided("analysis budget exhausted")
                blk = fr.body["blocks"][bb]
                # a rejected item of a filtering iterator whose next() is the head of the loop is one more pass
                s.athead = stop is not None and bb == stop and all(x[0] == "=" and x[2][0] == "ref" for x in blk["s"])
                nxt = s.block(fr, st, blk, outs)
                if not nxt:
                    break
                st, bb = nxt[0]
                for x in nxt[1:]:
                    work.append((x[0], x[1], False))
        return outs
    def block(s, fr, st, blk, outs):
        for x in blk["s"]:
            if x[0] == "=":
                cell, proj, ty = s.place(fr, st, x[1], True)
                v = s.rvalue(fr, st, x[2], ty)
                if v.op == "bottom":
                    return []
                if v.op not in ("int", "adt", "tup", "seq", "ref", "clo", "fn", "lin"):
                    s.hint_ty(v, ty)
                s.write(st, cell, proj, v)
            elif x[0] == "setd":
                cell, proj, ty = s.place(fr, st, x[1], True)
                t = s.p.types[ty]
                s.write(st, cell, proj, T("adt", t["def"], x[2]))
            elif x[0] == "assume":
                if not st.assume(s.operand(fr, st, x[1]), True):
                    return []
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "drop":
            if s.p.has_writers():
                cell, proj, ty = s.place(fr, st, t[1])
                v = s.read(st, cell, proj)
                if v.op in ("adt", "tup"):
                    return [(x, t[2]) for x in s.mods.drop_value(s, st, cell, proj, v)]
            return [(st, t[2])]
        if k == "switch":
            v = st.simp(s.operand(fr, st, t[1]))
            tt = s.p.types[t[4]]
            if v.op == "int":
                for val, b in t[2]:
                    if int(val) == v.a[0]:
                        return [(st, b)]
                return [(st, t[3])]
            if v.op != "int":
                s.hint_ty(v, t[4])
            if tt["k"] == "bool":
                res = []
                for val, b in t[2]:
                    s2 = st.clone()
                    if s2.assume(v, bool(int(val))):
                        res.append((s2, b))
                truth_left = [x for x in (0, 1) if x not in [int(q[0]) for q in t[2]]]
                for x in truth_left:
                    s2 = st.clone()
                    if s2.assume(v, bool(x)):
                        res.append((s2, t[3]))
                return res
            res = []
            for val, b in t[2]:
                s2 = st.clone()
                if s2.assume(eq(v, I(int(val))), True):
                    res.append((s2, b))
            s2 = st
            ok = True
            for val, b in t[2]:
                if not s2.assume(eq(v, I(int(val))), False):
                    ok = False
                    break
            if ok and fr.body["blocks"][t[3]]["t"][0] != "unreachable":
                res.append((s2, t[3]))
            return res
        if k == "return":
            v = s.read(st, (fr.fid, 0), ())
            outs.append(Out("ret", st, v))
            return []
        if k == "unreachable":
            return []
        if k == "assert":
            c = s.operand(fr, st, t[1])
            if not t[2]:
                c = NOT(c)
            s2 = st.clone()
            if s2.assume(NOT(c), True):
                outs.append(Out("panic", s2, ("assert", t[3]), (fr.body["path"], blk["sp"])))
            if st.assume(c, True):
                return [(st, t[4])]
            return []
        if k == "call":
            return s.do_call(fr, st, blk, t, outs)
        raise Undecided("terminator " + k)
    def do_call(s, fr, st, blk, t, outs):
        f = t[1]
        athead, s.athead = s.athead, False
        args = [s.operand(fr, st, a) for a in t[2]]
        atys = [s.opty(fr, st, a) for a in t[2]]
        s.callsites += 1
        if f[0] == "k" and "fn" in f[1]:
            callee = f[1]["fn"]
            s.retry = athead and norm_path(callee) == "Iterator::next"
            rs = s.call(st, callee, args, atys, t[5], (fr, blk))
            s.retry = False
        else:
            fv = s.operand(fr, st, f)
            rs = s.call_value(st, fv, args, atys, t[5], (fr, blk))
        res = []
        for o in rs:
            if o.kind == "ret":
                if t[4] is None:
                    continue
                cell, proj, ty = s.place(fr, o.st, t[3], True)
                v = o.val
                if v.op not in ("int", "adt", "tup", "seq", "ref", "clo", "fn", "lin"):
                    s.hint_ty(v, ty)
                s.write(o.st, cell, proj, v)
                res.append((o.st, t[4]))
            else:
                if o.where is None:
                    o.where = (fr.body["path"], blk["sp"])
                outs.append(o)
        return res
    def call_value(s, st, fv, args, atys=None, rty=None, at=None):
        """Call a function value with already-spread arguments."""
        f = s.load(st, fv)
        if f.op == "clo":
            key = f.a[0]
            body = s.p.bodies.get(key)
            if body is None:
                raise Undecided("closure without body")
            envty = s.p.types[body["locals"][1][0]]
            if envty["k"] == "ref":
                env = fv if fv.op == "ref" else s.mkref(st, f)
            else:
                env = f
            return s.exec_fn(st, key, [env] + list(args))
        if f.op == "fn":
            return s.call(st, s.p.fns[f.a[0]], args, atys, rty, at)
        r = st.fresh("callptr", f, *[s.snap(st, a) for a in args])
        st.event("callptr", f, tuple(s.snap(st, a) for a in args), r)
        if rty is not None:
            s.hint_ty(r, rty)
        return [Out("ret", st, r)]
    def snap(s, st, v, d=0):
        """The value with references replaced by what they point to now."""
        if d > 8:
            return v
        if v.op in ("ref", "cref"):
            return s.snap(st, s.load(st, v), d + 1)
        if v.op in ("adt", "tup", "clo"):
            return T(v.op, *[s.snap(st, x, d + 1) if isinstance(x, Term) else x for x in v.a])
        if v.op == "seq" and any(p.op == "one" for p in v.a):
            return seq(*[one(s.snap(st, p.a[0], d + 1)) if p.op == "one" else p for p in v.a])
        return v
    def call(s, st, callee, args, atys=None, rty=None, at=None):
        kind = callee["kind"]
        if kind == "ctor":
            return [Out("ret", st, s.mkadt(callee["adt"], callee["variant"], list(args)))]
        n = norm_path(callee)
        if kind == "cloneshim":
            return [Out("ret", st, s.load(st, args[0]))]
        if kind in ("closureonce", "fnptrshim") or n in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            tup = s.load(st, args[1])
            if tup.op == "tup":
                a = list(tup.a)
            else:
                a = [T("fld", tup, "0")]
            return s.call_value(st, args[0], a, None, rty, at)
        key = callee.get("key")
        # closures called directly by key (kind item, Fn traits)
        h = s.hooks.get(n)
        if h:
            r = h(s, st, callee, args, atys, rty)
            if r is not None:
                return r
        if key and key in s.p.bodies and s.p.bodies[key]["local"]:
            if st.stack.count(key) >= 1:
                return s.recursive(st, callee, args, atys, rty)
            return s.exec_fn(st, key, args)
        m = s.models.get(n)
        if m:
            r = m(s, st, callee, args, atys, rty)
            if r is not None:
                return r
        if key and key in s.p.bodies:
            if st.stack.count(key) >= 3:
                return s.opaque_call(st, callee, n, args, atys, rty)
            return s.exec_fn(st, key, args)
        return s.opaque_call(st, callee, n, args, atys, rty)
    def recursive(s, st, callee, args, atys, rty):
        n = "rec:" + strip_generics(callee.get("path") or callee["decl"])
        s.recs[strip_generics(callee.get("path") or callee["decl"])] = norm_path(callee)
        r = T("rec", strip_generics(callee.get("path") or callee["decl"]), *[s.snap(st, a) for a in args])
        s.havoc_mut(st, args, atys, r)
        if rty is not None:
            s.hint_ty(r, rty)
        return [Out("ret", st, r)]
    def havoc_mut(s, st, args, atys, r):
        if not atys:
            return False
        any_ = False
        for i, (a, ty) in enumerate(zip(args, atys)):
            if ty is None:
                continue
            t = s.p.types[ty]
            if t["k"] in ("ref", "ptr") and t.get("mut") and a.op == "ref":
                old = s.read(st, a.a[0], a.a[1])
                s.write(st, a.a[0], a.a[1], T("after", r, i, s.snap(st, old)))
                any_ = True
            elif t["k"] not in ("ref", "ptr") and a.op in ("adt", "tup", "it", "clo"):
                # places the callee can reach through the value (an entry, an iterator, a captured variable)
                for x in walk(a):
                    if x.op == "ref":
                        old = s.read(st, x.a[0], x.a[1])
                        if old.op != "after" or old.a[0] is not r:
                            s.write(st, x.a[0], x.a[1], T("after", r, i, s.snap(st, old)))
        return any_
    def opaque_call(s, st, callee, n, args, atys, rty):
        p = callee.get("path") or callee["decl"]
        s.opaque[n] = s.opaque.get(n, 0) + 1
        for a in args:
            if a.op != "fn" and contains_op(a, "clo"):
                # when and how often the callee runs it is not known
                raise Undecided("closure handed to " + n)
        snaps = [s.snap(st, a) for a in args]
        diverges = rty is not None and s.p.types[rty]["k"] == "never"
        if diverges:
            msg = next((litval(x).decode("utf8", "replace") for x in snaps if litval(x)), "")
            return [Out("panic", st, ("panic", n, msg))]
        mut = False
        for i, ty in enumerate(atys or []):
            if ty is not None and s.p.types[ty]["k"] in ("ref", "ptr") and s.p.types[ty].get("mut"):
                mut = True
        local_trait = (callee.get("trait") or "").startswith(s.p.crate + "::")
        impure = mut or local_trait or p.startswith(("lunatic::", "std::process", "std::env", "std::thread", "std::fs", "std::net", "std::io", "std::time")) or "lunatic::" in p.split(" as ")[0]
        if impure:
            r = st.fresh(n, *snaps)
            if mut and not local_trait:
                UNKNOWN_EXT.add(r)
            st.event("call", n, tuple(snaps), r)
            s.havoc_mut(st, args, atys, r)
        else:
            r = T("pure", n, *snaps)
            s.havoc_mut(st, args, atys, r)
        if rty is not None:
            s.hint_ty(r, rty)
        return [Out("ret", st, r)]
    # ------------------------------------------------------------------ loops
    def loop(s, fr, st0, h, blocks):
        where = (fr.body["path"], fr.body["blocks"][h].get("sp"))
        def iterate(st):
            return s.run(fr, st, h, h, blocks)
        flags = []
        for i, (ty, *_) in enumerate(fr.body["locals"]):
            k = s.p.types[ty]["k"] if ty is not None else None
            if k == "bool" and (fr.fid, i) in st0.cells:
                flags.append((fr.fid, i))
        return s.summarise(st0, iterate, where, flags=flags)
    def flagged(s, st0, iterate, where, c, exitval, flags):
        """A loop left when the boolean in cell c has the value exitval at its head: passes after which it has that value are last passes
        and are kept apart from the others (which all leave the other value there)."""
        def split(st):
            v = st.simp(st.cells[c])
            res = []
            for b in (0, 1):
                s2 = st.clone()
                if v.op == "int":
                    if v.a[0] != b:
                        continue
                elif not s2.assume(v, bool(b)):
                    continue
                s2.cells[c] = I(b)
                if b == exitval:
                    res += iterate(s2)
                else:
                    res.append(Out("hdr", s2))
            return res
        def iterate2(st):
            res = []
            for o in iterate(st):
                if o.kind == "hdr":
                    res += split(o.st)
                else:
                    res.append(o)
            return res
        outs = []
        for o in split(st0.clone()):
            if o.kind == "hdr":
                outs += s.summarise(o.st, iterate2, where, flags=flags)
            else:
                outs.append(o)
        return outs
    def summarise(s, st0, iterate, where, unroll=40, flags=()):
        # decided loops (over literal data) are followed as written
        st, n = st0, 0
        base_path = st0.path
        probe_cache = None
        while n < unroll:
            probe = st.clone()
            rs = iterate(probe)
            hdr = [o for o in rs if o.kind == "hdr"]
            if len(rs) == 1 and len(hdr) == 1 and hdr[0].st.path is st.path:
                st = hdr[0].st
                n += 1
                continue
            if not hdr:
                return rs
            if any(fixed_iter(o.st.cells.get(c), st.cells[c]) for o in hdr for c in st.cells):
                # a pass over a literal table whose passes branch
                done, front = [], [st]
                for _ in range(unroll):
                    nxt = []
                    for x in front:
                        for o in iterate(x.clone()):
                            if o.kind == "hdr":
                                nxt.append(o.st)
                            else:
                                done.append(o)
                    front = nxt
                    if not front:
                        return done
                    if len(front) > 24 or len(done) > 200:
                        break
            break
        # a partially unrolled prefix is only kept when it finished
        lid = next(_cellctr)
        cur = {}
        orig = dict(st0.cells)
        hvs = {}
        slices = {}
        def slicefacts(w):
            # a slice never has a negative length
            for c, v in cur.items():
                for path, hv in hv_at(v, lid):
                    if path and path[-1] == "lo":
                        r = v
                        for i in path[:-1]:
                            r = r.a[i]
                        hi = r.a[1][-1][2]
                        slices[hv] = hi
                        w.add_lin(hv)
                        w.add_lin(sub(hi, hv))
        for rnd in range(12):
            w = st0.clone()
            for c, v in cur.items():
                w.cells[c] = v
            slicefacts(w)
            rs = iterate(w.clone())
            backs = [o for o in rs if o.kind == "hdr"]
            if not backs:
                return rs if not cur else rs
            changed = False
            late = {c for o in backs for c in o.st.cells if c[0] == "pos" and c not in orig}
            if late:
                # stream positions that first appear inside the loop: they were 0 on entry
                st0 = st0.clone()
                for c in late:
                    st0.cells[c] = orig[c] = I(0)
                continue
            for o in backs:
                for c, v0 in orig.items():
                    vb = o.st.cells.get(c)
                    if vb is None:
                        continue
                    base = cur.get(c, v0)
                    if vb is base:
                        continue
                    nv = s.widen(base, vb, v0, (lid, c), hvs)
                    if nv is not base:
                        cur[c] = nv
                        changed = True
            if not changed:
                break
        else:
            raise Undecided("loop did not stabilise")
        w = st0.clone()
        for c, v in cur.items():
            w.cells[c] = v
        slicefacts(w)
        for c in flags:
            if c in cur and cur[c].op == "hv":
                leaving = []
                for b in (0, 1):
                    w2 = w.clone()
                    w2.cells[c] = I(b)
                    if not any(o.kind == "hdr" for o in iterate(w2)):
                        leaving.append(b)
                if len(leaving) == 1:
                    return s.flagged(st0, iterate, where, c, leaving[0], [x for x in flags if x != c])
        # inductive facts about havocked integers
        def find_ints():
            ints = {}
            for c, v in cur.items():
                for path, hv in hv_at(v, lid):
                    v0 = at_path(orig[c], path)
                    if v0 is None:
                        continue
                    vbs = [at_path(o.st.cells.get(c, UNIT), path) for o in backs]
                    if all(x is not None for x in vbs):
                        ints[hv] = (v0, vbs)
            return ints
        ints = find_ints()
        # variables that advance in lock-step are one counter
        steps_ = {}
        for hv, (v0, vbs) in ints.items():
            if not (v0.op in ("int", "lin") or isnum(v0)):
                continue
            ds = {sub(vb, hv) for vb in vbs}
            if len(ds) == 1 and next(iter(ds)).op == "int" and next(iter(ds)).a[0]:
                steps_[hv] = next(iter(ds)).a[0]
        prim = next((hv for hv in sorted(steps_) if steps_[hv] == 1 and ints[hv][0] is I(0)), None) or \
            next((hv for hv in sorted(steps_) if steps_[hv] == 1), None)
        mrg = {hv: add(ints[hv][0], scale(sub(prim, ints[prim][0]), k)) for hv, k in steps_.items() if hv is not prim} if prim is not None else {}
        if mrg:
            for c in cur:
                cur[c] = subst(cur[c], mrg)
                w.cells[c] = cur[c]
            rs = iterate(w.clone())
            backs = [o for o in rs if o.kind == "hdr"]
            if not backs:
                return rs
            ints = find_ints()
        ind = []
        for hv, (v0, vbs) in ints.items():
            steps = [sub(vb, hv) for vb in vbs]
            if v0.op in ("int", "lin") or v0 in TYHINT or isnum(v0):
                if all(o.st.lb(d) is not None and o.st.lb(d) >= 0 for o, d in zip(backs, steps)):
                    ind.append(sub(hv, v0))
                if all(o.st.lb(scale(d, -1)) is not None and o.st.lb(scale(d, -1)) >= 0 for o, d in zip(backs, steps)):
                    ind.append(sub(v0, hv))
                if v0 in TYHINT:
                    TYHINT.setdefault(hv, TYHINT[v0])
        # counters with a loop-invariant upper bound used as guard
        counters, loose = {}, {}
        for hv, (v0, vbs) in ints.items():
            if not all(sub(vb, hv) is I(1) for vb in vbs):
                continue
            bound = None
            cands = None
            for o in backs:
                mine = set()
                for c, truth in linked(o.st.path, st0.path):
                    x = c
                    tr = truth
                    while x.op == "not":
                        x, tr = x.a[0], not tr
                    if x.op == "lt" and tr:
                        d = sub(x.a[1], x.a[0])   # n - i >= 1
                        n = add(d, hv)
                        if not contains(n, hv) and not any(contains(n, y) for y in ints if y is not hv):
                            mine.add(n)
                    elif x.op == "eq" and not tr and hv in slices and slices[hv] in (add(sub(x.a[0], x.a[1]), hv), add(sub(x.a[1], x.a[0]), hv)):
                        mine.add(slices[hv])      # the rest is not empty
                cands = mine if cands is None else cands & mine
            good = [n for n in sorted(cands or ()) if w.lb(sub(n, v0)) is not None and w.lb(sub(n, v0)) >= 0]
            for n in good:
                ind.append(sub(n, hv))
            # of several guards the tightest one is the number of passes
            bound = next((n for n in good if all(n is n2 or w.decide(le(n, n2)) is True for n2 in good)), good[0] if good else None)
            if bound is not None:
                counters[hv] = (v0, bound)
            elif cands and v0.op == "int":
                loose[hv] = (v0, sorted(cands)[0])       # (there may be no pass at all because it starts behind the end)
        # lengths preserved by element stores
        ev = LoopEv(where)
        ev.entry = orig
        w.ev = (w.ev, ("loop", ev))
        mark_ev, mark_path = w.ev, w.path
        for e in ind:
            w.add_lin(e)
        for c, v in cur.items():
            v0 = orig[c]
            if v.op == "hv" and v is not v0 and islike_seq(v0):
                if all(o.st.cells[c].op == "store" and o.st.cells[c].a[0] is v for o in backs if c in o.st.cells):
                    d = sub(length(v), length(v0))
                    w.equate(d)
        rs = iterate(w)
        backs = [o for o in rs if o.kind == "hdr"]
        outs = [o for o in rs if o.kind != "hdr"]
        for o in backs:
            ev.backs.append((linked(o.st.path, mark_path), linked(o.st.ev, mark_ev), o.st))
        ev.exits = len(outs)
        ev.hvs = {hv: v0 for hv, (v0, _) in ints.items()}
        # what each class of pass appends to each accumulator (which starts empty)
        ev.accs = {}
        for c, v in cur.items():
            for path, acc in hv_at(v, lid, True):
                per = []
                for o in backs:
                    vb = at_path(o.st.cells.get(c, UNIT), path)
                    ps_ = (vb.a if vb.op == "map" else pieces(vb)) if vb is not None else ()
                    ks = [i for i, p in enumerate(ps_) if p.op == "splice" and p.a[0] is acc]
                    per.append(tuple(ps_[ks[0] + 1:]) if len(ks) == 1 and not any(contains(p, acc) for p in ps_[ks[0] + 1:]) else None)
                ev.accs[acc] = per
            for x in walk(v):
                if x.op == "hv" and x.a[0] == lid and x.a[1] == "accp":
                    ev.accs[x] = "prepend"
        # comprehension lifting
        ctr = next(((hv, x) for hv, x in sorted(counters.items(), key=lambda kv: kv[0].id) if x[0] is I(0)), None) or \
            next(((hv, x) for hv, x in sorted(counters.items(), key=lambda kv: kv[0].id) if x[0].op == "int"), None)
        cnt_ = ctr or next(((hv, x) for hv, x in sorted(counters.items(), key=lambda kv: kv[0].id)), None)
        cnt_ = cnt_ or next(((hv, x) for hv, x in sorted(loose.items(), key=lambda kv: kv[0].id)), None)
        if cnt_:
            ev.count = (cnt_[0],) + cnt_[1]
            LOOPBY[cnt_[0]] = ev
        if ctr and backs:
            hv, (v0, bound) = ctr
            if v0 is I(0):
                ev.counter = (hv, bound)
            m = {}
            for c, v in cur.items():
                s.lift(c, v, orig[c], backs, hv, bound, mark_path, lid, m, v0)
            if m:
                for o in outs:
                    done = o.st.decide(le(bound, hv)) is True
                    if not done:
                        continue
                    for c in list(o.st.cells):
                        o.st.cells[c] = subst(o.st.cells[c], m)
                    if isinstance(o.val, Term):
                        o.val = subst(o.val, m)
        if not outs:
            sd = w.clone()
            return [Out("div", sd, None, where)]
        return outs
    def snap_piece(s, st, q):
        if q.op == "one" and any(x.op == "ref" for x in walk(q.a[0])):
            return one(s.snap(st, q.a[0]))
        return q
    def lift(s, c, v, v0, backs, hv, bound, mark, lid, m, start=None):
        """accumulate-in-a-loop -> comprehension"""
        for path, acc in hv_at(v, lid, True):
            alts = []
            kind = None
            for o in backs:
                vb = at_path(o.st.cells.get(c, UNIT), path)
                if vb is None:
                    return
                ps_ = pieces(vb)
                ks = [i for i, p in enumerate(ps_) if p.op == "splice" and p.a[0] is acc]
                if vb.op == "store" and vb.a[0] is acc and vb.a[1] is hv and start is I(0):
                    alts.append((facts_of(o, mark), (one(vb.a[2]),)))
                    k2 = "store"
                elif len(ks) == 1 and vb.op in ("seq", "hv"):
                    alts.append((facts_of(o, mark), tuple(ps_[ks[0] + 1:])))
                    k2 = "push"
                elif vb.op == "map" and acc in [x.a[0] for x in vb.a if x.op == "splice"]:
                    i = [j for j, x in enumerate(vb.a) if x.op == "splice" and x.a[0] is acc][0]
                    alts.append((facts_of(o, mark), tuple(vb.a[i + 1:])))
                    k2 = "map"
                elif vb is acc:
                    alts.append((facts_of(o, mark), ()))
                    k2 = kind or "push"
                else:
                    return
                if kind is not None and k2 != kind:
                    return
                kind = k2
            rest = None
            if kind == "store":
                init = at_path(v0, path)
                if init is None or len(alts) != 1:
                    return
                n = length(init)
                if backs[0].st.decide(eq(n, bound)) is not True:
                    if backs[0].st.decide(le(bound, n)) is not True:
                        return
                    rest = s.subseq(backs[0].st, init, bound, n)
                # an element not yet reached still has its initial value
                x = T("elem", acc, hv)
                if contains(alts[0][1][0], x):
                    alts = [(alts[0][0], (subst(alts[0][1][0], {x: s.index(backs[0].st, init, hv)}),))]
                if contains(alts[0][1][0], acc):
                    return
            # elements that borrow from the pass's own variables denote the values borrowed
            alts = [(fs, tuple(s.snap_piece(o.st, q) for q in qs)) for (fs, qs), o in zip(alts, backs)] if len(alts) == len(backs) else alts
            d = max([compdepth_in(x) for x in alts] + [0]) + 1
            bv = T("bv", d)
            sm = {hv: bv if start is I(0) else add(start, bv)}
            # (a loop inside the pass speaks through its own counter)
            inner = lambda f: any(x.op == "hv" and isinstance(x.a[0], int) and x.a[0] > lid for x in walk(f))
            if len(alts) == 1 and not any(inner(p) for p in alts[0][1]):
                alts = [((), alts[0][1])]
            # (a condition which does not change from pass to pass tells alternatives apart as well, unless it is common to all)
            common = set.intersection(*[set(fs) for fs, q in alts])
            alts2 = tuple((tuple((subst(f, sm), tr) for f, tr in fs if contains(f, hv) or inner(f) or (f, tr) not in common), tuple(subst(p, sm) for p in q)) for fs, q in alts)
            cnt = bound if start is I(0) else sub(bound, start)
            m[acc] = T("comp", cnt, alts2) if kind != "map" else T("mapcomp", cnt, alts2)
            if kind == "push" and start is I(0):
                m[acc] = same_all(m[acc], bv)
            COMPHV[m[acc]] = hv if start is I(0) else None
            if rest is not None:
                m[acc] = seq(m[acc], rest)
    def widen(s, w, vb, v0, pos, hvs, path=()):
        """Smallest known shape covering w and vb; w itself when it already covers vb."""
        if w is vb:
            return w
        if w.op == "hv" and w.a[0] == pos[0] and w.a[2] == (pos[1], path):
            return w
        lid, c = pos
        def fields(x, y):
            """x, written field by field when y is"""
            if y.op == "adt" and x.op in ("arg", "fld") and y.a[0] in s.p.adts and y.a[1] == 0:
                fs = s.p.adts[y.a[0]]["variants"][0]["fields"]
                if s.p.adts[y.a[0]]["kind"] == "struct" and len(fs) == len(y.a) - 2:
                    return T("adt", y.a[0], 0, *[T("fld", x, f[0]) for f in fs])
            return x
        w, vb = fields(w, vb), fields(vb, w)
        hv = T("hv", lid, str(c[0])[0], (c, path))
        if v0 is not None and v0 in TYHINT:
            TYHINT.setdefault(hv, TYHINT[v0])
        if w.op == vb.op and w.op in ("adt", "tup", "it", "clo") and len(w.a) == len(vb.a):
            same = all((isinstance(x, Term) and isinstance(y, Term)) or x == y for x, y in zip(w.a, vb.a))
            if same:
                v0f = lambda i: v0.a[i] if v0 is not None and v0.op == w.op and i < len(v0.a) and isinstance(v0.a[i], Term) else None
                a = [s.widen(x, y, v0f(i), pos, hvs, path + (i,)) if isinstance(x, Term) else x for i, (x, y) in enumerate(zip(w.a, vb.a))]
                return T(w.op, *a)
        if w.op == vb.op == "ref" and w.a[0] == vb.a[0]:
            # the rest of a slice that is walked from its front
            sl = lambda r: (r.a[1][:-1], r.a[1][-1]) if r.a[1] and r.a[1][-1][0] == "s" else (r.a[1], None)
            (pw, sw), (pv, sv) = sl(w), sl(vb)
            if pw == pv and sv is not None and (sw is None or sw[2] is sv[2]):
                lo = T("hv", lid, str(c[0])[0], (c, path + ("lo",)))
                if sw is not None and sw[1] is lo:
                    return w
                return T("ref", w.a[0], pw + (("s", lo, sv[2]),))
        if islike_seq(w) and islike_seq(vb) and (w.op == "seq" or vb.op == "seq"):
            P, Q = pieces(w), pieces(vb)
            # already widened: prefix + acc
            accp = [i for i, p in enumerate(P) if p.op == "splice" and p.a[0] is T("hv", lid, "acc", (c, path))]
            if accp:
                i = accp[0]
                if Q[:i] == P[:i] and len(P) == i + 1:
                    return w
                return hv
            accq = T("hv", lid, "accp", (c, path))
            if P and P[0].op == "splice" and P[0].a[0] is accq:
                return w if Q[-len(P):] == P else hv
            if w.op == "seq" and P and len(Q) > len(P) and Q[-len(P):] == P and Q[:len(P)] != P or w.op != "seq" and len(Q) > 1 and Q[-1] is P[0] and Q[0] is not P[0]:
                return seq(T("splice", accq), *P)
            k = 0
            while k < len(P) and k < len(Q) and P[k] is Q[k]:
                k += 1
            if k == len(P) or (k == len(P) - 1 and P[k].op == "lit" and Q[k].op == "lit" and Q[k].a[0].startswith(P[k].a[0])):
                return seq(*P, T("splice", T("hv", lid, "acc", (c, path))))
            return hv
        acc = T("hv", lid, "acc", (c, path))
        if w is acc:
            Q = pieces(vb)
            if Q[0].op == "splice" and Q[0].a[0] is acc:
                return w
            if vb.op == "map" and vb.a and vb.a[0].op == "splice" and vb.a[0].a[0] is acc:
                return w
            if vb.op == "store":
                b = vb
                while b.op == "store":
                    b = b.a[0]
                if b is acc:
                    return w
            return hv
        if w.op == "map" or vb.op == "map":
            P = w.a if w.op == "map" else (T("splice", w),)
            Q = vb.a if vb.op == "map" else (T("splice", vb),)
            accp = [i for i, p in enumerate(P) if p.op == "splice" and p.a[0] is acc]
            if accp:
                i = accp[0]
                if Q[:i + 1] == P[:i + 1] or tuple(Q) == tuple(P[:i]):
                    return w
                return hv
            k = 0
            while k < len(P) and k < len(Q) and P[k] is Q[k]:
                k += 1
            if k == len(P):
                if not P:
                    return T("map", T("splice", acc))
                return T("map", *P, T("splice", acc))
            return hv
        if vb.op == "store":
            b = vb
            while b.op == "store":
                b = b.a[0]
            if b is w:
                return acc
        return hv

def facts_of(o, mark):
    return tuple(linked(o.st.path, mark))

def isnum(v):
    return v.op in ("int", "lin", "len", "byte", "hv", "band", "rem", "be", "discr", "trunc") or v in TYHINT

def islike_seq(v):
    return v.op in ("seq", "repeat", "store", "comp", "data", "sub") or v.op not in ("int", "lin", "adt", "tup", "it", "clo", "ref", "cref", "fn", "map", "uninit", "not", "lt", "eq", "byte", "band", "bor", "hv", "len", "discr", "rem")

def hv_at(v, lid, acc=False, path=()):
    """(path, hv term) for every widened component of this loop inside v."""
    if v.op == "hv" and v.a[0] == lid:
        if (v.a[1] == "acc") == acc:
            yield path, v
        return
    if v.op in ("adt", "tup", "it", "clo"):
        for i, x in enumerate(v.a):
            if isinstance(x, Term):
                yield from hv_at(x, lid, acc, path + (i,))
    elif v.op == "ref" and not acc:
        p = v.a[1][-1] if v.a[1] else None
        if p and p[0] == "s" and p[1].op == "hv" and p[1].a[0] == lid:
            yield path + ("lo",), p[1]
    elif v.op in ("seq", "map") and acc:
        for p in v.a:
            if p.op == "splice" and p.a[0].op == "hv" and p.a[0].a[0] == lid:
                yield path, p.a[0]

def fixed_iter(v, v0):
    """v is v0 one step on, an iterator between two known positions"""
    if v is None or v is v0 or v.op != v0.op or v.op not in ("it", "adt"):
        return False
    if v.op == "adt":
        return v.a[0].endswith("ops::range::Range") and v.a[2].op == "int" and v.a[3].op == "int" and v.a[3].a[0] - v.a[2].a[0] < 24
    if v.a[0] in ("val", "ref"):
        return v.a[2].op == "int" and v.a[3].op == "int" and v.a[3].a[0] - v.a[2].a[0] < 24
    subs = [x for x in v.a if isinstance(x, Term) and (x.op == "it" or x.op == "adt" and x.a[0].endswith("ops::range::Range"))]
    subs0 = [x for x in v0.a if isinstance(x, Term) and (x.op == "it" or x.op == "adt" and x.a[0].endswith("ops::range::Range"))]
    return len(subs) == len(subs0) and any(fixed_iter(x, y) for x, y in zip(subs, subs0))

def at_path(v, path):
    for i in path:
        if i == "lo":
            if v.op != "ref":
                return None
            return v.a[1][-1][1] if v.a[1] and v.a[1][-1][0] == "s" else I(0)
        if v.op not in ("adt", "tup", "it", "clo") or i >= len(v.a) or not isinstance(v.a[i], Term):
            return None
        v = v.a[i]
    return v

def compdepth(c):
    """index of the bound variable of a comprehension"""
    return c_depth(c)

CDEPTH = {}
def c_depth(c):
    if c in CDEPTH:
        return CDEPTH[c]
    CDEPTH[c] = r = c_depth_(c)
    return r

def c_depth_(c):
    n, alts = c.a
    best = 0
    for fs, q in alts:
        for f, tr in fs:
            for x in walk(f):
                if x.op == "bv":
                    best = max(best, x.a[0])
        for p in q:
            for x in walk(p):
                if x.op == "bv":
                    best = max(best, x.a[0])
    return best

def same_all(q, bv):
    """Every element of S, one after the other, is S; every character of a text is the text."""
    n, alts = q.a
    if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1:
        x = alts[0][1][0]
        y = x.a[0]
        char = x.op == "splice" and y.op == "utf8"
        y = y.a[0] if char else y
        if (char or x.op == "one") and y.op == "elem" and y.a[1] is bv and (y.a[0].op == "chars") == char and n is length(y.a[0]):
            return y.a[0].a[0] if char else y.a[0]
    return q

def compdepth_in(x):
    best = 0
    fs, q = x
    for f, tr in fs:
        for y in walk(f):
            if y.op == "bv":
                best = max(best, y.a[0])
    for p in q:
        for y in walk(p):
            if y.op == "bv":
                best = max(best, y.a[0])
    return best

def refs_in(v, out):
    for x in walk(v):
        if x.op == "ref":
            out.add(x.a[0])
