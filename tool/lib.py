"""What the rules share: the analysed programs, anchors, path summaries, term evaluation and findings."""
import os, sys, json, time
sys.setrecursionlimit(20000)
from engine import *
import engine, models

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SELFTEST = False

class Missing(Exception):
    """A public anchor of the property is gone."""

class Unclear(Exception):
    """A private construct the analysis wanted to read is not there in the form it knows: the obligation stays undecided."""

class Ctx:
    def __init__(c, progs):
        c.progs = progs
        c.viol = {}           # key -> (message, where)
        c.undecided = []      # (obligation, reason)
        c.obl = []            # (name, verdict)
        c.used = set()
        c.paths = 0
        c.callsites = 0
        c.opaque = {}
        c.cache = {}
        c.samples = []
    def prog(c, crate="puck"):
        return c.progs[crate]
    # ---------------------------------------------------------------- anchors
    def fn(c, path=None, crate="puck", self=None, trait=None, name=None, opt=False):
        """A function by its public identity."""
        p = c.progs[crate]
        for r in p.roots:
            if path is not None:
                if "trait" in r or strip_generics(r["path"]).replace("::::", "::") != crate + "::" + path:
                    continue
            else:
                if r["name"] != name:
                    continue
                if trait is not None and r.get("trait", "").split("<")[0].split("::")[-1] != trait:
                    continue
                if trait is None and "trait" in r:
                    continue
                if self is not None and ("self" not in r or strip_generics(p.tydef(r["self"])).split("::")[-1] != self):
                    continue
            if r["key"] in p.bodies:
                return r
        if opt:
            return None
        raise Missing("%s %s" % (crate, path or ("<%s as %s>::%s" % (self, trait, name))))
    def adt(c, suffix, crate="puck"):
        p = c.progs[crate]
        for k in p.adts:
            if k == suffix or k.endswith("::" + suffix):
                return p.adts[k]
        raise Missing("type %s in %s" % (suffix, crate))
    def var(c, adt, name, crate="puck"):
        for i, v in enumerate(c.adt(adt, crate)["variants"]):
            if v["name"] == name:
                return i
        raise Missing("variant %s::%s" % (adt, name))
    def vname(c, adt, i, crate="puck"):
        return c.adt(adt, crate)["variants"][i]["name"]
    def fidx(c, adt, name, crate="puck", ty=None, variant=0):
        fs = c.adt(adt, crate)["variants"][variant]["fields"]
        for i, f in enumerate(fs):
            if f[0] == name:
                return i
        if ty:
            m = [i for i, f in enumerate(fs) if ty in f[1]]
            if len(m) == 1:
                return m[0]
        raise Missing("field %s of %s" % (name, adt))
    def pfidx(c, adt, name, crate="puck", ty=None, variant=0):
        """Like fidx for a private field: Unclear instead of Missing."""
        try:
            return c.fidx(adt, name, crate, ty, variant)
        except Missing as e:
            raise Unclear(str(e))
    def pfield(c, v, adt, name, crate="puck", ty=None):
        i = c.pfidx(adt, name, crate, ty)
        if v.op == "adt":
            return v.a[2 + i]
        return T("fld", v, c.adt(adt, crate)["variants"][0]["fields"][i][0])
    def field(c, v, adt, name, crate="puck", ty=None):
        """Field of an adt value (explicit or opaque)."""
        i = c.fidx(adt, name, crate, ty)
        if v.op == "adt":
            return v.a[2 + i]
        return T("fld", v, c.adt(adt, crate)["variants"][0]["fields"][i][0])
    # ---------------------------------------------------------------- analysis
    def interp(c, crate="puck", budget=400000):
        return Interp(c.progs[crate], budget)
    def run(c, root, I=None, args=None, st=None, crate="puck", budget=400000):
        """Path summaries of a function on unconstrained arguments."""
        key = (root["key"], crate)
        fresh = I is None and args is None and st is None
        if fresh and key in c.cache:
            return c.cache[key]
        if I is None:
            I = c.interp(crate, budget)
        st = St() if st is None else st
        b = c.progs[crate].bodies[root["key"]]
        if args is None:
            args = mkargs(I, st, b)
        I.args0 = args
        outs = I.exec_fn(st, root["key"], args)
        c.account(I, outs, crate)
        if fresh:
            c.cache[key] = (I, outs)
        return I, outs
    def chain(c, I, o, root, args, crate="puck"):
        """Call a function in the state a path summary ends in; each result keeps only its own events."""
        st = o.st.clone()
        mark_e, mark_p = st.ev, st.path
        outs = I.exec_fn(st, root["key"], args)
        c.account(I, outs, crate)
        return [(x, linked(x.st.ev, mark_e), linked(x.st.path, mark_p)) for x in outs]
    def account(c, I, outs, crate="puck"):
        for k in I.used:
            c.used.add(c.progs[crate].bodies[k]["path"] if k in c.progs[crate].bodies else str(k))
        c.paths += len(outs)
        c.callsites += I.callsites
        for k, v in I.opaque.items():
            c.opaque[k] = c.opaque.get(k, 0) + v
        for o in outs:
            learn(o.events())
    # ---------------------------------------------------------------- verdicts
    def ok(c, name):
        c.obl.append((name, "holds"))
    def bad(c, key, msg, where=None, detail=None):
        c.obl.append((key, "violated"))
        if key not in c.viol:
            c.viol[key] = (msg, where, detail)
    def never(c, name, msg, where=None, sure=False):
        """Nothing was seen to succeed: a violation only when every path was read (or, SURE, is known not to be one)."""
        if c.undecided and not sure:
            c.unk(name, msg)
        else:
            c.bad(name, msg, where)
    def unk(c, name, why):
        c.obl.append((name, "undecided"))
        c.undecided.append((name, str(why)))
    def must(c, name, verdict, msg, where=None, detail=None):
        """Three-valued obligation."""
        if verdict is True:
            c.ok(name)
        elif verdict is False:
            c.bad(name, msg, where, detail)
        else:
            c.unk(name, verdict if isinstance(verdict, str) else msg)

_ARGTY = {}
def mkargs(I, st, body):
    # what earlier functions' arguments were known to be says nothing about this one's
    for i in range(body["argc"]):
        a, k = T("arg", i), (I.p.crate, body["locals"][i + 1][0])
        if _ARGTY.setdefault(a, k) != k:
            _ARGTY[a] = k
            for tab in (engine.TYHINT, engine.DISCRS):
                for t in [t for t in tab if contains(t, a)]:
                    del tab[t]
    return [I.mkarg(st, T("arg", i), body["locals"][i + 1][0]) for i in range(body["argc"])]

# -------------------------------------------------------------------- events
def flat(evs):
    """Events of a path with loop passes inlined (one arbitrary pass each) - for 'anything anywhere' queries."""
    for e in evs:
        if e[0] == "loop":
            for fs, es, st in e[1].backs:
                yield from flat(es)
        yield e

def flat_spawn(evs):
    for e in flat(evs):
        yield e
        if e[0] == "spawn":
            for o in e[3] or []:
                yield from flat_spawn(o.events())

def is_ok(v):
    return v.op == "adt" and v.a[0].endswith("result::Result") and v.a[1] == 0
def is_err(v):
    return v.op == "adt" and v.a[0].endswith("result::Result") and v.a[1] == 1
def is_some(v):
    return v.op == "adt" and v.a[0].endswith("option::Option") and v.a[1] == 1
def is_none(v):
    return v.op == "adt" and v.a[0].endswith("option::Option") and v.a[1] == 0
def pay(v):
    return v.a[2]
def adtname(v):
    return v.a[0].split("::")[-1] if v.op == "adt" else None

# -------------------------------------------------------------------- evaluation of terms under a valuation
def ev(t, env, memo=None):
    """Integer value of t when env(atom) gives one for each atom; None if unknown."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = _ev(t, env, memo)
    memo[t] = r
    return r

def _ev(t, env, memo):
    op, a = t.op, t.a
    if op == "int":
        return a[0]
    x = env(t)
    if x is not None:
        return x
    E = lambda y: ev(y, env, memo)
    if op == "lin":
        r = a[0]
        for k, c in a[1]:
            v = E(k)
            if v is None:
                return None
            r += c * v
        return r
    if op == "not":
        v = E(a[0])
        return None if v is None else 1 - v
    if op in ("band", "bor", "bxor", "shl", "shr", "rem", "div", "lt", "eq"):
        x, y = E(a[0]), E(a[1])
        if op == "band" and (x == 0 or y == 0):
            return 0
        if x is None or y is None:
            return None
        if op == "band": return x & y
        if op == "bor": return x | y
        if op == "bxor": return x ^ y
        if op == "shl": return x << y
        if op == "shr": return x >> y
        if op == "rem": return None if y == 0 or x < 0 or y < 0 else x % y
        if op == "div": return None if y == 0 or x < 0 or y < 0 else x // y
        if op == "lt": return int(x < y)
        return int(x == y)
    if op == "min":
        x, y = E(a[0]), E(a[1])
        return None if x is None or y is None else min(x, y)
    if op == "len" and a[0].op == "split" and a[0].a[0] in ("chunks", "chunks_exact") and a[0].a[2].op == "int" and a[0].a[2].a[0] > 0:
        x, k = E(length(a[0].a[1])), a[0].a[2].a[0]
        return None if x is None else x // k if a[0].a[0] == "chunks_exact" else -(-x // k)
    if op == "trunc":
        v = E(a[0])
        return None if v is None else v & ((1 << a[1]) - 1)
    if op == "icast":
        v = E(a[0])
        if v is None:
            return None
        v &= (1 << a[1]) - 1
        return v - (1 << a[1]) if v >> (a[1] - 1) else v
    if op == "be":
        r = 0
        off = E(a[1])
        if off is None:
            return None
        for i in range(a[2]):
            v = env(T("byte", a[0], I(off + i)))
            if v is None:
                return None
            r = r << 8 | v
        return r
    if op == "byte" and a[1].op != "int":
        off = E(a[1])
        if off is None:
            return None
        return env(T("byte", a[0], I(off)))
    return None

def facts_hold(facts, env):
    """True / False / None (depends on something env does not fix)."""
    r = True
    for f, tr in facts:
        v = ev(f, env)
        if v is None:
            r = None
        elif bool(v) != tr:
            return False
    return r

# library functions whose result the rules read exactly (anything else under 'pure' is a value the analysis does not know)
KNOWN_PURE = {"str::to_ascii_lowercase", "str::to_ascii_uppercase", "u8::to_ascii_lowercase", "str::trim", "str::trim_start", "str::trim_end",
              "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "parse", "base64::config"}
KNOWN_TERMS = set()     # loop counters ('the entry of this pass') and heads as received: exact descriptions, not lost precision
def learn(evs, seen=None):
    for e in evs:
        if e[0] == "loop":
            if e[1] in LEARNT:
                continue
            LEARNT.add(e[1])
            if e[1].counter:
                KNOWN_TERMS.add(e[1].counter[0])
            for fs, es, st in e[1].backs:
                learn(es)
        elif e[0] == "httparse":
            KNOWN_TERMS.add(e[1])
            for x in walk(e[1]):
                if x.op == "hv":
                    KNOWN_TERMS.add(x)
        elif e[0] == "spawn":
            for o in e[3] or []:
                learn(o.events())
LEARNT = set()

def opaque_in(t, ok=()):
    """An uninterpreted operation inside t (the abstraction lost something), or None.  Loop counters used as the index of
    an element are not opaque: they denote 'the element of this pass'."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen or x in KNOWN_TERMS:
            continue
        seen.add(x)
        if x.op in ("pure", "after", "rec", "clobbered", "hv", "uninit", "callptr", "drained", "const"):
            if not (x.op in ok or (x.op == "pure" and (x.a[0] in ok or x.a[0] in KNOWN_PURE))):
                return x
        if x.op == "ext" and x in engine.UNKNOWN_EXT and x.a[0] not in ok:
            return x
        if x.op in ("mkey", "mval", "elem") and x.a[1].op in ("hv", "bv"):
            st.append(x.a[0])
            continue
        st.extend(x.a)
    return None

def show(t, n=300):
    s = ps(t)
    return s if len(s) <= n else s[:n] + "…"

def showfacts(o, n=600):
    s = " & ".join(("" if t else "!") + ps(f) for f, t in o.facts())
    return s if len(s) <= n else s[:n] + "…"

# -------------------------------------------------------------------- byte layout of a written sequence
def layout(v, env):
    """Pieces of a written sequence: ints (bytes), ('?', term) unknown byte, ('*', term) a run of bytes."""
    out = []
    for p in pieces(v):
        if p.op == "lit":
            out += list(p.a[0])
        elif p.op == "one":
            x = ev(p.a[0], env)
            out.append(x & 255 if x is not None and 0 <= x < 256 else ("?", p.a[0]) if x is None else ("over", x))
        else:
            q = p.a[0]
            if q.op in ("be_bytes", "le_bytes"):
                x = ev(q.a[0], env)
                if x is None:
                    out += [("?", q)] * q.a[1]
                else:
                    out += list((x & ((1 << 8 * q.a[1]) - 1)).to_bytes(q.a[1], "big" if q.op == "be_bytes" else "little"))
            elif q.op == "repeat" and q.a[1].op == "int" and q.a[0].op == "int":
                out += [q.a[0].a[0]] * q.a[1].a[0]
            elif q.op == "sub":
                lo, hi, n = ev(q.a[1], env), ev(q.a[2], env), ev(length(q.a[0]), env)
                if lo == 0 and hi == n and n is not None:
                    out.append(("*", q.a[0]))
                elif lo == hi and lo is not None:
                    pass
                else:
                    inner = layout(q.a[0], env)
                    if lo is not None and hi is not None and hi <= len(inner) and all(isinstance(x, int) for x in inner[:hi]):
                        out += inner[lo:hi]
                    else:
                        out.append(("*", q))
            else:
                out.append(("*", q))
    return out

def lenv(m):
    """valuation from a dict of terms"""
    return lambda t: m.get(t)

# -------------------------------------------------------------------- assume-guarantee hooks
def hook_result(I_, norm, tag, pick=lambda callee: True):
    """Replace calls of a function returning Result by 'either outcome': event (tag, args, ok, term)."""
    def h(I2, st, callee, args, atys, rty):
        if rty is None or not pick(callee):
            return None
        d = I2.p.types[rty]
        if d["k"] != "adt" or len(d.get("args", ())) != 2:
            return None
        snaps = tuple(I2.snap(st, a) for a in args)
        r = st.fresh(tag, *snaps)
        outs = []
        for i in (0, 1):
            s2 = st.clone()
            x = T("res", r, i)
            I2.hint_ty(x, d["args"][i])
            if I2.p.types[d["args"][i]]["k"] == "tup" and not I2.p.types[d["args"][i]].get("ts"):
                x = UNIT
            s2.event(tag, snaps, i == 0, x)
            outs.append(Out("ret", s2, T("adt", "core::result::Result", i, x)))
        return outs
    I_.hooks[norm] = h
