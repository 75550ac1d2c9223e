"""Instantiating a path summary at a class of inputs.

The summary of a function over a tree speaks about its arguments only through their fields, the elements of their lists, the
entries of their maps and comparisons of those.  A Shape fixes these for one class of arguments (which fields agree, which keys
are on one side only, how many children each side has); its clauses then have definite truth values and its
comprehensions definite members."""
from lib import *
import engine, strs

class Unknown(Exception):
    def __str__(s):         # terms are only written out when somebody reads the message
        return " ".join(ps(x) if isinstance(x, Term) else str(x) for x in s.args)

class El:
    """An element of the shape; `who` says whose it is."""
    def __init__(s, who, id, name="n0", attributes=(), listeners=(), children=(), text=None, key=None):
        s.who, s.id, s.name, s.text, s.key = who, id, name, text, key
        s.attributes, s.listeners, s.children = list(attributes), list(listeners), list(children)
    def same(s, o):
        return all(getattr(s, f) == getattr(o, f) for f in ("id", "name", "listeners", "text", "key")) and dict(s.attributes) == dict(o.attributes) and \
            len(s.children) == len(o.children) and all(x.same(y) for x, y in zip(s.children, o.children))

class Map:
    def __init__(s, items):
        s.items = items
class Lst:
    """A listener reference."""
    def __init__(s, name, ev):
        s.name, s.ev = name, ev
    def __eq__(s, o):
        return isinstance(o, Lst) and (s.name, s.ev) == (o.name, o.ev)
    __hash__ = None

NONE_ = ("none",)
def opt(x):
    return NONE_ if x is None else ("some", x)

class Empty(list):
    """The empty literal: a text or a list."""
    def __eq__(s, o):
        return isinstance(o, (list, str)) and len(o) == 0
    def __ne__(s, o):
        return not s == o
    def __hash__(s):
        return hash("")

def same(a, b):
    if isinstance(a, Empty) or isinstance(b, Empty):
        return a == b if isinstance(a, Empty) else b == a
    if isinstance(a, El) and isinstance(b, El):
        return a is b or a.same(b)
    if isinstance(a, Map) and isinstance(b, Map):
        return dict(a.items) == dict(b.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

class Shape:
    def __init__(s, c, args, crate):
        s.c, s.args, s.crate = c, args, crate      # args: term -> model value
        s.memo = {}
        s.bind = {}
        s.bk = ()
    def sub(s, more):
        q = Shape(s.c, s.args, s.crate)
        q.bind = dict(s.bind)
        q.bind.update(more)
        return q
    # ------------------------------------------------------------------ values
    def val(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s._val(t)
        return r
    def _val(s, t):
        op, a = t.op, t.a
        if t in s.bind:
            return s.bind[t]
        if t in s.args:
            return s.args[t]
        if op == "int":
            return a[0]
        if op == "lin":
            return a[0] + sum(s.int(k) * v for k, v in a[1])
        if op == "fld":
            x = s.val(a[0])
            return s.field(x, a[1])
        if op == "vf":
            x = s.val(a[0])
            if isinstance(x, tuple) and x and x[0] == "some" and a[1] == 1:
                return x[1]
            raise Unknown(t)
        if op == "elem":
            x = s.val(a[0])
            i = s.int(a[1])
            if isinstance(x, list) and 0 <= i < len(x):
                return x[i]
            raise Unknown(t)
        if op in ("mkey", "mval"):
            x = s.val(a[0])
            i = s.int(a[1])
            if isinstance(x, Map) and 0 <= i < len(x.items):
                return x.items[i][op == "mval"]
            raise Unknown(t)
        if op == "mget":
            x = s.val(a[0])
            d = dict(x.items) if isinstance(x, Map) else {}
            k = s.val(a[1])
            if k in d:
                return d[k]
            raise Unknown(t)
        if op == "bool" and a[0] == "mhas":
            x = s.val(a[1])
            if isinstance(x, Map):
                return int(s.val(a[2]) in dict(x.items))
        if op == "len":
            x = s.val(a[0])
            if isinstance(x, list):
                return len(x)
            if isinstance(x, Map):
                return len(x.items)
            if isinstance(x, str):
                return len(x.encode())
        try:
            return strs.evaluate(t, s.val)
        except strs.NotText:
            pass
        if op == "discr":
            x = s.val(a[0])
            if isinstance(x, tuple) and x and x[0] in ("none", "some"):
                return int(x[0] == "some")
        if op in ("streq", "valeq"):
            return int(same(s.val(a[0]), s.val(a[1])))
        if op == "eq":
            return int(same(s.val(a[0]), s.val(a[1])))
        if op == "lt":
            return int(s.int(a[0]) < s.int(a[1]))
        if op == "not":
            return 1 - s.int(a[0])
        if op == "min":
            return min(s.int(a[0]), s.int(a[1]))
        if op == "dec":
            return ("dec", s.val(a[0]))
        if op == "adt" and a[0].endswith("option::Option"):
            return NONE_ if a[1] == 0 else ("some", s.val(a[2]))
        if op == "adt" and a[0].startswith(s.crate + "::"):
            v = s.c.adt(a[0], s.crate)["variants"][a[1]]
            return ("adt", a[0].split("::")[-1], v["name"], {f[0]: s.val(x) for f, x in zip(v["fields"], a[2:])})
        if op == "seq" and litval(t) is not None:
            return litval(t).decode("utf8", "replace") or Empty()
        if op == "sub" and isinstance(s.val(a[0]), str):
            try:
                return strs.cut(s.val(a[0]), s.int(a[1]), s.int(a[2]))
            except strs.NotText:
                raise Unknown(t)
        if op == "seq" and any(p.op == "lit" for p in a) or op == "seq" and a and all(p.op == "splice" for p in a):
            r = s.text(a)
            if r is not None:
                return r
        if op in ("seq", "comp", "sub", "reversed"):
            return s.items(t)
        if op == "tup":
            return tuple(s.val(x) for x in a)
        raise Unknown(t)
    def text(s, ps_):
        """The text these pieces make up; None when they do not make up a text."""
        out = ""
        some = False
        for p in ps_:
            if p.op == "lit":
                out += p.a[0].decode("utf8", "replace")
                some = True
            elif p.op == "splice":
                v = s.val(p.a[0])
                if isinstance(v, str):
                    some = True
                elif v != []:
                    return None
                out += v or ""
            else:
                return None
        return out if some else None
    def field(s, x, n):
        if isinstance(x, El):
            if n == "attributes": return Map(x.attributes)
            if n == "listeners": return [Lst(*l) for l in x.listeners]
            if n in ("text", "key"): return opt(getattr(x, n))
            if hasattr(x, n): return getattr(x, n)
        if isinstance(x, Lst):
            if n in ("listener_name", "name"): return x.name
            if n in ("js_event", "event", "on"): return x.ev
        if isinstance(x, tuple) and x and x[0] == "adt" and n in x[3]:
            return x[3][n]
        if isinstance(x, tuple) and x and x[0] in ("diff", "create") and n == "ops":
            return [x]
        raise Unknown("field %s" % n)
    def int(s, t):
        v = s.val(t)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unknown(t)
        return v
    # ------------------------------------------------------------------ sequences
    def items(s, t):
        op, a = t.op, t.a
        if op == "seq":
            out = []
            for p in a:
                if p.op == "one":
                    out.append(s.val(p.a[0]))
                elif p.op == "splice":
                    v = s.val(p.a[0])
                    if not isinstance(v, list):
                        raise Unknown(p)
                    out += v
                else:
                    raise Unknown(p)
            return out
        if op == "comp":
            n, alts = a
            bv = T("bv", engine.compdepth(t))
            out = []
            h = engine.COMPHV.get(t)
            for i in range(s.int(n)):
                q = s.sub({bv: i, h: i} if h is not None else {bv: i})
                hit = []
                for fs, qs in alts:
                    r = q.solve(fs)
                    if r is not None:
                        hit.append((r, qs))
                if len({h_[1] for h_ in hit}) != 1:
                    raise Unknown("%d alternatives of" % len(hit), t)
                out += hit[0][0].items(T("seq", *hit[0][1]))
            return out
        if op == "sub":
            x = s.val(a[0])
            lo, hi = s.int(a[1]), s.int(a[2])
            if isinstance(x, list) and 0 <= lo <= hi <= len(x):
                return x[lo:hi]
        if op == "reversed":
            return s.val(a[0])[::-1]
        raise Unknown(t)
    # ------------------------------------------------------------------ clauses
    def truth(s, f):
        """True / False / None"""
        r = s.memo.get(("t", f))
        if r is None:
            try:
                r = s.int(f)
            except (Unknown, KeyError, TypeError):
                r = "?"
            s.memo[("t", f)] = r
        return None if r == "?" else bool(r)
    def solve(s, fs, loops=()):
        """The shape under which these clauses hold - the pass on which each loop was left is chosen - or None.  Raises Unknown."""
        rest = []
        for f, tr in fs:
            v = s.truth(f)
            if v is None:
                rest.append((f, tr))
            elif v != tr:
                return None
        if not rest:
            return s
        # a loop counter still free: the pass on which the loop was left
        for f, tr in rest:
            if f.op == "lt" and f.a[0].op == "hv" and f.a[0] not in s.bind:
                h = f.a[0]
                try:
                    n = s.int(f.a[1])
                except Unknown:
                    continue
                L = engine.LOOPBY.get(h) or next((L for L in loops if L.count and L.count[0] is h), None)
                unknown = None
                lo = s.int(L.count[1]) if L is not None and L.count else 0
                for i in [max(lo, n)] if not tr else range(lo, n):
                    q = s.sub({h: i})
                    try:
                        if (L is None or q.passes(L, i)):
                            r = q.solve(rest, loops)
                            if r is not None:
                                return r
                    except Unknown as e:
                        unknown = e
                        break
                if unknown:
                    raise unknown
                return None
        raise Unknown(rest[0][0])
    def passes(s, L, n):
        """Can the loop have gone through the passes before n?"""
        h = L.count[0]
        for i in range(s.int(L.count[1]), n):
            ok = False
            unk = None
            for fs, es, st in L.backs:
                try:
                    if s.sub({h: i}).solve(fs, [e[1] for e in es if e[0] == "loop"]) is not None:
                        ok = True
                        break
                except Unknown as e:
                    unk = e
            if not ok:
                if unk:
                    raise unk
                return False
        return True
    def taken(s, o):
        """The shape under which the path is taken; None: it is not; Unknown raised when that cannot be told."""
        loops = [e[1] for e in o.events() if e[0] == "loop" and e[1].count]
        try:
            return s.solve(o.facts(), loops)
        except (KeyError, TypeError, IndexError) as e:
            raise Unknown(repr(e))
