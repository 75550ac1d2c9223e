"""Views of path summaries in HTTP terms: what was written to a stream, what a path knows about a header map."""
from lib import *

# -------------------------------------------------------------------- written bytes
def items_of(v):
    """Sequence value -> [('b', bytes) | ('t', term) | ('each', idx, bound, [(facts, items)])]"""
    out = []
    for p in pieces(v):
        if p.op == "lit":
            put(out, ("b", p.a[0]))
        elif p.op == "one":
            x = p.a[0]
            put(out, ("b", bytes([x.a[0]])) if x.op == "int" and 0 <= x.a[0] < 256 else ("1", x))
        else:
            q = p.a[0]
            if q.op == "comp":
                d = T("bv", engine.compdepth(q))
                out.append(("each", d, q.a[0], [(tuple(alt[0]), items_of(seq(*alt[1]))) for alt in q.a[1]]))
            else:
                out.append(("t", q))
    return out

def put(out, x):
    if x[0] == "b" and out and out[-1][0] == "b":
        out[-1] = ("b", out[-1][1] + x[1])
    elif x[0] != "b" or x[1]:
        out.append(x)

def merge(items):
    out = []
    for x in items:
        put(out, x)
    return out

class Wire:
    def __init__(s):
        s.items, s.fail, s.partial, s.unk, s.events = [], False, False, None, 0

def same_stream(a, b):
    return a is b

def wire(evs, is_stream):
    """What the events write to a stream, in order."""
    w = Wire()
    for e in evs:
        if e[0] == "w" and is_stream(e[1]):
            w.events += 1
            if e[3]:
                w.items += items_of(e[2])
            else:
                w.fail = True
        elif e[0] == "w_partial" and is_stream(e[1]):
            w.events += 1
            w.partial = True
            w.items.append(("t", T("partial", e[2])))
        elif e[0] == "copy" and is_stream(e[2]):
            w.events += 1
            w.items.append(("copy", e[1]))
            if not e[3]:
                w.fail = True
        elif e[0] == "flush" and len(e) > 2 and is_stream(e[1]) and not e[2]:
            w.fail = True
        elif e[0] == "loop":
            alts = []
            for fs, es, st in e[1].backs:
                x = wire(es, is_stream)
                if x.partial:
                    w.partial = True
                if x.unk:
                    w.unk = x.unk
                w.events += x.events
                alts.append((tuple(fs), x.items))
            if any(a[1] for a in alts):
                ctr = e[1].counter
                if ctr is None:
                    w.unk = "bytes written in a loop whose bound is not known (%s)" % (e[1].where,)
                w.items.append(("each", ctr[0] if ctr else None, ctr[1] if ctr else None, alts))
    w.items = merge(w.items)
    return w

def show_items(its, n=400):
    s = " ".join(repr(x[1])[1:] if x[0] == "b" else show(x[1], 120) if x[0] in ("t", "1") else "body(%s)" % show(x[1], 80) if x[0] == "copy"
                 else "each{%s}" % " | ".join(show_items(a[1], 160) for a in x[3]) for x in its)
    return s if len(s) <= n else s[:n] + "…"

# -------------------------------------------------------------------- entries of a map seen through iteration / sorting
def _elem_of_comp(S, i):
    """Element i of a one-alternative, one-element-per-pass comprehension."""
    if S.op == "comp" and len(S.a[1]) == 1 and not S.a[1][0][0] and len(S.a[1][0][1]) == 1 and S.a[1][0][1][0].op == "one":
        return subst(S.a[1][0][1][0].a[0], {T("bv", engine.compdepth(S)): i})
    if S.op == "comp" and len(S.a[1]) > 1:
        ones = {a[1] for a in S.a[1] if a[1]}
        if len(ones) == 1:
            ps_ = next(iter(ones))
            if len(ps_) == 1 and ps_[0].op == "one":
                # a selection: its i-th element is the element of some pass
                return subst(ps_[0].a[0], {T("bv", engine.compdepth(S)): T("kept", S, i)})
    return None

def resolve(t):
    """Push projections through sorted comprehensions: elem(sorted(comp(f), k), i).j -> f.j at the permuted index."""
    if t.op == "fld":
        b = resolve(t.a[0])
        if b.op == "tup":
            j = t.a[1]
            if isinstance(j, str) and j.isdigit():
                j = int(j)
            if isinstance(j, int) and j < len(b.a):
                return resolve(b.a[j])
        return T("fld", b, *t.a[1:])
    if t.op == "elem":
        S = resolve(t.a[0]) if t.a[0].op in ("fld", "elem") else t.a[0]
        perm = ()
        i = t.a[1]
        while S.op in ("sorted", "dedup"):
            if S.op == "dedup":
                i = T("kept", S, T("perm", S, perm, i) if perm else i)
                perm = ()
            else:
                perm += (S.a[1],)
            S = S.a[0]
        i = T("perm", S, perm, i) if perm else i
        x = _elem_of_comp(S, i)
        if x is not None:
            return resolve(x)
        return T("elem", S, i)
    return t

def entry(t):
    """('key'|'val', map, index) when t is the key/value of a map entry."""
    t = resolve(t)
    if t.op == "mkey":
        return ("key", t.a[0], t.a[1])
    if t.op == "mval":
        return ("val", t.a[0], t.a[1])
    if t.op == "mget":
        k = entry(t.a[1])
        if k and k[0] == "key" and k[1] is t.a[0]:
            return ("val", k[1], k[2])
    return None

def count(n):
    """Number of passes when the collection is built explicitly."""
    if n.op == "int":
        return n.a[0]
    if n.op == "len":
        x = n.a[0]
        while x.op == "sorted":
            x = x.a[0]
        if x.op == "comp":
            return count(x.a[0]) if _elem_of_comp(x, I(0)) is not None else None
        m = explicit_map(x)
        return None if m is None or any(litval(k) is None for k, v in m) else len({litval(k) for k, v in m})
    return None

def explicit_map(m):
    """[(key term, value term)] of a map built only by inserts, else None.  Later inserts win."""
    if m.op != "map":
        return None
    d = []
    for x in m.a:
        if x.op != "ins":
            return None
        d = [kv for kv in d if kv[0] is not x.a[0]] + [(x.a[0], x.a[1])]
    return d

# -------------------------------------------------------------------- responses
class Resp:
    """A response as written: status line items, header pairs, header map, body items."""
    def __init__(s):
        s.status, s.pairs, s.hmap, s.order, s.body, s.problem = [], [], None, None, [], None

def parse_msg(items):
    """Split written items into start line, headers, blank line, body.  problem is set when the bytes are not that shape;
    unk when the analysis cannot tell."""
    r = Resp()
    r.unk = None
    its = list(items)
    # start line: up to the first CRLF in a literal
    line = []
    rest = None
    for k, x in enumerate(its):
        if x[0] == "b" and b"\r\n" in x[1]:
            a, _, b = x[1].partition(b"\r\n")
            put(line, ("b", a))
            rest = ([("b", b)] if b else []) + its[k + 1:]
            break
        if x[0] in ("each", "copy"):
            break
        line.append(x)
    r.status = line
    if rest is None:
        r.problem = "no line end after the start line"
        return r
    # headers
    cur = []
    while True:
        if not rest:
            r.problem = "no blank line after the headers"
            return r
        x = rest.pop(0)
        if x[0] == "each" and not cur:
            _, idx, bound, alts = x
            walts = [a for a in alts if a[1]]
            if len(walts) != 1:
                r.unk = "header lines written in %d ways per pass" % len(walts)
                return r
            its2 = merge([("t", resolve(y[1])) if y[0] == "t" else y for y in walts[0][1]])
            if bound is not None and count(bound) == 1 and len(alts) == 1 and not any(y[0] not in "tb" or y[0] == "t" and contains(y[1], idx) for y in its2):
                # exactly one pass: the same as writing it once
                rest = merge([z for y in its2 for z in (items_of(y[1]) if y[0] == "t" else [y])] + rest)
                continue
            r.cond = len(alts) > 1 or bool([f for f in walts[0][0] if not (isinstance(f, tuple) and f[0].op == "lt" and f[1] and contains(f[0], idx))])
            if not (len(its2) == 4 and its2[0][0] == "t" and its2[1][0] == "b" and its2[2][0] == "t" and its2[3][0] == "b"):
                if its2 and all(y[0] in ("t", "b") for y in its2) and not any(opaque_in(y[1]) for y in its2 if y[0] == "t" and not entry(y[1])):
                    r.problem = "a header line is written as %s" % show_items(its2)
                else:
                    r.unk = "header line written as %s" % show_items(its2)
                return r
            k, v = entry(its2[0][1]), entry(its2[2][1])
            ck, cv = resolve(its2[0][1]), resolve(its2[2][1])
            if bound is not None and count(bound) == 1 and litval(ck) is not None and not contains(cv, idx):
                its2[0], its2[2] = ("t", ck), ("t", cv)
                if its2[1][1] in (b": ", b":") and its2[3][1] == b"\r\n":
                    r.pairs.append((items_of(ck), items_of(cv)))
                    continue
            if its2[1][1] not in (b": ", b":") or its2[3][1] != b"\r\n":
                r.problem = "a header line is written as %s" % show_items(its2)
                return r
            if not k or not v:
                r.unk = "header line made of %s" % show_items(its2)
                return r
            if k[0] != "key" or v[0] != "val" or k[1] is not v[1] or k[2] is not v[2]:
                r.problem = "a header line pairs %s with %s" % (show(its2[0][1]), show(its2[2][1]))
                return r
            r.hmap, r.order, r.bound = k[1], k[2], bound
            continue
        if x[0] == "b":
            if not cur and x[1].startswith(b"\r\n"):
                if x[1][2:]:
                    rest.insert(0, ("b", x[1][2:]))
                r.body = rest
                return r
            a, nl, b = x[1].partition(b"\r\n")
            put(cur, ("b", a))
            if nl:
                if b:
                    rest.insert(0, ("b", b))
                k, v = split_header(cur)
                if k is None:
                    r.problem = "a header line is written as %s" % show_items(cur)
                    return r
                r.pairs.append((k, v))
                cur = []
            continue
        if x[0] in ("t", "1"):
            cur.append(x)
            continue
        r.problem = "%s where a header line or the blank line belongs" % x[0]
        return r

def split_header(cur):
    for k, x in enumerate(cur):
        if x[0] == "b" and b":" in x[1]:
            a, _, b = x[1].partition(b":")
            key = merge(cur[:k] + [("b", a)])
            val = merge([("b", b.lstrip(b" "))] + cur[k + 1:])
            return key, val
    return None, None

def as_items(t):
    return items_of(t)

def header_list(r):
    """All headers the response carries as [(key items, value items)], or None if the map is symbolic."""
    out = list(r.pairs)
    if r.hmap is not None:
        m = explicit_map(r.hmap)
        if m is None:
            return None
        out += [(as_items(k), as_items(v)) for k, v in m]
    return out

def status_code(r):
    """The literal status code of a response line, or None."""
    if r.status and r.status[0][0] == "b":
        p = r.status[0][1].split(b" ")
        if len(p) >= 2 and p[0] == b"HTTP/1.1" and p[1].isdigit() and (len(p) > 2 or len(r.status) == 1):
            return int(p[1])
    return None

# -------------------------------------------------------------------- what a path knows about a header map
LOWER = ("str::to_ascii_lowercase",)
UPPER = ("str::to_ascii_uppercase",)
def cased(t):
    """(inner, 'ci-lower'|'ci-upper'|'cs')"""
    if t.op == "pure" and t.a[0] in LOWER:
        return t.a[1], "lower"
    if t.op == "pure" and t.a[0] in UPPER:
        return t.a[1], "upper"
    return t, "cs"

def trimmed(t):
    while t.op == "pure" and t.a[0] in ("str::trim", "str::trim_start", "str::trim_end"):
        t = t.a[1]
    return t

def rekeyed(m):
    """m is the headers under the names in one case: (the headers, 'lower'|'upper'), or None"""
    if m.op == "map" and len(m.a) == 1:
        m = m.a[0].a[0] if m.a[0].op == "splice" else m.a[0]
    if m.op != "mapcomp" or len(m.a[1]) != 1 or m.a[1][0][0] or len(m.a[1][0][1]) != 1 or m.a[1][0][1][0].op != "ins":
        return None
    k, x = m.a[1][0][1][0].a
    n, how = cased(k)
    if how == "cs" or m.a[0].op != "len":
        return None
    H = m.a[0].a[0]
    if n.op == "mkey" and x.op == "mval" and n.a[0] is H and x.a[0] is H and n.a[1] is x.a[1]:
        return H, how
    if n.op == "fld" and x.op == "fld" and n.a[0] is x.a[0] and n.a[0].op == "elem" and n.a[0].a[0] is H and (n.a[1], x.a[1]) == ("name", "value"):
        return H, how
    return None

def isM(x, M):
    if not isinstance(M, (tuple, list, set, frozenset)):
        M = (M,)
    if x in M:
        return True
    r = rekeyed(x) if x.op in ("map", "mapcomp") else None
    return r is not None and isM(r[0], M)

def key_of(x, M):
    """Index of the entry whose name x is (an entry of the map, or of the parser's header array)."""
    if x.op == "mkey" and isM(x.a[0], M):
        return x.a[1]
    if x.op == "fld" and x.a[1] == "name" and x.a[0].op == "elem" and isM(x.a[0].a[0], M):
        return x.a[0].a[1]
    return None

def key_atom(f, M):
    """f says 'the key of entry i equals a literal': (i, lower-cased literal, ci?)"""
    if f.op == "streq":
        for a, b in (f.a, f.a[::-1]):
            l = litval(b)
            if l is None:
                continue
            x, how = cased(a)
            i = key_of(trimmed(x), M)
            if i is not None:
                r = rekeyed(trimmed(x).a[0]) if trimmed(x).op == "mkey" else None
                how = r[1] if r else how
                if how == "lower" and l != l.lower() or how == "upper" and l != l.upper():
                    return (i, None, True)
                return (i, l.lower(), how != "cs")
    if f.op in ("bool",) and f.a[0] == "mhas" and isM(f.a[1], M):
        l = litval(f.a[2])
        if l is not None:
            r = rekeyed(f.a[1])
            if r and l != (l.lower() if r[1] == "lower" else l.upper()):
                return (T("mhas", f.a[1], f.a[2]), None, True)
            return (T("mhas", f.a[1], f.a[2]), l.lower(), bool(r))
    return None

def val_terms(f, M):
    """indices of the entries whose value f talks about"""
    out = []
    for x in walk(f):
        if x.op == "mval" and isM(x.a[0], M):
            out.append(x.a[1])
        elif x.op == "fld" and x.a[1] == "value" and x.a[0].op == "elem" and isM(x.a[0].a[0], M):
            out.append(x.a[0].a[1])
        elif x.op == "mget" and isM(x.a[0], M):
            l = litval(x.a[1])
            out.append(T("mhas", x.a[0], x.a[1]) if l is not None else x)
    return out

class Hdrs:
    """Reasoning about 'header NAME is present and its value satisfies C' on one path."""
    def __init__(h, M, facts, evs, extra=()):
        h.M = M
        h.facts = list(facts) + list(extra)
        h.loops = [e[1] for e in evs if e[0] == "loop"]
        h.unknown = []     # facts about the headers in a form the analysis does not read
    def about(h, f):
        return any(isM(x, h.M) for x in walk(f))
    def counterish(h, f):
        return f.op == "lt" and not any(x.op in ("mval", "mkey", "mget") for x in walk(f)) or (f.op == "not" and h.counterish(f.a[0]))
    def at(h, facts, name, val):
        """Per entry: does the fact list establish / refute 'entry i is NAME with a good value'?
        Yields (i, 'yes'|'no'|'notname', ci)"""
        keys = {}
        name = name.encode() if isinstance(name, str) else name
        for f, tr in facts:
            k = key_atom(f, h.M)
            if k:
                keys.setdefault(k[0], []).append((k[1], tr, k[2]))
        for i, ks in keys.items():
            hit = [k for k in ks if k[0] == name]
            if any(k[1] for k in hit):
                ci = any(k[2] for k in hit)
                if val is None:
                    yield i, "yes", ci
                    continue
                vs = [val(f, tr) for f, tr in facts if i in val_terms(f, h.M)]
                if any(v is False for v in vs):
                    yield i, "no", ci
                elif getattr(val, "samples", None) and any(v is None for v in vs):
                    yield i, val.by_sample([(f, tr) for f, tr in facts if i in val_terms(f, h.M)]), ci
                elif any(v == "cs" for v in vs):
                    yield i, "cs-value", ci
                elif any(v is True for v in vs):
                    yield i, "yes", ci
                elif vs:
                    yield i, "?", ci
                else:
                    yield i, "present", ci
            elif hit:
                yield i, "notname", any(k[2] for k in hit)
            elif any(k[1] for k in ks):
                yield i, "othername", True
    def proves(h, name, val):
        """True / False / '?'"""
        r = False
        for i, v, ci in h.at(h.facts, name, val):
            if v == "yes":
                return True
            if v in ("?", "cs-value", "may"):
                r = "?"
            # ("wrong", "both": whatever was asked of the value, a wrong one gets here)
        return r
    def refutes(h, name, val):
        """True; 'cs' (only a case-sensitive comparison failed); '?' ; False"""
        r = False
        for i, v, ci in h.at(h.facts, name, val):
            if v in ("no", "wrong"):
                return True
            if v in ("cs-value", "may", "both"):
                r = "cs-value"
            if v == "?":
                r = r or "?"
            if v == "notname" and i.op == "mhas":
                if ci:
                    return True
                r = "cs"
        for L in h.loops:
            if L.counter is None:
                continue
            hv, bound = L.counter
            if not any(f is lt(hv, bound) and not tr for f, tr in h.facts):
                continue
            if not (bound.op == "len" and isM(bound.a[0], h.M)):
                continue
            ok, weak = True, False
            for fs, es, st in L.backs:
                got = None
                for i, v, ci in h.at(fs, name, val):
                    if i is hv and v in ("notname", "no", "wrong", "othername"):
                        got = "yes" if ci or v in ("no", "wrong") else "weak"
                if got is None:
                    ok = False
                elif got == "weak":
                    weak = True
            if ok and L.backs:
                if not weak:
                    return True
                r = "cs"
        return r
    def unread(h, names):
        """Facts about the header map that are neither key comparisons nor value facts handled by a condition."""
        out = []
        for f, tr in h.facts:
            if h.about(f) and not key_atom(f, h.M) and not val_terms(f, h.M) and not h.counterish(f):
                out.append(f)
        return out

def val_is(word, exact):
    """Value condition: equals / contains WORD, whatever its case."""
    word = word.lower().encode()
    def f(t, tr):
        if t.op == "streq":
            for a, b in (t.a, t.a[::-1]):
                l = litval(b)
                if l is None:
                    continue
                x, how = cased(a)
                y = trimmed(x)
                y, how2 = cased(y)
                if y.op not in ("mval", "mget"):
                    return None
                if l.lower() != word:
                    return None
                if how == "cs" and how2 == "cs":
                    return True if tr else "cs"
                want = l.lower() if "lower" in (how, how2) else l.upper()
                if l != want:
                    return None if tr else "cs"
                return tr if exact else (True if tr else "cs")
            return None
        if t.op == "bool" and t.a[0] in ("contains", "starts_with", "ends_with") and len(t.a) >= 3:
            l = litval(t.a[2])
            x, how = cased(t.a[1])
            if l is None or trimmed(x).op not in ("mval", "mget") or exact:
                return None
            if l.lower() != word:
                return None
            if how == "cs":
                return True if tr else "cs"
            if l != (l.lower() if how == "lower" else l.upper()):
                return None if tr else "cs"
            if t.a[0] != "contains":
                return True if tr else ("cs" if not exact else None)
            return tr
        return None
    def by_sample(fs):
        """Literal tests of the value, tried on texts: which pass them all?  'no' - no good one; 'wrong' - none of the good ones, and one
        which is not good; 'may' - a good one; 'both'."""
        lits = {x for t, tr in fs for y in walk(t) for x in [litval(y)] if x is not None}
        good = [g.encode() for g in samples(word.decode())]
        bad = [l for l in lits | {b"", b"h2c", b"close"} | ({word + b"s", b"x" + word, word + b"-2"} if exact else set()) if (l.strip().lower() != word if exact else word not in l.lower())]
        def passes(w):
            rs = [text_test(t, tr, w) for t, tr in fs]
            return False if False in rs else None if None in rs else True
        b, g = [passes(w) for w in bad], [passes(w) for w in good]
        none = all(x is False for x in g)
        return "both" if True in b and True in g else "wrong" if True in b and none else "may" if True in g else "no" if none else "?"
    def samples(w):
        return [w, w.upper(), w.capitalize()] + ([] if exact else ["keep-alive, " + w, w + ", keep-alive", "keep-alive, " + w.capitalize()])
    f.samples, f.by_sample = True, by_sample
    return f

def text_test(t, tr, w):
    """Does the condition t come out as tr for a header value w?  True / False / None (not a literal test of the value)."""
    def val(x):
        l = litval(x)
        if l is not None:
            return l
        if x.op in ("mval", "mget") or x.op == "fld" and x.a[1] == "value":
            return w
        if x.op == "pure" and len(x.a) == 2:
            y = val(x.a[1]) if isinstance(x.a[1], Term) else None
            f = bytes.lower if x.a[0] in LOWER else bytes.upper if x.a[0] in UPPER else bytes.strip if x.a[0] == "str::trim" else None
            return f(y) if f and y is not None else None
        return None
    if t.op == "not":
        return text_test(t.a[0], not tr, w)
    if t.op == "streq":
        a, b = val(t.a[0]), val(t.a[1])
        return None if a is None or b is None else (a == b) == tr
    if t.op == "bool" and t.a[0] in ("contains", "starts_with", "ends_with") and len(t.a) == 3:
        a, b = val(t.a[1]), val(t.a[2])
        if a is None or b is None:
            return None
        return (b in a if t.a[0] == "contains" else a.startswith(b) if t.a[0] == "starts_with" else a.endswith(b)) == tr
    return None
