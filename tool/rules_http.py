"""HTTP rules."""
from lib import *
from views import *
from views import _elem_of_comp as engine_elem
from rules_ws import message_outs, definite

RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

CAP = 1 << 20
PEER = ("byte", "be", "data", "parses", "parse", "hp", "mval", "mget", "elem")

@rule("A01")
def a01(c):
    """No allocation sized by the peer's say-so: every allocation made while reading a request, a response, a body, a frame or
    a message is bounded by a constant or by the bytes already received."""
    roots = [(c.fn("request::Request::parse"), None), (c.fn("response::Response::parse"), None), (c.fn("ws::frame::Frame::parse"), None)]
    for n in ("into_bytes", "into_string"):
        roots.append((c.fn(self="Body", name=n), None))
    roots.append((c.fn(self="Body", trait="Read", name="read"), None))
    runs = [(r,) + c.run(r) for r, _ in roots]
    runs.append(message_outs(c))
    n = 0
    for root, I_, outs in runs:
        seen = {}
        for o in outs:
            for e in flat(o.events()):
                if e[0] != "alloc":
                    continue
                n += 1
                sz, ub, got = e[1], e[2], e[3]
                if (ub is not None and ub <= CAP) or got:
                    seen.setdefault("ok", sz)
                    continue
                if isinstance(sz, Term) and opaque_in(sz):
                    seen["unk"] = sz
                    continue
                seen["bad"] = sz
        if "bad" in seen:
            c.bad("alloc:" + root["path"], "%s allocates %s elements: the size is what the peer declares, not what it sent, and no constant bounds it" % (root["path"], show(seen["bad"])), root["path"])
        elif "unk" in seen:
            c.unk("alloc:" + root["path"], "allocation of " + show(seen["unk"]))
        else:
            c.ok("alloc:" + root["path"])
    c.samples.append("%d allocation sites x paths" % n)

# ==================================================================== parsing message heads
CRLF2 = b"\r\n\r\n"

def hp_buf(o):
    """The buffer the last successful httparse run looked at, and its header capacity."""
    r = None
    for e in o.events():
        if e[0] == "httparse":
            r = e
    return r

def reads(evs):
    return [e for e in evs if e[0] in ("r", "readall", "r_exact", "rfail")]

def hp(field, buf):
    return T("hp", field, buf)

def hpv(field, buf):
    """The parser's FIELD once it is known to be present."""
    return T("vf", hp(field, buf), 1, 0)

def maps_in(o, extra=()):
    """Header maps the path talks about."""
    out = []
    seen = set()
    def look(t):
        for x in walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("map", "mapcomp") or (x.op == "hp" and x.a[0] == "headers"):
                if x not in out:
                    out.append(x)
    def facts(fs):
        for f, tr in fs:
            look(f)
    facts(o.facts())
    for e in flat(o.events()):
        if e[0] == "loop":
            for fs, es, st in e[1].backs:
                facts(fs)
            if e[1].counter:
                look(e[1].counter[1])
    for t in extra:
        look(t)
    return tuple(out)

def head_headers(v, buf):
    """Is v exactly 'every header the parser saw, name and value as received'?  True / False / reason"""
    H = hp("headers", buf)
    m = v
    if m.op != "map":
        return show(m) if opaque_in(m) else False
    its = [x.a[0] if x.op == "splice" else x for x in m.a]
    if len(its) == 1 and its[0].op in ("mapcomp", "comp"):
        q = its[0]
    elif len(its) == 1 and its[0].op == "extend":
        q = its[0].a[0]
        q = q.a[0] if q.op in ("splice", "seq") and len(q.a) == 1 else q
    else:
        return show(m) if opaque_in(m) or any(x.op not in ("ins", "mapcomp") for x in its) else False
    if q.op not in ("mapcomp", "comp"):
        return show(q)
    if q.a[0] is not T("len", H):
        return show(q.a[0]) if opaque_in(q.a[0]) else False
    d = T("bv", engine.compdepth(q))
    alts = q.a[1]
    e = T("elem", H, d)
    n, val = T("fld", e, "name"), T("fld", e, "value")
    if len(alts) != 1 or alts[0][0]:
        for a in alts:
            for x in a[1]:
                w = x.a[1] if x.op == "ins" else x
                if x.op == "ins" and x.a[0] is n and w.op == "seq" and any(y.op == "splice" and y.a[0].op == "mget" and y.a[0].a[1] is n for y in w.a) and any(y.op == "splice" and trimmed(y.a[0]) is val for y in w.a):
                    return False        # the values of a name which comes twice are run together into one nobody sent
        bad = [f for a in alts for f in a[0]]
        # both alternatives the same insert is not how comps are built: some entries are treated differently
        return False if not any(opaque_in(f[0] if isinstance(f, tuple) else f) for f in bad) else "conditional entry"
    items = alts[0][1]
    if len(items) != 1:
        return False
    x = items[0]
    if x.op == "ins":
        k, w = x.a
    elif x.op == "one" and x.a[0].op == "tup" and len(x.a[0].a) == 2:
        k, w = x.a[0].a
    else:
        return show(x)
    if k is n and w is val:
        return True
    if k is n and (trimmed(w) is val or w is val):
        return True
    lossy = [y for y in walk(w) if y.op == "pure" and "lossy" in str(y.a[0])]
    if lossy:
        return False
    if k is n and alters(w, val) or w is val and alters(k, n):
        return False
    for t in (k, w):
        if opaque_in(t):
            return show(t)
    return False

def alters(w, val):
    """w is some text cut or edited out of val by a library function that changes texts a header may hold."""
    def text(t):
        l = litval(t)
        return l if l is not None else chr(t.a[0]).encode() if t.op == "int" and t.a[0] < 0x110000 and not 0xd800 <= t.a[0] < 0xe000 else None
    def plain(b):
        return bool(b) and all(x == 9 or 32 <= x != 127 for x in b)
    w = trimmed(w)
    if w.op == "pure" and w.a[0] == "str::replace" and len(w.a) == 4 and trimmed(w.a[1]) is val:
        a, b = text(w.a[2]), text(w.a[3])
        return a is not None and b is not None and a != b and plain(a)
    s = None
    if w.op == "pure" and w.a[0] == "slice::join" and len(w.a) == 3:
        s, sep = w.a[1], text(w.a[2])
        if sep is None:
            return False
    elif w.op == "elem" and w.a[1].op == "int":
        s, sep = w.a[0], None
    if s is not None and s.op == "split" and trimmed(s.a[1]) is val:
        by = text(s.a[2]) if s.a[0] in ("str::split", "split") and len(s.a) == 3 else b" " if "whitespace" in s.a[0] else None
        return by is not None and plain(by) and (by != sep or "whitespace" in s.a[0])
    return False

def ends_blank(facts, buf):
    """Does the path know the buffer ends with the blank line that closes a head?  True / None"""
    n = length(buf)
    for f, tr in facts:
        if not tr:
            continue
        if f.op == "streq":
            for a, b in (f.a, f.a[::-1]):
                l = litval(b)
                if l is None:
                    continue
                if l == CRLF2 and a.op == "seq" or l == CRLF2:
                    q = a
                    if q.op == "seq" and len(q.a) == 1 and q.a[0].op == "splice":
                        q = q.a[0].a[0]
                    if q.op == "sub" and q.a[0] is buf and q.a[2] is n and q.a[1] is sub(n, I(4)):
                        return True
                if l in (b"\r\n", b"\n"):
                    # the last line read is the empty one
                    ps_ = pieces(buf)
                    q = a.a[0] if a.op == "splice" else a
                    if ps_ and ps_[-1].op == "splice" and (q is ps_[-1].a[0] or a is ps_[-1] or pieces(a) and pieces(a)[-1] is ps_[-1]):
                        return True
        if f.op == "bool" and f.a[0] == "ends_with" and len(f.a) >= 3:
            l = litval(f.a[2])
            if l is not None and l.endswith(b"\n\r\n") and f.a[1] is buf:
                return True
    return None

def not_ended(facts, st, buf):
    """A pass that goes on reading: does it know the head is not complete yet?"""
    for f, tr in facts:
        g, t2 = f, tr
        while g.op == "not":
            g, t2 = g.a[0], not t2
        if g.op == "streq" and not t2:
            for a, b in (g.a, g.a[::-1]):
                l = litval(b)
                if l in (CRLF2, b"\r\n", b"\n", b"\n\r\n"):
                    if l == CRLF2:
                        n = length(buf)
                        q = a
                        if q.op == "seq" and len(q.a) == 1 and q.a[0].op == "splice":
                            q = q.a[0].a[0]
                        if q.op == "sub" and q.a[0] is buf and not (q.a[2] is n and q.a[1] is sub(n, I(4))):
                            continue
                    return True
        if g.op == "bool" and g.a[0] in ("ends_with", "hp_complete", "contains") and not t2:
            return True
        if g.op == "lt" and t2 and g.a[1].op == "int" and g.a[1].a[0] <= 16 and contains(g.a[0], T("len", buf)) or \
           g.op == "lt" and t2 and g.a[1].op == "int" and g.a[1].a[0] <= 16 and any(x.op in ("len", "ext") for x in walk(g.a[0])):
            return True
        if g.op == "lt" and not t2 and g.a[0].op == "int" and g.a[0].a[0] <= 16 and any(x.op in ("len", "ext") for x in walk(g.a[1])):
            return True
    return False

def data_of(e):
    """Term for the bytes a read event delivered."""
    return T("data", e[1], e[2], e[3])

def pieces_data(v):
    return [p.a[0] for p in pieces(v) if p.op == "splice"]

def accumulated(o, buf):
    """Is the parsed buffer exactly the bytes read from the stream, in order?  True / False / reason"""
    want_top = []
    in_loop = []
    order_ok = True
    for e in o.events():
        if e[0] == "httparse" and e[1] is buf:
            break
        if e[0] == "loop":
            if any(x[0] in ("r", "readall") for x in flat([e])):
                in_loop.append(e[1])
                want_top.append(("acc", e[1]))
        elif e[0] == "r":
            want_top.append(("d", data_of(e), e))
        elif e[0] == "readall":
            return "reads to the end"
    got = list(pieces(buf))
    for w in want_top:
        if not got:
            return False if not opaque_in(buf) else show(buf)
        p = got.pop(0)
        if w[0] == "acc":
            L = w[1]
            a = p.a[0] if p.op == "splice" else None
            if a is None or a not in L.accs:
                # nothing accumulated across passes
                if p.op == "splice" and a.op == "data":
                    return False
                return show(p)
            per = L.accs[a]
            if per == "prepend":
                return False
            for k, (fs, es, st) in enumerate(L.backs):
                ds = [data_of(e) for e in es if e[0] == "r"]
                if any(e[0] == "loop" for e in es):
                    return "nested loop"
                if k >= len(per) or per[k] is None:
                    return "pass not an append"
                mine = [q.a[0] if q.op == "splice" else q for q in per[k]]
                if mine != ds:
                    if any(opaque_in(q) for q in mine if isinstance(q, Term) and q.op != "data"):
                        return "appends %s" % [show(q) for q in mine]
                    return False
        else:
            q = p.a[0] if p.op == "splice" else p
            if q is not w[1]:
                return show(q) if q.op != "data" and opaque_in(q) else False
    if got:
        return False if not any(opaque_in(q) for q in got) else "extra " + show(got[0])
    return True

def body_source(o, body):
    """Everything read so far that the head did not use must still be readable through the body."""
    bufs = {}
    srcs = set()
    for e in flat(o.events()):
        if e[0] == "r":
            srcs.add(e[1])
            if len(e) > 5 and e[5] is not None:
                bufs[e[5]] = e[1]
    inner = [x for x in walk(body) if x.op == "adt" and x.a[0].endswith("BufReader")]
    held = set()
    for x in inner:
        for y in x.a[2:]:
            if isinstance(y, Term) and y.op == "bufid":
                held.add(y)
    if not bufs:
        return True if any(s in set(walk(body)) for s in srcs) else (show(body) if opaque_in(body) else False)
    if set(bufs) <= held:
        return True
    if opaque_in(body):
        return show(body)
    return False

def justified(o, buf, hosts=True):
    """Why a path may refuse the message: a reason string, or None (nothing rules the message out), or '?why'."""
    for e in flat(o.events()):
        if e[0] == "rfail":
            return "the transport failed"
    fs = list(o.facts())
    alls = list(fs)
    for f, tr in fs:
        g, t2 = f, tr
        while g.op == "not":
            g, t2 = g.a[0], not t2
        if g.op == "bool" and not t2 and g.a[0] in ("hp_ok", "hp_complete"):
            return "the head does not parse"
        if g.op == "bool" and not t2 and g.a[0] == "utf8":
            return "a header value is not UTF-8"
        if g.op == "bool" and not t2 and g.a[0] == "url_ok":
            return "the URL does not parse"
        if g.op == "eq" and g.a[0].op == "discr" and g.a[0].a[0].op == "hp":
            present = (g.a[1] is I(1)) == t2 or (g.a[1] is I(0)) == (not t2)
            if g.a[1].op == "int" and not present:
                return "the parser reported no " + str(g.a[0].a[0].a[0])
        if g.op == "eq" and t2 and g.a[1] is I(0) and any(x.op == "ext" and x.a[0] in ("nuntil", "n") for x in (g.a[0],)):
            return "the stream ended"
    return None

def text_at(f, tr, p):
    """What a fact says about the text p at fixed positions: ('=' | '!', offset, bytes), ('len<', n), or None when it is not of such a form."""
    g, t2 = f, tr
    while g.op == "not":
        g, t2 = g.a[0], not t2
    k = "=" if t2 else "!"
    if g.op == "bool" and g.a[0] == "starts_with" and g.a[1] is p and litval(g.a[2]) is not None:
        return (k, 0, litval(g.a[2]))
    if g.op == "eq":
        for x, y in (g.a, g.a[::-1]):
            if x.op in ("byte", "elem") and x.a[0] is p and x.a[1].op == "int" and y.op == "int" and 0 <= y.a[0] < 256:
                return (k, x.a[1].a[0], bytes([y.a[0]]))
            if x is length(p) and y.op == "int":
                return ("len<", y.a[0] + 1) if t2 else ("len!", y.a[0])
    if g.op == "lt":
        if g.a[0] is length(p) and g.a[1].op == "int":
            return ("len<", g.a[1].a[0]) if t2 else ("len!", None)
        if g.a[1] is length(p) and g.a[0].op == "int":
            return ("len!", None) if t2 else ("len<", g.a[0].a[0] + 1)
    if g.op == "streq":
        for x, y in (g.a, g.a[::-1]):
            l = litval(y)
            if l is None:
                continue
            if x is p:
                return ("==", 0, l) if t2 else ("!=", 0, l)
            if x.op == "sub" and x.a[0] is p and all(z.op == "int" for z in x.a[1:3]) and x.a[2].a[0] - x.a[1].a[0] == len(l):
                return (k, x.a[1].a[0], l)
    if g.op == "bool" and g.a[0] in ("url_ok", "utf8"):
        return ("other",)
    return None

def starts(facts, p, lit):
    """True/False/None: does the path know whether p starts with lit?"""
    got, no = {}, False
    for f, tr in facts:
        w = text_at(f, tr, p)
        if w is None:
            continue
        if w[0] in ("=", "=="):
            for i, b in enumerate(w[2]):
                got[w[1] + i] = b
            if w[0] == "==" and len(w[2]) < len(lit):
                no = True
        elif w[0] == "!" and lit[w[1]:w[1] + len(w[2])] == w[2]:
            no = True
        elif w[0] == "len<" and w[1] <= len(lit):
            no = True
    if all(got.get(i) == b for i, b in enumerate(lit)):
        return True
    return False if no or any(i in got and got[i] != b for i, b in enumerate(lit)) else None

def unread_about(facts, p, mt):
    """The first fact about the target or the method whose form the rule does not read (so nothing may be concluded from its absence)."""
    for f, tr in facts:
        if p is not None and contains(f, p) and text_at(f, tr, p) is None:
            return f
        if mt is not None and contains(f, mt) and not (f.op == "streq" and any(litval(b) is not None and cased(a)[0] is mt for a, b in (f.a, f.a[::-1]))):
            return f
    return None

def method_is(facts, mt, word):
    """True/False/None: does the path know the request's method token is WORD (in any case)?"""
    r = None
    for f, tr in facts:
        if f.op != "streq":
            continue
        for a, b in (f.a, f.a[::-1]):
            l = litval(b)
            if l is None:
                continue
            x, how = cased(a)
            if x is mt and l.lower() == word:
                if how == "cs" and not tr:
                    continue
                return tr
    return r


PARSERS = [("request", "Request"), ("response", "Response")]

def parse_outs(c, which):
    root = c.fn("%s::%s::parse" % (which, which.capitalize()))
    I_, outs = c.run(root)
    return root, I_, outs

def classify(I_, o):
    """('some', value) | ('none', None) | ('err', e) | ('?', v)"""
    v = I_.snap(o.st, o.val)
    if is_err(v):
        return "err", pay(v)
    if is_ok(v):
        w = pay(v)
        if is_some(w):
            return "some", pay(w)
        if is_none(w):
            return "none", None
    return "?", v

def none_of(I_, outs):
    """every path is known to end without a message"""
    return all(o.kind == "panic" or o.kind == "ret" and classify(I_, o)[0] in ("err", "none") for o in outs)

def at_eof(o):
    """The path knows the last thing the transport reported was the end of the stream."""
    rs = [e for e in o.events() if e[0] == "r"]
    if not rs:
        return None
    n = rs[-1][3]
    for f, tr in o.facts():
        g, t2 = f, tr
        while g.op == "not":
            g, t2 = g.a[0], not t2
        if g.op == "eq" and t2 and n in g.a and I(0) in g.a:
            return True
        if g.op == "lt" and t2 and g.a[0] is n and g.a[1] is I(1):
            return True
        if g.op == "lt" and not t2 and g.a[0] is I(0) and g.a[1] is n:
            return True
        if g.op == "streq" and t2 and any(litval(x) == b"" for x in g.a):
            return True
    return False

@rule("H01")
def h01(c):
    """No peer can panic the HTTP layer: no path of parsing a request or response, or of reading a body, panics."""
    runs = [parse_outs(c, w) for w, _ in PARSERS]
    for root in [c.fn(self="Body", name="into_bytes"), c.fn(self="Body", name="into_string")]:
        runs.append((root,) + c.run(root))
    rd = c.fn(self="Body", trait="Read", name="read")
    for R in body_runs(c):
        runs.append((rd, R.I, [x for x, _, _ in R.outs]))
    enc = c.fn("response::encoder::Encoder::write_tcp_stream")
    runs.append((enc,) + c.run(enc))
    rw = c.fn("request::Request::write")
    runs.append((rw,) + c.run(rw))
    for root, I_, outs in runs:
        n = 0
        for o in outs:
            if o.kind == "panic":
                c.must("panic:%s:%s" % (root["path"], o.where[0] if isinstance(o.where, tuple) else o.where), False if definite(o) else "possible panic whose condition the analysis does not read: " + showfacts(o, 200),
                       "%s panics (%s)" % (root["path"], o.where), root["path"], showfacts(o))
            else:
                n += 1
        if n:
            c.ok("no-panic:%s:%d paths" % (root["path"], n))

@rule("H02")
def h02(c):
    """A request is parsed faithfully: method, URL, every header and the body source are those of the bytes received; the head
    ends at the first blank line; requests are refused only for a reason, and 'no request' only at the end of the stream."""
    root, I_, outs = parse_outs(c, "request")
    hd = c.pfidx("Request", "headers", ty="HashMap")
    n_some = 0
    for o in outs:
        if o.kind != "ret":
            continue
        k, v = classify(I_, o)
        common_head(c, root, o, k, v, "request")
        if k == "some":
            n_some += 1
            e = hp_buf(o)
            if e is None or not e[2]:
                continue
            buf = e[1]
            M = v.a[2 + hd] if v.op == "adt" else None
            if M is None:
                c.unk("request:value", show(v))
                continue
            req_method(c, root, o, v, buf)
            req_url(c, root, o, v, buf, (M, hp("headers", buf)))
        elif k == "err":
            refusal(c, root, o, v, "request")
    accessors(c, "Request", ("headers", "method", "body", "url"))
    if not n_some:
        c.never("request:never", "no path of Request::parse returns a request", root["path"], none_of(I_, outs))

def accessors(c, ty, which):
    """The public look at a message is at its own parts: fn(&self) -> &part gives that part."""
    p = c.progs["puck"]
    fs = c.adt(ty)["variants"][0]["fields"]
    for nm in which:
        root = c.fn("%s::%s::%s" % (ty.lower(), ty, nm))
        I_ = c.interp()
        st = St()
        X = T("arg", 0)
        _, outs = c.run(root, I_, [I_.mkref(st, X)], st)
        want = c.pfield(X, ty, nm, ty={"headers": "HashMap", "method": "Method", "body": "Body", "url": "Url"}.get(nm))
        for o in outs:
            if o.kind != "ret":
                c.must(ty + "::" + nm, False if o.kind == "panic" and definite(o) else o.kind, "%s panics" % root["path"], root["path"])
                continue
            v = I_.snap(o.st, I_.load(o.st, o.val))
            c.must(ty + "::" + nm, True if v is want else show(v) if opaque_in(v) else False, "%s gives %s" % (root["path"], show(v)), root["path"])

def common_head(c, root, o, k, v, which):
    """What holds for requests and responses alike."""
    name = which
    if k == "?":
        return c.unk(name + ":result", "result is " + show(v))
    if k == "none":
        r = at_eof(o)
        return c.must(name + ":none", True if r else "no read on the path" if r is None else False if definite(o) else showfacts(o, 200),
                      "%s answers 'nothing received' although the stream has not ended" % root["path"], root["path"], showfacts(o))
    if k != "some":
        return
    e = hp_buf(o)
    if e is None or not e[2]:
        return c.unk(name + ":parser", "no successful httparse run on the path")
    buf, cap = e[1], e[3]
    c.must(name + ":capacity", cap.a[0] >= 20 if cap.op == "int" else "capacity " + show(cap), "at most %s headers are accepted" % show(cap), root["path"])
    if v.op != "adt":
        return c.unk(name + ":value", show(v))
    ty = which.capitalize()
    M = v.a[2 + c.pfidx(ty, "headers", ty="HashMap")]
    r = head_headers(M, buf)
    c.must(name + ":headers", r if r in (True, False) else "headers " + str(r), "the headers are not exactly the name/value pairs received: %s" % show(M), root["path"], showfacts(o, 300))
    # the head ends at the blank line, and everything read belongs to it
    r = accumulated(o, buf)
    c.must(name + ":head-bytes", r if r in (True, False) else r, "the bytes parsed as the head are not exactly the bytes read: %s" % show(buf), root["path"])
    b = ends_blank(o.facts(), buf)
    if b is None:
        b = by_bytes(o.facts(), buf)
    if b is None:
        un = any(opaque_in(f) for f, t in o.facts() if any(x is buf for x in walk(f)) and f.op != "lt")
        unread = [e2 for e2 in o.events() if e2[0] == "r" and e2[4] != "until"]
        c.must(name + ":head-end", ("condition not read" if un else "read %s" % unread[0][4] if unread else False),
               "the head is parsed without knowing that it ends with the blank line", root["path"], showfacts(o))
    else:
        c.ok(name + ":head-end")
    for e2 in o.events():
        if e2[0] == "loop" and any(x[0] == "r" for x in flat([e2])):
            L = e2[1]
            for j, (fs, es, st) in enumerate(L.backs):
                if not any(x[0] == "r" for x in es):
                    continue
                b2 = None
                for acc, per in L.accs.items():
                    if isinstance(per, list) and j < len(per) and per[j]:
                        b2 = seq(T("splice", acc), *per[j])
                r = not_ended(fs, st, b2)
                c.must(name + ":head-loop", True if r else (False if not any(opaque_in(f) for f, t in fs if f.op != "lt") else "loop condition not read"),
                       "reading goes on without having checked whether the blank line was reached", root["path"], " & ".join(("" if t else "!") + ps(f) for f, t in fs)[:600])
    body = v.a[2 + c.pfidx(ty, "body", ty="Body")]
    r = body_source(o, body)
    c.must(name + ":body-source", r if r in (True, False) else r, "the body does not continue where the head ended: bytes already buffered are lost (%s)" % show(body, 160), root["path"])

def by_bytes(facts, buf):
    """blank line established byte by byte"""
    n = length(buf)
    got = {}
    for f, tr in facts:
        if f.op == "eq" and tr and f.a[1].op == "int" and f.a[0].op == "elem" and f.a[0].a[0] is buf:
            d = sub(n, f.a[0].a[1])
            if d.op == "int":
                got[d.a[0]] = f.a[1].a[0]
    return True if [got.get(i) for i in (4, 3, 2, 1)] == [13, 10, 13, 10] or [got.get(i) for i in (3, 2, 1)] == [10, 13, 10] else None

def req_method(c, root, o, v, buf):
    m = v.a[2 + c.pfidx("Request", "method", ty="Method")]
    mt = hpv("method", buf)
    if m.op != "adt":
        return c.unk("request:method", show(m))
    name = c.vname("Method", m.a[1])
    if len(m.a) > 2:
        t = m.a[2]
        if t is mt:
            return c.ok("request:method")
        return c.must("request:method", show(t) if opaque_in(t) else False, "the request's method is %s, not the token received" % show(t), root["path"])
    r = method_is(o.facts(), mt, name.lower().encode())
    c.must("request:method:" + name, r if r is not None else (False if definite_about(o, mt) and unread_about(o.facts(), None, mt) is None else "condition not read"), "the request is reported as %s although its method token is not known to be that" % name.upper(), root["path"], showfacts(o, 300))

def definite_about(o, t):
    return not any(opaque_in(f) for f, tr in o.facts() if contains(f, t))

def never_tested(o, t, ok=()):
    """Nothing on this path, its loops' passes included, asks about T, and everything it asks is readable (that a counting
    loop has come to its end says nothing about T)."""
    evs = flat(o.events())
    loops = [e[1] for e in evs if e[0] == "loop"]
    if any(contains(f, t) for L in loops for fs, es, st in L.backs for f, tr in fs):
        return False
    ctr = {L.counter[0] for L in loops if L.counter} | {L.count[0] for L in loops if L.count}
    for f, tr in o.facts():
        if contains(f, t):
            return False
        if opaque_in(f, ok) and not (f.op == "lt" and f.a[0] in ctr and not opaque_in(f.a[1], ok)):
            return False
    return True

ABS = (b"http://", b"https://")
def req_url(c, root, o, v, buf, Ms):
    u = v.a[2 + c.pfidx("Request", "url", ty="Url")]
    p = hpv("path", buf)
    def clear(path=True):
        return definite_about(o, p if path else hpv("method", buf)) and unread_about(o.facts(), p if path else None, None if path else hpv("method", buf)) is None
    if u.op != "url":
        return c.must("request:url", show(u) if opaque_in(u) else False, "the URL is %s" % show(u), root["path"])
    x = u.a[0]
    its = items_of(x)
    fs = o.facts()
    # https:// is not decided once http:// holds etc.: only positive knowledge is needed
    isabs = any(starts(fs, p, a) for a in ABS)
    isorg = starts(fs, p, b"/")
    isconn = method_is(fs, hpv("method", buf), b"connect")
    H = Hdrs(Ms, fs, o.events())
    def host_ok(t):
        e = None
        if t.op == "mval" and isM(t.a[0], Ms):
            e = t.a[1]
        elif t.op == "fld" and t.a[1] == "value" and t.a[0].op == "elem" and isM(t.a[0].a[0], Ms):
            e = t.a[0].a[1]
        elif t.op == "mget" and isM(t.a[0], Ms):
            return (litval(t.a[1]) or b"").lower() == b"host"
        if e is None:
            return show(t) if opaque_in(t) else False
        return any(i is e and w in ("yes", "present") for i, w, ci in H.at(fs, "host", None))
    if x is p or (len(its) == 1 and its[0] == ("t", p)):
        return c.must("request:url:absolute", True if isabs else (False if clear() else "condition not read"), "the request target is taken for an absolute URL without being one", root["path"], showfacts(o, 400))
    if len(its) in (2, 3) and its[0] == ("b", b"http://") and its[1][0] == "t":
        h = host_ok(its[1][1])
        if h is not True:
            return c.must("request:url:host", h, "the URL's authority is %s, not the Host header" % show(its[1][1]), root["path"], showfacts(o, 300))
        if len(its) == 3 and its[2] == ("t", p):
            return c.must("request:url:origin", True if isorg else (False if isorg is False or clear() else "condition not read"), "the request target is appended to the host although it is not an absolute path", root["path"], showfacts(o, 400))
        if len(its) == 3 and its[2] == ("b", b"/") or len(its) == 2:
            return c.must("request:url:connect", True if isconn else (False if clear(False) else "condition not read"), "the request target is dropped although the method is not CONNECT", root["path"], showfacts(o, 400))
    if opaque_in(x):
        return c.unk("request:url", show(x))
    c.bad("request:url", "the request's URL is built as %s" % show_items(its), root["path"], showfacts(o, 400))

def refusal(c, root, o, err, which):
    """A refused message must have been refused for a reason the protocol gives."""
    e = hp_buf(o)
    buf = e[1] if e else None
    j = justified(o, buf)
    nm = adtname(err)
    vn = c.vname(nm, err.a[1]) if nm in ("RequestParseError", "ParseResponseError") else show(err)
    if j:
        return c.ok("%s:refused:%s:%s" % (which, vn, j))
    fs = o.facts()
    if which == "request" and buf is not None:
        p, mt = hpv("path", buf), hpv("method", buf)
        Ms = maps_in(o)
        H = Hdrs(Ms, fs, o.events())
        r = H.refutes("host", None)
        if r is True:
            return c.ok("request:refused:no Host")
        if r == "cs":
            return c.bad("request:refused:host-case", "a request whose Host header is spelt differently is refused: the name is compared case-sensitively", root["path"], showfacts(o, 400))
        if all(starts(fs, p, a) is False for a in ABS) and starts(fs, p, b"/") is False and method_is(fs, mt, b"connect") is False:
            return c.ok("request:refused:target")
    Ms = maps_in(o)
    H = Hdrs(Ms, fs, o.events())
    if H.refutes("content-length", val_parses) is True or any(val_parses(f, tr) is False for f, tr in fs):
        return c.ok("%s:refused:content-length" % which)
    un = [f for f, tr in fs if opaque_in(f)]
    if not un and which == "request" and buf is not None:
        un = [f for f in (unread_about(fs, hpv("path", buf), hpv("method", buf)),) if f is not None]
    if un:
        return c.unk("%s:refused:%s" % (which, vn), "condition not read: " + show(un[0]))
    c.bad("%s:refused:%s" % (which, vn), "a well-formed %s is refused as %s: nothing on the path rules it out" % (which, vn), root["path"], showfacts(o, 900))

INT64 = ("usize", "u64", "u128")
def val_parses(f, tr):
    """Value condition: parses as a number."""
    if f.op == "bool" and f.a[0] == "parses" and any(x.op in ("mval", "mget") or x.op == "fld" and x.a[1] == "value" for x in walk(f)):
        return tr
    return None

@rule("H04")
def h04(c):
    """The length of a body is the Content-Length received (name in any case); without one the length is unknown."""
    for which, ty in PARSERS:
        root, I_, outs = parse_outs(c, which)
        for o in outs:
            if o.kind != "ret":
                continue
            k, v = classify(I_, o)
            if k != "some" or v.op != "adt":
                continue
            e = hp_buf(o)
            if e is None:
                c.unk(which + ":length", "no httparse run on the path")
                continue
            buf = e[1]
            M = v.a[2 + c.pfidx(ty, "headers", ty="HashMap")]
            Ms = (M, hp("headers", buf))
            body = v.a[2 + c.pfidx(ty, "body", ty="Body")]
            L = c.pfield(body, "Body", "length", ty="Option<usize>")
            H = Hdrs(Ms, o.facts(), o.events())
            if is_none(L):
                r = H.refutes("content-length", val_parses)
                if r is True:
                    c.ok(which + ":unknown-length")
                elif r in ("cs",):
                    c.bad(which + ":length:case", "a Content-Length header spelt differently is ignored: the name is compared case-sensitively", root["path"], showfacts(o, 400))
                elif r == "?" or any(opaque_in(f) for f, t in o.facts()):
                    c.unk(which + ":unknown-length", "condition not read: " + showfacts(o, 200))
                else:
                    c.bad(which + ":length:ignored", "the body's length is left unknown although nothing rules out a valid Content-Length", root["path"], showfacts(o, 600))
                continue
            if not is_some(L):
                c.unk(which + ":length", show(L))
                continue
            n = trimmed_num(pay(L))
            if n.op == "pure" and n.a[0] == "parse":
                ty_ = show(n.a[1]).replace("ty(", "").replace(")", "")
                src = trimmed(n.a[2])
                idx = val_terms(src, Ms) if src.op in ("mval", "mget", "fld") else []
                if not idx:
                    c.must(which + ":length:source", show(src) if opaque_in(src) else False, "the body's length is parsed from %s" % show(src), root["path"])
                    continue
                hit = [w for i, w, ci in H.at(o.facts(), "content-length", val_parses) if i in idx]
                good = any(w in ("yes", "present") for w in hit) or (idx[0].op == "mhas" and (litval(idx[0].a[1]) or b"").lower() == b"content-length")
                c.must(which + ":length:source", True if good else (False if definite(o) else "condition not read"), "the body's length comes from a header that is not known to be Content-Length", root["path"], showfacts(o, 400))
                c.must(which + ":length:type", ty_ in INT64 + ("u32",) or ("parsed as " + ty_), "Content-Length is parsed as %s" % ty_, root["path"]) if ty_ not in ("u8", "u16", "i8", "i16", "i32") else \
                    c.bad(which + ":length:type", "Content-Length is parsed as %s: longer bodies lose their length" % ty_, root["path"])
            else:
                c.must(which + ":length", show(n) if opaque_in(n) else False, "the body's length is %s, not the Content-Length received" % show(n), root["path"], showfacts(o, 300))

def trimmed_num(t):
    return t

# ==================================================================== bodies
class BodyRun:
    """One read of a body from a state that constructors and earlier reads can produce."""
    def __init__(r, label, I, outs, n, pos0, ref, buf, blen, rel):
        r.label, r.I, r.outs, r.n, r.pos0, r.ref, r.buf, r.blen, r.rel = label, I, outs, n, pos0, ref, buf, blen, rel

def num(x):
    return isinstance(x, Term) and (x.op in ("int", "lin") or x in engine.TYHINT or engine.isnum(x))

def body_runs(c):
    """Reads from: the constructor's state; two more after it; and the inductive step (a counter field generalised under the
    relation between counter and bytes consumed which constructor and first read exhibit)."""
    if "bodyruns" in c.cache:
        return c.cache["bodyruns"]
    fr = c.fn("body::Body::from_reader")
    rd = c.fn(self="Body", trait="Read", name="read")
    opt = c.adt("Option")
    on = next(k for k in c.progs["puck"].adts if k.endswith("option::Option"))
    out = []
    SRC = T("arg", 0)
    for declared in (True, False):
        I_ = c.interp()
        st = St()
        n = T("declared") if declared else None
        if declared:
            engine.hint(n, 0, engine.ISIZE * 2 + 1)
        arg = T("adt", on, 1, n) if declared else T("adt", on, 0)
        I_, os0 = c.run(fr, I_, [I_.mkarg(st, SRC, c.progs["puck"].bodies[fr["key"]]["locals"][1][0]), arg], st)
        def go(label, o, body, pos0, rel, depth):
            s = o.st.clone()
            ref = I_.mkref(s, body)
            B = T("dest", label)
            engine.hint(T("len", B), 0, engine.ISIZE)
            buf = I_.mkref(s, B)
            o2 = Out("ret", s, UNIT)
            rs = c.chain(I_, o2, rd, [ref, buf])
            R = BodyRun(label, I_, rs, n, pos0, ref, buf, T("len", B), rel)
            out.append(R)
            return R
        for o in os0:
            if o.kind != "ret":
                continue
            body = o.val
            v0 = I_.snap(o.st, body)
            R = go("first" if declared else "first, unknown length", o, body, I(0), None, 0)
            # which fields does a read change?
            after = []
            for x, evs, fs in R.outs:
                if x.kind != "ret":
                    continue
                v1 = I_.snap(x.st, I_.load(x.st, R.ref))
                after.append((x, v1, pos_of(x.st)))
            k = 0
            for x, v1, p1 in after:
                if any(e[0] == "rfail" for e in x.events()):
                    continue
                body2 = I_.load(x.st, R.ref)
                for y, evs, fs in go("second" if declared else "second, unknown length", x, body2, p1, None, 1).outs[:6]:
                    if y.kind == "ret" and is_ok(I_.snap(y.st, y.val)) and declared:
                        r2 = out[-1] if out[-1].label == "second" else None
                        break
            # inductive step
            if v0.op == "adt" and all(v1.op == "adt" and len(v1.a) == len(v0.a) for _, v1, _ in after):
                ch = set()
                for _, v1, _ in after:
                    ch |= {i for i in range(2, len(v0.a)) if v1.a[i] is not v0.a[i]}
                if len(ch) == 1:
                    i = next(iter(ch))
                    f0 = v0.a[i]
                    up = down = num(f0)
                    wrapopt = None
                    for _, v1, p1 in after:
                        d = v1.a[i]
                        if not num(d) and d is not f0:
                            up = down = False
                            break
                        if d is not add(f0, p1): up = False
                        if d is not sub(f0, p1): down = False
                    if up or down:
                        s = o.st.clone()
                        g = T("read_so_far", declared)
                        engine.hint(g, 0, engine.ISIZE * 2 + 1)
                        if declared:
                            s.add_lin(sub(n, g))
                        body2 = T("adt", *v0.a[:i], add(f0, g) if up else sub(f0, g), *v0.a[i + 1:])
                        for cell in list(s.cells):
                            if cell[0] == "pos":
                                s.cells[cell] = g
                        s.cells[("pos", SRC)] = g
                        R = go("inductive" if declared else "inductive, unknown length", Out("ret", s, UNIT), I_.restore(s, body2) if hasattr(I_, "restore") else body2, g, (i, f0, up), 2)
    c.cache["bodyruns"] = out
    return out

def pos_of(st):
    ps_ = [v for k, v in st.cells.items() if k[0] == "pos" and k[1] is T("arg", 0)]
    return ps_[0] if ps_ else I(0)

@rule("H03")
def h03(c):
    """Reading a body delivers exactly its bytes: in order, never beyond the declared length, 'finished' only when the declared
    length was delivered or the source ended, whatever the sizes of the reads."""
    rd = c.fn(self="Body", trait="Read", name="read")
    runs = body_runs(c)
    if not any(R.label == "inductive" for R in runs):
        c.unk("read:induction", "the state a read changes is not one counter: only sequences of two reads were analysed")
    for R in runs:
        name = "read:" + R.label
        st0 = None
        for x, evs, fs in R.outs:
            if x.kind == "panic":
                c.must(name + ":panic", False if definite(x) else "possible panic", "Body::read panics (%s)" % (x.where,), rd["path"], showfacts(x))
                continue
            if x.kind != "ret":
                c.unk(name + ":" + x.kind, str(x.where))
                continue
            v = R.I.snap(x.st, x.val)
            p1 = pos_of(x.st)
            took = sub(p1, R.pos0)
            rs = [e for e in evs if e[0] in ("r", "readall", "loop")]
            if is_err(v):
                c.must(name + ":error", True if any(e[0] == "rfail" for e in flat(evs)) else (False if definite(x) else showfacts(x, 200)), "Body::read fails although the source did not", rd["path"], showfacts(x))
                c.must(name + ":error-consumes", took is I(0) or show(took), "a failed read consumed bytes", rd["path"])
                continue
            if not is_ok(v):
                c.unk(name + ":result", show(v))
                continue
            r = pay(v)
            c.must(name + ":count", True if r is took else (show(r) if opaque_in(r) or opaque_in(took) or r.op in ("loop",) else False), "Body::read reports %s bytes but took %s from its source" % (show(r), show(took)), rd["path"], showfacts(x))
            if R.n is not None:
                lb = x.st.lb(sub(R.n, p1))
                if lb is not None and lb >= 0:
                    c.ok(name + ":within")
                else:
                    c.must(name + ":within", False if definite(x) and not opaque_in(p1) else "position " + show(p1), "Body::read can take more than the declared length: %s of %s bytes" % (show(p1), show(R.n)), rd["path"], showfacts(x))
            # the bytes
            b = R.I.snap(x.st, R.I.load(x.st, R.buf))
            if took is not I(0):
                ps_ = pieces(b)
                first = ps_[0].a[0] if ps_ and ps_[0].op == "splice" else None
                want = T("data", T("arg", 0), R.pos0, took)
                c.must(name + ":bytes", True if first is want else (False if first is not None and (first.op == "data" or not opaque_in(b)) else show(b)), "the bytes delivered are %s, not the next of the source" % show(b), rd["path"])
            # nothing delivered
            if not rs:
                done = None
                if R.n is not None and x.st.lb(sub(p1, R.n)) is not None and x.st.lb(sub(p1, R.n)) >= 0:
                    done = True
                if x.st.lb(scale(R.blen, -1)) is not None and x.st.lb(scale(R.blen, -1)) >= 0:
                    done = True
                if r.op == "int" and r.a[0] == 0 or r is took:
                    c.must(name + ":end", True if done else (False if definite(x) else showfacts(x, 200)), "Body::read reports the end although bytes remain", rd["path"], showfacts(x))
            else:
                for e in rs:
                    if e[0] != "r":
                        c.unk(name + ":reads", "reads in a loop")
                        continue
                    k = e[3]
                    lim = k.a[3] if k.op == "ext" and len(k.a) > 3 else None
                    if lim is None:
                        c.unk(name + ":limit", show(k))
                        continue
                    lb = x.st.lb(lim)
                    # a read may ask for nothing only if the caller's buffer is empty or everything was delivered
                    if lb is not None and lb >= 1 or lim is R.blen:
                        c.ok(name + ":limit")
                    elif R.n is not None and (lim is sub(R.n, R.pos0)):
                        c.ok(name + ":limit")
                    else:
                        s2 = x.st.clone()
                        room = s2.assume(lt(I(0), R.blen), True) and (R.n is None or s2.assume(lt(R.pos0, R.n), True))
                        if not room:
                            c.ok(name + ":limit")
                        else:
                            l2 = s2.lb(lim)
                            c.must(name + ":limit", True if l2 is not None and l2 >= 1 else ("asks for %s" % show(lim) if not (lim.op == "int") else False), "Body::read asks its source for %s bytes although more remain" % show(lim), rd["path"], showfacts(x))
            # the counter keeps its relation to what was consumed
            if R.rel:
                i, f0, up = R.rel
                f1 = R.I.snap(x.st, R.I.load(x.st, R.ref)).a[i]
                want = add(f0, p1) if up else sub(f0, p1)
                if f1 is want or saturates(f1, want, R.n):
                    c.ok(name + ":counter")
                else:
                    c.must(name + ":counter", False if definite(x) and not opaque_in(f1) else show(f1), "after the read the body's counter is %s where %s bytes were consumed" % (show(f1), show(p1)), rd["path"], showfacts(x))
    for nm in ("into_bytes", "into_string"):
        root = c.fn(self="Body", name=nm)
        I_, outs = c.run(root)
        for o in outs:
            if o.kind != "ret":
                continue
            v = I_.snap(o.st, o.val)
            if is_err(v):
                bad = any(e[0] == "rfail" for e in flat(o.events())) or any(f.op == "bool" and f.a[0] == "utf8" and not t for f, t in o.facts())
                c.must(nm + ":error", True if bad else (False if definite(o) else showfacts(o, 200)), "%s fails although every byte was read" % nm, root["path"], showfacts(o))
                continue
            if not is_ok(v):
                c.unk(nm + ":result", show(v))
                continue
            d = pay(v)
            if any(e[0] == "rfail" for e in flat(o.events())):
                c.must(nm + ":lost-failure", False if definite(o) else showfacts(o, 200), "%s reports success although reading failed" % nm, root["path"], showfacts(o))
                continue
            rs = [e for e in flat(o.events()) if e[0] == "r"]
            q = d.a[0].a[0] if d.op == "seq" and len(d.a) == 1 and d.a[0].op == "splice" else d
            if len(rs) == 1 and rs[0][4] == "toend":
                src = rs[0][1]
                c.must(nm + ":all", True if q is data_of(rs[0]) else (show(d) if opaque_in(d) else False), "%s returns %s" % (nm, show(d)), root["path"])
                c.must(nm + ":bounded", True if src is T("arg", 0) else (False if src.op == "fld" else show(src)), "%s reads the body's source directly: nothing stops it at the declared length" % nm, root["path"])
                if nm == "into_string":
                    u = any(f.op == "bool" and f.a[0] == "utf8" and t for f, t in o.facts())
                    c.must(nm + ":utf8", True if u else (False if definite(o) else "condition not read"), "into_string returns text that was not checked to be UTF-8", root["path"])
            elif not any(e[0] in ("r", "readall", "loop") for e in flat(o.events())) and not opaque_in(d) and definite(o) and not I_.opaque:
                c.bad(nm + ":reads", "%s returns %s without reading anything" % (nm, show(d)), root["path"])
            else:
                c.unk(nm + ":reads", "reads %s" % [e[4] for e in rs])

def saturates(f1, want, n):
    return n is None

@rule("H05")
def h05(c):
    """Header names are matched without regard to case: every path that treats Host or Content-Length as absent has ruled out
    every spelling of it."""
    for which, ty in PARSERS:
        root, I_, outs = parse_outs(c, which)
        for o in outs:
            if o.kind != "ret":
                continue
            k, v = classify(I_, o)
            Ms = maps_in(o, (v,) if isinstance(v, Term) else ())
            H = Hdrs(Ms, o.facts(), o.events())
            for n, cond, absent in (("host", None, k == "err" and adtname(v) == "RequestParseError" and c.vname("RequestParseError", v.a[1]) == "MissingHeader"),
                                    ("content-length", val_parses, k == "some" and v.op == "adt" and is_none(c.pfield(v.a[2 + c.pfidx(ty, "body", ty="Body")], "Body", "length", ty="Option<usize>")))):
                if not absent or not Ms:
                    continue
                r = H.refutes(n, cond)
                if r is True:
                    c.ok("%s:%s" % (which, n))
                elif r == "cs":
                    c.bad("%s:%s" % (which, n), "%s: %s is looked up case-sensitively: a message spelling it differently is treated as not carrying it" % (root["path"], n), root["path"], showfacts(o, 400))
                else:
                    c.unk("%s:%s" % (which, n), "how the path concludes that the header is absent is not read: %s" % showfacts(o, 200))

@rule("H06")
def h06(c):
    """Only complete, well-formed heads are accepted: a request or response is returned only after the parser accepted the head
    and the head was complete."""
    for which, ty in PARSERS:
        root, I_, outs = parse_outs(c, which)
        for o in outs:
            if o.kind != "ret":
                continue
            k, v = classify(I_, o)
            if k != "some":
                continue
            e = hp_buf(o)
            if e is None:
                c.unk(which + ":parser", "no httparse run on the path")
                continue
            buf = e[1]
            ok = comp = None
            for f, tr in o.facts():
                g, t2 = f, tr
                while g.op == "not":
                    g, t2 = g.a[0], not t2
                if g.op == "bool" and g.a[0] == "hp_ok" and g.a[1] is buf:
                    ok = t2
                if g.op == "bool" and g.a[0] == "hp_complete" and g.a[1] is buf:
                    comp = t2
            if ok is not True:
                c.bad(which + ":malformed", "a %s the parser rejected is accepted" % which, root["path"], showfacts(o, 500))
                continue
            M = v.a[2 + c.pfidx(ty, "headers", ty="HashMap")] if v.op == "adt" else None
            if M is not None and any(x.op in ("mapcomp", "comp") and any(isinstance(f, tuple) and f[1] and f[0].op == "bool" and f[0].a[0] == "utf8" for a in x.a[1] for f in a[0]) for x in walk(M)) \
                    and head_headers(M, buf) is False:
                c.bad(which + ":utf8", "a %s with a header value which is not UTF-8 is accepted, without that header" % which, root["path"], show(M))
            if comp is True or ends_blank(o.facts(), buf) or by_bytes(o.facts(), buf):
                c.ok(which + ":complete")
            elif any(opaque_in(f) for f, t in o.facts() if contains(f, buf)):
                c.unk(which + ":complete", "condition not read: " + showfacts(o, 200))
            else:
                c.bad(which + ":partial", "an incomplete head is accepted as a %s" % which, root["path"], showfacts(o, 700))

@rule("H13")
def h13(c):
    """A response is parsed faithfully: status, reason, every header and the body source are those of the bytes received."""
    root, I_, outs = parse_outs(c, "response")
    accessors(c, "Response", ("headers", "status", "reason"))
    n_some = 0
    for o in outs:
        if o.kind != "ret":
            continue
        k, v = classify(I_, o)
        common_head(c, root, o, k, v, "response")
        if k == "err":
            refusal(c, root, o, v, "response")
        if k != "some" or v.op != "adt":
            continue
        n_some += 1
        e = hp_buf(o)
        if e is None:
            continue
        for field, hpf in (("status", "code"), ("reason", "reason")):
            t = v.a[2 + c.pfidx("Response", field)]
            c.must("response:" + field, True if t is hpv(hpf, e[1]) else (show(t) if opaque_in(t) else False), "the response's %s is %s, not what was received" % (field, show(t)), root["path"])
    if not n_some:
        c.never("response:never", "no path of Response::parse returns a response", root["path"], none_of(I_, outs))

# ==================================================================== writing messages
def resp_field(c, X, name, ty=None, adt="Response"):
    return c.pfield(X, adt, name, ty=ty)

def wire_response(c, name, root, X, evs, ok, is_stream=lambda s: True, fin=True):
    """One path which writes response X.  ok: does the path report success?"""
    w = wire(evs, is_stream)
    if w.unk:
        return c.unk(name + ":wire", w.unk)
    if not ok:
        return c.must(name + ":error", True if w.fail or w.partial else False, "%s reports a failure although everything was written" % root["path"], root["path"], show_items(w.items))
    if w.fail or w.partial:
        return c.bad(name + ":lost-failure", "%s reports success although a write failed" % root["path"], root["path"], show_items(w.items))
    r = parse_msg(w.items)
    if r.unk:
        return c.unk(name + ":wire", r.unk)
    if r.problem:
        return c.bad(name + ":shape", "%s: %s" % (root["path"], r.problem), root["path"], show_items(w.items))
    st, rs = resp_field(c, X, "status"), resp_field(c, X, "reason")
    want = [("b", b"HTTP/1.1 "), ("t", T("dec", st)), ("b", b" "), ("t", rs)]
    if st.op == "int":
        want = items_of(seq(T("lit", b"HTTP/1.1 %d " % st.a[0]), T("splice", rs)))
    if rs.op == "seq":
        want = merge(want[:-1] + items_of(rs))
    line(c, name + ":status-line", root, r.status, want)
    one_header_list(c, name, root, r, resp_field(c, X, "headers", "HashMap"), sort=True)
    one_body(c, name, root, r, resp_field(c, X, "body", "Body"))

def line(c, name, root, got, want):
    got, want = merge(got), merge(want)
    if got == want:
        return c.ok(name)
    def part(t):
        """one whole part of a URL, which is neither its path nor its query"""
        t = t.a[0] if t.op == "vf" else t
        return t.op == "pure" and t.a[0] in ("Url::fragment", "Url::host_str", "Url::scheme", "Url::username", "Url::password", "Url::domain", "Url::port")
    op = [x for x in got if x[0] != "b" and opaque_in(x[1], ("Url::path", "Url::query")) and x not in want and not (isinstance(x[1], Term) and part(x[1]))]
    c.must(name, "written as " + show_items(got) if op else False, "the start line is written as %s instead of %s" % (show_items(got), show_items(want)), root["path"])

def one_header_list(c, name, root, r, M, sort):
    m = explicit_map(M)
    if m is not None:
        hl = header_list(r)
        if hl is None:
            return c.unk(name + ":headers", "headers " + show(r.hmap))
        a = sorted(show_items(k) + "\0" + show_items(v) for k, v in hl)
        b = sorted(show_items(items_of(k)) + "\0" + show_items(items_of(v)) for k, v in m)
        return c.must(name + ":headers", a == b, "the headers written are %s instead of %s" % (a, b), root["path"])
    if r.pairs:
        return c.must(name + ":headers:extra", False if not any(x[0] != "b" and opaque_in(x[1]) for k, v in r.pairs for x in k + v) else "extra header", "a header the message does not carry is written: %s" % show_items(r.pairs[0][0]), root["path"])
    if r.hmap is None:
        return c.bad(name + ":headers:none", "the message's headers are not written", root["path"])
    if r.hmap is not M:
        return c.must(name + ":headers", show(r.hmap) if opaque_in(r.hmap) else False, "the headers written are those of %s" % show(r.hmap), root["path"])
    if r.cond:
        return c.bad(name + ":headers:some", "some of the message's headers are not written", root["path"])
    b = r.bound
    while b is not None and b.op == "len" and b.a[0].op in ("sorted", "comp"):
        q = b.a[0]
        while q.op == "sorted":
            q = q.a[0]
        b = q.a[0] if q.op == "comp" and len(q.a[1]) == 1 and not q.a[1][0][0] else T("?", q)
    if b is not None and b.op == "?" and leaves_out(b.a[0], M):
        return c.bad(name + ":headers:some", "some of the message's headers are not written", root["path"], show(b.a[0]))
    if b is not T("len", M):
        return c.must(name + ":headers:count", "bound " + show(r.bound) if r.bound is None or opaque_in(r.bound) or b is None or b.op == "?" else False, "%s of the message's headers are written" % show(r.bound), root["path"])
    c.ok(name + ":headers")
    if sort:
        o = r.order
        srt = False if o is not None and o.op in ("hv", "bv") else "order " + str(o)
        if o is not None and o.op == "perm":
            srt = total_order(o)
        c.must(name + ":headers:order", srt, "headers are written in an order which differs from run to run (%s): the same response gives different bytes" % (
            "the hash map's own order" if o is None or o.op != "perm" else "sorted by " + ", ".join(show(k, 80) for k in o.a[1])), root["path"])

def leaves_out(q, M):
    """The comprehension q over the map M has nothing for the entries that meet some readable condition of their own."""
    if q.op != "comp" or q.a[0] is not T("len", M):
        return False
    bv = T("bv", engine.compdepth(q))
    for fs, its in q.a[1]:
        own = [f for f, t in fs if not (f.op == "lt" and f.a[0] is bv and t)]
        if not its and len(own) == 1 and not opaque_in(own[0]) and any(x.op in ("mkey", "mval") and x.a[0] is M and x.a[1] is bv for x in walk(own[0])):
            return True
    return False

def total_order(o):
    """Does sorting by these keys leave only one possible order of a map's entries?  True / False / reason"""
    last = o.a[1][-1] if o.a[1] else None     # the sort applied last decides; earlier ones only break its ties (when stable)
    res = []
    for k in o.a[1]:
        if k is T("identity"):
            res.append(leads_with_key(o.a[0]) or "identity of " + show(o.a[0], 80))
        elif k.op == "mkey" or (k.op == "tup" and any(x.op == "mkey" for x in k.a)) or (k.op == "adt" and any(isinstance(x, Term) and x.op == "mkey" for x in k.a)):
            res.append(True)
        elif k.op == "cmpkey":
            x = k.a[0]
            m = [y for y in walk(x) if y.op == "mkey"]
            res.append(True if x.op in ("pure", "cmp") and len([y for y in x.a if isinstance(y, Term) and y.op == "mkey"]) == 2 else "comparison " + show(x, 80))
        elif k.op in ("len", "int", "mval") or not any(y.op == "mkey" for y in walk(k)):
            # different names can have the same length / value
            res.append(False if not opaque_in(k) or k.op == "len" else "key " + show(k, 80))
        else:
            res.append("key " + show(k, 80))
    if True in res:
        return True
    return next((x for x in res if x is not False), False)

def leads_with_key(S):
    """the elements of S are a map's keys, or tuples which start with them"""
    x = engine_elem(S, T("bv", 99))
    if x is not None and x.op == "tup":
        x = x.a[0]
    return x is not None and x.op == "mkey"

def one_body(c, name, root, r, body):
    its = r.body
    if len(its) == 1 and its[0][0] == "copy":
        return c.must(name + ":body", True if its[0][1] is body else (show(its[0][1]) if opaque_in(its[0][1]) else False), "the body written is %s" % show(its[0][1]), root["path"])
    if not its:
        return c.bad(name + ":body:none", "the message's body is not written", root["path"])
    c.must(name + ":body", "body written as " + show_items(its) if any(x[0] in ("t", "each") for x in its) and not any(x[0] == "b" and False for x in its) and not (any(x[0] == "copy" for x in its)) else False, "the body is written as %s" % show_items(its), root["path"])

@rule("H07")
def h07(c):
    """A response is written as HTTP/1.1 says: status line with its status and reason, each of its headers exactly once in a
    reproducible order, a blank line, then its body - and success is reported exactly when all of it was written."""
    new = c.fn("response::encoder::Encoder::new")
    wr = c.fn("response::encoder::Encoder::write_tcp_stream")
    I_, os0 = c.run(new)
    I_ = c.interp()
    st = St()
    X = T("arg", 0)
    I_, os0 = c.run(new, I_, [I_.mkarg(st, X, c.progs["puck"].bodies[new["key"]]["locals"][1][0])], st)
    n = 0
    for o in os0:
        s = o.st.clone()
        ref = I_.mkref(s, o.val)
        for x, evs, fs in c.chain(I_, Out("ret", s, UNIT), wr, [ref, T("arg", 7)]):
            if x.kind == "panic":
                c.must("encode:panic", False if definite(x) else "possible panic", "write_tcp_stream panics (%s)" % (x.where,), wr["path"], showfacts(x))
            if x.kind != "ret":
                continue
            v = I_.snap(x.st, x.val)
            if not (is_ok(v) or is_err(v)):
                c.unk("encode:result", show(v))
                continue
            n += 1
            wire_response(c, "encode", wr, X, evs, is_ok(v))
    # the public way to send one
    rs = c.fn("core::Stream::respond")
    I2, os2 = c.run(rs)
    for o in os2:
        if o.kind == "panic":
            c.must("respond:panic", False if definite(o) else "possible panic", "Stream::respond panics (%s)" % (o.where,), rs["path"], showfacts(o))
        if o.kind != "ret":
            continue
        v = I2.snap(o.st, o.val)
        if not (is_ok(v) or is_err(v)):
            c.unk("respond:result", show(v))
            continue
        wire_response(c, "respond", rs, T("arg", 1), o.events(), is_ok(v))
    plain_writer(c)

def plain_writer(c):
    """write_response: returns only when the whole response is on the given stream (it has no other way to say it is not)."""
    root = c.fn("write_response")
    I_, outs = c.run(root)
    for o in outs:
        if o.kind == "panic":
            # a failed write may be reported that way
            w = wire(o.events(), lambda s: True)
            if not (w.fail or w.partial or w.unk):
                c.must("write_response:panic", False if definite(o) else "possible panic", "write_response panics (%s) although nothing failed" % (o.where,), root["path"], showfacts(o))
            continue
        if o.kind != "ret":
            continue
        if any(e[0] in ("w", "w_partial") and e[1] is not T("arg", 1) for e in flat(o.events())):
            x = next(e[1] for e in flat(o.events()) if e[0] in ("w", "w_partial") and e[1] is not T("arg", 1))
            c.must("write_response:stream", show(x) if opaque_in(x) or contains(x, T("arg", 1)) else False, "write_response writes to %s" % show(x), root["path"])
        wire_response(c, "write_response", root, T("arg", 0), o.events(), True)

def method_token(c):
    """variant index -> token written (items), from Method::write"""
    root = c.fn("request::Method::write")
    I_, outs = c.run(root)
    tok = {}
    for o in outs:
        if o.kind != "ret":
            continue
        v = I_.snap(o.st, o.val)
        d = None
        for f, t in o.facts():
            if f.op == "eq" and f.a[0] is T("discr", T("arg", 0)) and t:
                d = f.a[1].a[0]
        w = wire(o.events(), lambda s: True)
        yield root, o, d, v, w

@rule("H08")
def h08(c):
    """A request is written as HTTP/1.1 says: method token, path and query of its URL, HTTP/1.1; each of its headers exactly
    once; a blank line; its body - and success is reported exactly when all of it was written."""
    root = c.fn("request::Request::write")
    I_, outs = c.run(root)
    X = T("arg", 0)
    m = c.pfield(X, "Request", "method", ty="Method")
    u = c.pfield(X, "Request", "url", ty="Url")
    path, query = T("pure", "Url::path", u), T("pure", "Url::query", u)
    n = 0
    for o in outs:
        if o.kind == "panic":
            c.must("write:panic", False if definite(o) else "possible panic", "Request::write panics (%s)" % (o.where,), root["path"], showfacts(o))
        if o.kind != "ret":
            continue
        v = I_.snap(o.st, o.val)
        if not (is_ok(v) or is_err(v)):
            c.unk("write:result", show(v))
            continue
        w = wire(o.events(), lambda s: True)
        if w.unk:
            c.unk("write:wire", w.unk)
            continue
        if is_err(v):
            c.must("write:error", bool(w.fail or w.partial), "Request::write reports a failure although everything was written", root["path"], show_items(w.items))
            continue
        if w.fail or w.partial:
            c.bad("write:lost-failure", "Request::write reports success although a write failed", root["path"], show_items(w.items))
            continue
        n += 1
        d = q = None
        for f, t in o.facts():
            if f.op == "eq" and f.a[0].op == "discr" and f.a[1].op == "int":
                val = f.a[1].a[0] if t else None
                if f.a[0].a[0] is m and val is not None:
                    d = val
                if f.a[0].a[0] is query:
                    q = (f.a[1].a[0] == 1) == t
        r = parse_msg(w.items)
        if r.unk or r.problem:
            c.must("write:shape", r.unk if r.unk else False, "Request::write: %s" % r.problem, root["path"], show_items(w.items))
            continue
        if d is None:
            lost = not any(x[0] != "b" and (contains(x[1], m) or opaque_in(x[1], ("Url::path", "Url::query"))) for x in r.status) and never_tested(o, m, ("Url::path", "Url::query"))
            c.must("write:start-line", False if lost and all(x[0] in ("b", "t") for x in r.status) else "the method is not distinguished: " + show_items(r.status), "the request's method is not written", root["path"], show_items(r.status))
        else:
            nm = c.vname("Method", d)
            mt = [("t", T("vf", m, d, 0))] if nm == "OtherMethod" else [("b", nm.upper().encode())]
            want = mt + [("b", b" "), ("t", path)] + ([("b", b"?"), ("t", T("vf", query, 1, 0))] if q else []) + [("b", b" HTTP/1.1")]
            if q is None:
                # the query was never looked at
                if not any(contains(x[1], query) for x in r.status if x[0] == "t") and not any(x[0] == "t" and opaque_in(x[1], ("Url::path",)) for x in r.status):
                    c.bad("write:query", "the request's query string is not written", root["path"], show_items(r.status))
                else:
                    c.unk("write:query", show_items(r.status))
            else:
                line(c, "write:start-line:" + nm, root, r.status, want)
        one_header_list(c, "write", root, r, c.pfield(X, "Request", "headers", ty="HashMap"), sort=False)
        one_body(c, "write", root, r, c.pfield(X, "Request", "body", ty="Body"))
    if not n:
        c.never("write:never", "no path of Request::write succeeds", root["path"], all(o.kind == "panic" or o.kind == "ret" and is_err(I_.snap(o.st, o.val)) for o in outs))

@rule("H09")
def h09(c):
    """Method tokens survive: the token received is the token written back, standard methods are recognised exactly, extension
    methods keep their name."""
    root = c.fn("request::Method::new_from_str")
    I_, outs = c.run(root)
    arg = T("arg", 0)
    names = {i: v["name"] for i, v in enumerate(c.adt("Method")["variants"])}
    units = {i: n for i, n in names.items() if not c.adt("Method")["variants"][i]["fields"]}
    seen, vague = set(), False
    for o in outs:
        if o.kind == "panic":
            c.must("from:panic", False if definite(o) else "possible panic", "new_from_str panics", root["path"], showfacts(o))
        if o.kind != "ret":
            continue
        v = I_.snap(o.st, o.val)
        if v.op != "adt":
            c.unk("from:value", show(v))
            vague = True
            continue
        i = v.a[1]
        seen.add(i)
        if i in units:
            r = method_is(o.facts(), arg, units[i].lower().encode())
            c.must("from:" + units[i], True if r else (False if definite(o, arg) else "condition not read"), "a token which is not known to be %s becomes %s" % (units[i].upper(), units[i]), root["path"], showfacts(o))
        else:
            t = v.a[2]
            c.must("from:other", True if t is arg else (show(t) if opaque_in(t) else False), "an extension method's name becomes %s" % show(t), root["path"])
            for j, n in units.items():
                if n not in ("Get", "Post", "Head"):
                    continue
                r = other_than(o.facts(), arg, n.upper().encode())
                c.must("from:%s-recognised" % n, True if r else (False if definite(o, arg) else "condition not read"), "%s is taken for an extension method" % n.upper(), root["path"], showfacts(o))
    for i, n in units.items():
        if n in ("Get", "Post", "Head"):
            c.must("from:%s-reachable" % n, True if i in seen else ("some results are not read" if vague else False), "no token becomes %s" % n, root["path"])
    done = set()
    for r2, o, d, v, w in method_token(c):
        if d is None:
            c.unk("write:variant", showfacts(o))
            continue
        if w.fail or w.partial:
            c.must("write:failure:%s" % names[d], not is_ok(v), "Method::write reports success although the write failed", r2["path"])
            continue
        want = [("b", units[d].upper().encode())] if d in units else [("t", T("vf", T("arg", 0), d, 0))]
        c.must("write:%s" % names[d], True if w.items == want else ("written as " + show_items(w.items) if any(x[0] != "b" and opaque_in(x[1]) for x in w.items) else False), "%s is written as %s" % (names[d], show_items(w.items)), r2["path"])
        c.must("write:%s:ok" % names[d], is_ok(v), "Method::write fails although everything was written", r2["path"])
        done.add(d)
    for d in names:
        if d not in done:
            c.unk("write:%s" % names[d], "no complete write seen")

def other_than(facts, t, word):
    """the path knows the token is not WORD (exactly that spelling)"""
    for f, tr in facts:
        if f.op == "streq" and not tr:
            for a, b in (f.a, f.a[::-1]):
                l = litval(b)
                x, how = cased(a)
                if l is not None and x is t and (l == word if how in ("cs", "upper") else l == word.lower()):
                    return True
        if f.op == "streq" and tr:
            for a, b in (f.a, f.a[::-1]):
                l = litval(b)
                x, how = cased(a)
                if l is not None and x is t and l.lower() != word.lower():
                    return True
    return False

# ==================================================================== builders and accessors
import re
CONV = ("ToString::to_string", "Into::into", "From::from", "ToOwned::to_owned", "Clone::clone", "AsRef::as_ref", "String::from", "str::to_string")
CONVERSION = re.compile(r"(From|Into|TryFrom|TryInto|AsRef|ToOwned|ToString|Clone|Borrow|Deref|FromStr|IntoIterator)::")
def conv(t, x):
    """t is x, possibly converted by a caller-supplied conversion."""
    while t is not x and t.op == "pure" and len(t.a) == 2 and isinstance(t.a[1], Term) and CONVERSION.match(str(t.a[0])):
        t = t.a[1]
    return t is x

def call_seq(c, I_, o, steps):
    """Run a chain of by-value builder calls; yields final outs."""
    cur = [o]
    for root, args in steps:
        nxt = []
        for x in cur:
            if x.kind != "ret":
                nxt.append(x)
                continue
            nxt += [y for y, evs, fs in c.chain(I_, x, root, [x.val] + list(args))]
        cur = nxt
    return cur

import itertools

def all_of(x, src):
    """Is the comprehension exactly the entries of src, each inserted under its own name?"""
    x = x.a[0] if x.op == "splice" else x
    if x.op not in ("mapcomp", "comp"):
        return show(x)
    n, alts = x.a
    if any(not q and all(f.op == "lt" or (f.op == "bool" and f.a[0] == "mhas" and f.a[2].op == "fld" and f.a[2].a[0].op == "elem" and f.a[2].a[0].a[0] is src) for f, t in fs) for fs, q in alts):
        return False            # a header already present is kept
    if any(opaque_in(f) for fs, q in alts for f, t in fs) or any(opaque_in(p, CONV) for fs, q in alts for p in q):
        return show(x)
    bad = None
    for fs, q in alts:
        if len(q) != 1 or q[0].op != "ins":
            bad = False if fs else show(x)
            continue
        got = [[y for y in walk(z) if y.op == "fld" and y.a[0].op == "elem" and y.a[0].a[0] is src] for z in q[0].a[:2]]
        if [len(g) for g in got] != [1, 1]:
            bad = show(x)
        elif (str(got[0][0].a[1]), str(got[1][0].a[1])) != ("0", "1") or got[0][0].a[0] is not got[1][0].a[0] or not all(conv(z, g[0]) for z, g in zip(q[0].a[:2], got)):
            bad = False
    return True if bad is None and len(alts) == 1 and not alts[0][0] else bad if bad is not None else show(x)

@rule("H10")
def h10(c):
    """Builders: what was set is what is built, whatever the order of the setters and with later values winning; defaults are
    200, an empty reason, no headers and an empty body; a request without a method is an error, never a default."""
    B = "response::builder::ResponseBuilder::"
    new, build = c.fn(B + "new"), c.fn(B + "build")
    header, headers, body, status = (c.fn(B + n) for n in ("header", "headers", "body", "status"))
    K, W, K2, W2, BD, CODE, REASON, HS = (T("arg", 100 + i) for i in range(8))
    engine.hint(CODE, 0, 65535)
    setters = {"header": (header, (K, W)), "body": (body, (BD,)), "status": (status, (CODE, REASON))}
    combos = [p for n in range(4) for p in itertools.permutations(("header", "body", "status"), n)]
    for p in combos:
        I_ = c.interp()
        _, os0 = c.run(new, I_, [], St())
        for o in os0:
            for x in call_seq(c, I_, o, [setters[s] for s in p] + [(build, ())]):
                nm = "response:" + "+".join(p)
                if x.kind != "ret":
                    c.must(nm + ":panic", False if x.kind == "panic" and definite(x) else x.kind, "building a response panics (%s)" % (x.where,), build["path"], showfacts(x))
                    continue
                check_built(c, nm, build, I_.snap(x.st, x.val), "Response", p, K, W, BD, CODE, REASON)
    # two headers, the same setter twice, header then headers
    E1, E2 = T("arg", 120), T("arg", 121)
    for nm, steps, want in (("response:header twice", [(header, (K, W)), (header, (K2, W2))], [(K, W), (K2, W2)]),):
        I_ = c.interp()
        _, os0 = c.run(new, I_, [], St())
        for o in os0:
            for x in call_seq(c, I_, o, steps + [(build, ())]):
                if x.kind != "ret":
                    continue
                v = I_.snap(x.st, x.val)
                m = explicit_map(c.pfield(v, "Response", "headers", ty="HashMap"))
                ok = m is not None and len(m) == 2 and all(conv(a, k) and conv(b, w) for (a, b), (k, w) in zip(m, want))
                c.must(nm, ok if m is not None else show(v), "after setting two headers the response carries %s" % [(show(a), show(b)) for a, b in m or ()], build["path"])
    for fn_, ty, what in ((body, "body", BD), (status, "status", CODE)):
        I_ = c.interp()
        _, os0 = c.run(new, I_, [], St())
        first = (E1,) if ty == "body" else (T("int", 418), E2)
        last = (BD,) if ty == "body" else (CODE, REASON)
        for o in os0:
            for x in call_seq(c, I_, o, [(fn_, first), (fn_, last), (build, ())]):
                if x.kind == "ret":
                    v = c.pfield(I_.snap(x.st, x.val), "Response", ty)
                    c.must("response:%s twice" % ty, True if conv(v, what) else False if not opaque_in(v, CONV) else show(v), "setting the %s twice keeps %s" % (ty, show(v)), build["path"])
    for bld, adt in ((headers, "response"), (c.fn("request::builder::RequestBuilder::headers"), "request")):
        I_, os0 = c.run(bld)
        for o in os0:
            if o.kind != "ret":
                continue
            v = I_.snap(o.st, o.val)
            i = next((k for k, f in enumerate(c.adt(adtname(v) or "?")["variants"][0]["fields"]) if "HashMap" in f[1] or f[0] == "headers"), None) if v.op == "adt" else None
            m = v.a[2 + i] if i is not None else None
            if m is None:
                c.must(adt + ":headers", False if v is T("arg", 0) and not I_.opaque else show(v), "headers() leaves the builder as it was", bld["path"])
                continue
            old = T("fld", T("arg", 0), c.adt(adtname(v))["variants"][0]["fields"][i][0])
            ok = m.op == "map" and len(m.a) == 2 and (m.a[0] is T("splice", old)) and contains(m.a[1], T("arg", 1))
            if ok and contains_op(m.a[1], "mapcomp", "comp"):
                ok = all_of(m.a[1], T("arg", 1))
                if ok is not True:
                    c.must(adt + ":headers", ok, "headers() does not add every header given: %s" % show(m), bld["path"])
                    continue
            c.must(adt + ":headers", True if ok else (show(m) if m.op != "map" or any(x.op == "extend" and opaque_in(x) for x in m.a) else False), "headers() turns the builder's headers into %s" % show(m), bld["path"])
    # requests
    Q = "request::builder::RequestBuilder::"
    tn, tb, qn, qb = c.fn(Q + "try_new"), c.fn(Q + "try_build"), c.fn(Q + "new"), c.fn(Q + "build")
    MT = T("arg", 109)
    qs = {"header": (c.fn(Q + "header"), (K, W)), "body": (c.fn(Q + "body"), (BD,)), "method": (c.fn(Q + "method"), (MT,))}
    U = T("arg", 110)
    tI, to = c.run(tn)
    for nm in ("request::builder::RequestBuilder::new", "request::Request::build", "request::Request::try_build"):
        r = c.fn(nm)
        I_, outs = c.run(r)
        if nm.endswith("try_build"):
            for o in outs:
                if o.kind == "ret":
                    v = I_.snap(o.st, o.val)
                    ws = [tI.snap(x.st, x.val) for x in to if x.kind == "ret"]
                    c.must(nm, True if any(v is w for w in ws) else show(v) if opaque_in(v, CONV) or any(opaque_in(w, CONV) for w in ws) else False, "%s gives %s" % (nm, show(v)), r["path"])
        else:
            same_as_checked(c, nm, r, outs, to, I_, tI)
    bI, bo = c.run(tb)
    r = c.fn(Q + "build")
    I_, outs = c.run(r)
    same_as_checked(c, Q + "build", r, outs, bo, I_, bI)
    accessors(c, "Request", ("headers", "method", "body", "url"))
    accessors(c, "Response", ("headers", "status", "reason"))
    for p in [p for n in range(4) for p in itertools.permutations(("header", "body", "method"), n)]:
        I_ = c.interp()
        st = St()
        _, os0 = c.run(tn, I_, [I_.mkarg(st, U, c.progs["puck"].bodies[tn["key"]]["locals"][1][0])], st)
        for o in os0:
            v0 = I_.snap(o.st, o.val)
            ok = any(f.op == "bool" and f.a[0] == "url_ok" and t for f, t in o.facts())
            ko = any(f.op == "bool" and f.a[0] == "url_ok" and not t for f, t in o.facts())
            if not is_ok(v0):
                c.must("request:url", True if is_err(v0) and ko else (False if definite(o) else show(v0)), "a valid URL is refused", tn["path"], showfacts(o))
                continue
            c.must("request:url-checked", True if ok else (False if definite(o) else show(v0)), "an invalid URL is accepted", tn["path"], showfacts(o))
            o2 = Out("ret", o.st, pay(o.val) if is_ok(o.val) else pay(v0))
            for x in call_seq(c, I_, o2, [qs[s] for s in p] + [(tb, ())]):
                nm = "request:" + "+".join(p)
                if x.kind != "ret":
                    c.must(nm + ":panic", False if x.kind == "panic" and definite(x) else x.kind, "building a request panics (%s)" % (x.where,), tb["path"], showfacts(x))
                    continue
                v = I_.snap(x.st, x.val)
                if "method" not in p:
                    c.must(nm + ":no-method", True if is_err(v) else (False if is_ok(v) else show(v)), "a request is built although no method was given", tb["path"])
                    continue
                if not is_ok(v):
                    c.must(nm + ":refused", False if is_err(v) and definite(x) else show(v), "a complete request is refused", tb["path"], showfacts(x))
                    continue
                check_built(c, nm, tb, pay(v), "Request", p, K, W, BD, MT, None, U)

def apart(fs, gs):
    """The two lists of facts cannot hold together."""
    d = dict(fs)
    k = {f.a[0]: f.a[1] for f, t in fs if t and f.op == "eq" and f.a[1].op == "int"}
    for f, t in gs:
        if f in d and d[f] != t:
            return True
        if f.op == "eq" and f.a[1].op == "int" and f.a[0] in k and (k[f.a[0]] is f.a[1]) != t:
            return True
    for f, t in fs:
        if f.op == "eq" and f.a[1].op == "int" and not t and any(g is f and u for g, u in gs):
            return True
    return False

def url_edited(v):
    """Some part of a URL in v was set to something of its own."""
    return any(x.op == "after" and x.a[0].op == "ext" and str(x.a[0].a[0]).startswith("Url::set_") for x in walk(v))

def same_as_checked(c, nm, root, outs, couts, I_, cI):
    """A constructor that unwraps: whenever the checked one succeeds, the same thing; it panics only when that one fails."""
    want, fails = [], False
    for o in couts:
        if o.kind != "ret":
            continue
        v = cI.snap(o.st, o.val)
        if is_ok(v):
            want.append((pay(v), o.facts()))
        elif is_err(v):
            fails = True
        else:
            return c.unk(nm, show(v))
    if not want:
        return
    got = 0
    for o in outs:
        if o.kind == "panic":
            if not fails:
                c.must(nm + ":panic", False if definite(o) else "possible panic", "%s panics (%s)" % (nm, o.where), root["path"], showfacts(o))
            continue
        if o.kind != "ret":
            continue
        got += 1
        v = I_.snap(o.st, o.val)
        ws = [w for w, fs in want if not apart(fs, o.facts())]
        if not ws:
            c.unk(nm, "no case of the checked constructor fits " + showfacts(o))
            continue
        c.must(nm, True if any(v is w for w in ws) else False if url_edited(v) else show(v) if opaque_in(v, CONV) or any(opaque_in(w, CONV) for w in ws) else False, "%s gives %s, not %s" % (nm, show(v), show(ws[0])), root["path"])
    if not got:
        c.must(nm + ":never", False if outs and all(o.kind == "panic" for o in outs) else "no result", "%s always panics" % nm, root["path"])

def check_built(c, nm, root, v, ty, p, K, W, BD, X, REASON, U=None):
    if v.op != "adt":
        return c.unk(nm, show(v))
    m = explicit_map(c.pfield(v, ty, "headers", ty="HashMap"))
    hs = c.pfield(v, ty, "headers", ty="HashMap")
    if "header" in p:
        ok = m is not None and len(m) == 1 and conv(m[0][0], K) and conv(m[0][1], W)
    else:
        ok = m is not None and not m
    c.must(nm + ":headers", True if ok else (False if m is not None or not opaque_in(hs, CONV) else show(hs)), "the built message's headers are %s" % show(hs), root["path"])
    b = c.pfield(v, ty, "body", ty="Body")
    if "body" in p:
        c.must(nm + ":body", True if conv(b, BD) else (False if not opaque_in(b, CONV) else show(b)), "the built message's body is %s" % show(b), root["path"])
    else:
        c.must(nm + ":empty-body", empty_body(c, b), "the default body is %s" % show(b), root["path"])
    if ty == "Response":
        s, r = c.pfield(v, ty, "status"), c.pfield(v, ty, "reason")
        if "status" in p:
            c.must(nm + ":status", True if s is X else (False if not opaque_in(s) else show(s)), "the built response's status is %s" % show(s), root["path"])
            c.must(nm + ":reason", True if conv(r, REASON) else (False if not opaque_in(r, CONV) else show(r)), "the built response's reason is %s" % show(r), root["path"])
        else:
            c.must(nm + ":default-status", True if s is I(200) else (False if not opaque_in(s) else show(s)), "the default status is %s" % show(s), root["path"])
    else:
        mt, u = c.pfield(v, ty, "method", ty="Method"), c.pfield(v, ty, "url", ty="Url")
        c.must(nm + ":method", True if conv(mt, X) else (False if not opaque_in(mt, CONV) else show(mt)), "the built request's method is %s" % show(mt), root["path"])
        ok = u.op == "url" and conv(u.a[0], U)
        c.must(nm + ":url", True if ok else (False if not opaque_in(u, CONV) else show(u)), "the built request's URL is %s" % show(u), root["path"])

def cursor_of(b):
    cs = [x for x in walk(b) if x.op == "adt" and x.a[0] == "Cursor"]
    return cs[0] if len(cs) == 1 else None

def empty_body(c, b):
    L = c.pfield(b, "Body", "length", ty="Option<usize>")
    cu = cursor_of(b)
    if cu is None:
        # a slice is a reader of its own
        rd = [x for x in b.a[2:] if isinstance(x, Term) and x.op == "seq"] if b.op == "adt" else []
        if len(rd) == 1 and length(rd[0]).op == "int":
            return bool(length(rd[0]) is I(0) and (is_none(L) or is_some(L) and pay(L) is I(0)))
        return show(b)
    return bool(length(cu.a[2]) is I(0) and (is_none(L) or is_some(L) and pay(L) is I(0)))

def mime_sources(val, o):
    """Bodies whose MIME type the text val was formatted from: read off the text itself and the loops and conditions which
    produced it."""
    out = set()
    def look(x):
        for y in walk(x):
            if y.op == "fld" and y.a[1] == "mime":
                out.add(y.a[0])
    look(val)
    for f, tr in o.facts():
        look(f)
    def evs(es):
        for e in es:
            if e[0] == "loop":
                if e[1].counter:
                    for x in e[1].counter:
                        if isinstance(x, Term): look(x)
                for fs, es2, st in e[1].backs:
                    for f in fs:
                        look(f[0] if isinstance(f, tuple) else f)
                    evs(es2)
    evs(o.events())
    return out

@rule("H11")
def h11(c):
    """Replacing the body of a message returns the old body, installs the new one, sets Content-Type from the new body and leaves
    every other header alone; taking it leaves an empty body."""
    for ty, mod in (("Request", "request"), ("Response", "response")):
        hi, bi = c.pfidx(ty, "headers", ty="HashMap"), c.pfidx(ty, "body", ty="Body")
        hn, bn = (c.adt(ty)["variants"][0]["fields"][i][0] for i in (hi, bi))
        for nm in ("replace_body", "take_body"):
            root = c.fn("%s::%s::%s" % (mod, ty, nm))
            I_ = c.interp()
            st = St()
            b = c.progs["puck"].bodies[root["key"]]
            args = mkargs(I_, st, b)
            _, outs = c.run(root, I_, args, st)
            for o in outs:
                if o.kind == "panic":
                    c.must("%s:%s:panic" % (ty, nm), False if definite(o) else "possible panic", "%s panics" % root["path"], root["path"], showfacts(o))
                if o.kind != "ret":
                    continue
                v = I_.snap(o.st, o.val)
                old = T("fld", T("arg", 0), bn)
                c.must("%s:%s:returns-old" % (ty, nm), True if v is old else (show(v) if opaque_in(v, CONV) else False), "%s returns %s, not the previous body" % (root["path"], show(v, 120)), root["path"])
                self_ = I_.snap(o.st, I_.load(o.st, args[0]))
                nb = self_.a[2 + bi] if self_.op == "adt" else T("fld", self_, bn)
                if nm == "replace_body":
                    c.must("%s:%s:installs" % (ty, nm), True if conv(nb, T("arg", 1)) else (False if not opaque_in(nb, CONV) else show(nb)), "after %s the body is %s" % (root["path"], show(nb, 120)), root["path"])
                else:
                    c.must("%s:%s:empty" % (ty, nm), empty_body(c, nb) if nb.op == "adt" else False if nb is old else show(nb), "after %s the body is %s" % (root["path"], show(nb, 120)), root["path"])
                H = self_.a[2 + hi] if self_.op == "adt" else T("fld", self_, hn)
                oldH = T("fld", T("arg", 0), hn)
                if H.op == "map" and H.a and H.a[0] is T("splice", oldH):
                    rest = H.a[1:]
                    # what an entry is set to last is what counts
                    rest = tuple(x for i, x in enumerate(rest) if not (x.op == "ins" and any(y.op == "ins" and y.a[0] is x.a[0] for y in rest[i + 1:])))
                    keys = [litval(x.a[0]) for x in rest if x.op == "ins"]
                    if len(keys) == len(rest):
                        c.must("%s:%s:headers" % (ty, nm), [k.lower() if k else k for k in keys] == [b"content-type"] if None not in keys else "key not a constant", "%s sets the headers %s" % (root["path"], keys), root["path"])
                        if keys == [b"Content-Type"]:
                            val = rest[0].a[1]
                            mimes = mime_sources(val, o)
                            mimeof = old in mimes and not [x for x in mimes if x is not old]
                            c.must("%s:%s:content-type" % (ty, nm), not mimeof, "Content-Type is taken from the old body", root["path"])
                    else:
                        c.must("%s:%s:headers" % (ty, nm), show(H) if opaque_in(H) else False, "%s changes the headers to %s" % (root["path"], show(H, 120)), root["path"])
                elif H is oldH:
                    c.bad("%s:%s:content-type-missing" % (ty, nm), "%s does not update Content-Type" % root["path"], root["path"])
                else:
                    c.must("%s:%s:headers" % (ty, nm), show(H, 120) if opaque_in(H) else False, "%s changes the headers to %s" % (root["path"], show(H, 120)), root["path"])

def read_back(c, nm, root, I_, o, n):
    """The first read of a body just made, which carries N bytes (at least one, unless N is 0)."""
    rd = c.fn(self="Body", trait="Read", name="read")
    s = o.st.clone()
    ref = I_.mkref(s, o.val)
    B = T("dest", "back:" + nm)
    engine.hint(T("len", B), 1, engine.ISIZE)
    if n is not I(0):
        s.add_lin(sub(n, I(1)))
    for x, evs, fs in c.chain(I_, Out("ret", s, UNIT), rd, [ref, I_.mkref(s, B)]):
        if x.kind != "ret":
            c.must(nm + ":read-back", False if x.kind == "panic" and definite(x) else x.kind, "reading the body made by %s panics (%s)" % (nm, x.where), root["path"], showfacts(x))
            continue
        v = I_.snap(x.st, x.val)
        if any(e[0] == "rfail" for e in flat(evs)):
            continue
        if not is_ok(v):
            c.must(nm + ":read-back", False if is_err(v) and definite(x) else show(v), "the first read of the body made by %s fails" % nm, root["path"], showfacts(x))
            continue
        r = pay(v)
        if n is I(0):
            c.must(nm + ":read-back", True if r is I(0) else (False if not opaque_in(r) and r.op == "int" else show(r)), "reading the body made by %s yields %s bytes" % (nm, show(r)), root["path"], showfacts(x))
        else:
            # what a reader returns for a request of that many bytes
            q = r.a[-1] if r.op == "ext" and r.a[0] == "nread" else r
            lb = x.st.lb(q)
            c.must(nm + ":read-back", True if lb is not None and lb >= 1 else (False if r is I(0) and definite(x) else show(r)), "reading the body made by %s ends at once although it carries text" % nm, root["path"], showfacts(x))

@rule("H12")
def h12(c):
    """Bodies made from text carry exactly that text and declare exactly its length; the empty body is empty; the library's own
    404 and 400 responses say so."""
    FS = [(c.fn("body::Body::from_string"), "from_string")]
    for p in c.progs["puck"].roots:
        if p["name"] == "from" and p.get("trait", "").split("<")[0].endswith("From") and "self" in p and strip_generics(c.progs["puck"].tydef(p["self"]) or "").endswith("::Body") and p["key"] in c.progs["puck"].bodies:
            FS.append((p, p["path"]))
    for root, nm in FS:
        I_, outs = c.run(root)
        for o in outs:
            if o.kind != "ret":
                c.must(nm + ":panic", False if o.kind == "panic" and definite(o) else o.kind, "%s panics" % nm, root["path"])
                continue
            v = I_.snap(o.st, o.val)
            cu = cursor_of(v)
            if cu is None or v.op != "adt":
                c.unk(nm, show(v))
                continue
            c.must(nm + ":content", True if conv(cu.a[2], T("arg", 0)) and cu.a[3] is I(0) else (False if not opaque_in(cu, CONV) else show(cu)), "%s makes a body of %s from offset %s" % (nm, show(cu.a[2]), show(cu.a[3])), root["path"])
            L = c.pfield(v, "Body", "length", ty="Option<usize>")
            ok = is_some(L) and pay(L) is length(cu.a[2])
            c.must(nm + ":length", True if ok else (False if not opaque_in(L, CONV) else show(L)), "%s declares a length of %s" % (nm, show(L)), root["path"])
            read_back(c, nm, root, I_, o, length(cu.a[2]))
    root = c.fn("body::Body::empty")
    I_, outs = c.run(root)
    for o in outs:
        if o.kind == "ret":
            v = I_.snap(o.st, o.val)
            c.must("empty", empty_body(c, v), "Body::empty is %s" % show(v), root["path"])
            read_back(c, "empty", root, I_, o, I(0))
    for nm, code in (("err_404", 404), ("err_400", 400)):
        root = c.fn(nm)
        I_, outs = c.run(root)
        for o in outs:
            if o.kind != "ret":
                c.must(nm + ":panic", False if o.kind == "panic" and definite(o) else o.kind, "%s panics" % nm, root["path"])
                continue
            v = I_.snap(o.st, o.val)
            s = c.pfield(v, "Response", "status")
            c.must(nm + ":status", s is I(code) if s.op == "int" else show(s), "%s answers %s" % (nm, show(s)), root["path"])
            b = c.pfield(v, "Response", "body", ty="Body")
            cu = cursor_of(b)
            if cu is not None:
                L = c.pfield(b, "Body", "length", ty="Option<usize>")
                c.must(nm + ":length", is_none(L) or is_some(L) and pay(L) is length(cu.a[2]), "%s's body declares %s for %s" % (nm, show(L), show(cu.a[2])), root["path"])
