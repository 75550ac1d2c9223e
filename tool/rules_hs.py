"""Handshake rules."""
from lib import *
from views import *

RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

def headers_of(c, v, ty="Request"):
    i = c.fidx(ty, "headers", ty="HashMap")
    return T("fld", v, c.adt(ty)["variants"][0]["fields"][i][0])

CONDS = [("upgrade", val_is("websocket", True), "Upgrade: websocket"),
         ("connection", val_is("upgrade", False), "Connection containing upgrade"),
         ("sec-websocket-key", None, "Sec-WebSocket-Key")]

def judge(c, name, root, o, H, accept, conds, what):
    """One path which accepts / refuses: does what it knows about the headers justify that?"""
    cond = showfacts(o, 300)
    if accept:
        for n, val, text in conds:
            r = H.proves(n, val)
            if r is True:
                c.ok("%s:accept:%s" % (name, n))
            elif r == "?":
                c.unk("%s:accept:%s" % (name, n), "condition on the header in a form the analysis does not read: " + cond)
            else:
                un = H.unread(None)
                vs = [f for f, tr in H.facts if val_terms(f, H.M)]
                if un:
                    c.unk("%s:accept:%s" % (name, n), "unread condition " + show(un[0]))
                else:
                    c.bad("%s:accept:%s" % (name, n), "%s on a path which has not established '%s'" % (what, text), root["path"], cond)
        return
    rs = [(n, text, H.refutes(n, val)) for n, val, text in conds]
    if any(r is True for _, _, r in rs):
        return c.ok("%s:refuse" % name)
    weak = [(n, t, r) for n, t, r in rs if r in ("cs", "cs-value")]
    if any(r == "?" for _, _, r in rs):
        return c.unk("%s:refuse" % name, "condition in a form the analysis does not read: " + cond)
    if weak:
        n, t, r = weak[0]
        return c.bad("%s:refuse:%s:%s" % (name, n, r), "a valid handshake is refused: %s of '%s' is compared %s"
                     % ("the name" if r == "cs" else "the value", t, "case-sensitively" if r == "cs" else "too narrowly"), root["path"], cond)
    un = H.unread(None)
    if un:
        return c.unk("%s:refuse" % name, "unread condition " + show(un[0]))
    c.bad("%s:refuse" % name, "a valid handshake is refused: nothing on the path rules it out", root["path"], cond)

def upgrade_paths(c):
    root = c.fn("ws::websocket::WebSocketUpgrade::upgrade", opt=True) or c.fn("core::Stream::upgrade")
    return root

@rule("W01")
def w01(c):
    """Handshake: upgrade succeeds exactly when the request carries Upgrade: websocket, Connection: upgrade and a key
    (names and tokens in any case) and then only after the whole 101 response reached the transport; otherwise the peer gets a
    400 and the caller an error."""
    root = upgrade_paths(c)
    I_, outs = c.run(root)
    argn = c.progs["puck"].bodies[root["key"]]["argc"]
    req = T("arg", 1)
    M = headers_of(c, req)
    n_acc = 0
    for o in outs:
        if o.kind == "panic":
            c.must("upgrade:panic", False if definite(o) else "possible panic", "Stream::upgrade panics: %s" % (o.where,), root["path"], showfacts(o))
            continue
        if o.kind != "ret":
            continue
        evs = o.events()
        streams = {e[1] for e in flat(evs) if e[0] == "w"} | {e[2] for e in flat(evs) if e[0] == "copy"}
        w = wire(evs, lambda s: True)
        H = Hdrs(M, o.facts(), evs)
        code = None
        r = None
        if w.items:
            r = parse_msg(w.items)
            code = status_code(r)
        val = I_.snap(o.st, o.val)
        if not (is_ok(val) or is_err(val)):
            c.unk("upgrade:result", "result is " + show(val))
            continue
        acc = is_ok(val)
        if acc:
            n_acc += 1
            if w.fail or w.partial:
                c.bad("upgrade:incomplete-101", "upgrade returns a WebSocket although writing the 101 response failed part way", root["path"], show_items(w.items))
            elif r is None:
                c.bad("upgrade:no-101", "upgrade returns a WebSocket without having answered the handshake", root["path"], showfacts(o))
            elif code != 101:
                c.must("upgrade:101", False if code is not None else "status line " + show_items(r.status),
                       "upgrade returns a WebSocket after answering %s" % code, root["path"], show_items(w.items))
            elif r.problem or r.unk:
                c.must("upgrade:101-shape", False if r.problem else r.unk, "the 101 response is malformed: %s" % r.problem, root["path"], show_items(w.items))
            else:
                c.ok("upgrade:101")
            judge(c, "upgrade", root, o, H, True, CONDS, "upgrade succeeds")
        else:
            if w.fail or w.partial:
                c.ok("upgrade:transport-failure")
                continue
            judge(c, "upgrade", root, o, H, False, CONDS, "")
            if r is None:
                c.bad("upgrade:unanswered", "a refused handshake is not answered", root["path"], showfacts(o))
            elif r.problem or r.unk:
                c.must("upgrade:400-shape", False if r.problem else r.unk, "the response to a refused handshake is malformed: %s" % r.problem, root["path"], show_items(w.items))
            else:
                c.must("upgrade:400", code == 400 if code is not None else "status line " + show_items(r.status),
                       "a refused handshake is answered %s instead of 400" % code, root["path"], show_items(w.items))
    if not n_acc:
        c.never("upgrade:never", "no path of upgrade returns a WebSocket", root["path"])
    # the public predicate
    r2 = c.fn("ws::upgrade::should_upgrade", opt=True)
    if r2:
        I2, os2 = c.run(r2)
        M2 = headers_of(c, T("arg", 0))
        for o in os2:
            if o.kind != "ret":
                continue
            v = I2.snap(o.st, o.val)
            for tv in (1, 0):
                if v.op == "int":
                    if v.a[0] != tv:
                        continue
                    extra = ()
                else:
                    # a boolean term is itself the last condition
                    t, neg = v, False
                    while t.op == "not":
                        t, neg = t.a[0], not neg
                    extra = ((t, bool(tv) != neg),)
                judge(c, "should_upgrade", r2, o, Hdrs(M2, o.facts(), o.events(), extra), bool(tv), CONDS[:2], "should_upgrade answers true")
    r3 = c.fn("ws::upgrade::perform_upgrade", opt=True)
    if r3:
        I3, os3 = c.run(r3)
        for o in os3:
            if o.kind != "ret":
                continue
            v = I3.snap(o.st, o.val)
            w = wire(o.events(), lambda s: True)
            r = parse_msg(w.items) if w.items else None
            code = status_code(r) if r else None
            full = bool(r) and not (w.fail or w.partial or r.problem or r.unk) and code == 101
            if v.op != "int":
                c.unk("perform_upgrade:result", show(v))
            elif v.a[0]:
                c.must("perform_upgrade:true", True if full else (r.unk if r and r.unk else False), "perform_upgrade answers true although no complete 101 response was written", r3["path"], show_items(w.items))
            else:
                c.must("perform_upgrade:false", not full, "perform_upgrade answers false after a complete 101 response", r3["path"], show_items(w.items))

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

@rule("W02")
def w02(c):
    """Accept token: every 101 response carries Upgrade: websocket, Connection: Upgrade and Sec-WebSocket-Accept =
    base64(SHA-1(key ++ GUID)) of the request's own Sec-WebSocket-Key."""
    for root, req in ((upgrade_paths(c), T("arg", 1)), (c.fn("ws::upgrade::perform_upgrade", opt=True), T("arg", 0))):
        if root is None:
            continue
        I_, outs = c.run(root)
        M = headers_of(c, req)
        seen = 0
        for o in outs:
            if o.kind != "ret":
                continue
            w = wire(o.events(), lambda s: True)
            if not w.items or w.fail or w.partial:
                continue
            r = parse_msg(w.items)
            if status_code(r) != 101:
                continue
            seen += 1
            if r.problem or r.unk:
                c.unk("101", r.problem or r.unk)
                continue
            hl = header_list(r)
            if hl is None:
                c.unk("101:headers", "the response's headers are not an explicit map: %s" % show(r.hmap))
                continue
            hs = {}
            for k, v in hl:
                kb = k[0][1] if len(k) == 1 and k[0][0] == "b" else None
                if kb is None:
                    c.unk("101:headers", "header name " + show_items(k))
                    continue
                if kb.lower() in hs:
                    c.bad("101:duplicate:" + kb.decode("latin1").lower(), "the 101 response carries %s twice" % kb.decode("latin1"), root["path"])
                hs[kb.lower()] = v
            for n, want in ((b"upgrade", b"websocket"), (b"connection", b"upgrade")):
                v = hs.get(n)
                name = n.decode()
                if v is None:
                    c.bad("101:" + name, "the 101 response has no %s header" % name, root["path"])
                elif len(v) == 1 and v[0][0] == "b":
                    c.must("101:" + name, v[0][1].lower() == want, "the 101 response says %s: %r" % (name, v[0][1]), root["path"])
                else:
                    c.unk("101:" + name, show_items(v))
            v = hs.get(b"sec-websocket-accept")
            if v is None:
                c.bad("101:accept", "the 101 response has no Sec-WebSocket-Accept header", root["path"])
                continue
            t = v[0][1] if len(v) == 1 and v[0][0] == "t" else None
            if t is None:
                c.must("101:accept", False if all(x[0] == "b" for x in v) or any(x[0] == "b" for x in v) else "value " + show_items(v), "Sec-WebSocket-Accept is %s" % show_items(v), root["path"])
                continue
            if t.op != "base64":
                c.must("101:accept", ("value " + show(t)) if opaque_in(t) else False, "Sec-WebSocket-Accept is %s, not a base64 digest" % show(t), root["path"])
                continue
            h = t.a[0]
            if h.op != "hash":
                c.must("101:accept", "digest " + show(h) if opaque_in(h) else False, "Sec-WebSocket-Accept encodes %s, not a SHA-1 digest" % show(h), root["path"])
                continue
            alg = ps(h.a[0])
            c.must("101:accept:sha1", "sha1" in alg.lower(), "Sec-WebSocket-Accept is computed with %s" % alg, root["path"])
            its = items_of(h.a[1])
            good = False
            unk = None
            if len(its) == 2 and its[0][0] == "t" and its[1] == ("b", GUID):
                k = its[0][1]
                e = entry(k)
                if e and e[0] == "val" and e[1] is M:
                    H = Hdrs(M, o.facts(), o.events())
                    good = any(i is e[2] and v2 in ("yes", "present") for i, v2, ci in H.at(o.facts(), "sec-websocket-key", None))
                elif val_terms(k, M) and k.op in ("mget",):
                    good = (litval(k.a[1]) or b"").lower() == b"sec-websocket-key"
                elif opaque_in(k):
                    unk = show(k)
            c.must("101:accept:input", good or (("hashes " + unk) if unk else ("hashes " + show_items(its)) if any(x[0] != "b" and opaque_in(x[1]) for x in its) else False),
                   "the accept token hashes %s instead of the request's Sec-WebSocket-Key followed by the protocol's GUID" % show_items(its), root["path"])
        if not seen:
            c.must("101:exists:" + root["path"], False, "no path of %s writes a complete 101 response" % root["path"], root["path"])

from rules_ws import definite
