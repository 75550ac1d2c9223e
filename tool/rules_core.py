"""Server, dispatch and URL matching rules."""
from lib import *
from views import *
import strs
from rules_ws import definite
from models import Ok, Err, Some, NONE

RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

# ---------------------------------------------------------------- the accept loops
def parse_hook(I_):
    """Request::parse by its contract (decided by H01..H06): an error, nothing, or a request - one event either way."""
    def h(I2, st, callee, args, atys, rty):
        if rty is None:
            return None
        d = I2.p.types[rty]
        src = I2.snap(st, args[0])
        q = st.fresh("request", src)
        e = st.fresh("parseerr", src)
        if d["k"] == "adt" and d.get("args"):
            I2.hint_ty(e, d["args"][1])
            o = I2.p.types[d["args"][0]]
            if o["k"] == "adt" and o.get("args"):
                I2.hint_ty(q, o["args"][0])
        outs = []
        for kind, v in (("err", Err(e)), ("none", Ok(NONE)), ("some", Ok(Some(q)))):
            s2 = st.clone()
            s2.event("parse", src, kind, q)
            outs.append(Out("ret", s2, v))
        return outs
    I_.hooks["Request::parse"] = h

def malformed_kind(c, o):
    """The path goes by the kind of the parse error, and one of the kinds it is taken for says that the bytes were wrong (not that
    reading them failed)."""
    fs = [(f, t) for f, t in o.facts()]
    if any(opaque_in(f) for f, t in fs):
        return None
    for i, v in enumerate(c.adt("RequestParseError")["variants"]):
        if any("io::Error" in x[1] for x in v["fields"]):
            continue
        d = int(v["discr"])
        env = lambda t: d if t.op == "discr" and t.a[0].op == "ext" and t.a[0].a[0] == "parseerr" else None
        if facts_hold([(f, t) for f, t in fs if any(x.op == "ext" and x.a[0] == "parseerr" for x in walk(f))], env) is True:
            return v["name"]
    return None

class Serve:
    """One server entry point: its path summaries, the passes of its accept loops and what the spawned processes do."""
    def __init__(s, c, name, root, listener):
        s.name, s.root = name, root
        s.I = c.interp(budget=900000)
        parse_hook(s.I)
        s.I, s.outs = c.run(root, I=s.I)
        s.loops = []          # LoopEv that accept
        for o in s.outs:
            for e in o.events():
                if e[0] == "loop":
                    s.find(e[1])
    def find(s, L):
        if L in s.loops:
            return
        if any(e[0] == "accept" for fs, es, st in L.backs for e in es):
            s.loops.append(L)
        for fs, es, st in L.backs:
            for e in es:
                if e[0] == "loop":
                    s.find(e[1])
    def passes(s):
        for L in s.loops:
            for fs, es, st in L.backs:
                yield L, fs, es
        for o in s.outs:
            if o.kind == "panic" or o.kind == "ret":
                continue
    def children(s):
        """(pass events, spawn event, child out) of every spawned process."""
        for L, fs, es in s.passes():
            for e in flat(es):
                if e[0] == "spawn":
                    for o in e[3] or []:
                        yield es, e, o

def servers(c):
    if "servers" in c.cache:
        return c.cache["servers"]
    r = []
    for nm, p in (("serve_router", "core::Core::serve_router"), ("for_each", "core::Core::for_each"), ("run", "core::router::Router::run")):
        root = c.fn(p)
        r.append(Serve(c, nm, root, None))
    c.cache["servers"] = r
    return r

IO_EV = ("w", "w_partial", "flush", "r", "rfail", "readall", "httparse", "copy", "parse")

def is_conn(t):
    """The accept() a connection term stands for."""
    while t.op in ("fld", "ref"):
        t = t.a[0]
    return t.a[0] if t.op == "conn" else None

def conns_in(*ts):
    return {x.a[0] for t in ts if isinstance(t, Term) for x in walk(t) if x.op == "conn"}

@rule("S01")
def s01(c):
    """Accept loops are immortal and isolated: they only end by divergence, survive accept errors, and do every piece of
    work on a connection in a process spawned (unlinked) for that connection alone."""
    for s in servers(c):
        p = s.root["path"]
        div = [o for o in s.outs if o.kind == "div"]
        for o in s.outs:
            if o.kind == "ret":
                c.must(s.name + ":returns", False if definite(o) or definite_but(o, ("Error::kind",)) and of_accept(o) else "possible return", "%s can return: the server stops accepting, when %s" % (s.name, showfacts(o, 200)), p, showfacts(o))
            elif o.kind == "panic":
                c.must(s.name + ":panics", False if definite(o) else "possible panic", "%s can panic (%s): the server stops accepting" % (s.name, o.val), str(o.where), showfacts(o))
        if not s.loops:
            c.unk(s.name + ":loop", "no accept loop found")
            continue
        if div:
            c.ok(s.name + ":never ends")
        oks = 0
        for L, fs, es in s.passes():
            acc = [e for e in flat(es) if e[0] == "accept"]
            good = [e for e in acc if e[2]]
            evs = list(flat(es))
            sp = [e for e in evs if e[0] == "spawn"]
            for e in evs:
                if e[0] in IO_EV:
                    ts = [x for x in e[1:] if isinstance(x, Term)]
                    if conns_in(*ts) & {g[1] for g in good}:
                        c.bad(s.name + ":inline-io", "%s %s the connection in the accepting process: a slow or hostile peer blocks every other one"
                              % (s.name, "writes to" if e[0] in ("w", "w_partial", "flush", "copy") else "reads from"), p, show(ts[0]))
                elif e[0] == "callptr":
                    c.bad(s.name + ":inline-call", "%s runs application code in the accepting process: a panic or delay there stops the server" % s.name, p, show(e[1]))
                elif e[0] == "receive":
                    c.bad(s.name + ":waits", "%s waits for a message between accepting connections" % s.name, p, show(e[1]))
            if not good:
                c.ok(s.name + ":accept-error survived")
                if sp and not acc:
                    c.unk(s.name + ":spawn", "a process is spawned on a pass that accepts nothing")
                continue
            oks += 1
            # a connection is its own process's: exactly one spawn which receives it
            for g in good:
                mine = [e for e in sp if g[1] in conns_in(e[1])]
                def guarded():
                    return any(opaque_in(f) for f, t in fs)
                if not mine:
                    c.must(s.name + ":dropped", "no process receives the connection" if guarded() else False,
                           "%s accepts a connection and hands it to no process" % s.name, p, " & ".join(show(f) for f, t in fs))
                elif len(mine) > 1:
                    c.bad(s.name + ":twice", "%s hands one connection to %d processes" % (s.name, len(mine)), p)
                else:
                    c.ok(s.name + ":handed over")
                for e in mine:
                    tag = e[4].a[2].a[0] if e[4].op == "ext" and len(e[4].a) > 2 and isinstance(e[4].a[2], Term) and e[4].a[2].op == "tag" else ""
                    if "link" in str(tag):
                        c.bad(s.name + ":linked", "%s links itself to the connection's process: a failing handler takes the server down" % s.name, p, str(tag))
                    else:
                        c.ok(s.name + ":unlinked")
                    other = conns_in(e[1]) - {g[1]}
                    if other:
                        c.bad(s.name + ":shared", "a connection's process also receives another connection", p, show(e[1]))
        c.must(s.name + ":accepts", True if oks else "no pass accepts", "")
        c.samples.append("%s: %d loop passes, %d children paths" % (s.name, sum(1 for _ in s.passes()), sum(1 for _ in s.children())))

def outcome(es):
    """The parse events of a child: [(source, kind, request term)]."""
    return [(e[1], e[2], e[3]) for e in flat(es) if e[0] == "parse"]

def child_conn(c, s, o, e):
    cs = conns_in(e[1])
    return next(iter(cs)) if len(cs) == 1 else None

@rule("S02")
def s02(c):
    """Each connection's process parses one request from that connection; anything that is not a request is answered 400,
    and no application code runs for it."""
    for s in servers(c):
        p = s.root["path"]
        n = 0
        for es, e, o in s.children():
            n += 1
            cn = child_conn(c, s, o, e)
            evs = o.events()
            ps_ = outcome(evs)
            if cn is None:
                c.unk(s.name + ":conn", "the process's connection is not known")
                continue
            if not ps_:
                if o.kind == "panic" and not definite(o):
                    c.unk(s.name + ":parse", "possible panic before parsing: %s" % (o.val,))
                elif any(x[0] in ("r", "httparse") for x in flat(evs)):
                    c.unk(s.name + ":parse", "the request is not read by Request::parse")
                else:
                    c.must(s.name + ":parse", "not a plain path" if any(opaque_in(f) for f, t in o.facts()) else False,
                           "%s: a path of the connection's process never parses a request" % s.name, p, showfacts(o))
                continue
            if len(ps_) > 1:
                # what the first of them says is all there is to go by: a second request read after a failure answers the wrong thing
                failed = ps_[-1][1] == "some" and any(kind != "some" for src, kind, q in ps_[:-1])
                c.must(s.name + ":parse-once", False if failed and not any(opaque_in(f) for f, t in o.facts()) else "more than one request is parsed",
                       "%s: after a request could not be parsed the process goes on to parse another one instead of answering with a 400 response" % s.name, p, showfacts(o))
                continue
            src, kind, q = ps_[0]
            c.must(s.name + ":source", cn in conns_in(src) if conns_in(src) or not opaque_in(src) else "source " + show(src),
                   "%s parses a request from %s instead of the accepted connection" % (s.name, show(src)), p)
            if o.kind == "panic":
                c.must(s.name + ":panic:" + kind, False if definite(o) and not kind == "some" else "possible panic",
                       "%s: the connection's process panics on a malformed request instead of answering 400" % s.name, str(o.where), showfacts(o))
                continue
            calls = [x for x in flat(evs) if x[0] == "callptr"]
            w = wire(evs, lambda t: cn in conns_in(t))
            if kind == "some":
                continue
            if calls:
                c.bad(s.name + ":handler-on-malformed", "%s calls application code although no request was parsed" % s.name, p, show(calls[0][1]))
            if w.fail or w.partial:
                c.ok(s.name + ":400 (transport failed)")
                continue
            r = parse_msg(w.items) if w.items else None
            what = "a malformed request" if kind == "err" else "a connection which ends before a request"
            if r is None:
                # conditional answers are fine only when the condition separates transport errors
                cond = [f for f, t in o.facts() if any(x.op == "ext" and x.a[0] == "parseerr" for x in walk(f))]
                mal = not w.unk and malformed_kind(c, o)
                c.must(s.name + ":unanswered:" + kind, "no answer on a path that tests the error" if (cond or w.unk) and not mal else False,
                       "%s: %s is not answered 400" % (s.name, what), p, showfacts(o))
            elif r.problem or r.unk:
                c.must(s.name + ":400-shape", False if r.problem else r.unk, "%s: the answer to %s is not a well-formed response: %s" % (s.name, what, r.problem), p, show_items(w.items))
            else:
                code = status_code(r)
                c.must(s.name + ":400:" + kind, code == 400 if code is not None else "status line " + show_items(r.status),
                       "%s: %s is answered %s instead of 400" % (s.name, what, code), p, show_items(w.items))
        if not n:
            c.unk(s.name, "no spawned process found")

# ---------------------------------------------------------------- routes
def route_fields(c):
    """(name of the matcher field, name of the handler field) of Route, found by calling the public constructor."""
    root = c.fn("core::router::Route::new")
    I_, outs = c.run(root)
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1:
        raise Unclear("Route::new has %d results" % len(outs))
    v = I_.snap(outs[0].st, outs[0].val)
    if v.op != "adt":
        raise Unclear("Route::new returns " + show(v))
    fs = c.adt("Route")["variants"][0]["fields"]
    r = {}
    for i, f in enumerate(fs):
        x = v.a[2 + i] if 2 + i < len(v.a) else None
        if x is T("arg", 0):
            r["matcher"] = f[0]
        elif x is T("arg", 1):
            r["handler"] = f[0]
    return v, r

def router_field(c):
    """(name of the field holding the routes, 'append' | 'prepend' | None)"""
    root = c.fn("core::router::Router::route")
    I_, outs = c.run(root)
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) > 1:
        # a path which returns something else than all the routes and the new one loses one of them
        for o in outs:
            x = I_.snap(o.st, o.val)
            whole = x.op == "adt" and any(q.op == "one" and q.a[0] is T("arg", 1) for y in x.a[2:] if y.op == "seq" for q in y.a)
            if not whole and definite(o) and not opaque_in(x):
                c.bad("route:kept", "Router::route does not keep every route it is given: it can return %s" % show(x), root["path"], showfacts(o))
    if len(outs) != 1:
        shuffled(c, root)
        raise Unclear("Router::route has %d results" % len(outs))
    v = I_.snap(outs[0].st, outs[0].val)
    if v is T("arg", 0) and not I_.opaque:
        c.bad("route:kept", "Router::route does not keep the route it is given", root["path"])
    if v.op != "adt":
        raise Unclear("Router::route returns " + show(v))
    fs = c.adt("Router")["variants"][0]["fields"]
    for i, f in enumerate(fs):
        x = v.a[2 + i]
        old = T("fld", T("arg", 0), f[0])
        ps_ = list(pieces(x)) if x.op in ("seq",) or is_seq(x) else []
        if any(q.op == "one" and q.a[0] is T("arg", 1) for q in ps_):
            def isold(q):
                return q.op == "sub" and q.a[0] is old or q is old or (q.op not in ("one", "lit") and len(q.a) and q.a[0] is old)
            if len(ps_) == 2 and isold(ps_[0]) and ps_[1].op == "one":
                return f[0], "append", x
            if len(ps_) == 2 and isold(ps_[1]) and ps_[0].op == "one":
                return f[0], "prepend", x
            return f[0], None, x
    return None, None, v

def shuffled(c, root):
    """Router::route read on three registrations: the routes are kept in the order they were given (or, turned round, in the opposite one)."""
    nroot = c.fn("core::router::Router::new")
    I_, outs = c.run(nroot)
    if len(outs) != 1 or outs[0].kind != "ret":
        return
    o, given = outs[0], []
    for i in range(3):
        given.append(T("arg", "route%d" % i))
        nx = [x for x, _, _ in c.chain(I_, o, root, [o.val, given[-1]])]
        if len(nx) != 1 or nx[0].kind != "ret":
            return
        o = nx[0]
        v = I_.snap(o.st, o.val)
        for x in v.a[2:] if v.op == "adt" else ():
            if x.op != "seq" or not any(q.op == "one" and q.a[0] in given for q in x.a):
                continue
            got = [q.a[0] if q.op == "one" else None for q in x.a]
            if None in got or any(y not in given for y in got):
                continue
            if got not in (given, given[::-1]):
                c.bad("route:kept", "Router::route does not keep the routes as they are given: after the registrations %s the list is %s" % (", ".join(map(show, given)), ", ".join(map(show, got))), root["path"])
                return

def is_seq(x):
    try:
        return list(pieces(x)) is not None
    except Exception:
        return False

def route_of(t, routes, which):
    """The index i when t is field `which` of element i of the router's routes."""
    t = resolve(t)
    if t.op == "fld" and t.a[1] == which:
        b = t.a[0]
        if b.op == "elem" and b.a[0] is routes:
            return b.a[1]
    return None

@rule("S03")
def s03(c):
    """Routes survive the hop into the connection's process: the matchers and handlers called there are the registered
    ones, each handler with its own route's matcher."""
    dispatch(c, "S03")

@rule("S05")
def s05(c):
    """First matching route in registration order is the one that runs, exactly once, with the request, connection and state."""
    dispatch(c, "S05")

def dispatch(c, pid):
    rv, rf = route_fields(c)
    newroot = c.fn("core::router::Route::new")
    if "matcher" not in rf or "handler" not in rf:
        if pid == "S03":
            c.must("Route::new", False if not opaque_in(rv) else show(rv), "Route::new does not keep the matcher and the handler it is given: %s" % show(rv), newroot["path"])
        else:
            c.unk("Route::new", show(rv))
        return
    c.ok("Route::new")
    rtname, order, rx = router_field(c)
    rroot = c.fn("core::router::Router::route")
    if rtname is None or order is None:
        if rtname is None and rx is not None and not opaque_in(rx):
            if pid == "S03":
                c.bad("Router::route:lost", "Router::route does not keep the route it is given: %s" % show(rx), rroot["path"])
                return
        c.unk("Router::route", show(rx))
        return
    c.ok("Router::route:" + order)
    if pid == "S03":
        fresh_ones(c, "Router", rtname, "the routes %s")
        bound_as_told(c)
    for s in servers(c):
        p = s.root["path"]
        if s.name == "for_each":
            if pid == "S03":
                for_each_calls(c, s)
            continue
        arg = T("arg", 1) if s.name == "serve_router" else T("arg", 0)
        state = state_of(c, s)
        routes = T("fld", arg, rtname)
        n = called = ptrs = 0
        for es, e, o in s.children():
            evs = o.events()
            ptrs += sum(1 for x in flat(evs) if x[0] == "callptr")
            ps_ = outcome(evs)
            if not ps_ or ps_[0][1] != "some" or len(ps_) != 1:
                continue
            n += 1
            q = ps_[0][2]
            cn = child_conn(c, s, o, e)
            if o.kind == "panic":
                c.unk(s.name + ":panic", "possible panic %s" % (o.val,))
                continue
            top = [x for x in evs if x[0] in ("callptr", "loop")]
            # calls made in loops
            inloop = []
            for x in evs:
                if x[0] == "loop":
                    for fs, es2, st in x[1].backs:
                        inloop += [(x[1], fs, y) for y in flat(es2) if y[0] == "callptr"]
            direct = [x for x in evs if x[0] == "callptr"]
            handlers = []
            for L, fs, x in [(None, o.facts(), y) for y in direct] + inloop:
                i = route_of(x[1], routes, rf["matcher"])
                j = route_of(x[1], routes, rf["handler"])
                args = x[2]
                if pid == "S03":
                    for k in (i, j):
                        mv = [y for y in walk(k) if y.op in ("perm", "kept")] if k is not None else []
                        if mv:
                            displaced(c, s, mv[0], routes, rf, p)
                if i is not None:
                    # a matcher: called as a matcher, on the request
                    ok = len(args) == 1 and args[0] is q
                    if pid == "S03":
                        c.must(s.name + ":matcher-args", ok or (False if not any(opaque_in(a, ("ext",)) for a in args) else "arguments " + ", ".join(map(show, args))),
                               "%s calls a route's matcher with (%s)" % (s.name, ", ".join(map(show, args))), p)
                elif j is not None:
                    handlers.append((L, fs, x, j))
                    if pid == "S03":
                        check_handler_args(c, s, x, q, cn, state)
                else:
                    base = [y for y in walk(x[1]) if y.op == "fld" and y.a[0].op == "elem" and y.a[0].a[0] is routes]
                    if pid == "S03":
                        c.must(s.name + ":called", False if is_route_ptr(x[1], routes, rf) else "call of " + show(x[1]),
                               "%s calls %s, which is neither the matcher nor the handler of a registered route" % (s.name, show(x[1])), p)
            if pid == "S05":
                hd = [h for h in handlers if h[0] is None]
                hl = [h for h in handlers if h[0] is not None]
                if hl:
                    # a handler called on a pass that goes on: more than one may run
                    L, fs, x, j = hl[0]
                    c.must(s.name + ":many", False if not any(opaque_in(f, ("callptr",)) for f, t in fs) else "handler called in a loop",
                           "%s goes on looking for routes after a handler has run: several handlers may get the same request" % s.name, p, show(x[1]))
                    continue
                if len(hd) > 1:
                    c.bad(s.name + ":twice", "%s runs %d handlers for one request" % (s.name, len(hd)), p, showfacts(o))
                    continue
                if not hd:
                    no_handler(c, s, o, routes, rf)
                    continue
                called += 1
                L, fs, x, j = hd[0]
                first_match(c, s, o, j, routes, rf, order, p)
        if pid == "S05" and not called:
            # (nothing that was met can have called one: neither a function pointer nor a function that was not read)
            c.never(s.name + ":never", "%s: no path runs a matching route's handler" % s.name, p, n and not ptrs and not c.opaque)
        if not n:
            c.unk(s.name + ":paths", "no path with a parsed request")

def bound_as_told(c):
    """Core::bind listens where it is told and keeps the state it is given."""
    root = c.fn("core::Core::bind")
    I_, outs = c.run(root)
    for o in outs:
        if o.kind != "ret":
            c.must("bind:panic", False if o.kind == "panic" and definite(o) else o.kind, "Core::bind panics", root["path"])
            continue
        v = I_.snap(o.st, o.val)
        if not is_ok(v):
            continue
        v = pay(v)
        if v.op != "adt":
            c.unk("bind", show(v))
            continue
        for i, f in enumerate(c.adt("Core")["variants"][0]["fields"]):
            x = v.a[2 + i]
            if "TcpListener" in f[1]:
                told = [y for y in walk(x) if y is T("arg", 0)]
                c.must("bind:address", True if told else (False if not opaque_in(x, ("TcpListener::bind",)) else show(x)), "Core::bind does not listen on the address it is given: %s" % show(x), root["path"])
            else:
                c.must("bind:state", x is T("arg", 1) or (False if not opaque_in(x) else show(x)), "Core::bind keeps the state %s" % show(x), root["path"])

def is_route_ptr(t, routes, rf):
    """The called pointer is fully read, and is not what it should be."""
    if opaque_in(t):
        return False
    if t.op == "arg":
        return True
    return any(y is routes for y in walk(t))

def state_of(c, s):
    if s.name == "run":
        return T("arg", 2)
    fs = c.adt("Core")["variants"][0]["fields"]
    for f in fs:
        if "TcpListener" not in f[1]:
            return T("fld", T("arg", 0), f[0])
    return None

def check_handler_args(c, s, x, q, cn, state):
    p = s.root["path"]
    args = x[2]
    if len(args) != 3:
        c.bad(s.name + ":handler-arity", "%s calls a handler with %d arguments" % (s.name, len(args)), p)
        return
    c.must(s.name + ":handler-request", args[0] is q or ("request " + show(args[0]) if opaque_in(args[0]) or args[0].op == "adt" else False),
           "%s gives the handler %s instead of the parsed request" % (s.name, show(args[0])), p)
    cs = conns_in(args[1])
    c.must(s.name + ":handler-stream", True if cs == {cn} else False if cs else "stream " + show(args[1]),
           "%s gives the handler another connection" % s.name, p)
    if state is not None:
        c.must(s.name + ":handler-state", args[2] is state or ("state " + show(args[2])), "", p)

def for_each_calls(c, s):
    p = s.root["path"]
    called = n = 0
    for es, e, o in s.children():
        evs = o.events()
        ps_ = outcome(evs)
        if len(ps_) != 1 or ps_[0][1] != "some":
            continue
        n += 1
        if o.kind == "panic":
            c.unk("for_each:panic", str(o.val))
            continue
        q, cn = ps_[0][2], child_conn(c, s, o, e)
        calls = [x for x in flat(evs) if x[0] == "callptr"]
        looped = [y for x in evs if x[0] == "loop" for fs, es2, st in x[1].backs for y in flat(es2) if y[0] == "callptr"]
        if not calls:
            c.must("for_each:uncalled", False if not any(opaque_in(f) for f, t in o.facts()) else "a path without a call",
                   "for_each drops a parsed request without calling the function, when %s" % showfacts(o, 200), p, showfacts(o))
            continue
        if len(calls) > 1 or looped:
            c.bad("for_each:twice", "for_each calls the function more than once for a request", p)
        x = calls[0]
        c.must("for_each:function", x[1] is T("arg", 1) or (False if not opaque_in(x[1]) else "calls " + show(x[1])), "for_each calls %s instead of the given function" % show(x[1]), p)
        check_handler_args(c, s, x, q, cn, state_of(c, s))
        called += 1
    if not called:
        c.never("for_each:never", "for_each never calls the given function", p)

def match_facts(facts, routes, rf):
    """[(index, matched?)] what a set of facts says about matchers' answers."""
    r = []
    for f, tr in facts:
        t = f
        while t.op == "not":
            t, tr = t.a[0], not tr
        if t.op == "ext" and t.a[0] == "callptr":
            i = route_of(t.a[2], routes, rf["matcher"]) if len(t.a) > 2 and isinstance(t.a[2], Term) else None
            if i is not None:
                r.append((i, tr))
    return r

def dispatch_loops(o, routes, rf):
    """Loops of the path which consult matchers: (LoopEv, index used, start, step)"""
    for e in o.events():
        if e[0] == "loop":
            idx = {i for fs, es, st in e[1].backs for y in flat(es) if y[0] == "callptr" for i in [route_of(y[1], routes, rf["matcher"])] if i is not None}
            if idx:
                yield e[1], idx

def direction(L, i):
    """'forward' when pass k of L looks at element k; 'backward' when at element len-1-k."""
    if L.counter is None:
        return None
    hv, bound = L.counter
    if i is hv:
        return "forward"
    if i is add(add(bound, I(-1)), neg(hv)):
        return "backward"
    return None

def neg(t):
    return scale(t, -1)

def of_accept(o):
    """What the path asks about the kind of an error, it asks about why accepting failed - which can be any reason they leave."""
    ks = [(f, t) for f, t in o.facts() if any(x.op == "pure" and x.a[0] == "Error::kind" for x in walk(f))]
    return all(not t for f, t in ks) and all(x.a[1].op == "ext" and x.a[1].a[0] == "ioerr" for f, t in ks for x in walk(f) if x.op == "pure" and x.a[0] == "Error::kind")

def definite_but(o, ok):
    return not any(opaque_in(f, ok) for f, t in o.facts())

def first_match(c, s, o, j, routes, rf, order, p):
    mf = match_facts(o.facts(), routes, rf)
    if (j, True) not in mf:
        if (j, False) in mf:
            c.bad(s.name + ":unmatched", "%s runs the handler of a route whose matcher said no" % s.name, p, showfacts(o))
            return
        others = [i for i, t in mf if t]
        if any(opaque_in(f, ("callptr",)) for f, t in o.facts()):
            c.unk(s.name + ":matched", showfacts(o))
            return
        c.bad(s.name + ":unmatched", "%s runs the handler of route %s without its matcher having accepted the request%s" % (s.name, show(j), " (that of route %s did)" % show(others[0]) if others else ""), p, showfacts(o))
        return
    c.ok(s.name + ":matched")
    loops = list(dispatch_loops(o, routes, rf))
    if not loops and order == "append" and j.op == "int" and all(i.op == "int" for i, t in mf):
        # consulted one after the other: every earlier one said no
        no = {i.a[0] for i, t in mf if not t}
        gap = [i for i in range(j.a[0]) if i not in no]
        c.must(s.name + ":order", not gap or (False if definite_but(o, ("callptr",)) else showfacts(o)),
               "%s runs the handler of route %s without having asked the matcher of route %s, registered before it" % (s.name, show(j), gap and gap[0]), p, showfacts(o))
        return
    if len(loops) != 1:
        c.unk(s.name + ":order", "%d loops consult matchers" % len(loops))
        return
    L, idx = loops[0]
    # all earlier passes found no match
    for fs, es, st in L.backs:
        m = match_facts(fs, routes, rf)
        if any(t for i, t in m):
            c.must(s.name + ":first", False if not any(opaque_in(f, ("callptr",)) for f, t in fs) else "a pass which goes on after a match",
                   "%s goes on to later routes although one has matched: the last match wins" % s.name, p)
        elif not m:
            c.must(s.name + ":skipped", "a pass which consults no matcher", "")
        else:
            c.ok(s.name + ":first")
    moved = [x for x in walk(j) if x.op in ("perm", "kept")]
    if moved:
        return displaced(c, s, moved[0], routes, rf, p)
    d = direction(L, j)
    if d is None:
        c.unk(s.name + ":order", "index %s in %s" % (show(j), L.where))
        return
    c.must(s.name + ":order", (d == "forward") == (order == "append"),
           "%s tries routes in the reverse of the order they were registered in" % s.name, p)

def displaced(c, s, x, routes, rf, p):
    """The routes the process looks at are a reordering or a selection of the registered ones."""
    if x.op == "perm":
        return c.must(s.name + ":reordered", False if not opaque_in(x) else show(x), "%s tries routes in another order than they were registered in (sorted by %s)" % (s.name, ", ".join(map(show, x.a[1]))), p)
    S = x.a[0]
    if S.op == "dedup" and not (S.a[1].op == "fld" and S.a[1].a[1] == rf["handler"]):
        return c.unk(s.name + ":dropped", "neighbouring routes with equal %s are dropped" % show(S.a[1]))
    c.must(s.name + ":dropped", False if not opaque_in(x, ("hv",)) else show(x), "%s leaves out some of the registered routes (%s)" % (s.name, show(S, 160)), p)

def no_handler(c, s, o, routes, rf):
    """No handler ran: every route's matcher must have said no."""
    p = s.root["path"]
    mf = match_facts(o.facts(), routes, rf)
    if any(t for i, t in mf):
        c.must(s.name + ":ignored", False if not any(opaque_in(f, ("callptr",)) for f, t in o.facts()) else showfacts(o),
               "%s: a route matched and no handler ran" % s.name, p, showfacts(o))
        return
    loops = list(dispatch_loops(o, routes, rf))
    if not loops and all(i.op == "int" for i, t in mf):
        # consulted one after the other: are there routes left?
        no = {i.a[0] for i, t in mf if not t}
        k = next(i for i in range(len(no) + 1) if i not in no)
        more = o.st.clone().assume(lt(I(k), length(routes)), True)
        c.must(s.name + ":exhausted", not more or (False if definite_but(o, ("callptr",)) and not c.opaque else showfacts(o)),
               "%s gives up with route %d not consulted" % (s.name, k), p, showfacts(o))
        return
    if len(loops) != 1:
        fs = o.facts()
        c.unk(s.name + ":exhausted", "no handler ran, and %d loops consult matchers" % len(loops))
        return
    L, idx = loops[0]
    if L.counter is None:
        c.unk(s.name + ":exhausted", "loop bound unknown")
        return
    hv, bound = L.counter
    ends = [f for f, t in o.facts() if f.op == "lt" and f.a[0] is hv and not t]
    # "nothing is left" says the same as "the index is not below the end"
    ends += [lt(hv, n) for f, t in o.facts() if t and f.op == "eq" for n in (add(sub(f.a[0], f.a[1]), hv), add(sub(f.a[1], f.a[0]), hv)) if contains(f, hv) and not contains(n, hv)]
    full = any(o.st.decide(le(length(routes), f.a[1])) is True for f in ends)
    if ends and not full:
        x = ends[0].a[1]
        short = False if not opaque_in(x) and not any(y.op == "dedup" for y in walk(x)) else "bound " + show(x)
        c.must(s.name + ":exhausted", short, "%s stops looking after %s routes, not all of them" % (s.name, show(x)), p, showfacts(o))
    elif full:
        c.ok(s.name + ":exhausted")
    else:
        c.unk(s.name + ":exhausted", "leaves the loop otherwise: " + showfacts(o))

# ---------------------------------------------------------------- one answer per stream
@rule("S04")
def s04(c):
    """A connection handed to application code can be answered at most once: Stream is linear (no copies, every method
    that answers consumes it, nothing public makes a new one) and one call writes at most one response."""
    p = c.progs["puck"]
    st = c.adt("Stream")
    path = next(k for k in p.adts if p.adts[k] is st)
    for r in p.roots:
        if r.get("trait", "").split("<")[0].split("::")[-1] in ("Clone", "Copy") and "self" in r and strip_generics(p.tydef(r["self"])).split("::")[-1] == "Stream":
            c.bad("Stream:clone", "Stream can be duplicated (%s): one request can be answered twice" % r["trait"], r["path"])
    c.ok("Stream:not-clone")
    for f in st["variants"][0]["fields"]:
        if len(f) > 2 and f[2] == "pub":
            c.bad("Stream:public-field:" + f[0], "Stream's field %s is public: the connection can be taken out and answered again" % f[0], path)
    n = 0
    for r in p.roots:
        if "self" in r or "trait" in r or r["key"] not in p.bodies:
            continue
    for nm in ("respond", "upgrade"):
        root = c.fn("core::Stream::" + nm)
        b = p.bodies[root["key"]]
        ty = p.types[b["locals"][1][0]]
        if ty["k"] == "ref":
            c.bad("Stream::%s:borrows" % nm, "Stream::%s only borrows the stream: it can be called again after it has answered" % nm, root["path"])
        else:
            c.ok("Stream::%s consumes" % nm)
        I_, outs = c.run(root)
        for o in outs:
            if o.kind != "ret":
                continue
            w = wire(o.events(), lambda s: True)
            heads = sum(1 for it in w.items if it[0] == "b" for k in range(it[1].count(b"HTTP/1.1 ")))
            looped = any(x[0] == "each" and any(y[0] == "b" and b"HTTP/1.1 " in y[1] for a in x[3] for y in a[1]) for x in w.items)
            n += 1
            if heads > 1 or looped:
                c.bad("Stream::%s:answers" % nm, "Stream::%s writes %s response heads" % (nm, "several" if looped else heads), root["path"], show_items(w.items))
            else:
                c.ok("Stream::%s:one-head" % nm)
    c.samples.append("%d paths of Stream's answering methods" % n)

def fresh_ones(c, ty, field, what):
    """Every public way to make a TY out of nothing makes one with nothing in FIELD."""
    p = c.progs["puck"]
    for r in p.roots:
        if not r.get("pub") or r.get("inputs") or r["key"] not in p.bodies or r.get("output") is None:
            continue
        if strip_generics(p.tydef(r["output"]) or "").split("::")[-1] != ty:
            continue
        I_, outs = c.run(r)
        for o in outs:
            if o.kind != "ret":
                c.must("%s::%s" % (ty, r["name"]), False if o.kind == "panic" and definite(o) else o.kind, "%s panics" % r["path"], r["path"])
                continue
            v = I_.snap(o.st, o.val)
            x = c.pfield(v, ty, field) if v.op == "adt" else v
            n = length(x) if v.op == "adt" and is_seq(x) else None
            c.must("%s::%s" % (ty, r["name"]), n is engine.I(0) or (False if n is not None and n.op == "int" else show(v)), "%s starts with %s" % (r["path"], what % show(x)), r["path"])

# ---------------------------------------------------------------- URL matching
STRS = ["a", "b", "A", "", "12", "0", "007", "-0", "-", "1_000", "0x1f", "2147483647", "-2147483648", "-7", "+5", "12x", "%2012", "1.5", "99999999999", "1000", "-70000", "2000000000", "%C3%A9", "a%20b", "a;b", "a;", "a.b", "a-b", "a+b", "a,b", "a:b", "a=b", "a@b", "a~", "%61", "ab", "aa"]   # (what a URL's path can hold)
def as_int(s, bits=None, signed=True):
    import re
    if not re.fullmatch(r"[+-]?[0-9]+" if signed else r"\+?[0-9]+", s):
        return None
    v = int(s)
    if bits:
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        if not lo <= v <= hi:
            return None
    return v
ITY = {"i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "i128": (128, True), "isize": (32, True),
       "u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "u128": (128, False), "usize": (32, False)}

class Unknown(Exception):
    pass

class Model:
    """One (matcher, URL) pair of the finite quotient: the terms of a path summary evaluated on it."""
    def __init__(m, c, segs, base, actual, segf):
        m.c, m.segs, m.base, m.actual, m.segf = c, segs, base, actual, segf
        m.bind = {}
    def val(m, t):
        """int | str | list | ('seg', i)"""
        op, a = t.op, t.a
        if t in m.bind:
            return m.bind[t]
        if op == "int":
            return a[0]
        if op == "lit" or op == "str":
            return a[0].decode("utf8")
        if op == "lin":
            return a[0] + sum(k * m.val(x) for x, k in a[1])
        if op == "not":
            return 1 - m.val(a[0])
        if op in ("lt", "eq"):
            x, y = m.val(a[0]), m.val(a[1])
            return int(x < y) if op == "lt" else int(x == y)
        if op in ("min", "max"):
            return (min if op == "min" else max)(m.val(a[0]), m.val(a[1]))
        if op == "bool" and a[0] == "cannot_be_a_base":
            return int(not m.base)
        if op == "pathsegs":
            return list(m.actual)
        if op == "fld" and t is m.segf:
            return [("seg", i) for i in range(len(m.segs))]
        if op == "len":
            x = m.val(a[0])
            return len(x.encode()) if isinstance(x, str) else len(x)
        try:
            return strs.evaluate(t, m.val)
        except strs.NotText:
            pass
        if op == "elem":
            L, i = m.val(a[0]), m.val(a[1])
            if isinstance(L, list) and 0 <= i < len(L):
                return L[i]
            raise Unknown("element %s of %s" % (i, show(a[0])))
        if op == "chars":
            return [ord(x) for x in m.val(a[0])]
        if op in ("bytes", "utf8"):
            return list(m.val(a[0]).encode())
        if op == "discr":
            x = m.val(a[0])
            if isinstance(x, tuple) and x[0] == "seg":
                return m.c["vars"].index(m.segs[x[1]][0])
            raise Unknown(show(t))
        if op == "vf":
            x = m.val(a[0])
            if isinstance(x, tuple) and x[0] == "seg" and m.segs[x[1]][0] == "Static" == m.c["vars"][a[1]]:
                return m.segs[x[1]][1]
            raise Unknown(show(t))
        if op == "streq":
            return int(m.val(a[0]) == m.val(a[1]))
        if op == "bool" and a[0] == "parses":
            ty, s = a[1].a[0], m.val(a[2])
            if ty in ITY:
                return int(as_int(s, *ITY[ty]) is not None)
            if ty in ("f32", "f64"):
                try:
                    float(s); return 1
                except ValueError:
                    return 0
        if op == "bool" and a[0] in ("streqi", "eq_ignore_case", "eqi"):
            return int(m.val(a[-2]).lower() == m.val(a[-1]).lower())
        if op == "streqi":
            return int(m.val(a[0]).lower() == m.val(a[1]).lower())
        if op == "bool" and a[0] in ("starts_with", "ends_with", "contains"):
            x, y = m.val(a[1]), m.val(a[2])
            if isinstance(x, str) and isinstance(y, str):
                return int(x.startswith(y) if a[0] == "starts_with" else x.endswith(y) if a[0] == "ends_with" else y in x)
        if op == "pure" and a[0] in ("str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::trim"):
            x = m.val(a[-1])
            if isinstance(x, str):
                return x.lower() if "lower" in a[0] else x.upper() if "upper" in a[0] else x.strip()
        if op == "seq" or op in ("one", "sub", "concat"):
            ps_ = list(pieces(t))
            if len(ps_) == 1 and ps_[0].op not in ("lit", "one") and ps_[0] is not t:
                q = ps_[0]
                if q.op == "sub":
                    return m.cut(q)
                return m.val(q.a[0])
            if len(ps_) == 1 and ps_[0].op == "lit":
                return ps_[0].a[0].decode("utf8")
            if not ps_:
                return ""
        if op == "sub":
            return m.cut(t)
        if op == "comp":
            d = T("bv", engine.compdepth(t))
            n = m.val(a[0])
            out = []
            for k in range(n):
                m.bind[d] = k
                for alt in a[1]:
                    if m.holds(alt[0]):
                        for pc in alt[1]:
                            if pc.op != "one":
                                raise Unknown(show(t))
                            out.append(m.val(pc.a[0]))
                        break
                m.bind.pop(d, None)
            return out
        raise Unknown(show(t))
    def cut(m, t):
        x, i, j = (m.val(y) for y in t.a[:3])
        if not isinstance(x, str):
            return x[i:j]
        try:
            return strs.cut(x, i, j)
        except strs.NotText:
            raise Unknown(show(t))
    def holds(m, facts):
        unk = None
        for f, tr in facts:
            try:
                if bool(m.val(f)) != tr:
                    return False
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return True
    def path(m, o, v):
        """What the path answers for the pair; None when it does not apply."""
        r = []
        m._assign(o.facts(), [e[1] for e in o.events() if e[0] == "loop"], 0, lambda: r.append(m.val(v)))
        return r[0] if r else None
    def sat(m, facts, events):
        return m._assign(facts, [e[1] for e in events if e[0] == "loop"], 0)
    def _assign(m, facts, loops, k, then=None):
        """Some number of passes of each loop, each pass one the loop can make, under which the facts hold."""
        if k == len(loops):
            if not m.holds(facts):
                return False
            if then:
                then()
            return True
        L = loops[k]
        if L.count is None:
            raise Unknown("loop %s" % (L.where,))
        hv, v0, bound = L.count
        lo = m.val(v0)
        for n in range(lo, m.val(bound) + 1):
            if n > lo:
                m.bind[hv] = n - 1
                try:
                    if not any(m.sat(fs, es) for fs, es, st in L.backs):
                        return False
                finally:
                    m.bind.pop(hv, None)
            m.bind[hv] = n
            try:
                if m._assign(facts, loops, k + 1, then):
                    return True
            finally:
                m.bind.pop(hv, None)
        return False

def spec_match(segs, base, actual):
    if not base or len(segs) != len(actual):
        return {0}
    r = {1}
    for (k, s), x in zip(segs, actual):
        if k == "Static" and s != x:
            return {0}
        if k == "IntParam":
            if as_int(x) is None:
                return {0}
            if as_int(x, 32) is None:
                r = {0, 1}
    return r

@rule("M01")
def m01(c):
    """Match::does_match accepts exactly the URLs whose path has one segment per matcher segment, each fitting."""
    sg = c.adt("Segment")
    names = [v["name"] for v in sg["variants"]]
    for want in ("Static", "Param", "IntParam"):
        c.var("Segment", want)
    # the builder
    at = c.fn("core::router::match_url::Match::at")
    I_, outs = c.run(at)
    outs = [o for o in outs if o.kind == "ret"]
    v = I_.snap(outs[0].st, outs[0].val) if len(outs) == 1 else None
    segname = None
    if v is T("arg", 0) and not I_.opaque:
        c.bad("Match::at", "Match::at does not keep the segment it is given", at["path"])
    elif v is None or v.op != "adt":
        c.unk("Match::at", show(v) if v else "several results")
    else:
        for i, f in enumerate(c.adt("Match")["variants"][0]["fields"]):
            x = v.a[2 + i]
            ps_ = list(pieces(x)) if is_seq(x) else []
            if any(q.op == "one" and q.a[0] is T("arg", 1) for q in ps_):
                segname = f[0]
                old = T("fld", T("arg", 0), f[0])
                shape = [("new" if q.op == "one" and q.a[0] is T("arg", 1) else "old" if old in set(walk(q)) else "?") for q in ps_]
                c.must("Match::at", True if shape == ["old", "new"] else show(x) if "?" in shape else False,
                       "Match::at does not add its segment at the end: %s" % show(x), at["path"])
        if segname is None:
            c.must("Match::at", show(v) if opaque_in(v) else False, "Match::at does not keep the segment it is given: %s" % show(v), at["path"])
    if segname is not None:
        fresh_ones(c, "Match", segname, "the segments %s")
    for nm, want in (("path", "Static"), ("anything", "Param"), ("any_integer", "IntParam")):
        r = c.fn("core::router::match_url::" + nm)
        I2, os2 = c.run(r)
        for o in os2:
            if o.kind == "ret":
                v = I2.snap(o.st, o.val)
                if v.op != "adt":
                    c.unk(nm, show(v))
                    continue
                good = names[v.a[1]] == want and (want != "Static" or v.a[2] is T("arg", 0) or same_text(v.a[2], T("arg", 0)))
                c.must(nm, good or (show(v) if opaque_in(v) else False), "%s() makes %s" % (nm, show(v)), r["path"])
    root = c.fn("core::router::match_url::Match::does_match")
    I_, outs = c.run(root)
    if segname is None:
        cands = [f[0] for f in c.adt("Match")["variants"][0]["fields"] if "Segment" in f[1]]
        if len(cands) != 1:
            raise Unclear("field of Match holding the segments")
        segname = cands[0]
    segf = T("fld", T("arg", 0), segname)
    paths = []
    for o in outs:
        if o.kind == "panic":
            c.must("does_match:panic", False if definite(o) else "possible panic", "does_match can panic: %s" % (o.val,), root["path"], showfacts(o))
        elif o.kind == "ret":
            paths.append((o, I_.snap(o.st, o.val)))
        else:
            c.unk("does_match:" + o.kind, str(o.where))
    # the quotient: every matcher of up to two segments against every path of up to two (of three kinds at three)
    def segkinds():
        return [("Param", None), ("IntParam", None)] + [("Static", s) for s in ("a", "b", "", "12", "A", "\u00e9", "a;b", "%61", "b/a")]
    import itertools
    cases = [((), True, [""])]
    one = [(sg_, x) for sg_ in segkinds() for x in STRS]
    for sg_, x in one:
        cases.append(((sg_,), True, [x]))
    few = [(("Param", None), "b"), (("Static", "a"), "a"), (("Static", "a"), "b"), (("IntParam", None), "12"), (("IntParam", None), "x"), (("Param", None), ""), (("Static", ""), "")]
    for n in (2, 3):
        for z in itertools.product(few if n == 2 else few[:5], repeat=n):
            cases.append((tuple(q[0] for q in z), True, [q[1] for q in z]))
    for k in range(0, 4):
        for l in range(1, 5):
            if k == l:
                continue
            for pat in ([("Static", "a")], [("Param", None)], [("Param", None), ("Static", "a")]):
                cases.append((tuple(pat[i % len(pat)] for i in range(k)), True, ["a"] * l))
                cases.append((tuple(pat[i % len(pat)] for i in range(k)), True, ["a"] * (l - 1) + [""]))
    for k in range(0, 3):
        cases.append(((("Param", None),) * k, False, []))
    done = unk = 0
    for segs, base, actual in cases:
        want = spec_match(segs, base, actual)
        m = Model({"vars": names}, segs, base, actual, segf)
        got = None
        why = None
        for o, v in paths:
            try:
                x = m.path(o, v)
                if x is not None:
                    got = x
                    why = None
                    break
            except Unknown as e:
                why = e
        desc = "[%s] against %s" % (", ".join(k if s is None else "%s(%r)" % (k, s) for k, s in segs), "a URL without path segments" if not base else "/" + "/".join(actual))
        if got is None or why is not None:
            unk += 1
            if unk <= 3:
                c.unk("does_match:case", "%s: %s" % (desc, why or "no path applies"))
            continue
        done += 1
        if got not in want:
            c.bad("does_match:" + ("accepts" if got else "refuses"), "does_match %s %s" % ("accepts" if got else "refuses", desc), root["path"])
    if done:
        c.ok("does_match: %d cases of the quotient" % done)
    c.samples.append("does_match: %d paths, %d quotient cases decided, %d undecided" % (len(paths), done, unk))

def same_text(a, b):
    if a is b:
        return True
    ps_ = list(pieces(a)) if is_seq(a) else []
    return len(ps_) == 1 and b in set(walk(ps_[0]))
