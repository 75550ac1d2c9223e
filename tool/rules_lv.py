"""Live view rules: the component process, the diff, the serialiser and the browser client."""
from lib import *
from views import *
from rules_ws import definite
from models import Ok, Err, Some, NONE, R

CR = "puck_liveview"
RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

# ---------------------------------------------------------------- the processes behind `manage`
def component_interp(c):
    I_ = c.interp(CR, 900000)
    def diff(I2, st, callee, args, atys, rty):
        a = [I2.snap(st, x) for x in args]
        r = T("diff", *a)
        st.event("diff", a[0], a[1], r)
        return [Out("ret", st, r)]
    I_.hooks["Element::diff"] = diff
    def send(I2, st, callee, args, atys, rty):
        ws, m = I2.snap(st, args[0]), I2.snap(st, args[1])
        outs = []
        for ok in (True, False):
            s2 = st.clone()
            s2.event("wsend", ws, m, ok)
            e = s2.fresh("senderr", ws)
            outs.append(Out("ret", s2, Ok(UNIT) if ok else Err(e)))
        return outs
    I_.hooks["WebSocket::send"] = send
    def nxt(I2, st, callee, args, atys, rty):
        ws = I2.snap(st, args[0])
        item = st.fresh("wsitem", ws)
        I2.hint_ty(item, I2.p.types[rty]["args"][0])
        s1, s2 = st.clone(), st.clone()
        s1.event("wnext", ws, True, item)
        s2.event("wnext", ws, False, item)
        return [Out("ret", s1, Some(item)), Out("ret", s2, NONE)]
    I_.hooks["WebSocket::next"] = nxt
    def itnext(I2, st, callee, args, atys, rty):
        if not atys or "WebSocket" not in I2.p.tys(atys[0]):
            return None
        return nxt(I2, st, callee, args, atys, rty)
    I_.hooks["Iterator::next"] = itnext
    I_.hooks["WebSocket::make_copy"] = lambda I2, st, callee, args, atys, rty: [Out("ret", st, I2.snap(st, args[0]))]
    def new(I2, st, callee, args, atys, rty):
        x = st.fresh("component")
        st.event("cnew", I2.snap(st, args[0]), I2.snap(st, args[1]), x)
        return [Out("ret", st, x)]
    I_.hooks["Component::new"] = new
    def update(I2, st, callee, args, atys, rty):
        old, inp = I2.snap(st, args[0]), I2.snap(st, args[1])
        x = T("updated", old, inp)
        st.event("update", old, inp, I2.snap(st, args[2]), x)
        I2.write(st, args[0].a[0], args[0].a[1], x)
        return [Out("ret", st, UNIT)]
    I_.hooks["Component::update"] = update
    def render(I2, st, callee, args, atys, rty):
        comp = I2.snap(st, args[0])
        dom, ls = st.fresh("dom", comp), st.fresh("listeners", comp)
        for x, t in zip((dom, ls), I2.p.types[rty].get("ts") or I2.p.types[rty]["args"]):
            I2.hint_ty(x, t)
        st.event("render", comp, dom, ls)
        return [Out("ret", st, T("tup", dom, ls))]
    I_.hooks["Component::render"] = render
    return I_

class Proc:
    """One spawned process: what it was given, its path summaries, its passes."""
    def __init__(s, ev, outs, parent, before):
        s.ev, s.outs, s.parent, s.before = ev, outs, parent, before   # before: events of the parent's path before the spawn
        s.handle = ev[4]
        s.mailbox = T("mailbox", s.handle)
    def flat(s):
        for o in s.outs:
            yield from flat(o.events())
    def loops(s, tag):
        """Loops with a pass on which an event of this kind happens."""
        r = []
        def go(evs):
            for e in evs:
                if e[0] == "loop":
                    if e[1] not in r and any(x[0] == tag for fs, es, st in e[1].backs for x in es):
                        r.append(e[1])
                    for fs, es, st in e[1].backs:
                        go(es)
        for o in s.outs:
            go(o.events())
        return r

class Live:
    """`manage`: the process tree it builds."""
    def __init__(s, c):
        s.c = c
        s.root = c.fn("component::manage", crate=CR)
        s.I, s.outs = c.run(s.root, I=component_interp(c), crate=CR)
        s.procs = []
        for o in s.outs:
            s.walk(o.events(), None)
        s.comp = [p for p in s.procs if any(e[0] in ("cnew", "render") for e in p.flat())]
        s.reader = [p for p in s.procs if any(e[0] == "wnext" for e in p.flat())]
        s.front = [p for p in s.procs if any(o.kind == "ret" and s.I.snap(o.st, o.val) is p.handle for o in s.outs)]
        if len(s.comp) != 1:
            raise Unclear("manage spawns %d processes that render a component" % len(s.comp))
        s.comp = s.comp[0]
        s.kinds()
    def walk(s, evs, parent):
        evs = list(evs)
        seen = []
        for e in evs:
            if e[0] == "spawn" and not any(p.ev is e for p in s.procs):
                p = Proc(e, e[3] or [], parent, list(seen))
                s.procs.append(p)
                for o in p.outs:
                    s.walk(o.events(), p)
            if e[0] == "loop":
                for fs, es, st in e[1].backs:
                    s.walk(es, parent)
            seen.append(e)
    def kinds(s):
        """Which variant of the component's message type carries what, read off the senders."""
        c = s.c
        s.k = {}
        for p in s.procs:
            for e in p.flat():
                if e[0] == "send" and e[1] is s.comp.handle and e[2].op == "adt" and len(e[2].a) == 3:
                    v, x = e[2].a[1], e[2].a[2]
                    if x.op == "ext" and x.a[0] == "wsitem":
                        s.k.setdefault("ws", v)
                    elif x.op == "ext" and x.a[0] == "msg":
                        s.k.setdefault("input", v)
                    elif x.op == "ext" and x.a[0] == "Mailbox::this":
                        s.k.setdefault("who", v)
                    s.msgty = e[2].a[0].split("::")[-1]
    def variants(s):
        return len(s.c.adt(s.msgty, CR)["variants"])

def live(c):
    if "live" not in c.cache:
        c.cache["live"] = Live(c)
    return c.cache["live"]

def difft(m):
    """The diff inside a pushed text message, or None."""
    if m.op != "adt" or len(m.a) != 3:
        return None
    x = m.a[2]
    if x.op != "json":
        return None
    x = x.a[0]
    while x.op == "adt" and len(x.a) == 3:
        x = x.a[2]
    return x if x.op == "diff" else None

def elemof(t):
    """Some(x) -> x, None -> None"""
    return pay(t) if is_some(t) else None

def comp_segments(lv):
    """(where, start state or None, facts, events, end state or None, kind) of the component: the way to the event loop, each pass, each way out."""
    r = []
    P = lv.comp
    loops = P.loops("receive")
    for o in P.outs:
        es = o.events()
        i = next((i for i, e in enumerate(es) if e[0] == "loop" and e[1] in loops), None)
        if i is None:
            r.append(("start", None, o.facts(), es, None, o))
        else:
            r.append(("start", None, o.facts(), es[:i], es[i][1], o))
            r.append(("exit", es[i][1], o.facts(), es[i + 1:], None, o))
    for L in loops:
        for fs, es, st in L.backs:
            r.append(("pass", L, fs, es, st, None))
    return r, loops

def hvcell(t):
    return t.a[2] if t.op == "hv" else None

@rule("L01")
def l01(c):
    """The component's picture of the browser is what was pushed: the first push creates the first rendering from nothing, every
    later push is the diff from the rendering pushed last to the new one, the new one (with its listeners) is then retained, and
    no update goes unpushed."""
    lv = live(c)
    segs, loops = comp_segments(lv)
    where = lv.root["path"]
    if len(loops) != 1:
        return c.unk("event loop", "%d receive loops in the component process" % len(loops))
    L = loops[0]
    # the variables that hold what was pushed
    doms, lists = set(), set()
    for kind, start, fs, es, end, o in segs:
        if kind == "start":
            continue
        for e in flat(es):
            if e[0] == "wsend":
                d = difft(e[2])
                if d is not None and d.a[0].op == "hv":
                    doms.add(d.a[0])
        for f, _ in fs:
            for x in walk(f):
                if x.op == "bool" and x.a[0] == "mhas" and x.a[1].op == "hv":
                    lists.add(x.a[1])
    pushed0 = pushed_start(c, segs, where)
    # the retained variables start as what was pushed first
    n = 0
    for hv, what, i in [(h, "rendering", 0) for h in doms] + [(h, "listeners", 1) for h in lists]:
        cell, path = hv.a[2]
        v0 = at_path_(L.entry.get(cell), path)
        if v0 is None or not pushed0:
            c.unk("entry:" + what, "initial value of the retained %s not known" % what)
        else:
            c.must("entry:" + what, True if v0 in {p[i] for p in pushed0} else False if v0.op == "ext" else "not an exact value",
                   "the %s retained when the event loop starts is %s, not the one pushed first" % (what, show(v0)), where)
    if not doms:
        c.never("push", "no pass of the component's event loop pushes a diff", where)
    for kind, start, fs, es, end, o in segs:
        if kind == "start":
            continue
        cur, ups, rend, pend = None, [], {}, None
        name = "pass"
        for e in es:
            if e[0] == "loop":
                if any(x[0] in ("update", "render", "wsend", "diff") for x in flat([e])):
                    c.unk("inner loop", "the pass updates or pushes inside an inner loop")
            elif e[0] == "update":
                pend = e[4]
            elif e[0] == "render":
                rend[e[2]] = e
                if pend is not None and e[1] is not pend:
                    c.must("stale", False if not opaque_in(e[1], ("hv",)) else "component value", "a component other than the one just updated is rendered", where)
            elif e[0] == "wsend":
                d = difft(e[2])
                if d is None:
                    c.unk("push form", "a message that is not a diff is sent: %s" % show(e[2], 120))
                    continue
                old, new = d.a[0], elemof(d.a[1])
                if new is None:
                    c.must("full", False if is_none(d.a[1]) else "second argument of diff", "an update pushes the whole document again (diff against nothing): the browser would show it twice", where, showfacts_(fs))
                    continue
                if cur is None:
                    c.must("old side", True if old in doms and len(doms) == 1 else False if old.op in ("ext", "hv") else show(old),
                           "the diff pushed starts from %s, which is not the rendering retained from the last push" % show(old, 160), where, showfacts_(fs))
                else:
                    c.must("old side", old is cur, "the second diff of a pass starts from %s, not from the rendering pushed before it" % show(old, 160), where, showfacts_(fs))
                if new not in rend:
                    c.must("new side", False if new.op in ("ext", "hv") else show(new), "the diff pushed leads to %s, which this pass did not render" % show(new, 160), where, showfacts_(fs))
                elif pend is not None and rend[new][1] is not pend:
                    c.must("new side", False, "the diff pushed leads to a rendering from before the update", where, showfacts_(fs))
                else:
                    c.ok("new side")
                    pend = None
                cur = new
        if pend is not None:
            # a changeset known to be empty need not be sent
            for d in {x.a[0].a[0] for f, _ in fs for x in walk(f) if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[0].op == "diff"}:
                old, new = d.a[0], elemof(d.a[1])
                if (old is cur or cur is None and old in doms) and new in rend and rend[new][1] is pend and \
                        all(facts_hold(fs, lambda t: k if t.op == "len" and t.a[0].op == "fld" and t.a[0].a[0] is d else None) is False for k in (1, 2, 3, 7, 1000)):
                    c.ok("nothing to push")
                    cur, pend = new, None
                    break
        if pend is not None:
            if end is not None or (o is not None and o.kind == "ret"):
                c.must("unpushed", False, "the component is updated but the new rendering is not pushed", where, showfacts_(fs))
        if end is None:
            continue
        n += 1
        for hv in doms:
            cell, path = hv.a[2]
            v = at_path_(end.cells.get(cell), path)
            want = hv if cur is None else cur
            c.must("retained rendering", True if v is want else "not read" if v is None else False,
                   "after a pass that pushed %s the rendering retained is %s" % (show(want, 80) if cur is not None else "nothing", show(v, 120) if v is not None else "?"), where, showfacts_(fs))
        for hv in lists:
            cell, path = hv.a[2]
            v = at_path_(end.cells.get(cell), path)
            want = hv if cur is None else rend[cur][3] if cur in rend else None
            c.must("retained listeners", True if v is want else "not read" if v is None or want is None else False,
                   "after a pass that pushed %s the listeners retained are %s: an event from the browser would reach listeners of another rendering" % (show(cur, 80) if cur is not None else "nothing", show(v, 120) if v is not None else "?"), where, showfacts_(fs))
    c.samples.append({"passes": n, "retained": [show(x, 80) for x in sorted(doms | lists)]})

def pushed_start(c, segs, where):
    r = set()
    for kind, start, fs, es, end, o in segs:
        if kind != "start":
            continue
        sends = [e for e in es if e[0] == "wsend"]
        rend = {e[2]: e for e in es if e[0] == "render"}
        if end is None:
            continue
        if len(sends) != 1:
            c.must("first push", False, "%d messages are pushed before the event loop starts instead of the first rendering" % len(sends), where)
            continue
        d = difft(sends[0][2])
        if d is None or d.a[0] not in rend:
            c.unk("first push", "what is pushed first is not a diff of a rendering: %s" % show(sends[0][2], 160))
            continue
        c.must("first push", True if is_none(d.a[1]) else False if is_some(d.a[1]) else show(d.a[1]), "the first push is not the creation of the whole rendering", where)
        r.add((d.a[0], rend[d.a[0]][3]))
    return r

def at_path_(v, path):
    return None if v is None else engine.at_path(v, path)

def showfacts_(fs, n=600):
    s = " & ".join(("" if t else "!") + ps(f) for f, t in fs)
    return s if len(s) <= n else s[:n] + "…"

# ---------------------------------------------------------------- L02: each message applied exactly once
class Scen:
    """A class of message: decides the branch conditions that speak about the message."""
    def __init__(s, lv, m, kind, msg=None, err=None, json=None, known=None, lkind=None, payload=None):
        s.lv, s.m, s.kind, s.msg, s.err, s.json, s.known, s.lkind, s.payload = lv, m, kind, msg, err, json, known, lkind, payload
        k = lv.k
        s.item = T("vf", m, k.get("ws"), 0)
        s.message = T("vf", s.item, 0, 0)
        s.text = T("vf", s.message, lv.text, 0)
    def __call__(s, t):
        op, a = t.op, t.a
        if op == "discr":
            x = a[0]
            if x is s.m: return s.kind
            if x is s.item: return 1 if s.err is not None else 0
            if x is s.message: return s.msg
            if x is T("vf", s.item, 1, 0): return s.err
            if x.op == "mget": return s.lkind
            if x.op == "mval": return s.lkind or 0      # another one of the registered listeners
            if x.op == "fld" and x.a[0].op == "unjson": return s.payload
        if op == "bool" and a[0] == "json_ok" and a[2] is s.text:
            return s.json
        if op == "bool" and a[0] == "mhas":
            return s.known
        if op == "len" and a[0].op == "hv" and s.known is not None:
            return 3        # listeners are registered
        return None

def vname_idx(c, adt, crate=CR):
    return {v["name"]: i for i, v in enumerate(c.adt(adt, crate)["variants"])}

@rule("L02")
def l02(c):
    """Each message reaches the component's update exactly once and unchanged: an input as itself, a browser event through the one
    registered listener it names (with the event its kind expects); anything else the browser sends changes nothing and ends nothing."""
    lv = live(c)
    segs, loops = comp_segments(lv)
    where = lv.root["path"]
    if len(loops) != 1 or "ws" not in lv.k or "input" not in lv.k:
        return c.unk("event loop", "message kinds %s, %d receive loops" % (lv.k, len(loops)))
    L = loops[0]
    mv = vname_idx(c, "Message")
    lk = vname_idx(c, "Listener")
    ek = vname_idx(c, "NextMessageError")
    lv.text = mv["Text"]
    ms = {e[2] for kind, st, fs, es, end, o in segs if kind != "start" for e in es if e[0] == "receive"}
    if len(ms) != 1:
        return c.unk("receive", "%d receives in a pass" % len(ms))
    m = ms.pop()
    for kind, st, fs, es, end, o in segs:
        n = sum(e[0] == "receive" for e in es)
        if kind == "pass":
            c.must("one receive", n == 1, "a pass of the event loop receives %d messages" % n, where)
    S = lambda kind, **kw: Scen(lv, m, kind, **kw)
    ws = lv.k["ws"]
    ev = {"Click": "ClickEvent", "Submit": "SubmitEvent", "Input": "InputEvent"}
    scen = [("input from a process", S(lv.k["input"]), ("input",))]
    for nm, i in lk.items():
        scen.append(("%s event" % nm, S(ws, msg=lv.text, json=1, known=1, lkind=i, payload=1), ("listener", i, ev.get(nm))))
        if nm != "Input":
            scen.append(("%s event without payload" % nm, S(ws, msg=lv.text, json=1, known=1, lkind=i, payload=0), ("listener", i, ev.get(nm))))
        else:
            scen.append(("Input event without payload", S(ws, msg=lv.text, json=1, known=1, lkind=i, payload=0), ("nothing",)))
    for p in (0, 1):
        scen.append(("event naming no listener", S(ws, msg=lv.text, json=1, known=0, payload=p), ("nothing",)))
    scen.append(("text that is not an event", S(ws, msg=lv.text, json=0), ("nothing",)))
    for nm, i in mv.items():
        if i != lv.text:
            scen.append(("%s message" % nm, S(ws, msg=i), ("nothing",)))
    scen.append(("malformed message", S(ws, err=ek["ClientError"]), ("nothing",)))
    jt = None
    for name, env, want in scen:
        hits = 0
        for kind, st, fs, es, end, o in segs:
            if kind == "start":
                continue
            fs_ = [f for f in fs if kind == "pass" or after_receive(f, m)]
            h = facts_hold(fs_, env)
            if h is False:
                continue
            hits += 1
            ups = [e for e in es if e[0] == "update"]
            if any(e[0] == "loop" and any(x[0] == "update" for x in flat([e])) for e in es):
                c.unk(name, "updates inside an inner loop")
                continue
            # conditions on the rest of the message or on the component narrow the class down; conditions that were not read leave it open
            unsure = "" if h or not any(facts_hold([f], env) is None and opaque_in(f[0]) for f in fs_) else "the branch conditions are not decided by the message: " + showfacts_([f for f in fs_ if facts_hold([f], env) is None], 200)
            if o is not None and o.kind in ("ret", "panic"):
                failed = any(e[0] == "wsend" and not e[3] for e in es)
                # (a malformed message is the connection's last)
                if not (o.kind == "ret" and (failed or name == "malformed message")):
                    c.must(name + ":ends", unsure or False, "%s ends the component (%s)" % (name, o.kind), str(o.where or where), showfacts_(fs))
                    continue
            if want[0] == "nothing":
                c.must(name, True if not ups else unsure or False, "%s updates the component with %s" % (name, show(ups[0][2], 120) if ups else ""), where, showfacts_(fs))
                continue
            if len(ups) != 1:
                c.must(name, unsure or False, "%s leads to %d updates instead of one" % (name, len(ups)), where, showfacts_(fs))
                continue
            x = ups[0][2]
            if want[0] == "input":
                w = T("vf", m, lv.k["input"], 0)
                c.must(name, True if x is w else "value" if opaque_in(x) and x.op not in ("ext",) else False, "the component is updated with %s instead of the input received" % show(x, 160), where)
                continue
            calls = [e for e in es if e[0] == "callptr"]
            mine = [e for e in calls if e[3] is x]
            if len(mine) != 1:
                c.must(name, "the update's input is %s" % show(x, 160) if x.op not in ("callptr", "ext", "int", "adt") else False, "%s: the component is updated with %s, not with what the listener returns" % (name, show(x, 160)), where, showfacts_(fs))
                continue
            if len(calls) > 1:
                c.must(name + ":calls", unsure or False, "%s calls %d listeners" % (name, len(calls)), where, showfacts_(fs))
                continue
            f, args = mine[0][1], mine[0][2]
            j = listener_call(f, args, env, want)
            c.must(name, j, "%s: %s" % (name, j if isinstance(j, str) else "calls %s on %s" % (show(f, 160), ", ".join(show(a, 120) for a in args))), where, showfacts_(fs)) if j is not False else \
                c.must(name, unsure or False, "%s calls %s with %s" % (name, show(f, 200), ", ".join(show(a, 160) for a in args)), where, showfacts_(fs))
        if not hits:
            c.unk(name, "no path of the component handles it")
    c.samples.append({"message classes": len(scen)})

def after_receive(f, m):
    return contains(f[0], m)

def listener_call(f, args, env, want):
    """Is this the closure of the listener named by the event, called with the right event?"""
    if f.op == "vf" and f.a[0].op == "mget":
        mp, key = f.a[0].a
        if f.a[1] != want[1]:
            return False
        if not (key.op == "fld" and key.a[0].op == "unjson" and key.a[0].a[1] is env.text):
            return False if not opaque_in(key) else "the listener is looked up by %s" % show(key, 120)
    else:
        return "the closure called is %s" % show(f, 160)
    a = args[0] if len(args) == 1 else None
    while a is not None and a.op == "tup" and len(a.a) == 1:
        a = a.a[0]
    if a is None or a.op != "adt" or adtname(a) != want[2]:
        return "the listener's argument is %s" % (show(a, 100) if a is not None else "?")
    if want[2] == "InputEvent":
        v = a.a[2]
        ok = v.op == "fld" and v.a[0].op == "vf" and v.a[0].a[1] == 1 and v.a[0].a[0].op == "fld" and v.a[0].a[0].a[0] is key.a[0]
        if not ok:
            return False if not opaque_in(v) else "value %s" % show(v, 120)
    return True

# ---------------------------------------------------------------- L03: the processes
def sends_to(es, h):
    return [e for e in es if e[0] == "send" and e[1] is h]

@rule("L03")
def l03(c):
    """manage's processes: the component is told its own address before anything else can reach it; every message for the
    component and every message of the browser is forwarded once, unchanged and in order; when the connection has closed, the component and
    the reader of the connection both end; nothing else the browser does ends either."""
    lv = live(c)
    where = lv.root["path"]
    C = lv.comp
    # the address manage hands out
    if not lv.front:
        rets = [lv.I.snap(o.st, o.val) for o in lv.outs if o.kind == "ret"]
        if rets and all(r in [p.handle for p in lv.procs] for r in rets):
            c.bad("address", "manage returns the address of a process that is not there", where)
        else:
            c.unk("address", "manage returns %s" % ", ".join(show(r, 80) for r in rets))
    else:
        X = lv.front[0]
        # who receives from X's mailbox
        for p in [X]:
            forward(c, lv, p, where)
    # address first
    for p in lv.procs:
        for o in p.outs:
            address_first(c, lv, p, o.events(), where)
    who = [e for p in lv.procs for e in p.flat() if e[0] == "send" and e[1] is C.handle and e[2].op == "adt" and e[2].a[1] == lv.k.get("who")]
    fr = lv.front[0] if lv.front else None
    if fr is not None:
        for e in who:
            x = e[2].a[2]
            c.must("own address", True if x.op == "ext" and contains(x, fr.mailbox) else False if x.op == "ext" else show(x),
                   "the component is told %s as its address, which is not the process manage returns" % show(x, 120), where)
    # the component starts from what manage was given
    for e in C.flat():
        if e[0] == "cnew":
            c.must("start data", True if e[1] is T("arg", 0) else False if e[1].op in ("arg", "ext", "adt", "tup") else show(e[1]), "the component is created from %s, not from manage's start data" % show(e[1], 100), where)
            x = e[2]
            ok = x.op == "adt" and len(x.a) == 3 and x.a[2].op == "vf" and x.a[2].a[1] == lv.k.get("who") and x.a[2].a[0].op == "ext" and x.a[2].a[0].a[0] == "msg"
            c.must("context", True if ok else "context is %s" % show(x, 100), "context", where)
        if e[0] == "wsend":
            c.must("connection", True if e[1] is T("arg", 1) else False if e[1].op in ("arg", "ext") else show(e[1], 100), "the component pushes on %s, not on manage's connection" % show(e[1], 100), where)
    n = sum(e[0] == "cnew" for o in C.outs[:1] for e in flat(o.events()))
    c.must("one component", n == 1, "%d components are created" % n, where)
    reader(c, lv, where)
    ends(c, lv, where)

def address_first(c, lv, p, es, where):
    """On a path that spawns the component: WhoAmI is the first thing sent to it, before any other process learns its address."""
    h = lv.comp.handle
    i = next((i for i, e in enumerate(es) if e[0] == "spawn" and e[4] is h), None)
    if i is None:
        return
    for e in es[i + 1:]:
        if e[0] == "send" and e[1] is h:
            ok = e[2].op == "adt" and e[2].a[1] == lv.k.get("who")
            c.must("address first", True if ok else False if e[2].op == "adt" else show(e[2], 80), "the first message sent to the component is %s: it expects its own address first" % show(e[2], 100), where)
            return
        if e[0] == "spawn" and contains(e[1], h):
            c.must("address first", False, "another process is given the component's address before the component has been sent its own: that process's message can arrive first, and the component stops", where)
            return
        if e[0] == "loop" and any(x[0] in ("send", "spawn") for x in flat([e])):
            c.must("address first", False if all_sent_who(lv, e) is False else "sent inside a loop", "messages are forwarded to the component before it is sent its own address", where)
            return
    c.never("address first", "the component is never sent its own address: it waits for ever", where)

def all_sent_who(lv, e):
    r = [x for x in flat([e]) if x[0] == "send" and x[1] is lv.comp.handle]
    return bool(r) and all(x[2].op == "adt" and x[2].a[1] == lv.k.get("who") for x in r)

def forward(c, lv, p, where):
    h = lv.comp.handle
    loops = p.loops("receive")
    if not loops:
        return c.never("forwarding", "the process manage returns never receives", where)
    for o in p.outs:
        if o.kind in ("ret", "panic"):
            c.must("forwarder ends", False if definite(o) else "possible end", "the process manage returns can end (%s) while the component runs: inputs sent to it are lost" % o.kind, str(o.where or where), showfacts(o))
    for L in loops:
        for fs, es, st in L.backs:
            got = [e for e in es if e[0] == "receive"]
            out = [e for e in es if e[0] == "send"]
            if any(e[0] == "loop" for e in es):
                c.unk("forwarding", "inner loop in the forwarder")
                continue
            mine = [e for e in out if e[1] is h]
            if len(got) != 1:
                c.must("forwarding", len(got) == 0 and not mine, "a pass of the forwarder receives %d messages" % len(got), where, showfacts_(fs))
                continue
            if len(mine) != 1:
                c.must("forwarding", False if not fs or not any(opaque_in(f) for f, _ in fs) else "conditions", "an input is passed on to the component %d times" % len(mine), where, showfacts_(fs))
                continue
            x = mine[0][2]
            c.must("forwarding", True if x.op == "adt" and len(x.a) == 3 and x.a[2] is got[0][2] else False if x.op == "adt" and not opaque_in(x) else show(x, 100),
                   "the message passed on is %s, not the input received" % show(x, 120), where, showfacts_(fs))

def reader(c, lv, where):
    h = lv.comp.handle
    ek = vname_idx(c, "NextMessageError")
    if len(lv.reader) != 1:
        return c.never("reader", "no process reads the connection", where) if not lv.reader else c.unk("reader", "%d processes read the connection" % len(lv.reader))
    p = lv.reader[0]
    loops = p.loops("wnext")
    if not loops:
        return c.never("reader", "the browser's messages are not read in a loop", where)
    for L in loops:
        for fs, es, st in L.backs:
            segment(c, lv, fs, es, "pass", where, ek, p)
    for o in p.outs:
        es = o.events()
        i = next((i for i, e in enumerate(es) if e[0] == "loop" and e[1] in loops), None)
        if i is not None:
            if o.kind == "div":
                continue
            segment(c, lv, o.facts(), es[i + 1:], o.kind, where, ek, p)
        else:
            segment(c, lv, o.facts(), es, o.kind, where, ek, p)

def segment(c, lv, fs, es, kind, where, ek, p):
    h = lv.comp.handle
    nx = [e for e in es if e[0] == "wnext"]
    if any(e[0] == "loop" and any(x[0] in ("wnext", "send") for x in flat([e])) for e in es):
        for e in es:
            if e[0] == "loop":
                for f2, e2, st in e[1].backs:
                    segment(c, lv, f2, e2, "pass", where, ek, p)
        nx = [e for e in nx if e[0] == "wnext"]
    mine = sends_to(es, h)
    for e in nx:
        c.must("connection read", True if e[1] is T("arg", 1) else False if e[1].op in ("arg", "ext") else show(e[1], 80), "the reader reads %s, not manage's connection" % show(e[1], 80), where)
    got = [e for e in nx if e[2]]
    want = [e[3] for e in got]
    have = [e[2].a[2] if e[2].op == "adt" and len(e[2].a) == 3 else None for e in mine]
    # a message taken apart and put together again is the message
    have = [w if x is not None and x is not w and x.op == "adt" and rebuilt(c, x, w, fs) else x for x, w in zip(have, want)] + have[len(want):]
    if [x for x in have if x is not None] != want:
        known = all(x is not None and (x in want or not opaque_in(x)) for x in have) and not any(opaque_in(f) for f, _ in fs)
        c.must("browser messages", False if known else "what is passed on is %s" % ", ".join(show(e[2], 80) for e in mine),
               "the browser's messages %s are passed on to the component as %s" % ([show(x, 40) for x in want], [show(e[2], 80) for e in mine]), where, showfacts_(fs))
    elif got:
        c.ok("browser messages")
    if not got:
        if kind in ("ret", "panic") and nx:
            c.must("reader ends", "ends when the stream has no item", "reader", where)
        return
    item = got[-1][3]
    def env(err):
        def f(t):
            if t.op == "discr" and t.a[0] is item: return 0 if err is None else 1
            if t.op == "discr" and t.a[0] is T("vf", item, 1, 0): return err
            return None
        return f
    closed = facts_hold(fs, env(ek["ConnectionClosed"]))
    if kind == "pass" and closed is not False:
        c.must("reader stops", False if closed else "conditions", "after the connection has closed the reader goes on: it reads the closed connection and sends the component 'closed' for ever", where, showfacts_(fs))
    elif kind == "pass":
        c.ok("reader goes on")
    if kind in ("ret", "panic"):
        for nm, e in (("message", None), ("malformed message", ek["ClientError"])):
            h_ = facts_hold(fs, env(e))
            if e is not None or kind == "panic" or h_ is not False:
                if h_ is not False and e is None:
                    c.must("reader ends", False if h_ else "conditions", "the reader ends after an ordinary message: the browser is no longer heard", where, showfacts_(fs))
                elif h_ is not False and told(c, lv, e) is not False:
                    c.must("reader ends", told(c, lv, e) or "conditions", "")
                elif h_ is not False:
                    c.must("reader ends", False if h_ else "conditions", "the reader ends after a malformed message: the component is never told that the connection is closed, and stays for ever", where, showfacts_(fs))
                elif h_ is False:
                    c.ok("reader ends only when closed")
        if kind == "panic":
            c.must("reader panics", False if not any(opaque_in(f) for f, _ in fs) else "conditions", "the reader can panic", where, showfacts_(fs))
        elif closed:
            c.ok("reader stops")

def rebuilt(c, x, item, fs, known=None):
    """x, an exact value, equals item on every run that satisfies fs"""
    known = dict(known or {})
    if x is item:
        return True
    if x.op != "adt":
        return False
    d = T("discr", item)
    nv = 2 if x.a[0].endswith(("result::Result", "option::Option")) else len(c.adt(x.a[0].split("::")[-1])["variants"])
    for k in range(nv):
        if k != x.a[1] and facts_hold(fs, lambda t: k if t is d else known.get(t)) is not False:
            return False
    known[d] = x.a[1]
    return all(rebuilt(c, y, T("vf", item, x.a[1], i), fs, known) for i, y in enumerate(x.a[2:]))

def told(c, lv, err):
    """Does this error from the browser end the component?  None: not decided"""
    segs, loops = comp_segments(lv)
    ms = {e[2] for kind, st, fs, es, end, o in segs if kind != "start" for e in es if e[0] == "receive"}
    if len(loops) != 1 or "ws" not in lv.k or len(ms) != 1:
        return None
    m = ms.pop()
    lv.text = vname_idx(c, "Message")["Text"]
    env = Scen(lv, m, lv.k["ws"], err=err)
    r = set()
    for kind, st, fs, es, end, o in segs:
        if kind != "start":
            h = facts_hold(fs if kind == "pass" else [f for f in fs if contains(f[0], m)], env)
            if h is not False:
                r.add(None if h is None else kind != "pass" and o.kind == "ret")
    return r.pop() if len(r) == 1 else None if None in r or not r else False

def ends(c, lv, where):
    """The component ends when told the connection is closed, and only then (or when pushing fails)."""
    segs, loops = comp_segments(lv)
    ek = vname_idx(c, "NextMessageError")
    mv = vname_idx(c, "Message")
    lv.text = mv["Text"]
    if len(loops) != 1 or "ws" not in lv.k:
        if not loops:
            for kind, st, fs, es, end, o in segs:
                start_end(c, lv, fs, es, o, where)
        return c.unk("component ends", "event loop")
    ms = {e[2] for kind, st, fs, es, end, o in segs if kind != "start" for e in es if e[0] == "receive"}
    if len(ms) != 1:
        return c.unk("component ends", "receives")
    m = ms.pop()
    env = Scen(lv, m, lv.k["ws"], err=ek["ConnectionClosed"])
    stop = False
    for kind, st, fs, es, end, o in segs:
        if kind == "start":
            if end is None:
                start_end(c, lv, fs, es, o, where)
            continue
        fs_ = fs if kind == "pass" else [f for f in fs if contains(f[0], m)]
        h = facts_hold(fs_, env)
        if h is False:
            continue
        if kind == "pass":
            c.must("component stops", False if h else "conditions", "after the connection has closed the component goes on", where, showfacts_(fs))
        elif o.kind == "ret":
            stop = True
            c.ok("component stops")
        elif o.kind == "panic":
            c.must("component stops", False if h else "conditions", "the component panics when the connection has closed", where, showfacts_(fs))
    if not stop:
        c.never("component stops", "the component never ends when the connection has closed", where)

def start_end(c, lv, fs, es, o, where):
    """Ends before the event loop: only for a first message that is not its address, or a peer that has already gone."""
    rec = [e[2] for e in es if e[0] == "receive"]
    def env(t):
        if t.op == "discr" and rec and t.a[0] is rec[0]:
            return lv.k.get("who")
        return None
    h = facts_hold(fs, env)
    if h is False:
        return c.ok("start")
    failed = [e for e in es if e[0] == "wsend" and not e[3]]
    if o.kind == "panic" and failed:
        c.must("start:peer gone", False, "a browser that goes away before the first rendering has been pushed panics the component's process (%s)" % (o.val,), str(o.where), showfacts_(fs))
    elif o.kind == "panic":
        c.must("start:panics", False if h else "conditions", "the component's process can panic before its event loop (%s)" % (o.val,), str(o.where), showfacts_(fs))
    elif o.kind == "ret" and not failed:
        c.must("start:ends", False if h else "conditions", "the component's process can end before its event loop", str(o.where or where), showfacts_(fs))
    else:
        c.ok("start")

# ---------------------------------------------------------------- the diff
import shape
from shape import El, Shape, Unknown, opt

def element_fields(c):
    """The fields of Element the rules speak about (all public)."""
    for f in ("id", "name", "attributes", "listeners", "children", "text", "key"):
        c.fidx("Element", f, CR)

def effect(name):
    """A call kept as 'what it yields': of the changeset it returns, or of the one it is given to extend."""
    def h(I2, st, callee, args, atys, rty):
        a, at, out = [], [], []
        for i, (x, ty) in enumerate(zip(args, atys or [None] * len(args))):
            t = I2.p.types[ty] if ty is not None else {}
            if t.get("k") in ("ref", "ptr") and t.get("mut") and x.op == "ref":
                out.append(x)
            else:
                a.append(I2.snap(st, x))
                at.append(i)
        r = T("diff", *a) if name == "diff" else T("create", callee.get("key"), tuple(at), *a)
        if not out:
            if rty is not None:
                I2.hint_ty(r, rty)
            return [Out("ret", st, r)]
        if len(out) != 1:
            return None
        v = I2.snap(st, I2.read(st, out[0].a[0], out[0].a[1]))
        piece = T("splice", T("fld", r, "ops"))
        if v.op == "adt" and len(v.a) == 3:
            nv = T("adt", v.a[0], v.a[1], seq(v.a[2], piece))
        elif v.op == "adt":
            return None
        else:
            nv = seq(v, piece)
        I2.write(st, out[0].a[0], out[0].a[1], nv)
        return [Out("ret", st, UNIT)]
    return h

class Diff:
    """Path summaries of the public Element::diff, its own recursion and the creation of children kept as calls."""
    def __init__(s, c):
        s.c = c
        element_fields(c)
        s.root = c.fn(None, CR, self="Element", name="diff")
        s.where = s.root["path"]
        s.creators, s.fcache, s.tries = {}, {}, {}
        s.none = s.explore([NONE])
        s.some = None
    def interp(s):
        I_ = s.c.interp(CR, 3000000)
        I_.hooks["Element::diff"] = effect("diff")
        for n in s.creators.values():
            I_.hooks[n] = effect("create")
        return I_
    def explore(s, given):
        """Analyse diff, keeping every function found to recurse (other than diff itself) as a call."""
        while True:
            I_ = s.interp()
            st = St()
            b = s.c.progs[CR].bodies[s.root["key"]]
            args = mkargs(I_, st, b)
            args = args[:1] + given if given else args
            I_, outs = s.c.run(s.root, I=I_, args=args, st=st, crate=CR)
            new = {p: n for p, n in I_.recs.items() if n not in s.creators.values() and n != "Element::diff"}
            if not new:
                return [(I_, o) for o in outs]
            s.creators.update(new)
    def full(s):
        if s.some is None:
            s.some = s.explore([])
        return s.some
    def function(s, key):
        """Summaries of a recursive function: [(I, out, args)]"""
        if key not in s.fcache:
            I_ = s.interp()
            st = St()
            b = s.c.progs[CR].bodies[key]
            args = mkargs(I_, st, b)
            outs = I_.exec_fn(st, key, args)
            s.c.account(I_, outs, CR)
            s.fcache[key] = [(I_, o, args) for o in outs]
        return s.fcache[key]
    # ---- instantiation
    def pick(s, sh, outs):
        """The one path this class of inputs takes."""
        hit, unk = [], None
        for x in s.candidates(sh, outs):
            try:
                q = sh.taken(x[1])
                if q is not None:
                    hit.append((q,) + tuple(x))
            except Unknown as e:
                unk = e
        if len(hit) == 1:
            return hit[0]
        raise Unknown("%d paths%s" % (len(hit), "; " + str(unk) if unk else ""))
    def candidates(s, sh, outs):
        """The paths none of whose clauses the class contradicts (found in a tree of the paths' common beginnings)."""
        if id(outs) not in s.tries:
            root = ({}, [])
            for x in outs:
                n = root
                for f in x[1].facts():
                    n = n[0].setdefault(f, ({}, []))
                n[1].append(x)
            s.tries[id(outs)] = (root, outs)
        truth = {}
        def go(n):
            yield from n[1]
            for (f, tr), k in n[0].items():
                if f not in truth:
                    try:
                        truth[f] = sh.truth(f)
                    except (Unknown, KeyError, TypeError, IndexError):
                        truth[f] = None
                if truth[f] is None or truth[f] == tr:
                    yield from go(k)
        return go(s.tries[id(outs)][0])
    def diff(s, me, other):
        """Instruction list of me.diff(other); ('panic', ...) when the path panics."""
        sh = DShape(s.c, {T("arg", 0): me, T("arg", 1): opt(other)}, CR)
        sh, I_, o = s.pick(sh, s.full() if other is not None else s.none)
        if o.kind != "ret":
            return o
        return s.expand(ops_of(sh, I_, o))
    def deep(s, items, depth=0):
        """The same with the updates of children written out."""
        out = []
        for x in items:
            if x[0] == "diff":
                r = s.diff(x[1], x[2])
                if not isinstance(r, list) or depth > 8:
                    raise Unknown("update of a child")
                out += s.deep(r, depth + 1)
            else:
                out.append(x)
        return out
    def expand(s, items, depth=0):
        if depth > 12:
            raise Unknown("depth")
        out = []
        for x in items:
            if x[0] != "create":
                out.append(x)
                continue
            key, at, vals = x[1], x[2], x[3]
            if key is None:
                out += s.expand_none(vals[0], depth)
                continue
            sums = s.function(key)
            b = s.c.progs[CR].bodies[key]
            bind = {T("arg", i): v for i, v in zip(at, vals)}
            outp = [i for i in range(b["argc"]) if i not in at]
            sh = DShape(s.c, bind, CR)
            sh, I_, o, args = s.pick(sh, sums)
            if o.kind != "ret":
                raise Unknown("creation panics")
            if outp:
                r = args[outp[0]]
                sh.args[T("arg", outp[0])] = ("adt", "Changeset", "Changeset", {"ops": []})
                v = I_.snap(o.st, I_.read(o.st, r.a[0], r.a[1]))
            else:
                v = I_.snap(o.st, o.val)
            v = v.a[2] if v.op == "adt" else T("fld", v, "ops")
            r = sh.val(v)
            if not isinstance(r, list):
                raise Unknown("changeset")
            out += s.expand(r, depth + 1)
        return out
    def expand_none(s, el, depth):
        sh = DShape(s.c, {T("arg", 0): el, T("arg", 1): opt(None)}, CR)
        sh, I_, o = s.pick(sh, s.none)
        return s.expand(ops_of(sh, I_, o), depth + 1)

class DShape(Shape):
    def sub(s, more):
        q = DShape(s.c, s.args, s.crate)
        q.bind = dict(s.bind)
        q.bind.update(more)
        return q
    def _val(s, t):
        if t.op == "diff" and t not in s.args:
            a = [s.val(x) for x in t.a]
            if len(a) == 2 and isinstance(a[0], El):
                if a[1] == ("none",):
                    return ("create", None, (), [a[0]])
                if isinstance(a[1], tuple) and isinstance(a[1][1], El):
                    return ("diff", a[0], a[1][1])
            raise Unknown(t)
        if t.op == "create":
            return ("create", t.a[0], t.a[1], [s.val(x) for x in t.a[2:]])
        return Shape._val(s, t)

def diffs(c):
    if "diff" not in c.cache:
        c.cache["diff"] = Diff(c)
    return c.cache["diff"]

def ops_of(sh, I_, o):
    v = I_.snap(o.st, o.val)
    v = v.a[2] if v.op == "adt" else T("fld", v, "ops")
    r = sh.val(v)
    if not isinstance(r, list):
        raise Unknown("changeset %s" % show(v))
    return r

def instr(op):
    """(address, instruction name, fields) of an Op"""
    if op[0] == "adt" and "instruction" in op[3] and "id" in op[3]:
        i = op[3]["instruction"]
        if i[0] == "adt":
            return op[3]["id"], i[2], i[3]
    raise Unknown("instruction %r" % (op,))

# ---- the browser's side of the argument: what the instructions leave behind
class Node:
    def __init__(s, id, name):
        s.id, s.name, s.attributes, s.listeners, s.text, s.kids, s.el, s.gone = id, name, {}, [], None, [], None, False
    @staticmethod
    def of(el, deep=True):
        n = Node(("dec", el.id), el.name)
        n.attributes, n.listeners, n.text, n.el = dict(el.attributes), list(el.listeners), el.text, el
        n.kids = [Node.of(k) for k in el.children]
        return n
    def all(s):
        yield s
        for k in s.kids:
            yield from k.all()

class Browser:
    def __init__(s, el=None):
        s.body = Node(("body",), "body")
        s.errs = []
        s.log = []
        if el is not None:
            s.body.kids.append(Node.of(el))
        s.touched = set()
    def err(s, cat, msg):
        s.errs.append((cat, msg))
    def find(s, a, what):
        r = [n for n in s.body.all() if n.id == a]
        if r:
            return r[0]     # getElementById: the first in document order
        s.err("address", "%s is addressed to %s, and no element carries that id at that point" % (what, addr(a)))
        return None
    def parent(s, n):
        return next(p for p in s.body.all() if n in p.kids)
    def run(s, ops, known):
        for op in ops:
            if op[0] == "diff":
                a, b = op[1], op[2]
                n = s.find(("dec", a.id), "the update of a child")
                if n is None:
                    continue
                if n.el is not a or n.text != a.text or n.name != a.name or dict(a.attributes) != n.attributes or n.listeners != list(a.listeners):
                    s.err("children", "a child is updated starting from something other than what it is")
                p = s.parent(n)
                p.kids[p.kids.index(n)] = Node.of(b)
                s.log.append(("diff", p, a, b))
                continue
            a, name, f = instr(op)
            if name == "CreateTag":
                p = f.get("parent_id")
                n = Node(a, f["name"])
                if p == ("none",):
                    s.body.kids.append(n)
                elif isinstance(p, tuple) and p[0] == "some":
                    q = s.find(p[1], "the creation of an element under its parent")
                    if q is None:
                        continue
                    q.kids.append(n)
                else:
                    raise Unknown("parent %r" % (p,))
                s.log.append((name, n))
                continue
            if name not in known:
                s.err("instruction:" + name, "%s is emitted, which the client does not carry out" % name)
                continue
            n = s.find(a, name)
            if n is None:
                continue
            s.log.append((name, n))
            if name == "SetAttribute": n.attributes[f["key"]] = f["value"]
            elif name == "RemoveAttribute": n.attributes.pop(f["key"], None)
            elif name == "SetText": n.text = f["value"]
            elif name == "RemoveText": n.text = None
            elif name == "SetTagName": n.name = f["name"]
            elif name == "SetId": n.id = f["value"]
            elif name == "RemoveListeners": n.listeners = []
            elif name == "AttachListener": n.listeners.append((f["name"], f["on"]))
            elif name == "DeleteEl": s.parent(n).kids.remove(n)
            else: raise Unknown(name)
    def compare(s, n, el, path="element"):
        if n.name != el.name: s.err("name", "%s ends up with tag name %s instead of %s" % (path, n.name, el.name))
        if n.attributes != dict(el.attributes):
            s.err("attributes", "%s ends up with attributes %s instead of %s" % (path, n.attributes, dict(el.attributes)))
        if n.text != el.text: s.err("text", "%s ends up with text %r instead of %r" % (path, n.text, el.text))
        if n.listeners != list(el.listeners): s.err("listeners", "%s ends up with listeners %s instead of %s" % (path, n.listeners, el.listeners))
        if n.id != ("dec", el.id): s.err("id", "%s ends up with id %s instead of %s" % (path, addr(n.id), addr(("dec", el.id))))
        if len(n.kids) != len(el.children):
            s.err("children", "%s ends up with %d children instead of %d" % (path, len(n.kids), len(el.children)))
        else:
            for i, (k, e) in enumerate(zip(n.kids, el.children)):
                if k.el is e:
                    continue
                if k.el is not None and k.el.who == "new":
                    s.err("children", "%s: child %d ends up as another child of the new element" % (path, i))
                    continue
                n0 = len(s.errs)
                s.compare(k, e, path + "/child %d" % i)
                if len(s.errs) > n0:
                    s.err("children", "%s: child %d is not what it should be (%s)" % (path, i, s.errs[n0][1]))

def addr(a):
    return "%s id %s" % a[1] if isinstance(a, tuple) and a and a[0] == "dec" and isinstance(a[1], tuple) else "the %r" % (a,)

CARRIED = {"SetAttribute", "RemoveAttribute", "SetText", "RemoveText", "SetTagName", "SetId", "RemoveListeners", "AttachListener", "DeleteEl"}

BASE = {"any": 0, "low": 500, "old": 1000, "both": 2000, "new": 3000}
def ident(who, n):
    return BASE[who] + n
def tree(who, n, **kw):
    return El(who, ident(who, n), **kw)

def creation_shapes():
    leaf = lambda who, n, **k: tree(who, n, **k)
    yield "bare", tree("new", 0, name="p")
    for t in (None, "", "txt"):
        for na in (0, 1, 2):
            for nl in (0, 1, 2):
                yield "text=%r,attributes=%d,listeners=%d" % (t, na, nl), tree("new", 0, name="p", text=t, attributes=[("k%d" % i, "v%d" % i) for i in range(na)], listeners=[("l%d" % i, "e%d" % i) for i in range(nl)])
    for nc in (1, 2, 3):
        for key in (None, "key"):
            kids = [tree("new", 10 + i, name="c%d" % i, text=None if i == 1 else "t%d" % i, attributes=[("a", "b%d" % i)], listeners=[("l%d" % i, "click")],
                         children=[tree("new", 100 + 10 * i + j, name="g", text="g", attributes=[("x", "y")], listeners=[("gl", "input")]) for j in range(i)], key=key and key + str(i)) for i in range(nc)]
            yield "children=%d,keyed=%s" % (nc, bool(key)), tree("new", 0, name="root", text="r", attributes=[("a", "1")], listeners=[("l", "submit")], children=kids)
    # values which a shortcut might take for "nothing to say"
    for v in ("", " ", "0", "false", "true", "a", "undefined", "a b", "<&\"'>", "é", "v" * 300):
        yield "attribute value %s" % (repr(v) if len(v) < 20 else "long"), tree("new", 0, name="p", text="t", attributes=[("a", v), ("b", "w")], children=[tree("new", 1, name="i", attributes=[("a", v)])])
    for k in ("class", "id", "name", "style", "href", "value", "checked", "disabled", "type", "data-x", "aria-label", "onclick", "data-generated-id", "lv", "A", "k" * 70):
        yield "attribute %s" % k[:20], tree("new", 0, name="p", attributes=[(k, "v")], children=[tree("new", 1, name="i", text="t", attributes=[("z", "1"), (k, k)])])
    for v in (" ", "\n", "0", "null", "<b>&amp;", "é", "t" * 300):
        yield "text %s" % (repr(v) if len(v) < 20 else "long"), tree("new", 0, name="p", text=v, children=[tree("new", 1, name="i", text=v)])
    for v in ("div", "input", "br", "svg", "h1", "form", "my-tag", "BODY"):
        yield "tag " + v, tree("new", 0, name=v, text="t", children=[tree("new", 1, name=v, attributes=[("a", "1")], listeners=[("l", "click")])])
    for v in ("click", "input", "submit", "keydown", "custom"):
        yield "event " + v, tree("new", 0, name="p", listeners=[("l", v)], children=[tree("new", 1, name="i", text="t", listeners=[("m", v), ("n", "x")])])
    yield "two listeners on one event", tree("new", 0, name="p", listeners=[("l", "click"), ("m", "click"), ("n", "input")])
    yield "one listener on two events", tree("new", 0, name="p", listeners=[("l", "click"), ("l", "input")])
    yield "many of everything", tree("new", 0, name="p", text="t", attributes=[("a%d" % i, "v%d" % (i % 3)) for i in range(7)], listeners=[("l%d" % i, "e%d" % i) for i in range(6)],
                                     children=[tree("new", 10 + i, name="c%d" % (i % 2), text="t%d" % (i % 2)) for i in range(6)])
    deep = tree("new", 9, name="p", text="deepest", attributes=[("a", "1")], listeners=[("l", "click")])
    for i in range(8, 0, -1):
        deep = tree("new", i, name="d%d" % i, attributes=[("d", str(i))], listeners=[("l%d" % i, "click")], children=([tree("new", 100 + i, name="s", text="before")] if i % 2 else []) + [deep] + ([tree("new", 200 + i, name="s", text="after")] if i % 3 else []))
    yield "eight levels deep", deep
    yield "alike siblings", tree("new", 0, name="ul", children=[tree("new", 10 + i, name="li", text="same", attributes=[("a", "1")], listeners=[("l", "click")], children=[tree("new", 20 + i, name="b", text="same")]) for i in range(3)])

@rule("L04")
def l04(c):
    """First paint: the changeset against nothing creates the element, then everything in it, each under its own parent, exactly once."""
    d = diffs(c)
    for o in [o for I_, o in d.none if o.kind == "panic"]:
        c.must("panic", False if definite(o) else "possible panic", "creating the first rendering can panic (%s)" % (o.val,), str(o.where), showfacts(o))
    n = 0
    for label, el in creation_shapes():
        try:
            ops = d.diff(el, None)
            if not isinstance(ops, list):
                c.bad("panic", "creating the first rendering panics: %s" % (ops.val,), str(ops.where), label)
                continue
            b = Browser()
            b.run(ops, CARRIED)
            if len(b.body.kids) != 1:
                b.err("root", "%d elements end up under the document's body instead of the root" % len(b.body.kids))
            else:
                b.compare(b.body.kids[0], el)
        except Unknown as e:
            c.unk("create " + label, str(e)[:200])
            continue
        n += 1
        verdicts(c, b, label, d.where, ("root", "address", "name", "attributes", "text", "listeners", "id", "children"))
    c.samples.append({"classes of element": n, "create functions": sorted(d.creators)})

def verdicts(c, b, label, where, cats, pre=""):
    bad = {}
    for k, m in b.errs:
        bad.setdefault(k, m)
    for k in cats:
        if k in bad:
            c.bad(pre + k, bad[k], where, label)
        else:
            c.ok(pre + k)
    for k in bad:
        if k not in cats and k.startswith("instruction:") and "children" in cats:
            c.bad(pre + k, bad[k], where, label)

# ---- updates: one class per way in which old and new may differ
NAMES = [("same name", "p", "p"), ("other name", "p", "q"), ("name differs in case", "p", "P"), ("longer name", "p", "pre")]
TEXTS = [("no text", None, None), ("same text", "s", "s"), ("other text", "s", "t"), ("new text", None, "t"), ("text gone", "s", None), ("text emptied", "s", ""), ("text from empty", "", "t"), ("text lengthened", "s", "st"),
         ("text differs in blanks", "s", "s "), ("text differs in case", "s", "S"), ("text blank", "s", " "), ("text from nothing to empty", None, ""), ("text from empty to nothing", "", None), ("empty text", "", ""), ("text shortened", "st", "s")]
ATTRS = [("no attributes", [], []), ("same attributes", [("a", "1"), ("b", "2")], [("b", "2"), ("a", "1")]), ("attribute changed", [("a", "1"), ("b", "2")], [("a", "1"), ("b", "3")]),
         ("attribute gone", [("a", "1"), ("b", "2")], [("a", "1")]), ("attribute new", [("a", "1")], [("a", "1"), ("b", "2")]), ("last attribute gone", [("a", "1")], []), ("first attribute", [], [("a", "1")]),
         ("attributes replaced", [("a", "1"), ("b", "2")], [("c", "1"), ("d", "2")]), ("all attributes kinds", [("a", "1"), ("b", "2"), ("c", "3")], [("b", "2"), ("c", "4"), ("d", "3")]), ("attribute renamed", [("a", "1")], [("b", "1")]),
         ("attribute lengthened", [("a", "1")], [("a", "1x")]), ("attribute emptied", [("a", "1")], [("a", "")]), ("attribute from empty", [("a", "")], [("a", "1")]), ("empty attribute new", [("a", "1")], [("a", "1"), ("b", "")]), ("empty attribute gone", [("a", "1"), ("b", "")], [("a", "1")]),
         ("attribute differs in case", [("a", "x")], [("a", "X")]), ("attribute differs in blanks", [("a", "x")], [("a", "x ")]), ("attribute name differs in case", [("a", "x")], [("A", "x")]), ("attribute to its name", [("checked", "no")], [("checked", "checked")]),
         ("attribute false", [("a", "true")], [("a", "false")]), ("seven attributes", [("a%d" % i, "v") for i in range(7)], [("a%d" % i, "v" if i % 2 else "w") for i in range(1, 8)]), ("attributes swapped", [("a", "1"), ("b", "2")], [("a", "2"), ("b", "1")])]
LSTN = [("no listeners", [], []), ("same listeners", [("l", "click"), ("m", "input")], [("l", "click"), ("m", "input")]), ("listener renamed", [("l", "click"), ("m", "input")], [("l", "click"), ("n", "input")]),
        ("listener on another event", [("l", "click")], [("l", "input")]), ("listener new", [("l", "click")], [("l", "click"), ("m", "input")]), ("listener gone", [("l", "click"), ("m", "input")], [("m", "input")]),
        ("first listener", [], [("l", "click")]), ("last listener gone", [("l", "click")], []), ("listeners swapped", [("l", "click"), ("m", "input")], [("l", "input"), ("m", "click")]),
        ("second listener on one event", [("l", "click")], [("l", "click"), ("m", "click")]), ("one of two on one event gone", [("l", "click"), ("m", "click")], [("m", "click")]), ("event added to a listener", [("l", "click")], [("l", "click"), ("l", "input")]),
        ("last listener on another event", [("l", "click"), ("m", "input")], [("l", "click"), ("m", "keyup")]), ("four listeners", [("l%d" % i, "e%d" % i) for i in range(4)], [("l%d" % i, "e%d" % i) for i in range(1, 5)])]
IDS = [("same id", 0), ("other id", 1), ("smaller id", 2)]
def kids(who, n, keyed=False, same=False, keys=None):
    return [tree(who if not same else "both", 10 + i, name=("k%d" % i if same else who + "%d" % i), text=None if same else who, key=(keys[i] if keys else "key%d" % i) if keyed or keys else None) for i in range(n)]
COUNTS = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (1, 0), (2, 0), (1, 2), (1, 3), (2, 1), (3, 1), (3, 2), (2, 3), (4, 1), (1, 4), (5, 3)]
KIDS = [("children %d to %d" % (m, n), lambda m=m, n=n: (kids("old", m), kids("new", n))) for m, n in COUNTS] + \
       [("children %d keyed to %d unkeyed" % (m, n), lambda m=m, n=n: (kids("old", m, True), kids("new", n))) for m, n in COUNTS if m and n] + \
       [("children %d unkeyed to %d keyed" % (m, n), lambda m=m, n=n: (kids("old", m), kids("new", n, True))) for m, n in COUNTS if m and n]
KEYED = [("same keys", "ab", "ab"), ("one key", "a", "a"), ("key gone", "abc", "ac"), ("first key gone", "ab", "b"), ("last keys gone", "abc", "a"), ("all keys gone", "ab", ""),
         ("first keyed child", "", "a"), ("key appended", "a", "ab"), ("keys appended", "a", "abc"), ("key prepended", "a", "ba"), ("key inserted", "ab", "acb"), ("keys reordered", "ab", "ba"), ("keys replaced", "ab", "cd")]
SOMEKEYED = [("some keys", ["a", None], ["a", None]), ("some keys, other order", [None, "a"], ["a", None]), ("some keys before", ["a", None], ["a", "b"]), ("some keys after", ["a", "b"], ["a", None]),
             ("a key appended to some", ["a", None], ["a", None, "b"]), ("a key gone from some", ["a", None, "b"], ["a", None])]
ALIKE = [("keys that begin alike", ["k10", "k1"], ["k10", "k1"]), ("a key that begins like the old one", ["k10"], ["k1"]), ("a key the old one begins like", ["k1"], ["k10"]), ("a longer key gone", ["k10", "k1"], ["k1"]),
         ("a shorter key gone", ["k10", "k1"], ["k10"]), ("a longer key appended", ["k1"], ["k1", "k10"]), ("keys that end alike", ["1k"], ["k"]), ("a key in the other case", ["a"], ["A"]), ("a key with a blank", ["a"], ["a "]),
         ("keys in both cases", ["a", "A"], ["a", "A"]), ("an empty key", [""], ["a"]), ("an empty key after", ["a"], [""]), ("an empty key stays", ["", "a"], ["", "a"]), ("an empty key appended", ["a"], ["a", ""]),
         ("a key twice", ["a", "a"], ["a", "a"]), ("a key becomes two", ["a"], ["a", "a"]), ("one of two equal keys gone", ["a", "a"], ["a"]), ("equal keys gone", ["a", "a", "b"], ["b"]), ("another between equal keys", ["a", "a"], ["a", "b", "a"])]
STAY = {"keys that begin alike", "keys in both cases", "an empty key stays", "a longer key gone", "a shorter key gone", "a longer key appended", "an empty key appended", "same keys", "one key", "key gone", "first key gone", "last keys gone", "key appended", "keys appended"}

def build(nm, tx, at, ls, idd, ks):
    ko, kn = ks() if callable(ks) else ks
    me = El("old", ident("old" if idd else "both", 1), name=nm[0], text=tx[0], attributes=at[0], listeners=ls[0], children=ko)
    ot = El("new", ident({0: "both", 1: "new", 2: "low"}[idd], 1), name=nm[1], text=tx[1], attributes=at[1], listeners=ls[1], children=kn)
    return me, ot

def update_shapes(only=None):
    """Every class of each field alone, and of every two fields together, over two bases: all the rest the same / all the rest changed."""
    F = {"name": [(l, (a, b)) for l, a, b in NAMES], "text": [(l, (a, b)) for l, a, b in TEXTS], "attributes": [(l, (a, b)) for l, a, b in ATTRS],
         "listeners": [(l, (a, b)) for l, a, b in LSTN], "id": [(l, x) for l, x in IDS], "children": KIDS}
    order = ["name", "text", "attributes", "listeners", "id", "children"]
    bases = [{"name": F["name"][0], "text": F["text"][1], "attributes": F["attributes"][1], "listeners": F["listeners"][1], "id": F["id"][0], "children": ("no children", lambda: ([], []))},
             {"name": F["name"][1], "text": F["text"][2], "attributes": F["attributes"][8], "listeners": F["listeners"][2], "id": F["id"][1], "children": ("children 2 to 2", lambda: (kids("old", 2), kids("new", 2)))}]
    seen = set()
    for base in bases:
        for i, f in enumerate(order):
            for g in order[i + 1:]:
                if only and f not in only and g not in only:
                    continue
                for x in F[f]:
                    for y in F[g]:
                        sel = dict(base)
                        sel[f], sel[g] = x, y
                        lab = ", ".join(sel[k][0] for k in order)
                        if lab in seen:
                            continue
                        seen.add(lab)
                        yield lab, sel, build(*[sel[k][1] for k in order])

def updates(c, only=None):
    """(label, selection, me, other, browser after the changeset, instruction list) for every class."""
    d = diffs(c)
    d.full()
    for label, sel, (me, ot) in update_shapes(only):
        try:
            ops = d.diff(me, ot)
            if not isinstance(ops, list):
                yield label, sel, me, ot, None, ops
                continue
            b = Browser(me)
            b.run(ops, CARRIED)
            root = b.body.kids
            if len(root) != 1:
                b.err("children", "%d elements under the body" % len(root))
            else:
                    b.compare(root[0], ot)
        except Unknown as e:
            c.unk("update " + label, str(e)[:200])
            continue
        yield label, sel, me, ot, b, ops

def update_rule(c, fields, cats):
    d = diffs(c)
    n = 0
    for label, sel, me, ot, b, ops in updates(c, fields):
        if b is None:
            c.bad("panic", "computing the update panics: %s" % (ops.val,), str(ops.where), label)
            continue
        n += 1
        verdicts(c, b, label, d.where, cats)
    c.samples.append({"classes of update": n, "paths of diff": len(d.full())})

@rule("L05")
def l05(c):
    """After the changeset the element has the new tag name, attributes and text."""
    update_rule(c, ("name", "text", "attributes"), ("name", "text", "attributes"))

def numbered():
    """Renderings numbered from the root down, as IdGen numbers them."""
    def num(spec):
        n = [0]
        def go(sp):
            i = n[0]
            n[0] += 1
            return El("any", ident("any", i), name=sp[0], text=sp[0], children=[go(k) for k in sp[1:]])
        return go(spec)
    for label, a, b in [("same shape", ("r", ("a", ("b",)), ("c",)), ("r", ("a", ("x",)), ("y",))),
                        ("last list grows", ("r", ("a",), ("l", ("m",))), ("r", ("a",), ("l", ("m",), ("n", ("o",))))),
                        ("root grows", ("r", ("a", ("b",))), ("r", ("a", ("b",)), ("c", ("d",)))),
                        ("last list shrinks", ("r", ("a",), ("l", ("m",), ("n",))), ("r", ("a",), ("l", ("m",)))),
                        ("earlier list shrinks", ("r", ("l", ("m",), ("n",)), ("a", ("b",))), ("r", ("l", ("m",)), ("a", ("b",)))),
                        ("earlier list grows", ("r", ("l", ("m",)), ("a", ("b",))), ("r", ("l", ("m",), ("n",)), ("a", ("b",))))]:
        yield label, num(a), num(b)

@rule("L06")
def l06(c):
    """Every instruction reaches its element: it is addressed by the id the element carries at that moment, and the element ends with its new id."""
    update_rule(c, ("id",), ("address", "id"))
    d = diffs(c)
    for label, old, new in numbered():
        try:
            ops = d.diff(old, new)
            if not isinstance(ops, list):
                c.bad("numbered:" + label, "computing the update panics: %s" % (ops.val,), str(ops.where), label)
                continue
            b = Browser(old)
            b.run(d.deep(ops), CARRIED)
            if len(b.body.kids) == 1:
                b.compare(b.body.kids[0], new)
        except Unknown as e:
            c.unk("numbered:" + label, str(e)[:200])
            continue
        c.must("numbered:" + label, not b.errs, b.errs[0][1] if b.errs else "", d.where, label)

@rule("L07")
def l07(c):
    """After the changeset exactly the new element's listeners are attached."""
    update_rule(c, ("listeners",), ("listeners",))

@rule("L08")
def l08(c):
    """After the changeset the element has the new element's children, in its order: kept ones updated in place, surplus ones deleted, missing ones created under it."""
    update_rule(c, ("children",), ("children", "address"))
    d = diffs(c)
    for label, a, b in KEYED + SOMEKEYED + ALIKE:
        ko, kn = kids("old", len(a), keys=list(a)), kids("new", len(b), keys=list(b))
        for i, x in enumerate(ko): x.name = x.key or "u%d" % i
        for i, x in enumerate(kn): x.name = x.key or "u%d" % i
        me, ot = El("old", ident("old", 1), children=ko), El("new", ident("new", 1), children=kn)
        name = "keyed:" + label
        try:
            ops = d.diff(me, ot)
            if not isinstance(ops, list):
                c.bad(name, "computing the update panics: %s" % (ops.val,), str(ops.where), label)
                continue
            br = Browser(me)
            br.run(ops, CARRIED)
            if len(br.body.kids) == 1:
                br.compare(br.body.kids[0], ot)
            for e in br.log:
                if e[0] == "diff" and e[2].key != e[3].key and label in STAY:
                    br.err("children", "a keyed child is updated to a child with another key although the one with its key stays in place")
        except Unknown as e:
            c.unk(name, str(e)[:200])
            continue
        bad = [m for k, m in br.errs]
        c.must(name, not bad, "; ".join(bad[:3]), d.where, label)

FIELDOPS = {"name": {"SetTagName"}, "text": {"SetText", "RemoveText"}, "attributes": {"SetAttribute", "RemoveAttribute"}, "listeners": {"RemoveListeners", "AttachListener"}, "id": {"SetId"},
            "children": {"CreateTag", "DeleteEl", "InsertBefore", "InsertAfter", "InsertChild", "SetInnerHtml"}}

@rule("L09")
def l09(c):
    """What has not changed yields no instruction; attributes that have not changed are not set again."""
    d = diffs(c)
    n = 0
    for label, sel, me, ot, b, ops in updates(c):
        if b is None:
            continue
        n += 1
        unchanged = {"name": me.name == ot.name, "text": me.text == ot.text, "attributes": dict(me.attributes) == dict(ot.attributes), "listeners": me.listeners == ot.listeners, "id": me.id == ot.id,
                     "children": len(me.children) == len(ot.children)}
        for f, u in unchanged.items():
            if not u:
                continue
            hit = []
            for op in ops:
                if op[0] == "diff":
                    continue
                a, name, fl = instr(op)
                if name in FIELDOPS[f] and (a in (("dec", me.id), ("dec", ot.id)) or f == "children"):
                    hit.append(name)
            c.must("unchanged " + f, not hit, "%s although the %s has not changed" % (", ".join(hit), f), d.where, label)
        if not unchanged["attributes"]:
            for op in ops:
                if op[0] != "diff":
                    a, name, fl = instr(op)
                    if name == "SetAttribute" and dict(me.attributes).get(fl["key"]) == fl["value"] == dict(ot.attributes).get(fl["key"]):
                        c.bad("attribute set again", "an attribute that has not changed is set again", d.where, label)
    # the same tree on both sides: nothing but the (empty) updates of its children
    for k in (0, 1, 3):
        for keyed in (False, True):
            me, ot = (El("both", ident("both", 1), name="p", text="s", attributes=[("a", "1")], listeners=[("l", "click")], children=kids("old", k, keyed, same=True)) for _ in range(2))
            try:
                ops = d.diff(me, ot)
            except Unknown as e:
                c.unk("same tree", str(e)[:200])
                continue
            rest = [op for op in ops if not (op[0] == "diff" and op[1].same(op[2]))] if isinstance(ops, list) else [ops]
            c.must("same tree", not rest, "instructions for a tree that has not changed", d.where, "%d children, keyed=%s" % (k, keyed))
    c.samples.append({"classes of update": n})

# ---------------------------------------------------------------- L10: from nodes to elements
NODE_TEXT = {"H1", "H2", "H3", "H4", "H5", "H6", "P", "A", "Label", "NoScript"}
NODE_KIDS = {"P", "Form", "Div", "A", "Input", "Select"}
NODE_BARE = {"Br", "NoScript"}          # rendered without attributes and listeners of their own

def field_by_type(c, adt, pred, what):
    fs = c.adt(adt, CR)["variants"][0]["fields"]
    m = [(i, f[0]) for i, f in enumerate(fs) if pred(f[1].replace("puck_liveview::", "").replace("malvolio::", ""))]
    if len(m) != 1:
        raise Unclear("field of %s holding %s" % (adt, what))
    return m[0]

def comp_alts(t):
    """A list term as [(bound, facts, pieces)] over one list, or None."""
    if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "splice":
        t = t.a[0].a[0]
    if t.op == "comp":
        return t.a[0], [(fs, ps_) for fs, ps_ in t.a[1]], T("bv", engine.compdepth(t))
    return None

@rule("L10")
def l10(c):
    """Every kind of node is rendered as an element of its own tag name with the node's attributes, text, listeners and (for the kinds
    that can have them) all children in order; ids are handed out so that no two elements of a rendering share one."""
    element_fields(c)
    ni, nname = field_by_type(c, "WrappedBodyNode", lambda t: t == "BodyNode", "the node")
    li, lname = field_by_type(c, "WrappedBodyNode", lambda t: "Vec<" in t and "ListenerRef" in t, "the listeners")
    ki, kname = field_by_type(c, "WrappedBodyNode", lambda t: "Vec<" in t and "WrappedBodyNode" in t, "the children")
    root = c.fn(None, CR, self="WrappedBodyNode", name="into_element")
    where = root["path"]
    I_ = c.interp(CR, 900000)
    convs = []
    def conv(I2, st, callee, args, atys, rty):
        if len(args) != 2 or args[1].op != "ref":
            return None
        g = args[1]
        v, n = I2.snap(st, I2.read(st, g.a[0], g.a[1])), I2.snap(st, args[0])
        r = T("conv", n, v)
        I2.hint_ty(r, rty)
        I2.write(st, g.a[0], g.a[1], T("after", n, v))
        st.event("conv", n, v)
        return [Out("ret", st, r)]
    I_.hooks["WrappedBodyNode::into_element"] = conv
    st = St()
    b = c.progs[CR].bodies[root["key"]]
    args = mkargs(I_, st, b)
    I_, outs = c.run(root, I=I_, args=args, st=st, crate=CR)
    if len(args) != 2 or args[1].op != "ref":
        raise Unclear("into_element's id generator")
    gcell, gpath = args[1].a[0], args[1].a[1]
    me = T("arg", 0)
    node, lst, kids_ = [T("fld", me, n) for n in (nname, lname, kname)]
    g0 = I_.snap(st, I_.read(st, gcell, gpath))
    variants = [v["name"] for v in c.adt("BodyNode", CR)["variants"]]
    for k, V_ in enumerate(variants):
        name = {"NoScript": "noscript"}.get(V_, V_.lower())
        mine = []
        for o in outs:
            fs = o.facts()
            hit = True
            for f, t in fs:
                r = subst(f, {T("discr", node): I(k)})
                if r.op == "int" and bool(r.a[0]) != t:
                    hit = False
            if hit:
                mine.append(o)
        rets = [o for o in mine if o.kind == "ret"]
        pans = [o for o in mine if o.kind == "panic" and not str(o.val).startswith("('assert', 'overflow") and "overflow" not in str(o.val)]
        if not rets:
            c.must("render " + V_, False if pans and all(definite(o) for o in pans) else "no path read", "a %s node cannot be rendered: converting it panics" % V_, where)
            continue
        for o in pans:
            c.must("render " + V_, False if definite(o) else "possible panic", "rendering a %s node can panic (%s)" % (V_, o.val), where, showfacts(o))
        for o in rets:
            v = I_.snap(o.st, o.val)
            fld = lambda f: c.field(v, "Element", f, CR)
            okp = ("%s::into_pub_fields" % V_,)
            def judge(key, t, good, msg):
                if good(t):
                    c.ok(key)
                elif opaque_in(t, okp):
                    c.unk(key, show(t))
                else:
                    c.bad(key, msg % show(t, 200), where, showfacts(o))
            own = lambda f: (lambda t: t.op == "fld" and t.a[1] == f and t.a[0].op == "pure" and t.a[0].a[0] == okp[0] and contains(t.a[0], node))
            judge("name " + V_, fld("name"), lambda t: litval(t) == name.encode(), "a " + V_ + " node is rendered with the tag name %s")
            judge("attributes " + V_, fld("attributes"), (lambda t: own("attrs")(t) or t is T("map")) if V_ in NODE_BARE else own("attrs"), "the attributes of a " + V_ + " node become %s")
            t = fld("text")
            if V_ in NODE_TEXT:
                judge("text " + V_, t, lambda t: is_some(t) and own("text")(pay(t)), "the text of a " + V_ + " node becomes %s")
            else:
                judge("text " + V_, t, is_none, "a " + V_ + " node, which has no text, is rendered with the text %s")
            judge("listeners " + V_, fld("listeners"), lambda t: t is lst or (V_ in NODE_BARE and t is seq()), "the listeners of a " + V_ + " node become %s")
            # children: each converted, once, in order
            t = fld("children")
            alts = comp_alts(t)
            if t is seq() and V_ not in NODE_KIDS:
                c.ok("children " + V_)
            elif alts:
                n, al, bv = alts
                if n is not T("len", kids_):
                    c.must("children " + V_, False if not opaque_in(n) else "number of children", "%s of the children of a %s node are rendered" % (show(n), V_), where, showfacts(o))
                for fs, ps_ in al:
                    good = len(ps_) == 1 and ps_[0].op == "one" and ps_[0].a[0].op == "conv" and ps_[0].a[0].a[0] is T("elem", kids_, bv)
                    lost = len(ps_) == 0 or (len(ps_) == 1 and ps_[0].op == "one" and ps_[0].a[0].op == "conv" and not opaque_in(ps_[0].a[0].a[0], ("bv", "hv")))
                    c.must("children " + V_, True if good else False if lost and not any(opaque_in(f, ("bv", "hv")) for f, _ in fs) else show(T("seq", *ps_)),
                           "child i of a %s node is not rendered as the element's child i: %s" % (V_, show(T("seq", *ps_), 200)), where, showfacts(o))
            else:
                c.must("children " + V_, False if not opaque_in(t, okp) else show(t), "the children of a %s node become %s" % (V_, show(t, 200)), where, showfacts(o))
            ids(c, I_, o, V_, fld("id"), g0, gcell, gpath, where)
    # building nodes
    for fname, idx, what in (("listener", li, "listener"), ("child", ki, "child"), ("children", ki, "children")):
        r = c.fn(None, CR, self="WrappedBodyNode", name=fname)
        I_, outs = c.run(r, crate=CR)
        for o in outs:
            if o.kind != "ret":
                c.must("build " + fname, False if definite(o) else "possible panic", "WrappedBodyNode::%s can panic" % fname, r["path"], showfacts(o))
                continue
            v = I_.snap(o.st, o.val)
            if v is T("arg", 0) and fname != "children":
                c.must("build " + fname, False if not any(opaque_in(f, ("Into::into",)) for f, tr in o.facts()) else "conditions", "WrappedBodyNode::%s can drop what it is given" % fname, r["path"], showfacts(o))
                continue
            if v.op != "adt":
                c.unk("build " + fname, show(v))
                continue
            for i, (nm, t) in enumerate(((nname, node), (lname, lst), (kname, kids_))):
                j = {nname: ni, lname: li, kname: ki}[nm]
                x = v.a[2 + j]
                if j != idx:
                    c.must("build %s keeps %s" % (fname, nm), True if x is t else False if not opaque_in(x, ("Into::into",)) else show(x), "WrappedBodyNode::%s changes the node's %s to %s" % (fname, nm, show(x)), r["path"])
                elif fname == "children":
                    p = x.a if x.op == "seq" else ()
                    good = x.op == "seq" and len(x.a) >= 2 and x.a[0] is T("splice", t) and contains(x, T("arg", 1))
                    lost = x is t or x is T("arg", 1) or x.op == "comp" and not contains(x, t) and not opaque_in(x, ("Into::into",)) or x.op == "seq" and (not contains(x, t) or not contains(x, T("arg", 1)) or p and p[-1] is T("splice", t))
                    c.must("build " + fname, True if good else False if lost else show(x), "WrappedBodyNode::children leaves the children %s" % show(x), r["path"])
                else:
                    good = x.op == "seq" and len(x.a) == 2 and x.a[0] is T("splice", t) and x.a[1].op == "one" and contains(x.a[1], T("arg", 1))
                    c.must("build " + fname, True if good else False if not opaque_in(x, ("Into::into",)) else show(x), "WrappedBodyNode::%s does not append it after the others: %s" % (fname, show(x)), r["path"])

def ids(c, I_, o, V_, id, g0, gcell, gpath, where):
    """No id is handed out twice: the generator only ever moves forward, past the element's own id and past what each child used."""
    key = "ids " + V_
    def head(g):
        fs = c.adt("IdGen", CR)["variants"][0]["fields"]
        if len(fs) != 1:
            raise Unclear("IdGen's fields")
        return g.a[2] if g.op == "adt" else T("fld", g, fs[0][0])
    loops = [e[1] for e in o.events() if e[0] == "loop"]
    loops = [L for L in loops if any(e[0] == "conv" for fs, es, s2 in L.backs for e in flat(es))]
    flatc = [e for e in o.events() if e[0] == "conv"]
    end = I_.snap(o.st, I_.read(o.st, gcell, gpath))
    def diff(a, b):
        """a - b when it does not depend on where the generator stood; a witness that it can be less than 1 otherwise."""
        x = sub_(a, b)
        if x.op == "int":
            return x.a[0]
        atoms = [t for t in [head(g0)] + [head(h) for h in set(walk(x)) if h.op == "hv" and h.a[2][0] == gcell] if contains(x, t)]
        for n in (0, 1, 2, 99, 254, 255, 256, 999, 4095, 65534, 65535, 65536, 2 ** 31 - 1):
            env = lambda t: n if t in atoms else None
            if len(atoms) == 1 and facts_hold(o.facts(), env) is not False:
                v = ev(x, env)
                if v is not None and v < 1:
                    return v
        return None
    if not loops and not flatc:
        d = diff(head(end), id)
        c.must(key, True if d is not None and d >= 1 and (diff(id, head(g0)) or 0) >= 0 and diff(id, head(g0)) is not None else False if d is not None or end is g0 else "ids %s, then %s" % (show(id), show(end)),
               "after a %s node got id %s the generator stands at %s: the id is handed out again" % (V_, show(id), show(head(end))), where, showfacts(o))
        return
    if len(loops) != 1 or flatc:
        return c.unk(key, "children are converted in %d loops" % len(loops))
    L = loops[0]
    e0 = engine.at_path(L.entry.get(gcell), tuple(gpath)) if L.entry.get(gcell) is not None else None
    if e0 is None:
        return c.unk(key, "the generator at the loop over the children")
    e0 = I_.snap(o.st, e0)
    d0, d1 = diff(head(e0), head(g0)), diff(id, head(g0))
    if d0 is None:
        c.unk(key, "generator before the children: %s" % show(e0))
    elif d1 is not None:
        c.must(key, d0 >= d1 + 1 and d1 >= 0, "the children of a %s node are numbered from %s on, and the node itself has %s" % (V_, show(head(e0)), show(id)), where, showfacts(o))
    else:
        d = diff(head(end), id)
        c.must(key, True if d is not None and d >= 1 and d0 >= 0 and contains_op(id, "hv") else "id %s" % show(id), "id", where)
    for fs, es, s2 in L.backs:
        cv = [e for e in flat(es) if e[0] == "conv"]
        g1 = s2.cells.get(gcell)
        g1 = engine.at_path(g1, tuple(gpath)) if g1 is not None else None
        if len(cv) != 1 or g1 is None:
            c.unk(key, "%d children converted in a pass" % len(cv))
            continue
        h = [x for x in L.hvs if x.a[2][0] == gcell] if hasattr(L, "hvs") else []
        n, v = cv[0][1], cv[0][2]
        if g1 is T("after", n, v) and v.op == "hv" and v.a[2][0] == gcell:
            c.ok(key)
        elif g1.op == "hv" or not contains_op(g1, "after"):
            c.bad(key, "the ids used inside a child of a %s node are handed out again to what follows it (generator %s before and %s after the child)" % (V_, show(v), show(g1)), where, showfacts_(fs))
        else:
            c.unk(key, "generator after a child: %s" % show(g1))
    if end.op == "hv" and end.a[2][0] == gcell:
        c.ok(key)
    else:
        d = None
        hv = [x for x in walk(end) if x.op == "hv" and x.a[2][0] == gcell]
        d = diff(head(end), head(hv[0])) if hv else None
        c.must(key, True if d is not None and d >= 0 else False if not hv and not contains_op(end, "after") else show(end), "after a %s node the generator stands at %s: the ids of its children are handed out again" % (V_, show(end)), where, showfacts(o))

def sub_(a, b):
    import terms
    return terms.sub(a, b)
