"""Abstract interpretation of the browser client's syntax tree over an abstract document.

Strings are sequences of pseudo-characters: literal characters and atoms, each atom standing for any non-empty text without the
separators the sources use.  Control flow must be decided by these; anything else raises Unknown, which the rules report as undecided."""
import subprocess, json, os, copy

class Unknown(Exception):
    pass
class JSThrow(Exception):
    """The client throws: for certain."""
class _Break(Exception):
    pass
class _Continue(Exception):
    pass
class _Return(Exception):
    def __init__(s, v):
        s.v = v

class Undef:
    def __repr__(s): return "undefined"
    def __bool__(s): return False
    def __deepcopy__(s, m): return s
UNDEF = Undef()

class Atom:
    """Some non-empty text; different atoms are different texts, and none is one of the sources' literals."""
    def __init__(s, name, number=False):
        s.name, s.number, s.case = name, number, {}
    def cased(s, up):
        if up not in s.case:
            s.case[up] = Atom(s.name + (".upper" if up else ".lower"))
            s.case[up].case = {up: s.case[up], not up: s.cased(not up) if (not up) in s.case else None}
            if s.case[up].case[not up] is None:
                del s.case[up].case[not up]
        return s.case[up]
    def __repr__(s): return "<%s>" % s.name
    def __deepcopy__(s, m): return s

class Str:
    """An abstract string: a tuple of one-character strings and atoms."""
    __slots__ = ("c",)
    def __init__(s, c):
        s.c = tuple(c)
    def __eq__(s, o): return isinstance(o, Str) and s.c == o.c
    def __hash__(s): return hash(s.c)
    def __add__(s, o): return Str(s.c + o.c)
    def __deepcopy__(s, m): return s
    def lit(s):
        return "".join(s.c) if all(isinstance(x, str) for x in s.c) else None
    def __repr__(s):
        return "'" + "".join(x if isinstance(x, str) else repr(x) for x in s.c) + "'"
def S(x):
    return Str(x)

class Pos:
    """A position in an abstract string (its pseudo-index i); its real value is known only when no atom comes before."""
    def __init__(s, st, i):
        s.s, s.i = st, i
    def exact(s):
        return all(isinstance(x, str) for x in s.s.c[:s.i])
def pos(st, i):
    p = Pos(st, i)
    return i if p.exact() else p

class Obj:
    def __init__(s, d=None):
        s.d = dict(d or {})
    def __repr__(s): return repr(s.d)
class Arr:
    def __init__(s, l=()):
        s.l = list(l)
    def __repr__(s): return repr(s.l)
class MapObj:
    def __init__(s, weak=False, isset=False):
        s.l, s.isset = [], isset      # pairs
class Func:
    def __init__(s, node, env, this):
        s.node, s.env, s.this, s.props = node, env, this, {}
    def __deepcopy__(s, m): return s
class Native:
    def __init__(s, f, name="?"):
        s.f, s.name = f, name
    def __deepcopy__(s, m): return s
class Json:
    """The text of a JSON value."""
    def __init__(s, v):
        s.v = v
    def __repr__(s): return "JSON(%r)" % (s.v,)
class Event:
    def __init__(s, d):
        s.d = d

class DNode:
    """A node of the abstract document."""
    def __init__(s, kind, name=None, text=None):
        s.kind, s.name, s.text = kind, name, text      # 'el' | 'text' | 'frag'
        s.attrs, s.kids, s.parent, s.handlers, s.props = {}, [], None, [], {}
    def detach(s):
        if s.parent is not None:
            s.parent.kids = [k for k in s.parent.kids if k is not s]
            s.parent = None
    def insert(s, n, before=None):
        if n.kind == "frag":
            for k in list(n.kids):
                s.insert(k, before)
            return
        x = s
        while x is not None:
            if x is n:
                raise JSThrow("a node is inserted into itself")
            x = x.parent
        n.detach()
        i = len(s.kids) if before is None else next((i for i, k in enumerate(s.kids) if k is before), None)
        if i is None:
            raise JSThrow("insertBefore: the reference node is not a child of this node")
        s.kids.insert(i, n)
        n.parent = s
    def all(s):
        yield s
        for k in s.kids:
            yield from k.all()
    def textof(s):
        if s.kind == "text":
            return s.text
        r = Str("")
        for k in s.kids:
            r = r + k.textof()
        return r
    def __repr__(s):
        return "#text" if s.kind == "text" else "<%s>" % (s.name,)

class Html:
    """The markup of some nodes."""
    def __init__(s, l):
        s.l = l
class Attr:
    def __init__(s, el, key):
        s.el, s.key = el, key
class NamedMap:
    def __init__(s, el):
        s.el = el
class NodeList:
    """childNodes, children: live."""
    def __init__(s, f):
        s.f = f
    @property
    def l(s):
        return s.f()
class ClassList:
    def __init__(s, el):
        s.el = el
class Style:
    pass

class Env:
    def __init__(s, up=None):
        s.v, s.up = {}, up
    def find(s, n):
        e = s
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        return None
    def __deepcopy__(s, m):
        r = Env.__new__(Env)
        m[id(s)] = r
        r.v = copy.deepcopy(s.v, m)
        r.up = copy.deepcopy(s.up, m)
        return r

def parse(path):
    try:
        r = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsast.js"), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        j = json.loads(r.stdout)
    except Exception as e:
        raise Unknown("the client's source cannot be parsed: %s" % e)
    if "error" in j:
        raise JSThrow("syntax error in the client: %s" % "; ".join(j["error"])[:200])
    return j["body"]

def literals(body):
    out = set()
    st = [body]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x)
        elif isinstance(x, dict):
            if x.get("k") in ("StringLiteral", "NoSubstitutionTemplateLiteral", "TemplateHead", "TemplateMiddle", "TemplateTail"):
                out.add(x.get("text", ""))
            st.extend(v for v in x.values() if isinstance(v, (list, dict)))
    return out

def show(v):
    return repr(v)

class Client:
    """One page with the client loaded."""
    def __init__(s, body):
        s.doc_body = DNode("el", Str("body"))
        s.head = DNode("el", Str("head"))
        s.html = DNode("el", Str("html"))
        s.html.insert(s.head)
        s.html.insert(s.doc_body)
        s.sent, s.sockets, s.steps = [], [], 0
        s.ready = []
        s.global_ = Env()
        s.builtins()
        s.hoist(body, s.global_, True)
        for st in body:
            s.stmt(st, s.global_)
        for f in s.ready:
            s.call(f, UNDEF, [])
    # ------------------------------------------------------------------ the page
    def socket(s):
        if len(s.sockets) != 1:
            raise Unknown("%d sockets are opened" % len(s.sockets))
        return s.sockets[0]
    def message(s, msgs):
        """The server sends this list of instruction objects."""
        w = s.socket()
        hs = list(w["handlers"].get("message", []))
        if w["props"].get("onmessage", UNDEF) not in (UNDEF, None):
            hs.append(w["props"]["onmessage"])
        if not hs:
            raise JSThrow("nothing handles the server's messages")
        ev = Event({"data": Json(msgs if isinstance(msgs, (Arr, Obj)) else Arr([Obj(m) for m in msgs]))})
        for h in hs:
            s.call(h, UNDEF, [ev])
    def listeners(s, el):
        hs = [(t, f) for t, f in el.handlers]
        for k, v in el.props.items():
            if k.startswith("on") and isinstance(v, (Func, Native)):
                hs.append((Str(k[2:]), v))
        return hs
    def fire(s, el, f, type_, value):
        """What one listener sends for one event."""
        n = len(s.sent)
        s.prevented = False
        saved = el.props.get("value", UNDEF)
        el.props["value"] = value
        ev = Event({"type": type_, "target": el, "currentTarget": el, "srcElement": el})
        try:
            if s.call(f, el, [ev]) is False and any(g is f for k, g in el.props.items() if k.startswith("on")):
                s.prevented = True
        finally:
            if saved is UNDEF:
                el.props.pop("value", None)
            else:
                el.props["value"] = saved
        r = s.sent[n:]
        del s.sent[n:]
        return r
    # ------------------------------------------------------------------ names
    def builtins(s):
        g = s.global_.v
        nop = Native(lambda this, a: UNDEF, "nop")
        console = Obj({k: nop for k in ("log", "debug", "info", "warn", "error", "group", "groupEnd", "time", "timeEnd", "trace")})
        loc = Obj({"host": Str([Atom("host")]), "pathname": Str([Atom("pathname")]), "protocol": Str("http:"), "hostname": Str([Atom("hostname")]), "port": Str([Atom("port")]), "origin": Str("http://") + Str([Atom("host")]),
                   "href": Str("http://") + Str([Atom("host")]) + Str([Atom("pathname")]), "search": Str(""), "hash": Str("")})
        doc = Obj({"body": s.doc_body, "head": s.head, "documentElement": s.html, "readyState": Str("complete")})
        def create(this, a):
            n = s.str(a[0])
            return DNode("el", n)
        doc.d["createElement"] = Native(create)
        doc.d["createTextNode"] = Native(lambda this, a: DNode("text", text=s.str(a[0])))
        doc.d["createDocumentFragment"] = Native(lambda this, a: DNode("frag"))
        doc.d["getElementById"] = Native(lambda this, a: s.by_id(s.str(a[0])))
        doc.d["querySelector"] = Native(lambda this, a: s.query(s.str(a[0])))
        def onready(this, a):
            s.ready.append(a[1])
            return UNDEF
        doc.d["addEventListener"] = Native(onready)
        win = Obj({"location": loc, "document": doc, "console": console, "addEventListener": Native(onready)})
        g.update(window=win, self=win, globalThis=win, document=doc, console=console, location=loc, undefined=UNDEF, NaN=float("nan"))
        g["Node"] = Obj({"TEXT_NODE": 3, "ELEMENT_NODE": 1, "COMMENT_NODE": 8})
        g["WebSocket"] = Native(s.new_socket, "WebSocket")
        g["WebSocket"].props = Obj({"OPEN": 1, "CONNECTING": 0, "CLOSING": 2, "CLOSED": 3})
        def jparse(this, a):
            if isinstance(a[0], Json):
                return a[0].v
            raise Unknown("JSON.parse of %r" % (a[0],))
        g["JSON"] = Obj({"parse": Native(jparse), "stringify": Native(lambda this, a: Json(copy.copy(a[0])))})
        g["Array"] = Native(lambda this, a: Arr(a), "Array")
        g["Array"].props = Obj({"from": Native(lambda this, a: Arr([s.call(a[1], UNDEF, [x, i]) for i, x in enumerate(s.iter(a[0]))] if len(a) > 1 else s.iter(a[0]))),
                                "isArray": Native(lambda this, a: isinstance(a[0], Arr)), "of": Native(lambda this, a: Arr(a))})
        def okeys(this, a):
            return Arr([Str(k) for k in s.objkeys(a[0])])
        def assign(this, a):
            for x in a[1:]:
                if isinstance(x, Obj):
                    for k, v in x.d.items():
                        s.set(a[0], k, v)
                elif x not in (UNDEF, None):
                    raise Unknown("Object.assign")
            return a[0]
        g["Object"] = Native(lambda this, a: Obj(), "Object")
        g["Object"].props = Obj({"keys": Native(okeys), "values": Native(lambda this, a: Arr([s.get(a[0], k) for k in s.objkeys(a[0])])),
                                 "entries": Native(lambda this, a: Arr([Arr([Str(k), s.get(a[0], k)]) for k in s.objkeys(a[0])])), "assign": Native(assign), "freeze": Native(lambda this, a: a[0]),
                                 "create": Native(lambda this, a: Obj()), "fromEntries": Native(lambda this, a: Obj({s.key(x.l[0]): x.l[1] for x in s.iter(a[0])}))})
        g["String"] = Native(lambda this, a: s.str(a[0]) if a else Str(""), "String")
        def number(v):
            """The number a value stands for."""
            if v is UNDEF: return float("nan")
            if v is None: return 0
            if isinstance(v, bool): return int(v)
            if isinstance(v, (int, float)): return v
            if isinstance(v, Str):
                l = v.lit()
                if l is None:
                    if any(isinstance(x, Atom) and not x.number or isinstance(x, str) and not x.isdigit() and not x.isspace() for x in v.c):
                        return float("nan")     # (a text which is no number)
                    raise Unknown("the number %r" % (v,))
                l = l.strip()
                if not l: return 0
                try:
                    return int(l) if l.lstrip("+-").isdigit() else float(l)
                except ValueError:
                    return float("nan")
            raise Unknown("%r as a number" % (v,))
        def parseint(this, a):
            v = s.str(a[0])
            if len(a) > 1 and s.num(a[1]) not in (0, 10):
                raise Unknown("parseInt")
            i = 0
            while i < len(v.c) and isinstance(v.c[i], str) and v.c[i].isspace(): i += 1
            j = i
            if j < len(v.c) and v.c[j] in ("+", "-"): j += 1
            k = j
            while k < len(v.c) and isinstance(v.c[k], str) and v.c[k].isdigit(): k += 1
            if k < len(v.c) and isinstance(v.c[k], Atom) and v.c[k].number:
                raise Unknown("the number %r" % (v,))
            return int("".join(v.c[i:k])) if k > j else float("nan")
        nan = lambda x: isinstance(x, float) and x != x
        g["Number"] = Native(lambda this, a: number(a[0]) if a else 0, "Number")
        g["parseInt"] = Native(parseint, "parseInt")
        g["isNaN"] = Native(lambda this, a: nan(number(a[0] if a else UNDEF)), "isNaN")
        g["Number"].props = Obj({"parseInt": g["parseInt"], "isNaN": Native(lambda this, a: nan(a[0])), "isInteger": Native(lambda this, a: isinstance(a[0], int) and not isinstance(a[0], bool)),
                                 "isFinite": Native(lambda this, a: isinstance(a[0], (int, float)) and not isinstance(a[0], bool) and not nan(a[0])), "MAX_SAFE_INTEGER": 2 ** 53 - 1})
        def minmax(f):
            def h(this, a):
                xs = [number(x) for x in a]
                return float("nan") if any(nan(x) for x in xs) else f(xs) if xs else float("inf") if f is min else float("-inf")
            return Native(h)
        def rounding(f):
            return Native(lambda this, a: a[0] if isinstance(a[0], int) else s.num(None))
        g["Math"] = Obj({"min": minmax(min), "max": minmax(max), "floor": rounding(0), "ceil": rounding(0), "round": rounding(0), "trunc": rounding(0), "abs": Native(lambda this, a: abs(s.num(a[0])))})
        g["Boolean"] = Native(lambda this, a: s.truth(a[0]), "Boolean")
        g["Map"] = Native(None, "Map")
        g["WeakMap"] = Native(None, "Map")
        g["Set"] = Native(None, "Set")
        g["Error"] = Native(lambda this, a: Obj({"message": a[0] if a else Str("")}), "Error")
        g["TypeError"] = g["Error"]
        win.d.update({k: v for k, v in g.items() if k not in ("window", "self", "globalThis")})
    def new_socket(s, this, a):
        w = {"url": a[0], "handlers": {}, "props": {}}
        s.sockets.append(w)
        return w
    def by_id(s, id):
        for n in s.html.all():
            if n.kind == "el" and n.attrs.get("id") == id:
                return n
        if not id.c:
            return None
        return None
    def query(s, q):
        l = q.lit()
        if l in ("body", "head", "html"):
            return {"body": s.doc_body, "head": s.head, "html": s.html}[l]
        if q.c[:1] == ("#",) and len(q.c) == 2 and isinstance(q.c[1], Atom) and q.c[1].number:
            raise JSThrow("querySelector with a # and a number is not a valid selector")
        pre, post = '[id="', '"]'
        if "".join(x if isinstance(x, str) else "\0" for x in q.c).startswith(pre) and q.c[-2:] == tuple(post):
            return s.by_id(Str(q.c[len(pre):-2]))
        raise Unknown("querySelector(%r)" % q)
    # ------------------------------------------------------------------ conversions
    def truth(s, v):
        if v is UNDEF or v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0 and v == v
        if isinstance(v, Str):
            return len(v.c) > 0
        if isinstance(v, Pos):
            return True      # something comes before it
        return True
    def str(s, v):
        if isinstance(v, Str):
            return v
        if isinstance(v, bool):
            return Str("true" if v else "false")
        if isinstance(v, int):
            return Str(str(v))
        if v is UNDEF:
            return Str("undefined")
        if v is None:
            return Str("null")
        raise Unknown("%r as a string" % (v,))
    def key(s, v):
        if isinstance(v, Str):
            l = v.lit()
            return l if l is not None else v
        if isinstance(v, bool) or v is None or v is UNDEF:
            return s.str(v).lit()
        if isinstance(v, int):
            return str(v)
        raise Unknown("property name %r" % (v,))
    def live(s, v):
        i = 0
        while i < len(v.l):
            s.tick()
            yield v.l[i]
            i += 1
    def iter(s, v, live=False):
        if isinstance(v, Arr):
            return list(v.l)
        if isinstance(v, NodeList):
            return list(v.l) if not live else s.live(v)
        if isinstance(v, NamedMap):
            return [Attr(v.el, k) for k in v.el.attrs]
        if isinstance(v, MapObj):
            return [a if v.isset else Arr([a, b]) for a, b in v.l]
        if isinstance(v, Str):
            if v.lit() is not None:
                return [Str(x) for x in v.c]
            raise Unknown("characters of %r" % v)
        if v is UNDEF or v is None:
            raise JSThrow("%r is not iterable" % v)
        raise Unknown("iteration over %r" % (v,))
    def objkeys(s, o):
        if isinstance(o, Obj):
            return list(o.d)
        if isinstance(o, Arr):
            return [str(i) for i in range(len(o.l))]
        raise Unknown("keys of %r" % (o,))
    def same(s, a, b):
        if isinstance(a, Pos) or isinstance(b, Pos):
            if isinstance(a, Pos) and isinstance(b, Pos) and a.s == b.s:
                return a.i == b.i
            p, o = (a, b) if isinstance(a, Pos) else (b, a)
            if isinstance(o, int) and not isinstance(o, bool) and o <= p.i - 1 or o == 0 and p.i > 0:
                return False
            raise Unknown("position compared with %r" % (o,))
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if isinstance(a, Str) and isinstance(b, Str):
            if a.c == b.c:
                return True
            # atoms are distinct from each other and from the sources' literals; mixtures could still coincide by concatenation
            return False
        if isinstance(a, (Str, int, float)) or isinstance(b, (Str, int, float)):
            return type(a) == type(b) and a == b
        return a is b
    def eq(s, a, b, strict):
        if not strict:
            na, nb = a is UNDEF or a is None, b is UNDEF or b is None
            if na or nb:
                return na and nb
            if type(a) != type(b) and not (isinstance(a, Pos) or isinstance(b, Pos)):
                if isinstance(a, Str) and isinstance(b, int) or isinstance(b, Str) and isinstance(a, int):
                    raise Unknown("loose comparison of %r and %r" % (a, b))
        return s.same(a, b)
    # ------------------------------------------------------------------ properties
    def get(s, o, k):
        if isinstance(k, Str):
            k = s.key(k)
        if o is UNDEF or o is None:
            raise JSThrow("property %r of %r is read" % (k, o))
        if isinstance(o, Native) and getattr(o, "props", None) is not None and k in o.props.d:
            return o.props.d[k]
        if isinstance(o, Obj):
            if k in o.d:
                return o.d[k]
            if k == "hasOwnProperty":
                return Native(lambda this, a: s.key(a[0]) in o.d)
            if k in ("toString", "valueOf", "constructor", "__proto__"):
                raise Unknown("property %s" % k)
            return UNDEF
        if isinstance(o, Event):
            if k in o.d:
                return o.d[k]
            if k == "preventDefault":
                def prevent(this, a):
                    s.prevented = True
                    return UNDEF
                return Native(prevent)
            if k == "defaultPrevented":
                return s.prevented
            if k in ("stopPropagation", "stopImmediatePropagation"):
                return Native(lambda this, a: UNDEF)
            raise Unknown("event property %s" % k)
        if isinstance(o, dict):
            return s.get_socket(o, k)
        if isinstance(o, Str):
            return s.get_str(o, k)
        if isinstance(o, Arr):
            return s.get_arr(o, k)
        if isinstance(o, NodeList):
            if k == "item":
                return Native(lambda this, a: o.l[s.num(a[0])] if s.num(a[0]) < len(o.l) else None)
            if k == "forEach":
                def each(this, a):
                    for i, x in enumerate(s.live(o)):
                        s.call(a[0], UNDEF, [x, i, o])
                    return UNDEF
                return Native(each)
            if k != "length" and not (isinstance(k, str) and k.isdigit()) and k not in ("entries", "keys", "values"):
                raise Unknown("node list method %s" % (k,))
            return s.get_arr(Arr(o.l), k)
        if isinstance(o, NamedMap):
            ks = list(o.el.attrs)
            if k == "length":
                return len(ks)
            if k == "item":
                return Native(lambda this, a: Attr(o.el, ks[s.num(a[0])]) if 0 <= s.num(a[0]) < len(list(o.el.attrs)) else None)
            if k == "getNamedItem":
                return Native(lambda this, a: Attr(o.el, s.key(a[0])) if s.key(a[0]) in o.el.attrs else None)
            if isinstance(k, str) and k.isdigit():
                return Attr(o.el, ks[int(k)]) if int(k) < len(ks) else UNDEF
            raise Unknown("attributes.%s" % (k,))
        if isinstance(o, Attr):
            if k in ("name", "nodeName", "localName"):
                return Str(o.key) if isinstance(o.key, str) else o.key
            if k in ("value", "nodeValue", "textContent"):
                return o.el.attrs.get(o.key, Str(""))
            raise Unknown("attribute property %s" % (k,))
        if isinstance(o, DNode):
            return s.get_node(o, k)
        if isinstance(o, MapObj):
            return s.get_map(o, k)
        if isinstance(o, (Func, Native)):
            if k == "call":
                return Native(lambda this, a: s.call(o, a[0] if a else UNDEF, a[1:]))
            if k == "apply":
                return Native(lambda this, a: s.call(o, a[0], s.iter(a[1]) if len(a) > 1 else []))
            if k == "bind":
                return Native(lambda this, a: Native(lambda t2, b: s.call(o, a[0], a[1:] + b)))
            if isinstance(o, Func) and k in o.props:
                return o.props[k]
            raise Unknown("function property %s" % (k,))
        if isinstance(o, bool) or isinstance(o, (int, float)):
            if k == "toString":
                return Native(lambda this, a: s.str(o))
            raise Unknown("number property")
        if isinstance(o, Json):
            raise Unknown("a JSON text is taken apart")
        raise Unknown("property %r of %r" % (k, o))
    def num(s, v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unknown("%r as a number" % (v,))
        return v
    def get_socket(s, w, k):
        if k == "send":
            def send(this, a):
                s.sent.append(a[0])
                return UNDEF
            return Native(send)
        if k == "addEventListener":
            def add(this, a):
                w["handlers"].setdefault(s.key(a[0]), []).append(a[1])
                return UNDEF
            return Native(add)
        if k == "readyState":
            return 1
        if k == "close":
            return Native(lambda this, a: UNDEF)
        return w["props"].get(k, None if isinstance(k, str) and k.startswith("on") else UNDEF)
    def get_str(s, o, k):
        c = o.c
        n = len(c)
        if k == "length":
            return pos(o, n)
        if isinstance(k, str) and k.isdigit():
            i = int(k)
            if all(isinstance(x, str) for x in c[:i + 1]):
                return Str(c[i]) if i < n else UNDEF
            raise Unknown("character %d of %r" % (i, o))
        def idx(v, default):
            """pseudo-index of a slice bound"""
            if v is UNDEF:
                return default
            if isinstance(v, Pos):
                if v.s == o:
                    return v.i
                raise Unknown("a position in another string")
            v = s.num(v)
            if v < 0:
                if all(isinstance(x, str) for x in c[n + v:]) and n + v >= 0:
                    return n + v
                raise Unknown("counting from the end of %r" % o)
            if all(isinstance(x, str) for x in c[:v]):
                return min(v, n)
            raise Unknown("counting into %r" % o)
        def arg(a, i):
            return a[i] if i < len(a) else UNDEF
        def find(x, rng):
            for i in rng:
                if c[i:i + len(x)] == x:
                    return i
            return -1
        def needle(v):
            x = s.str(v).c
            if not all(isinstance(y, str) for y in x):
                if len(x) != 1 and not any(isinstance(y, str) for y in x):
                    raise Unknown("search for %r" % (v,))
            return x
        if k == "indexOf":
            def f(this, a):
                x = needle(a[0])
                i = find(x, range(idx(arg(a, 1), 0), n - len(x) + 1))
                return -1 if i < 0 else pos(o, i)
            return Native(f)
        if k == "lastIndexOf":
            def f(this, a):
                x = needle(a[0])
                i = find(x, range(n - len(x), -1, -1))
                return -1 if i < 0 else pos(o, i)
            return Native(f)
        if k == "includes":
            return Native(lambda this, a: find(needle(a[0]), range(0, n - len(needle(a[0])) + 1)) >= 0)
        if k == "startsWith":
            return Native(lambda this, a: c[:len(needle(a[0]))] == needle(a[0]))
        if k == "endsWith":
            return Native(lambda this, a: not needle(a[0]) or c[-len(needle(a[0])):] == needle(a[0]))
        if k == "split":
            def f(this, a):
                x = needle(a[0])
                if not x:
                    raise Unknown("split into characters")
                out, i, last = [], 0, 0
                while i <= n - len(x):
                    if c[i:i + len(x)] == x:
                        out.append(Str(c[last:i]))
                        i += len(x)
                        last = i
                    else:
                        i += 1
                out.append(Str(c[last:]))
                if arg(a, 1) is not UNDEF:
                    out = out[:s.num(a[1])]
                return Arr(out)
            return Native(f)
        if k == "slice":
            return Native(lambda this, a: Str(c[idx(arg(a, 0), 0):idx(arg(a, 1), n)]))
        if k == "substring":
            def f(this, a):
                i, j = idx(arg(a, 0), 0) if not (isinstance(arg(a, 0), int) and a[0] < 0) else 0, idx(arg(a, 1), n) if not (isinstance(arg(a, 1), int) and a[1] < 0) else 0
                return Str(c[min(i, j):max(i, j)])
            return Native(f)
        if k == "substr":
            def f(this, a):
                i = idx(arg(a, 0), 0)
                if arg(a, 1) is UNDEF:
                    return Str(c[i:])
                m = s.num(a[1])
                if all(isinstance(x, str) for x in c[i:i + m]):
                    return Str(c[i:i + m])
                raise Unknown("substr")
            return Native(f)
        if k == "concat":
            def f(this, a):
                r = o
                for x in a:
                    r = r + s.str(x)
                return r
            return Native(f)
        if k in ("toString", "valueOf"):
            return Native(lambda this, a: o)
        if k == "at" or k == "charAt":
            def f(this, a):
                i = idx(a[0], 0)
                if i < n and isinstance(c[i], str):
                    return Str(c[i])
                if i >= n:
                    return UNDEF if k == "at" else Str("")
                raise Unknown("character of an atom")
            return Native(f)
        if k in ("toLowerCase", "toUpperCase", "toLocaleLowerCase", "toLocaleUpperCase"):
            # an atom stands for a text of mixed case, unless it is a number
            up = "Upper" in k
            return Native(lambda this, a: Str([(x.upper() if up else x.lower()) if isinstance(x, str) else x if x.number else x.cased(up) for x in c]))
        if k in ("trim", "trimStart", "trimEnd"):
            def f(this, a):
                i, j = 0, n
                while k != "trimEnd" and i < j and isinstance(c[i], str) and c[i].isspace():
                    i += 1
                while k != "trimStart" and i < j and isinstance(c[j - 1], str) and c[j - 1].isspace():
                    j -= 1
                return Str(c[i:j])
            return Native(f)
        if k in ("replace", "replaceAll"):
            def f(this, a):
                x, y = needle(a[0]), s.str(a[1]).c
                if not x:
                    raise Unknown("replace")
                out, i, done = [], 0, False
                while i < n:
                    if c[i:i + len(x)] == x and not (done and k == "replace"):
                        out += y
                        i += len(x)
                        done = True
                    else:
                        out.append(c[i])
                        i += 1
                return Str(out)
            return Native(f)
        raise Unknown("string method %s on %r" % (k, o))
    def get_arr(s, o, k):
        l = o.l
        def at(v):
            i = s.num(v)
            return l[i] if -len(l) <= i < len(l) else UNDEF
        if k == "length":
            return len(l)
        if isinstance(k, str) and k.isdigit():
            return l[int(k)] if int(k) < len(l) else UNDEF
        def cb(f, x, i):
            return s.call(f, UNDEF, [x, i, o])
        def find(a):
            for i, x in enumerate(l):
                if s.truth(cb(a[0], x, i)):
                    return i
            return -1
        def push(this, a):
            l.extend(a)
            return len(l)
        def each(this, a):
            for i, x in enumerate(list(l)):
                cb(a[0], x, i)
            return UNDEF
        def reduce(this, a):
            it = list(enumerate(l))
            acc = a[1] if len(a) > 1 else it.pop(0)[1]
            for i, x in it:
                acc = s.call(a[0], UNDEF, [acc, x, i, o])
            return acc
        def join(this, a):
            sep = s.str(a[0]) if a else Str(",")
            r = Str("")
            for i, x in enumerate(l):
                r = (r + sep if i else r) + (Str("") if x in (None, UNDEF) else s.str(x))
            return r
        def sl(this, a):
            i = s.num(a[0]) if a else 0
            j = s.num(a[1]) if len(a) > 1 and a[1] is not UNDEF else len(l)
            return Arr(l[i:j])
        def concat(this, a):
            r = list(l)
            for x in a:
                r += x.l if isinstance(x, Arr) else [x]
            return Arr(r)
        def splice(this, a):
            i = s.num(a[0])
            m = s.num(a[1]) if len(a) > 1 else len(l)
            i = max(0, len(l) + i) if i < 0 else min(i, len(l))
            r = l[i:i + m]
            l[i:i + m] = a[2:]
            return Arr(r)
        def rev(this, a):
            l.reverse()
            return o
        def unshift(this, a):
            l[:0] = a
            return len(l)
        t = {
            "map": lambda this, a: Arr([cb(a[0], x, i) for i, x in enumerate(list(l))]),
            "forEach": each, "push": push, "reduce": reduce, "join": join, "slice": sl, "concat": concat, "splice": splice, "reverse": rev, "unshift": unshift,
            "filter": lambda this, a: Arr([x for i, x in enumerate(list(l)) if s.truth(cb(a[0], x, i))]),
            "find": lambda this, a: (lambda i: l[i] if i >= 0 else UNDEF)(find(a)),
            "findIndex": lambda this, a: find(a),
            "some": lambda this, a: find(a) >= 0,
            "every": lambda this, a: all(s.truth(cb(a[0], x, i)) for i, x in enumerate(list(l))),
            "includes": lambda this, a: any(s.same(x, a[0]) for x in l),
            "indexOf": lambda this, a: next((i for i, x in enumerate(l) if s.same(x, a[0])), -1),
            "pop": lambda this, a: l.pop() if l else UNDEF,
            "shift": lambda this, a: l.pop(0) if l else UNDEF,
            "at": lambda this, a: at(a[0]),
            "entries": lambda this, a: Arr([Arr([i, x]) for i, x in enumerate(l)]),
            "values": lambda this, a: Arr(l), "keys": lambda this, a: Arr(range(len(l))),
            "flat": lambda this, a: Arr([y for x in l for y in (x.l if isinstance(x, Arr) else [x])]),
            "flatMap": lambda this, a: Arr([y for i, x in enumerate(list(l)) for z in [cb(a[0], x, i)] for y in (z.l if isinstance(z, Arr) else [z])]),
        }
        if k in t:
            return Native(t[k])
        raise Unknown("array method %s" % (k,))
    def get_map(s, o, k):
        def find(v):
            return next((i for i, (a, b) in enumerate(o.l) if s.same(a, v)), -1)
        def st(this, a):
            i = find(a[0])
            p = (a[0], a[0] if o.isset else a[1])
            if i < 0:
                o.l.append(p)
            else:
                o.l[i] = p
            return o
        def rm(this, a):
            i = find(a[0])
            if i >= 0:
                del o.l[i]
            return i >= 0
        def clear(this, a):
            o.l.clear()
            return UNDEF
        def each(this, a):
            for x, y in list(o.l):
                s.call(a[0], UNDEF, [y, x, o])
            return UNDEF
        t = {"get": lambda this, a: o.l[find(a[0])][1] if find(a[0]) >= 0 else UNDEF, "has": lambda this, a: find(a[0]) >= 0, "delete": rm, "clear": clear, "forEach": each,
             "set": st, "add": st, "keys": lambda this, a: Arr([x for x, _ in o.l]), "values": lambda this, a: Arr([y for _, y in o.l]), "entries": lambda this, a: Arr([Arr([x, y]) for x, y in o.l])}
        if k == "size":
            return len(o.l)
        if k in t:
            return Native(t[k])
        raise Unknown("map method %s" % (k,))
    # ------------------------------------------------------------------ the document
    def need(s, v, what):
        if v is None or v is UNDEF:
            raise JSThrow("%s is given %r instead of a node" % (what, v))
        if not isinstance(v, DNode):
            raise Unknown("%s of %r" % (what, v))
        return v
    def get_node(s, o, k):
        els = [x for x in o.kids if x.kind == "el"]
        sib = o.parent.kids if o.parent is not None else [o]
        me = next(i for i, x in enumerate(sib) if x is o)
        def sibs(l, d):
            j = next((i for i, x in enumerate(l) if x is o), None)
            return None if j is None or not 0 <= j + d < len(l) else l[j + d]
        nn = lambda v: v if v is not None else None
        def toNode(v):
            return v if isinstance(v, DNode) else DNode("text", text=s.str(v))
        if o.kind == "text":
            if k in ("nodeValue", "data", "textContent", "wholeText"):
                return o.text
            if k == "nodeName":
                return Str("#text")
        if k == "nodeType":
            return {"el": 1, "text": 3, "frag": 11}[o.kind]
        if k == "parentNode":
            return o.parent
        if k == "parentElement":
            return o.parent
        if k == "firstChild":
            return o.kids[0] if o.kids else None
        if k == "lastChild":
            return o.kids[-1] if o.kids else None
        if k == "nextSibling":
            return sibs(sib, 1)
        if k == "previousSibling":
            return sibs(sib, -1)
        if k == "childNodes":
            return NodeList(lambda: list(o.kids))
        if k == "isConnected":
            x = o
            while x.parent is not None:
                x = x.parent
            return x is s.html
        def m(f):
            return Native(lambda this, a: f(a))
        def append(a):
            o.insert(s.need(a[0], "appendChild"))
            return a[0]
        def insb(a):
            r = a[1] if len(a) > 1 else None
            n = s.need(a[0], "insertBefore")
            if r is not None and r is not UNDEF and r is n:
                return n
            o.insert(n, None if r is None or r is UNDEF else s.need(r, "insertBefore"))
            return n
        def rmc(a):
            n = s.need(a[0], "removeChild")
            if n.parent is not o:
                raise JSThrow("removeChild of a node that is not a child")
            n.detach()
            return n
        def repc(a):
            n, old = s.need(a[0], "replaceChild"), s.need(a[1], "replaceChild")
            if old.parent is not o:
                raise JSThrow("replaceChild of a node that is not a child")
            if n is old:
                return old
            o.insert(n, old)
            old.detach()
            return old
        def repw(a):
            p = o.parent
            if p is None:
                return UNDEF
            for x in a:
                n = toNode(x)
                if n is not o:
                    p.insert(n, o)
            if not any(x is o for x in a):
                o.detach()
            return UNDEF
        def rm(a):
            o.detach()
            return UNDEF
        def apps(a):
            for x in a:
                o.insert(toNode(x))
            return UNDEF
        def prep(a):
            first = o.kids[0] if o.kids else None
            for x in a:
                n = toNode(x)
                if n is first:
                    continue
                o.insert(n, first)
            return UNDEF
        def before(a):
            for x in a:
                o.parent.insert(toNode(x), o)
            return UNDEF
        def after(a):
            nx = sibs(o.parent.kids, 1)
            for x in a:
                o.parent.insert(toNode(x), nx)
            return UNDEF
        def repl(a):
            for x in list(o.kids):
                x.detach()
            return apps(a)
        def clone(deep, x):
            n = DNode(x.kind, x.name, x.text)
            n.attrs = dict(x.attrs)
            if deep:
                for y in x.kids:
                    n.insert(clone(True, y))
            return n
        common = {"appendChild": append, "insertBefore": insb, "removeChild": rmc, "replaceChild": repc, "replaceWith": repw, "remove": rm, "append": apps, "prepend": prep, "before": before, "after": after,
                  "replaceChildren": repl, "cloneNode": lambda a: clone(bool(a) and s.truth(a[0]), o), "hasChildNodes": lambda a: bool(o.kids),
                  "contains": lambda a: any(x is a[0] for x in o.all())}
        if k in common:
            return m(common[k])
        if k == "textContent":
            return o.textof()
        if o.kind == "el":
            if k in ("tagName", "nodeName"):
                l = o.name.lit()
                if l is not None:
                    return Str(l.upper())
                raise Unknown("the upper case of a tag name")
            if k == "localName":
                return o.name
            if k == "id":
                return o.attrs.get("id", Str(""))
            if k == "attributes":
                return NamedMap(o)
            if k == "children":
                return NodeList(lambda: [x for x in o.kids if x.kind == "el"])
            if k == "childElementCount":
                return len(els)
            if k == "firstElementChild":
                return els[0] if els else None
            if k == "lastElementChild":
                return els[-1] if els else None
            if k == "nextElementSibling":
                return sibs([x for x in sib if x.kind == "el"], 1)
            if k == "previousElementSibling":
                return sibs([x for x in sib if x.kind == "el"], -1)
            def seta(a):
                o.attrs[s.key(s.str(a[0]))] = s.str(a[1])
                return UNDEF
            def toggle(a):
                kk = s.key(a[0])
                if kk in o.attrs:
                    del o.attrs[kk]
                    return False
                o.attrs[kk] = Str("")
                return True
            def addl(a):
                t = s.str(a[0])
                if a[1] is None or a[1] is UNDEF:
                    return UNDEF
                if not any(s.same(x, t) and f is a[1] for x, f in o.handlers):
                    if len(a) > 2 and not (a[2] is False or isinstance(a[2], Obj) and all(k in ("passive", "capture") for k in a[2].d) or a[2] is True):
                        raise Unknown("listener options")
                    o.handlers.append((t, a[1]))
                return UNDEF
            def rml(a):
                t = s.str(a[0])
                o.handlers = [(x, f) for x, f in o.handlers if not (s.same(x, t) and f is a[1])]
                return UNDEF
            em = {"setAttribute": seta, "getAttribute": lambda a: o.attrs.get(s.key(a[0]), None), "hasAttribute": lambda a: s.key(a[0]) in o.attrs,
                  "removeAttribute": lambda a: (o.attrs.pop(s.key(s.str(a[0])), None), UNDEF)[1], "getAttributeNames": lambda a: Arr([Str(x) if isinstance(x, str) else x for x in o.attrs]),
                  "toggleAttribute": toggle, "addEventListener": addl, "removeEventListener": rml, "hasAttributes": lambda a: bool(o.attrs)}
            if k in em:
                return m(em[k])
            if k in ("innerText",):
                return o.textof()
            if k == "innerHTML":
                return Html([clone(True, x) for x in o.kids])
            if k in ("outerHTML", "style", "classList", "dataset", "className", "insertAdjacentElement", "insertAdjacentText", "insertAdjacentHTML", "querySelector", "querySelectorAll", "closest", "getElementsByTagName", "matches", "dispatchEvent", "focus", "blur", "click", "reset", "submit", "scrollIntoView"):
                raise Unknown("element.%s" % k)
            if isinstance(k, str) and k.startswith("on") and k not in o.props:
                return None
        return o.props.get(k, UNDEF)
    def set(s, o, k, v):
        if isinstance(k, Str):
            k = s.key(k)
        if o is UNDEF or o is None:
            raise JSThrow("property %r of %r is set" % (k, o))
        if isinstance(o, Obj):
            o.d[k] = v
        elif isinstance(o, Arr):
            if k == "length":
                n = s.num(v)
                if n > len(o.l):
                    raise Unknown("array length")
                del o.l[n:]
            elif isinstance(k, str) and k.isdigit() and int(k) <= len(o.l):
                if int(k) == len(o.l):
                    o.l.append(v)
                else:
                    o.l[int(k)] = v
            else:
                raise Unknown("array property %r" % (k,))
        elif isinstance(o, dict):
            o["props"][k] = v
        elif isinstance(o, DNode):
            if o.kind == "text":
                if k in ("nodeValue", "data", "textContent"):
                    o.text = s.str(v)
                    return
                o.props[k] = v
                return
            if k == "id":
                o.attrs["id"] = s.str(v)
            elif k == "innerHTML" and isinstance(v, Html):
                for x in list(o.kids):
                    x.detach()
                for x in v.l:
                    o.insert(s.call(s.get(x, "cloneNode"), x, [True]))
            elif k == "innerHTML" and isinstance(v, Str) and any(x in v.c for x in "<&"):
                # parsed as markup: not the text itself
                for x in list(o.kids):
                    x.detach()
                o.insert(DNode("el", Str("markup")))
            elif k in ("textContent", "innerText", "innerHTML"):
                for x in list(o.kids):
                    x.detach()
                v = Str("") if v is None else s.str(v)
                if v.c:
                    o.insert(DNode("text", text=v))
            elif k in ("outerHTML", "className", "style", "tagName", "nodeName", "hidden", "disabled", "href", "src", "title", "type", "name"):
                raise Unknown("assignment to element.%s" % k)
            elif k in ("nodeValue",):
                pass
            else:
                o.props[k] = v
        elif isinstance(o, Attr):
            if k in ("value", "nodeValue", "textContent"):
                o.el.attrs[o.key] = s.str(v)
            else:
                raise Unknown("attribute property")
        elif isinstance(o, Func):
            o.props[k] = v
        else:
            raise Unknown("property %r of %r is set" % (k, o))
    # ------------------------------------------------------------------ statements
    def tick(s):
        s.steps += 1
        if s.steps > 400000:
            raise Unknown("too many steps")
    def hoist(s, stmts, env, top=False):
        for n in stmts:
            if n["k"] == "FunctionDeclaration":
                env.v[n["name"]["escapedText"]] = Func(n, env, None)
    def block(s, stmts, env):
        s.hoist(stmts, env)
        for n in stmts:
            s.stmt(n, env)
    def stmt(s, n, env):
        s.tick()
        k = n["k"]
        if k == "ExpressionStatement":
            s.expr(n["expression"], env)
        elif k == "VariableStatement":
            s.decls(n["declarationList"], env)
        elif k == "Block":
            s.block(n["statements"], Env(env))
        elif k == "IfStatement":
            if s.truth(s.expr(n["expression"], env)):
                s.stmt(n["thenStatement"], Env(env))
            elif "elseStatement" in n:
                s.stmt(n["elseStatement"], Env(env))
        elif k == "ReturnStatement":
            raise _Return(s.expr(n["expression"], env) if "expression" in n else UNDEF)
        elif k in ("FunctionDeclaration", "EmptyStatement"):
            pass
        elif k == "ForStatement":
            e = Env(env)
            i = n.get("initializer")
            if i:
                if i["k"] == "VariableDeclarationList":
                    s.decls(i, e)
                else:
                    s.expr(i, e)
            while "condition" not in n or s.truth(s.expr(n["condition"], e)):
                s.tick()
                # closures see this pass's variables
                p = Env(env)
                p.v = dict(e.v)
                try:
                    s.stmt(n["statement"], Env(p))
                except _Break:
                    break
                except _Continue:
                    pass
                e = Env(env)
                e.v = dict(p.v)
                if "incrementor" in n:
                    s.expr(n["incrementor"], e)
        elif k in ("ForOfStatement", "ForInStatement"):
            c = s.expr(n["expression"], env)
            if k == "ForInStatement":
                its = [Str(x) for x in s.objkeys(c)]
            else:
                its = s.iter(c, True)
            for x in its:
                s.tick()
                e = Env(env)
                i = n["initializer"]
                if i["k"] == "VariableDeclarationList":
                    s.bind(i["declarations"][0]["name"], x, e)
                else:
                    s.assign(i, x, e)
                try:
                    s.stmt(n["statement"], e)
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == "WhileStatement":
            while s.truth(s.expr(n["expression"], env)):
                s.tick()
                try:
                    s.stmt(n["statement"], Env(env))
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == "DoStatement":
            while True:
                s.tick()
                try:
                    s.stmt(n["statement"], Env(env))
                except _Break:
                    break
                except _Continue:
                    pass
                if not s.truth(s.expr(n["expression"], env)):
                    break
        elif k == "SwitchStatement":
            v = s.expr(n["expression"], env)
            e = Env(env)
            on = False
            try:
                cl = n["caseBlock"]["clauses"]
                for w in (0, 1):
                    for c in cl:
                        if not on and w == 0 and c["k"] == "CaseClause" and s.same(v, s.expr(c["expression"], e)):
                            on = True
                        if w == 1 and c["k"] == "DefaultClause":
                            on = True
                        if on:
                            s.block(c["statements"], e)
                    if on:
                        break
            except _Break:
                pass
        elif k == "BreakStatement":
            if "label" in n:
                raise Unknown("label")
            raise _Break()
        elif k == "ContinueStatement":
            if "label" in n:
                raise Unknown("label")
            raise _Continue()
        elif k == "ThrowStatement":
            raise JSThrow("throw")
        elif k == "TryStatement":
            try:
                try:
                    s.stmt(n["tryBlock"], env)
                except JSThrow as x:
                    if "catchClause" not in n:
                        raise
                    e = Env(env)
                    if "variableDeclaration" in n["catchClause"]:
                        s.bind(n["catchClause"]["variableDeclaration"]["name"], Obj({"message": Str(str(x))}), e)
                    s.stmt(n["catchClause"]["block"], e)
            finally:
                if "finallyBlock" in n:
                    s.stmt(n["finallyBlock"], env)
        else:
            raise Unknown(k)
    def decls(s, l, env):
        for d in l["declarations"]:
            if "initializer" in d:
                v = s.expr(d["initializer"], env)
            else:
                v = UNDEF
                if l.get("decl") == "var" and d["name"]["k"] == "Identifier" and env.find(d["name"]["escapedText"]):
                    continue
            e = env
            if l.get("decl") == "var":
                # function scope
                while e.up is not None and not getattr(e, "fn", False):
                    e = e.up
            s.bind(d["name"], v, e)
    def bind(s, pat, v, env):
        k = pat["k"]
        if k == "Identifier":
            env.v[pat["escapedText"]] = v
        elif k == "ArrayBindingPattern":
            l = s.iter(v)
            for i, e in enumerate(pat["elements"]):
                if e["k"] == "OmittedExpression":
                    continue
                if "dotDotDotToken" in e:
                    s.bind(e["name"], Arr(l[i:]), env)
                    break
                x = l[i] if i < len(l) else UNDEF
                if x is UNDEF and "initializer" in e:
                    x = s.expr(e["initializer"], env)
                s.bind(e["name"], x, env)
        elif k == "ObjectBindingPattern":
            if v is UNDEF or v is None:
                raise JSThrow("%r is taken apart" % v)
            used = []
            for e in pat["elements"]:
                if "dotDotDotToken" in e:
                    if not isinstance(v, Obj):
                        raise Unknown("rest of an object")
                    s.bind(e["name"], Obj({a: b for a, b in v.d.items() if a not in used}), env)
                    continue
                p = e.get("propertyName", e["name"])
                key = s.propname(p, env)
                used.append(key)
                x = s.get(v, key)
                if x is UNDEF and "initializer" in e:
                    x = s.expr(e["initializer"], env)
                s.bind(e["name"], x, env)
        else:
            raise Unknown(k)
    def propname(s, p, env):
        if p["k"] == "Identifier":
            return p["escapedText"]
        if p["k"] in ("StringLiteral", "NumericLiteral", "NoSubstitutionTemplateLiteral"):
            return p["text"]
        if p["k"] == "ComputedPropertyName":
            return s.key(s.expr(p["expression"], env))
        raise Unknown("property name")
    # ------------------------------------------------------------------ expressions
    def call(s, f, this, args):
        s.tick()
        if isinstance(f, Native):
            if f.f is None:
                raise Unknown(f.name)
            return f.f(this, list(args))
        if f is UNDEF or f is None or not isinstance(f, Func):
            if isinstance(f, (Obj, Str, Arr, int, DNode)) or f is UNDEF or f is None:
                raise JSThrow("%r is called" % (f,))
            raise Unknown("call of %r" % (f,))
        n = f.node
        if "asteriskToken" in n or any(m.get("k") == "AsyncKeyword" for m in n.get("modifiers", [])):
            raise Unknown("generator or async function")
        e = Env(f.env)
        e.fn = True
        arrow = n["k"] == "ArrowFunction"
        if not arrow:
            e.v["this"] = this
            e.v["arguments"] = Arr(args)
        for i, p in enumerate(n.get("parameters", [])):
            if "dotDotDotToken" in p:
                s.bind(p["name"], Arr(args[i:]), e)
                break
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and "initializer" in p:
                v = s.expr(p["initializer"], e)
            s.bind(p["name"], v, e)
        b = n["body"]
        if b["k"] != "Block":
            return s.expr(b, e)
        try:
            s.block(b["statements"], e)
        except _Return as r:
            return r.v
        return UNDEF
    def args(s, l, env):
        out = []
        for a in l:
            if a["k"] == "SpreadElement":
                out += s.iter(s.expr(a["expression"], env))
            else:
                out.append(s.expr(a, env))
        return out
    def assign(s, t, v, env):
        k = t["k"]
        if k == "Identifier":
            e = env.find(t["escapedText"])
            if e is None:
                s.global_.v[t["escapedText"]] = v
            else:
                e.v[t["escapedText"]] = v
        elif k == "PropertyAccessExpression":
            s.set(s.expr(t["expression"], env), t["name"]["escapedText"], v)
        elif k == "ElementAccessExpression":
            o = s.expr(t["expression"], env)
            s.set(o, s.key(s.expr(t["argumentExpression"], env)), v)
        elif k == "ParenthesizedExpression":
            s.assign(t["expression"], v, env)
        elif k == "ArrayLiteralExpression":
            l = s.iter(v)
            for i, e in enumerate(t["elements"]):
                if e["k"] != "OmittedExpression":
                    s.assign(e, l[i] if i < len(l) else UNDEF, env)
        else:
            raise Unknown("assignment to %s" % k)
    def expr(s, n, env):
        s.tick()
        k = n["k"]
        m = getattr(s, "e_" + k, None)
        if m is None:
            raise Unknown(k)
        return m(n, env)
    def e_Identifier(s, n, env):
        e = env.find(n["escapedText"])
        if e is None:
            raise Unknown("name %s" % n["escapedText"])
        return e.v[n["escapedText"]]
    def e_ThisKeyword(s, n, env):
        e = env.find("this")
        return e.v["this"] if e else UNDEF
    def e_StringLiteral(s, n, env): return Str(n.get("text", ""))
    e_NoSubstitutionTemplateLiteral = e_StringLiteral
    def e_NumericLiteral(s, n, env):
        try:
            return int(n["text"])
        except ValueError:
            raise Unknown("number %s" % n["text"])
    def e_TrueKeyword(s, n, env): return True
    def e_FalseKeyword(s, n, env): return False
    def e_NullKeyword(s, n, env): return None
    def e_TemplateExpression(s, n, env):
        r = Str(n["head"].get("text", ""))
        for sp in n["templateSpans"]:
            r = r + s.str(s.expr(sp["expression"], env)) + Str(sp["literal"].get("text", ""))
        return r
    def e_ParenthesizedExpression(s, n, env): return s.expr(n["expression"], env)
    def e_ArrayLiteralExpression(s, n, env): return Arr(s.args([x for x in n["elements"]], env))
    def e_ObjectLiteralExpression(s, n, env):
        o = Obj()
        for p in n["properties"]:
            if p["k"] == "PropertyAssignment":
                o.d[s.propname(p["name"], env)] = s.expr(p["initializer"], env)
            elif p["k"] == "ShorthandPropertyAssignment":
                o.d[p["name"]["escapedText"]] = s.expr(p["name"], env)
            elif p["k"] == "MethodDeclaration":
                o.d[s.propname(p["name"], env)] = Func(p, env, None)
            elif p["k"] == "SpreadAssignment":
                v = s.expr(p["expression"], env)
                if isinstance(v, Obj):
                    o.d.update(v.d)
                elif v not in (UNDEF, None):
                    raise Unknown("spread")
            else:
                raise Unknown(p["k"])
        return o
    def e_ArrowFunction(s, n, env): return Func(n, env, None)
    e_FunctionExpression = e_ArrowFunction
    def e_ConditionalExpression(s, n, env):
        return s.expr(n["whenTrue"] if s.truth(s.expr(n["condition"], env)) else n["whenFalse"], env)
    def e_PropertyAccessExpression(s, n, env):
        o = s.expr(n["expression"], env)
        if (o is UNDEF or o is None) and ("questionDotToken" in n or s.chained(n["expression"])):
            return UNDEF
        return s.get(o, n["name"]["escapedText"])
    def chained(s, n):
        """Is this the tail of an optional chain?"""
        while n["k"] in ("PropertyAccessExpression", "ElementAccessExpression", "CallExpression"):
            if "questionDotToken" in n:
                return True
            n = n["expression"]
        return False
    def e_ElementAccessExpression(s, n, env):
        o = s.expr(n["expression"], env)
        if (o is UNDEF or o is None) and ("questionDotToken" in n or s.chained(n["expression"])):
            return UNDEF
        i = s.expr(n["argumentExpression"], env)
        if isinstance(o, (Arr, NodeList)) and isinstance(i, int) and not isinstance(i, bool):
            return o.l[i] if 0 <= i < len(o.l) else UNDEF
        return s.get(o, s.key(i))
    def e_CallExpression(s, n, env):
        c = n["expression"]
        while c["k"] == "ParenthesizedExpression":
            c = c["expression"]
        if c["k"] in ("PropertyAccessExpression", "ElementAccessExpression"):
            o = s.expr(c["expression"], env)
            if (o is UNDEF or o is None) and ("questionDotToken" in c or s.chained(c["expression"])):
                return UNDEF
            if c["k"] == "PropertyAccessExpression":
                f = s.get(o, c["name"]["escapedText"])
            else:
                f = s.get(o, s.key(s.expr(c["argumentExpression"], env)))
            if (f is UNDEF or f is None) and "questionDotToken" in n:
                return UNDEF
            return s.call(f, o, s.args(n["arguments"], env))
        f = s.expr(c, env)
        if (f is UNDEF or f is None) and "questionDotToken" in n:
            return UNDEF
        return s.call(f, UNDEF, s.args(n["arguments"], env))
    def e_NewExpression(s, n, env):
        f = s.expr(n["expression"], env)
        a = s.args(n.get("arguments", []), env)
        if isinstance(f, Native):
            if f.name == "WebSocket":
                return s.new_socket(None, a)
            if f.name in ("Map", "Set"):
                m = MapObj(isset=f.name == "Set")
                if a and a[0] not in (UNDEF, None):
                    for x in s.iter(a[0]):
                        m.l.append((x, x) if m.isset else (x.l[0], x.l[1]))
                return m
            if f.name in ("Array", "Object", "Error"):
                if f.name == "Array" and len(a) == 1 and isinstance(a[0], int):
                    raise Unknown("new Array(n)")
                return f.f(UNDEF, a)
        raise Unknown("new")
    def e_PrefixUnaryExpression(s, n, env):
        op = n["op"]
        if op in ("PlusPlusToken", "MinusMinusToken"):
            v = s.num(s.expr(n["operand"], env)) + (1 if op[0] == "P" else -1)
            s.assign(n["operand"], v, env)
            return v
        v = s.expr(n["operand"], env)
        if op == "ExclamationToken":
            return not s.truth(v)
        if op == "MinusToken":
            return -s.num(v)
        if op == "PlusToken" and isinstance(v, int):
            return v
        if op == "TildeToken":
            if isinstance(v, Pos):
                raise Unknown("~position")
            return ~s.num(v)
        raise Unknown(op)
    def e_PostfixUnaryExpression(s, n, env):
        v = s.num(s.expr(n["operand"], env))
        s.assign(n["operand"], v + (1 if n["op"] == "PlusPlusToken" else -1), env)
        return v
    def e_TypeOfExpression(s, n, env):
        try:
            v = s.expr(n["expression"], env)
        except Unknown:
            raise
        return Str("undefined" if v is UNDEF else "boolean" if isinstance(v, bool) else "number" if isinstance(v, (int, float, Pos)) else "string" if isinstance(v, (Str, Json)) else "function" if isinstance(v, (Func, Native)) else "object")
    def e_VoidExpression(s, n, env):
        s.expr(n["expression"], env)
        return UNDEF
    def e_DeleteExpression(s, n, env):
        t = n["expression"]
        o = s.expr(t["expression"], env)
        k = t["name"]["escapedText"] if t["k"] == "PropertyAccessExpression" else s.key(s.expr(t["argumentExpression"], env))
        if isinstance(o, Obj):
            o.d.pop(k, None)
        elif isinstance(o, DNode):
            o.props.pop(k, None)
        else:
            raise Unknown("delete")
        return True
    def arith(s, op, a, b):
        if op == "+":
            if isinstance(a, Str) or isinstance(b, Str):
                return s.str(a) + s.str(b)
            if isinstance(a, Pos) or isinstance(b, Pos):
                p, d = (a, b) if isinstance(a, Pos) else (b, a)
                if isinstance(d, Pos):
                    raise Unknown("sum of positions")
                d = s.num(d)
                rng = range(p.i, p.i + d) if d >= 0 else range(p.i + d, p.i)
                if all(0 <= i < len(p.s.c) and isinstance(p.s.c[i], str) for i in rng):
                    return Pos(p.s, p.i + d)
                raise Unknown("a position inside a text")
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a + b
            raise Unknown("%r + %r" % (a, b))
        if op == "-":
            if isinstance(a, Pos) and isinstance(b, int):
                return s.arith("+", a, -b)
            return s.num(a) - s.num(b)
        if op == "*":
            return s.num(a) * s.num(b)
        if op == "%":
            return s.num(a) % s.num(b) if s.num(b) > 0 and s.num(a) >= 0 else s.fail(op)
        raise Unknown(op)
    def fail(s, w):
        raise Unknown(w)
    def less(s, a, b, oreq):
        if isinstance(a, Pos) or isinstance(b, Pos):
            if isinstance(a, Pos) and isinstance(b, Pos) and a.s == b.s:
                return a.i <= b.i if oreq else a.i < b.i
            if isinstance(a, Pos) and isinstance(b, int):
                if b < a.i or b == a.i and not oreq:     # its value is at least its pseudo-index
                    return False
                raise Unknown("position < number")
            if isinstance(b, Pos) and isinstance(a, int):
                if a < b.i or a == b.i and oreq:
                    return True
                raise Unknown("number < position")
        a, b = s.num(a), s.num(b)
        return a <= b if oreq else a < b
    def e_BinaryExpression(s, n, env):
        op = n["operatorToken"]["k"]
        L, R = n["left"], n["right"]
        if op == "EqualsToken":
            v = s.expr(R, env)
            s.assign(L, v, env)
            return v
        if op == "AmpersandAmpersandToken":
            v = s.expr(L, env)
            return s.expr(R, env) if s.truth(v) else v
        if op == "BarBarToken":
            v = s.expr(L, env)
            return v if s.truth(v) else s.expr(R, env)
        if op == "QuestionQuestionToken":
            v = s.expr(L, env)
            return s.expr(R, env) if v is UNDEF or v is None else v
        if op in ("BarBarEqualsToken", "AmpersandAmpersandEqualsToken", "QuestionQuestionEqualsToken"):
            v = s.expr(L, env)
            go = not s.truth(v) if op[0] == "B" else s.truth(v) if op[0] == "A" else v is UNDEF or v is None
            if go:
                v = s.expr(R, env)
                s.assign(L, v, env)
            return v
        if op in ("PlusEqualsToken", "MinusEqualsToken"):
            v = s.arith("+" if op[0] == "P" else "-", s.expr(L, env), s.expr(R, env))
            s.assign(L, v, env)
            return v
        a = s.expr(L, env)
        b = s.expr(R, env)
        if op == "EqualsEqualsEqualsToken":
            return s.same(a, b)
        if op == "ExclamationEqualsEqualsToken":
            return not s.same(a, b)
        if op == "EqualsEqualsToken":
            return s.eq(a, b, False)
        if op == "ExclamationEqualsToken":
            return not s.eq(a, b, False)
        if op == "PlusToken":
            return s.arith("+", a, b)
        if op == "MinusToken":
            return s.arith("-", a, b)
        if op == "AsteriskToken":
            return s.arith("*", a, b)
        if op == "PercentToken":
            return s.arith("%", a, b)
        if op == "LessThanToken":
            return s.less(a, b, False)
        if op == "LessThanEqualsToken":
            return s.less(a, b, True)
        if op == "GreaterThanToken":
            return s.less(b, a, False)
        if op == "GreaterThanEqualsToken":
            return s.less(b, a, True)
        if op == "CommaToken":
            return b
        if op == "InKeyword":
            if isinstance(b, Obj):
                return s.key(a) in b.d
            raise Unknown("in")
        if op == "InstanceOfKeyword":
            raise Unknown("instanceof")
        raise Unknown(op)
