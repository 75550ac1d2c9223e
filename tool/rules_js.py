"""Live view rules about the wire between the server and the browser: the serialiser's summaries against an abstract
interpretation of the browser client's syntax tree."""
import os
from lib import *
from models import Ok, Err, Some, NONE
from shape import Shape, Unknown
import shape, engine, models, js
import rules_lv as LV
from rules_lv import CR, El, Browser, Node, live, difft

RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

CLIENT = "puck_liveview/client/index.js"

def client_path(c):
    import extract as X
    return os.path.join(getattr(c, "repo", None) or X.REPO, CLIENT)

# ---------------------------------------------------------------- the serialiser
SER = {"Serializer::serialize_struct": "struct", "Serializer::serialize_map": "struct", "Serializer::serialize_seq": "seq", "Serializer::serialize_tuple": "seq", "Serializer::serialize_tuple_struct": "seq",
       "Serializer::serialize_struct_variant": "variant", "Serializer::serialize_unit_variant": "unitvariant", "Serializer::serialize_newtype_struct": "newtype",
       "Serializer::serialize_str": "leaf", "Serializer::serialize_some": "leaf", "Serializer::serialize_u64": "leaf", "Serializer::serialize_u32": "leaf", "Serializer::collect_str": "leaf",
       "Serializer::serialize_none": "null", "Serializer::serialize_unit": "null",
       "SerializeStruct::serialize_field": "field", "SerializeStructVariant::serialize_field": "field", "SerializeMap::serialize_entry": "entry", "SerializeStruct::skip_field": "skip", "SerializeStructVariant::skip_field": "skip",
       "SerializeSeq::serialize_element": "element", "SerializeTuple::serialize_element": "element", "SerializeTupleStruct::serialize_field": "element",
       "SerializeStruct::end": "end", "SerializeStructVariant::end": "end", "SerializeMap::end": "end", "SerializeSeq::end": "end", "SerializeTuple::end": "end", "SerializeTupleStruct::end": "end"}

class WShape(Shape):
    """Strings are lists of characters and atoms; enums are ("adt", type, variant, fields)."""
    def sub(s, more):
        q = WShape(s.c, s.args, s.crate)
        q.bind = dict(s.bind)
        q.bind.update(more)
        return q
    def _val(s, t):
        op, a = t.op, t.a
        if t in s.bind or t in s.args:
            return Shape._val(s, t)
        if op == "seq" and litval(t) is not None:
            return list(litval(t).decode("utf8", "replace"))
        if op == "discr":
            x = s.val(a[0])
            if isinstance(x, tuple) and x and x[0] == "adt":
                for i, v in enumerate(s.c.adt(x[1], s.crate)["variants"]):
                    if v["name"] == x[2]:
                        return i
        if op == "vf":
            x = s.val(a[0])
            if isinstance(x, tuple) and x and x[0] == "adt":
                v = s.c.adt(x[1], s.crate)["variants"][a[1]]
                if v["name"] == x[2]:
                    n = v["fields"][a[2]][0]
                    if n in x[3]:
                        return x[3][n]
                    raise Unknown("field %s" % n)
        if op in ("eq", "lt") and any(y.op == "len" for y in a):
            i = 0 if a[0].op == "len" else 1
            l = s.val(a[i].a[0])
            if isinstance(l, list) and not all(isinstance(x, str) for x in l) and a[1 - i].op == "int":
                k, m = a[1 - i].a[0], len(l)         # at least m
                if op == "eq" and k < m: return 0
                if op == "lt" and i == 0 and k <= m: return 0
                if op == "lt" and i == 1 and k < m: return 1
                raise Unknown("the length of a text")
        if op == "len":
            l = s.val(a[0])
            if isinstance(l, list) and l and not all(isinstance(x, (str, tuple, El)) for x in l):
                raise Unknown("the length of a text")
        if op == "pure" and isinstance(a[0], str) and a[0].startswith("str::"):
            x = s.val(a[1])
            if isinstance(x, list):
                r = edited(a[0][5:], list(x), [s.val(y) for y in a[2:]])
                if r is not None:
                    return r
            raise Unknown(t)
        if op == "bool" and len(a) >= 3 and a[0] in ("contains", "starts_with", "ends_with", "str_contains", "substr_in"):
            x, y = s.val(a[1]), s.val(a[2])
            if isinstance(x, list) and isinstance(y, list) and all(isinstance(k, str) for k in y):
                n = len(y)
                at = range(len(x) - n + 1) if "contains" in a[0] or a[0] == "substr_in" else [0] if a[0] == "starts_with" else [len(x) - n]
                return int(any(i >= 0 and x[i:i + n] == y for i in at))
        return Shape._val(s, t)

    def items(s, t):
        if t.op == "seq":
            out = []
            for p in t.a:
                l = litval(T("seq", p))
                if l is not None:
                    out += list(l.decode("utf8", "replace"))
                elif p.op in ("one", "splice"):
                    out += Shape.items(s, T("seq", p))
                elif isinstance(s.val(p), list):
                    out += s.val(p)
                else:
                    raise Unknown(p)
            return out
        return Shape.items(s, t)

def edited(f, x, r):
    """A text (characters, and atoms: words which are not in the sources) after a text function; None when that is not known."""
    blank = lambda k: isinstance(k, str) and k.isspace()
    if f in ("trim", "trim_start", "trim_end", "trim_left", "trim_right") and not r:
        while x and f in ("trim", "trim_start", "trim_left") and blank(x[0]): x = x[1:]
        while x and f in ("trim", "trim_end", "trim_right") and blank(x[-1]): x = x[:-1]
        return x
    if f in ("to_ascii_lowercase", "to_lowercase", "to_ascii_uppercase", "to_uppercase") and not r:
        up = "upper" in f
        return [(k.upper() if up else k.lower()) if isinstance(k, str) else k if k.number else k.cased(up) for k in x]
    if f == "replace" and len(r) == 2:
        a, b = [[chr(y)] if isinstance(y, int) else y for y in r]
        if isinstance(a, list) and isinstance(b, list) and a and all(isinstance(k, str) for k in a):
            out, i = [], 0
            while i < len(x):
                if x[i:i + len(a)] == a:
                    out += b
                    i += len(a)
                else:
                    out.append(x[i])
                    i += 1
            return out
    return None

class WireFail(Exception):
    pass

class Ser:
    """What goes over the wire for a changeset."""
    def __init__(s, c):
        s.c = c
        s.cache = {}
        s.where = None
        s.lits = set()
    def root(s):
        """The types between what is sent and the changeset: [(adt, field), ...]"""
        lv = live(s.c)
        for e in lv.comp.flat():
            if e[0] == "wsend" and e[2].op == "adt" and len(e[2].a) == 3 and e[2].a[2].op == "json":
                x = e[2].a[2].a[0]
                chain = []
                while x.op == "adt" and len(x.a) == 3:
                    chain.append(x.a[0])
                    x = x.a[2]
                if x.op == "diff":
                    return chain
        raise Unclear("what the component sends is not the JSON text of a changeset")
    def impl(s, name):
        """The Serialize impl of a type of the crate."""
        name = name.split("::")[-1]
        P = s.c.progs[CR]
        r = []
        for k, b in P.bodies.items():
            p = strip_generics(b["path"]) if "path" in b else ""
            if not p.endswith("::serialize"):
                continue
            q = b["path"].split("::serialize@@")[0]
            head = k.split("@@")[0]
            if head.startswith("<") and " as " in head:
                ty = head[1:].split(" as ")[0]
            elif " for " in head:
                ty = head.split(" for ")[1].split(">::serialize")[0]
            else:
                continue
            ty = strip_generics(ty).rstrip(">").split("::")[-1]
            if ty == name and b["argc"] == 2:
                r.append(k)
        if len(r) != 1:
            raise Unknown("%d Serialize impls of %s" % (len(r), name))
        return r[0]
    def summary(s, key):
        if key in s.cache:
            return s.cache[key]
        c = s.c
        I_ = c.interp(CR, 600000)
        def mk(kind):
            def h(I2, st, callee, args, atys, rty):
                a = [I2.snap(st, x) for x in args]
                ts = tuple(atys or ())
                unit = kind in ("field", "element", "entry", "skip")
                r = UNIT if unit else st.fresh("ser")
                if not unit and rty is not None and I2.p.types[rty].get("args"):
                    I2.hint_ty(r, I2.p.types[rty]["args"][0])
                st.event("ser", kind, tuple(a), ts, r)
                return [Out("ret", st, Ok(r))]
            return h
        for n, k in SER.items():
            I_.hooks[n] = mk(k)
        def nested(I2, st, callee, args, atys, rty):
            r = st.fresh("ser")
            st.event("ser", "nested", (I2.snap(st, args[0]), I2.snap(st, args[1])), tuple(atys or ()), r)
            return [Out("ret", st, Ok(r))]
        I_.hooks["Serialize::serialize"] = nested
        def collect(I2, st, callee, args, atys, rty):
            """All the items of an iterator as one sequence (or map)."""
            r = st.fresh("ser")
            pairs = callee["method"] == "collect_map"
            st.event("ser", "struct" if pairs else "seq", (I2.snap(st, args[0]),), (None,), r)
            ref = models.own_iter(I2, st, models.as_iter(I2, st, args[1], atys[1] if atys else None), None)
            def step(s2, x):
                v = I2.snap(s2, x)
                if pairs:
                    k, y = v.a if v.op == "tup" else (T("fld", v, 0), T("fld", v, 1))
                    s2.event("ser", "entry", (r, k, y), (None, None, None), UNIT)
                else:
                    s2.event("ser", "element", (r, v), (None, None), UNIT)
                return [("cont", s2)]
            return models.drive(I2, st, ref, step, lambda s2: [Out("ret", s2, Ok(r))], ("iter", "collect"))
        I_.hooks["Serializer::collect_seq"] = I_.hooks["Serializer::collect_map"] = collect
        st = St()
        b = c.progs[CR].bodies[key]
        args = mkargs(I_, st, b)
        outs = I_.exec_fn(st, key, args)
        c.account(I_, outs, CR)
        s.cache[key] = (I_, outs, args)
        return s.cache[key]
    def deref(s, I_, t):
        P = s.c.progs[CR]
        while t is not None and P.types[t].get("k") in ("ref", "ptr"):
            t = P.types[t]["t"] if "t" in P.types[t] else None
        return t
    def encode(s, tyname, v):
        """The JSON value for a value of a type with its own Serialize impl."""
        key = s.impl(tyname)
        I_, outs, args = s.summary(key)
        arg0 = T("arg", 0)
        sh = WShape(s.c, {arg0: v}, CR)
        hit, unk = [], None
        for o in outs:
            try:
                q = sh.taken(o)
                if q is not None:
                    hit.append((q, o))
            except Unknown as e:
                unk = e
        if len(hit) != 1:
            raise unk or Unknown("%d paths of %s" % (len(hit), tyname))
        q, o = hit[0]
        if o.kind != "ret":
            raise WireFail("panic: %s" % (o.val,))
        b = {}
        s.replay(I_, q, o.events(), b)
        r = I_.snap(o.st, o.val)
        if not (r.op == "adt" and r.a[1] == 0 and len(r.a) == 3):
            raise (WireFail if r.op == "adt" and r.a[1] == 1 and not opaque_in(r) else Unknown)("an error: %s" % show(r, 100))
        return s.built(b, r.a[2])
    def built(s, b, h):
        if h in b:
            return b[h]
        raise Unknown("what is serialised: %s" % show(h, 80))
    def replay(s, I_, q, evs, b):
        for e in evs:
            if e[0] == "loop":
                L = e[1]
                if not any(x[0] == "ser" for fs, es, st in L.backs for x in flat(es)):
                    continue
                if not L.count:
                    raise Unknown("a loop without a counter")
                h = L.count[0]
                if h not in q.bind:
                    raise Unknown("how often the loop runs")
                for i in range(q.int(L.count[1]), q.bind[h]):
                    done = False
                    for fs, es, st in L.backs:
                        r = q.sub({h: i}).solve(fs, [x[1] for x in es if x[0] == "loop"])
                        if r is not None:
                            s.replay(I_, r, es, b)
                            done = True
                            break
                    if not done:
                        raise Unknown("a pass of the loop")
                continue
            if e[0] != "ser":
                continue
            _, kind, a, tys, r = e
            if kind == "struct": b[r] = {}
            elif kind == "seq": b[r] = []
            elif kind == "variant":
                d = {}
                b[r] = d
                b[("outer", r)] = {"".join(q.val(a[3])): d}
            elif kind == "unitvariant": b[r] = q.val(a[3])
            elif kind == "null": b[r] = None
            elif kind == "leaf": b[r] = s.wire(I_, q, a[-1], tys[-1])
            elif kind == "newtype": b[r] = s.wire(I_, q, a[-1], tys[-1])
            elif kind == "nested": b[r] = s.wire(I_, q, a[0], tys[0])
            elif kind == "field": s.built(b, a[0])["".join(q.val(a[1]))] = s.wire(I_, q, a[2], tys[2])
            elif kind == "entry": s.built(b, a[0])["".join(s.wire(I_, q, a[1], tys[1]))] = s.wire(I_, q, a[2], tys[2])
            elif kind == "element": s.built(b, a[0]).append(s.wire(I_, q, a[1], tys[1]))
            elif kind == "skip": pass
            elif kind == "end":
                b[r] = b.get(("outer", a[0]), s.built(b, a[0]))
            else:
                raise Unknown(kind)
    def wire(s, I_, q, t, ty):
        return s.value(q.val(t))
    def value(s, v):
        """The JSON value of a model value."""
        if isinstance(v, tuple) and v and v[0] == "adt":
            return s.encode(v[1], v)
        if isinstance(v, tuple) and v and v[0] == "none":
            return None
        if isinstance(v, tuple) and v and v[0] == "some":
            return s.value(v[1])
        if isinstance(v, list):
            if all(isinstance(x, (str, js.Atom)) for x in v):
                return Text(v)
            return [s.value(x) for x in v]
        if isinstance(v, (int, bool)):
            return v
        raise Unknown("the JSON of %r" % (v,))

    def impl_path(s, w):
        return s.c.progs[CR].bodies[s.impl((w.chain or ["Changeset"])[0])]["path"]

class Text(list):
    """A string on the wire."""

def flat(es):
    for e in es:
        yield e
        if e[0] == "loop":
            for fs, es2, st in e[1].backs:
                yield from flat(es2)

def tojs(v):
    if isinstance(v, Text) or isinstance(v, list) and False:
        return js.Str(v)
    if isinstance(v, dict):
        return js.Obj({k: tojs(x) for k, x in v.items()})
    if isinstance(v, list):
        return js.Arr([tojs(x) for x in v])
    return v

class Chars(list):
    """A model string."""
    def __hash__(s):
        return hash(tuple(s))
    def __repr__(s):
        return repr(js.Str(s))

def op_(id, iname, **f):
    def v(x):
        if isinstance(x, tuple) and x and x[0] in ("none", "some"):
            return x if len(x) == 1 else ("some", Chars(x[1]))
        return Chars(x)
    return ("adt", "Op", "Op", {"id": Chars(id), "instruction": ("adt", "Instruction", iname, {k: v(x) for k, x in f.items()})})

class Wire:
    """Sends instruction lists through the serialiser to the client."""
    def __init__(s, c):
        s.c = c
        s.ser = Ser(c)
        s.chain = s.ser.root()
        s.body = client(c)
        s.lits = js.literals(s.body)
        s.memo = {}
    def encode(s, ops):
        """The JSON value of the changeset (each operation is serialised on its own, once)."""
        v = ("adt", "Changeset", "Changeset", {"ops": list(ops)})
        for t in reversed(s.chain):
            n = t.split("::")[-1]
            if n != "Changeset":
                v = ("adt", n, n, {s.c.adt(n, CR)["variants"][0]["fields"][0][0]: v})
        r = s.ser.value(v)
        return r
    def encode_all(s, ops):
        """As the list of its operations' encodings (the rule checks that lists are encoded so)."""
        out = []
        for o in ops:
            k = repr(o)
            if k not in s.memo:
                s.memo[k] = s.encode([o])
            out += s.memo[k]
        return out

# ---------------------------------------------------------------- the client against the meaning of the instructions
EVENTS = ("click", "submit", "input")

_ATOMS = {}
def A(n, number=False):
    if (n, number) not in _ATOMS:
        _ATOMS[(n, number)] = js.Atom(n, number)
    return _ATOMS[(n, number)]

class Scene:
    """A page with the client loaded, next to the meaning of what it has been told."""
    def __init__(s, w):
        s.w = w
        s.cl = js.Client(w.body)
        s.br = Browser()
    def send(s, ops):
        s.br.run(ops, LV.CARRIED)
        s.cl.message(tojs(s.w.encode_all(ops)))
    def compare(s):
        """[(aspect, message)]"""
        r = []
        s.kids(s.cl.doc_body, s.br.body, "the page", r)
        return r
    def kids(s, d, n, path, r):
        els = [k for k in d.kids if k.kind == "el"]
        if len(els) != len(n.kids):
            r.append(("children", "%s has %d elements in it instead of %d" % (path, len(els), len(n.kids))))
            return
        for i, (e, k) in enumerate(zip(els, n.kids)):
            s.one(e, k, "element %s" % js.Str(k.id), r)
    def one(s, d, n, path, r):
        if d.name != js.Str(n.name):
            r.append(("tag name", "%s has tag name %s instead of %s" % (path, d.name, js.Str(n.name))))
        at = {k: v for k, v in d.attrs.items() if k != "id"}
        want = {"".join(k): js.Str(v) for k, v in n.attributes.items()}
        if at != want:
            r.append(("attributes", "%s has attributes %s instead of %s" % (path, at, want)))
        if d.attrs.get("id") != js.Str(n.id):
            r.append(("id", "%s has id %s" % (path, d.attrs.get("id"))))
        tx, order = js.Str(""), True
        for i, k in enumerate(d.kids):
            if k.kind == "text":
                tx = tx + k.text
                if k.text.c and any(x.kind == "el" for x in d.kids[:i]):
                    order = False
        if tx != js.Str(n.text or ()):
            r.append(("text", "%s has text %s instead of %s" % (path, tx, js.Str(n.text or ()))))
        elif not order:
            r.append(("text", "%s has its text after its children" % path))
        have = []
        for t, f in s.cl.listeners(d):
            out = s.cl.fire(d, f, t, js.Str([A("typed")]))
            for x in out:
                nm = x.v.d.get("listener") if isinstance(x, js.Json) and isinstance(x.v, js.Obj) else None
                have.append((t, nm))
            if not out:
                have.append((t, None))
        want = [(js.Str(on), js.Str(nm)) for nm, on in n.listeners]
        if sorted(map(repr, have)) != sorted(map(repr, want)):
            r.append(("listeners", "%s has the listeners %s instead of %s" % (path, have, want)))
        s.kids(d, n, path, r)

def base(ids):
    """A tree with everything in it: 1 {2 {3}, 4 {5}, 6}"""
    i1, i2, i3, i4, i5, i6 = ids
    def at(i, *ks):
        return [op_(i, "SetAttribute", key="data-" + k, value=(A("v" + k),)) for k in ks]
    def ls(i, *xs):
        return [op_(i, "AttachListener", name=(A("l" + x + str(i)),), on=tuple(x)) for x in xs]
    mk = lambda i, n, p: [op_(i, "CreateTag", name=list(n), parent_id=("some", list(p)) if p else ("none",))]
    tx = lambda i, n: [op_(i, "SetText", value=[A(n)])]
    return mk(i1, "div", None) + at(i1, "a", "b") + tx(i1, "t1") + ls(i1, "click", "input") + mk(i2, "p", i1) + at(i2, "a", "b", "c") + tx(i2, "t2") + ls(i2, "submit") + mk(i3, "span", i2) + at(i3, "a") + tx(i3, "t3") + ls(i3, "click") + \
        mk(i4, "em", i1) + mk(i5, "b", i4) + tx(i5, "t5") + ls(i5, "click", "submit") + \
        mk(i6, "u", i1)

def singles(i, has, fresh):
    """Every kind of instruction an element with this much in it can be sent, and the id it carries afterwards."""
    keys, text, lst = has
    for k in keys[:1]:
        yield "SetAttribute", "an attribute it has", [op_(i, "SetAttribute", key="data-" + k, value=(A("nv"),))], i
    yield "SetAttribute", "a new attribute", [op_(i, "SetAttribute", key="data-z", value=(A("zv"),))], i
    for k in keys[-1:]:
        yield "RemoveAttribute", "an attribute it has", [op_(i, "RemoveAttribute", key="data-" + k)], i
    yield "SetText", "", [op_(i, "SetText", value=[A("nt")])], i
    if text:
        yield "RemoveText", "", [op_(i, "RemoveText")], i
    yield "SetTagName", "", [op_(i, "SetTagName", name=list("section"))], i
    yield "SetId", "", [op_(i, "SetId", value=list(fresh))], fresh
    yield "RemoveListeners", "", [op_(i, "RemoveListeners")], i
    for e in EVENTS:
        yield "AttachListener", e, [op_(i, "AttachListener", name=(A("nl" + e),), on=tuple(e))], i
    yield "DeleteEl", "", [op_(i, "DeleteEl")], None
    yield "CreateTag", "", [op_((A("77", True),), "CreateTag", name=list("i"), parent_id=("some", list(i)))], i

def value_classes(w):
    seps = {"+", " ", ",", "<", "&", "\\", '"', "\n", "%", "#"}
    words = {"", "null", "undefined", "0", "false"}
    for l in w.lits:
        if 0 < len(l) <= 2 and not l.isalnum():
            seps.add(l)
        elif len(l) <= 24:
            words.add(l)
    a, b = A("x"), A("y")
    for x in sorted(seps):
        x = list(x)
        nm = "%r" % "".join(x)
        yield "with %s inside" % nm, [a] + x + [b]
        yield "with %s twice" % nm, [a] + x + [b] + x
        yield "beginning with %s" % nm, x + [a]
        yield "which is %s" % nm, x
    for x in sorted(words):
        yield ("which is %r" % x) if x else "which is empty", list(x)
    yield "with blanks around", [" ", a, " "]

@rule("L11")
def l11(c):
    """The browser shows what the changeset says: every instruction, as the serialiser writes it, is carried out by the client on the element it names, whatever text it carries and whatever else the element has, and instructions are carried out once, in their order."""
    try:
        w = Wire(c)
    except js.JSThrow as e:
        return c.bad("client", "the client cannot be loaded: %s" % e, CLIENT)
    except (js.Unknown, Unknown) as e:
        return c.unk("wire", str(e)[:300])
    where = "%s / %s" % (w.ser.impl_path(w), CLIENT)
    ids = [(A(str(i), True),) for i in (1, 2, 3, 4, 5, 6)]
    B_ = base(ids)
    seen = set()
    stat = {"scenarios": 0}
    def scene(steps, key, label):
        """Play these lists of operations one after the other; compare after the last."""
        stat["scenarios"] += 1
        try:
            s = Scene(w)
            for ops in steps:
                s.send(ops)
            if s.br.errs:
                raise Unknown("scenario: %s" % (s.br.errs[0],))
            errs = s.compare()
        except js.JSThrow as e:
            errs = [("exception", "the client stops with an exception (%s)" % e)]
        except WireFail as e:
            errs = [("serialised", "it cannot be serialised: %s" % e)]
        except (js.Unknown, Unknown) as e:
            c.unk(key, "%s: %s" % (label, str(e)[:200]))
            return False
        for a, m in errs:
            if (key, a) not in seen:
                seen.add((key, a))
                c.bad("%s: %s" % (key, a), "%s: %s" % (label, m), where, "instructions: %s" % [(o[3]["instruction"][2], o[3]["instruction"][3]) for o in steps[-1]][:6])
        if not errs:
            c.ok(key)
        return not errs
    # the list
    probe = [op_(ids[0], "SetText", value=[A("a")]), op_(ids[1], "DeleteEl"), op_(ids[2], "SetId", value=[A("9", True)])]
    try:
        for n in range(4):
            l = w.encode(probe[:n])
            one = [w.encode([p]) for p in probe[:n]]
            c.must("list", l == [x[0] for x in one] if isinstance(l, list) and all(isinstance(x, list) and len(x) == 1 for x in one) else
                   "the changeset is not sent as a list of instructions", "%d operations are sent as %r" % (n, l), where)
    except WireFail as e:
        c.bad("list", "a changeset cannot be serialised: %s" % e, where)
    except Unknown as e:
        c.unk("list", str(e)[:300])
    scene([B_], "first paint", "a first rendering")
    scene([B_[:k] for k in ()] + [[o] for o in B_], "first paint", "a first rendering, one message for each instruction")
    has = {0: (("a", "b"), True, True), 1: (("a", "b", "c"), True, True), 2: (("a",), True, True), 3: ((), False, False), 4: ((), True, True), 5: ((), False, False)}
    below = {0: (0, 1, 2, 3, 4, 5), 1: (1, 2), 2: (2,), 3: (3, 4), 4: (4,), 5: (5,)}
    S1 = [(x, e) for e in range(6) for x in singles(ids[e], has[e], (A(str(e + 21), True),))]
    good = set()
    for x, e in S1:
        if scene([B_, x[2]], x[0], "%s of element %s%s" % (x[0], js.Str(ids[e]), " (%s)" % x[1] if x[1] else "")):
            good.add((x[0], x[1], e))
    # ids as they are counted
    for nums in ("012345", ("0", "10", "1", "11", "101", "2"), ("7", "0", "70", "77", "1", "17")):
        dg = [tuple(x) for x in nums]
        D_ = base(dg)
        scene([D_], "first paint", "a first rendering with the ids %s" % ", ".join(nums))
        for e in range(6):
            for x in singles(dg[e], has[e], tuple("123")):
                scene([D_, x[2]], x[0], "%s of element %s of %s%s" % (x[0], nums[e], ", ".join(nums), " (%s)" % x[1] if x[1] else ""))
    # values
    for lb, v in value_classes(w):
        scene([B_, [op_(ids[1], "SetText", value=v)]], "SetText", "a text " + lb)
        scene([B_, [op_(ids[1], "SetAttribute", key="data-a", value=v)]], "SetAttribute", "an attribute value " + lb)
        for e in (3, 5):
            scene([B_, [op_(ids[e], "SetText", value=v)]], "SetText", "a first text " + lb)
        scene([B_, [op_(ids[3], "SetText", value=v), op_(ids[3], "SetText", value=[A("nt")])]], "SetText", "a text after one " + lb)
        scene([B_, [op_(ids[3], "SetText", value=v), op_(ids[3], "RemoveText")]], "RemoveText", "a text removed " + lb)
        for e in EVENTS:
            scene([B_, [op_(ids[1], "AttachListener", name=v, on=tuple(e))]], "AttachListener", "a listener name " + lb)
    # one instruction after another
    for x, e in S1:
        for y, f in S1:
            if (x[0], x[1], e) not in good or (y[0], y[1], f) not in good:
                continue
            if x[3] is None and f in below[e]:
                continue
            if x[0] == y[0] == "CreateTag" or x[0] == y[0] in ("RemoveText", "RemoveAttribute") and e == f:
                continue
            near = e == f or f in below[e] or e in below[f]
            if not near and c.tier != "thorough":
                continue
            ops = y[2]
            if e == f and x[3] is not None and x[3] != ids[e]:
                ops = [readdress(o, ids[e], x[3]) for o in ops]
            elif y[0] == "CreateTag" and x[0] == "SetId" and e == f:
                ops = [readdress(o, ids[e], x[3]) for o in ops]
            scene([B_, x[2] + ops], "%s after %s" % (y[0], x[0]), "%s of element %s after %s of element %s" % (y[0], js.Str(ids[f]), x[0], js.Str(ids[e])))
    c.samples.append(dict(stat, literals=sorted(w.lits)[:60]))

def readdress(o, old, new):
    old, new = Chars(old), Chars(new)
    f = dict(o[3]["instruction"][3])
    if f.get("parent_id") == ("some", old):
        f["parent_id"] = ("some", new)
    return op_(new if o[3]["id"] == old else o[3]["id"], o[3]["instruction"][2], **f)

# ---------------------------------------------------------------- what the browser sends
def serde_names(c, ty):
    """Wire name -> (field name, type) of a type with a derived Deserialize, and whether unknown names are refused."""
    P = c.progs[CR]
    short = ty.split("::")[-1].split("<")[0]
    fs = c.adt(short, CR)["variants"][0]["fields"]
    ks = [k for k in P.bodies if "for crate::" in k and ("::%s>::deserialize::__FieldVisitor as" % short) in k and "::visit_str@@" in k]
    if len(ks) != 1:
        raise Unclear("how %s is read from JSON (not the derived way)" % short)
    enum = next((v for k, v in P.adts.items() if ("::%s>::deserialize::__Field" % short) in k and k.endswith("__Field")), None)
    I_ = c.interp(CR, 200000)
    st = St()
    args = mkargs(I_, st, P.bodies[ks[0]])
    outs = I_.exec_fn(st, ks[0], args)
    c.account(I_, outs, CR)
    names, strict = {}, False
    for o in outs:
        v = I_.snap(o.st, o.val)
        pos_ = [f for f, t in o.facts() if t and f.op == "streq"]
        if v.op == "adt" and v.a[1] == 0 and len(v.a) == 3 and v.a[2].op == "adt":
            n = enum["variants"][v.a[2].a[1]]["name"] if enum else ""
            if pos_ and n.startswith("__field"):
                for f in pos_:
                    l = next((litval(x) for x in f.a if litval(x) is not None), None)
                    if l is None:
                        raise Unclear("a field name of %s" % short)
                    names[l.decode()] = fs[int(n[len("__field"):])][:2]
        elif not pos_:
            strict = True
    return names, strict

def message_errors(c, j, want, value):
    """What is wrong with a message of the client, read as a ClientMessage: [(key, message)]"""
    if not isinstance(j, js.Json) or not isinstance(j.v, js.Obj):
        return [("message", "the client sends %r, not a JSON object" % (j,))]
    names, strict = serde_names(c, "ClientMessage")
    d = {k: v for k, v in j.v.d.items() if v is not js.UNDEF}
    r = []
    for k in d:
        if k not in names and strict:
            r.append(("message", "the client sends the field %s, which the server refuses" % k))
    lf = [k for k, f in names.items() if f[1].endswith("string::String")]
    pf = [k for k, f in names.items() if "ClientMessagePayload" in f[1]]
    if len(lf) != 1 or len(pf) != 1 or len(names) != 2:
        raise Unclear("the fields of ClientMessage")
    if d.get(lf[0], js.UNDEF) != want:
        r.append(("listener", "the client sends %s as the listener's name, which is %s (the server reads the field %s)" % (j, want, lf[0])))
    p = d.get(pf[0], js.UNDEF)
    optional = names[pf[0]][1].startswith("std::option::Option<")
    if p is js.UNDEF or p is None:
        if value is not None or not optional:
            r.append(("payload", "the client sends %s: the server finds no %s" % (j, pf[0])))
        return r
    if not isinstance(p, js.Obj):
        return r + [("payload", "the client sends %s: its %s is not an object" % (j, pf[0]))]
    pn, pstrict = serde_names(c, "ClientMessagePayload")
    if len(pn) != 1:
        raise Unclear("the fields of ClientMessagePayload")
    vn = next(iter(pn))
    v = p.d.get(vn, js.UNDEF)
    if not isinstance(v, js.Str):
        r.append(("payload", "the client sends %s: the server finds no text in the field %s" % (j, vn)))
    elif value is not None and v != value:
        r.append(("payload", "the client sends %s as what was typed, which is %s" % (v, value)))
    if pstrict and set(p.d) - {vn}:
        r.append(("payload", "the client sends %s: fields the server refuses" % j))
    return r

def vocabulary(c):
    """The browser event of each kind of listener, as the server names it: {variant: literal}"""
    root = c.fn(None, CR, self="Listener", name="js_event")
    I_, outs = c.run(root, crate=CR)
    vs = [v["name"] for v in c.adt("Listener", CR)["variants"]]
    r = {}
    for k, V_ in enumerate(vs):
        for o in outs:
            hit = True
            for f, t in o.facts():
                x = subst(f, {T("discr", T("arg", 0)): I(k)})
                if x.op == "int" and bool(x.a[0]) != t:
                    hit = False
                elif x.op != "int":
                    hit = None if hit else hit
            if hit is False:
                continue
            l = litval(I_.snap(o.st, o.val)) if o.kind == "ret" else None
            r.setdefault(V_, set()).add(l.decode() if l is not None and hit else None)
    return r, root["path"]

KINDS = {"Click": ("click", "ClickEvent"), "Submit": ("submit", "SubmitEvent"), "Input": ("input", "InputEvent")}

@rule("L12")
def l12(c):
    """A browser event reaches the server as exactly one message naming its listener: the event each kind of listener waits for is the browser's own name for it, the client sends one message for it in the form the server reads, with what was typed where the listener expects it, and a submitted form does not leave the page."""
    voc, where = vocabulary(c)
    vs = list(voc)
    for V_, ls in voc.items():
        want = KINDS.get(V_)
        if want is None:
            c.unk("event name", "a kind of listener the rule does not know: %s" % V_)
        elif None in ls:
            c.unk("event name", "the event of %s is not a constant" % V_)
        else:
            c.must("event name", ls == {want[0]}, "a %s listener waits for the browser event %s, which is called %s" % (V_, sorted(ls), want[0]), where)
    # a callback becomes the listener of its own event
    P = c.progs[CR]
    for r in P.roots:
        if r.get("trait", "").split("<")[0].split("::")[-1] == "From" and "::Listener<" in r["path"] and r["name"] == "from":
            kind = next((V_ for V_, (_, ev) in KINDS.items() if "::%s)" % ev in r["path"]), None)
            if kind is None:
                continue
            I_, outs = c.run(r, crate=CR)
            for o in outs:
                v = I_.snap(o.st, o.val) if o.kind == "ret" else None
                if v is None:
                    c.must("from callback", False if definite_(o) else "possible panic", "turning a callback into a listener panics", r["path"])
                elif v.op == "adt" and v.a[0].endswith("Listener"):
                    c.must("from callback", vs[v.a[1]] == kind and v.a[2:] == (T("arg", 0),), "a callback for %s becomes a %s listener" % (KINDS[kind][1], vs[v.a[1]]), r["path"])
                else:
                    c.unk("from callback", show(v, 100))
    ref = c.fn(None, CR, self="ListenerRef", name="new")
    I_, outs = c.run(ref, crate=CR)
    strs = []
    for o in outs:
        v = I_.snap(o.st, o.val) if o.kind == "ret" else None
        if v is not None and v.op == "adt":
            strs.append(v)
    fs = c.adt("ListenerRef", CR)["variants"][0]["fields"]
    for nm, i in (("listener_name", 0), ("js_event", 1)):
        a = c.fn(None, CR, self="ListenerRef", name=nm)
        I2, outs2 = c.run(a, crate=CR)
        for o in outs2:
            x = I2.snap(o.st, o.val) if o.kind == "ret" else None
            fi = [k for k, f in enumerate(fs) if x is T("fld", T("arg", 0), f[0])]
            for v in strs:
                src = v.a[2 + fi[0]] if fi else None
                ok = None if src is None else src is T("arg", i) if src.op == "arg" else True if contains(src, T("arg", i)) and not contains(src, T("arg", 1 - i)) else False if contains(src, T("arg", 1 - i)) and not contains(src, T("arg", i)) else None
                c.must("listener reference", ok if ok is not None else "%s of a listener reference is %s" % (nm, show(src if src is not None else x, 80)), "%s() of a new listener reference is not the %s it was given" % (nm, nm), a["path"])
    try:
        w = Wire(c)
    except js.JSThrow as e:
        return c.bad("client", "the client cannot be loaded: %s" % e, CLIENT)
    except (js.Unknown, Unknown) as e:
        return c.unk("wire", str(e)[:300])
    ids = [(A(str(i), True),) for i in (1, 2)]
    seen = set()
    n = 0
    classes = [("", [A("x")])] + [(" " + lb, v) for lb, v in value_classes(w)]
    for e in sorted({l for ls in voc.values() for l in ls if l is not None} | set(EVENTS)):
        if e not in EVENTS:
            continue
        for others in (0, 1, 2):
            for lb, nm in classes if others == 0 else classes[:1]:
                for vb, val in classes if lb == "" and e == "input" else classes[:1]:
                    label = "%s event, listener name%s, typed text%s, %d other listeners" % (e, lb, vb, others)
                    n += 1
                    try:
                        s = Scene(w)
                        ops = [op_(ids[0], "CreateTag", name="div", parent_id=("none",)), op_(ids[1], "CreateTag", name="form" if e == "submit" else "input", parent_id=("some", ids[0]))]
                        ot = [op_(ids[1], "AttachListener", name=(A("other" + x),), on=x) for x in EVENTS if x != e][:others]
                        s.send(ops + ot[:1] + [op_(ids[1], "AttachListener", name=nm, on=e)] + ot[1:])
                        d = s.cl.by_id(js.Str(ids[1]))
                        if d is None:
                            raise Unknown("the element")
                        out = []
                        for t, f in list(s.cl.listeners(d)):
                            if t == js.Str(e):
                                out += s.cl.fire(d, f, t, js.Str(val))
                        errs = []
                        if len(out) != 1:
                            errs.append(("once", "the client sends %d messages" % len(out)))
                        for x in out[:1]:
                            errs += message_errors(c, x, js.Str(nm), js.Str(val) if e == "input" else None)
                        if e == "submit" and not s.cl.prevented:
                            errs.append(("stays", "the browser leaves the page when the form is submitted: its default action is not prevented"))
                    except js.JSThrow as x:
                        errs = [("exception", "the client stops with an exception (%s)" % x)]
                    except WireFail as x:
                        errs = [("serialised", "it cannot be serialised: %s" % x)]
                    except (js.Unknown, Unknown) as x:
                        c.unk(e, "%s: %s" % (label, str(x)[:200]))
                        continue
                    for a, m in errs:
                        if (e, a) not in seen:
                            seen.add((e, a))
                            c.bad("%s: %s" % (e, a), "%s: %s" % (label, m), CLIENT)
                    if not errs:
                        c.ok(e)
    c.samples.append({"events": n, "vocabulary": {k: sorted(str(x) for x in v) for k, v in voc.items()}})

def definite_(o):
    from rules_ws import definite
    return definite(o)

# ---------------------------------------------------------------- the page
def page(c, name):
    """A page function: [(headers {name: literal or None}, body literal or None)] or raises Unclear."""
    root = c.fn("init::" + name, crate=CR)
    I_, outs = c.run(root, crate=CR)
    r = []
    for o in outs:
        if o.kind != "ret":
            r.append((None, None, o))
            continue
        v = I_.snap(o.st, o.val)
        hs, body, n = {}, None, 0
        while v.op == "pure":
            f = v.a[0].split("::")[-1]
            if f == "build" and len(v.a) == 2:
                v = v.a[1]
                n += 1
            elif f == "header" and len(v.a) == 4:
                k, x = litval(v.a[2]), litval(v.a[3])
                if k is None:
                    raise Unclear("a header of %s" % name)
                hs.setdefault(k.decode().lower(), x.decode() if x is not None else None)      # the outermost is the last one set
                v = v.a[1]
            elif f == "body" and len(v.a) == 3:
                if body is None:
                    body = v.a[2]
                v = v.a[1]
            elif f == "status" and len(v.a) == 3:
                hs.setdefault(":status", v.a[2])
                v = v.a[1]
            elif f == "build" and len(v.a) == 1:
                break
            else:
                raise Unclear("%s: %s" % (name, show(v, 80)))
        else:
            raise Unclear("%s: %s" % (name, show(v, 80)))
        t = None
        if body is not None:
            if body.op == "pure" and body.a[0].split("::")[-1] in ("from_string", "from", "from_bytes", "into") and len(body.a) == 2:
                t = litval(body.a[1])
            else:
                t = litval(body)
        r.append((hs, t.decode() if t is not None else None, o))
    return r, root["path"]

def served(c):
    """The client's source as js() serves it, or None."""
    try:
        r, _ = page(c, "js")
        if len(r) == 1 and r[0][0] is not None:
            return r[0][1]
    except (Missing, Unclear):
        pass
    return None

def client(c):
    """The client's syntax tree: of what js() serves, or of the file it is kept in."""
    t = served(c)
    if t is None:
        return js.parse(client_path(c))
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".js", delete=False) as f:
        f.write(t)
    try:
        return js.parse(f.name)
    finally:
        os.unlink(f.name)

JS_TYPES = ("application/javascript", "text/javascript", "application/x-javascript", "application/ecmascript", "text/ecmascript")

@rule("L13")
def l13(c):
    """The page loads the client from beside it as JavaScript, and the client connects back to the host and path the page came from."""
    from html.parser import HTMLParser
    for name, types in (("index", ("text/html", "application/xhtml+xml")), ("js", JS_TYPES)):
        r, where = page(c, name)
        for hs, t, o in r:
            if hs is None:
                c.must(name, False if definite_(o) else "possible panic", "%s() can panic" % name, where)
                continue
            ct = hs.get("content-type", "")
            if "content-type" not in hs:
                c.bad(name + " type", "%s() sends no Content-Type" % name, where)
            else:
                c.must(name + " type", "Content-Type is not a constant" if ct is None else ct.split(";")[0].strip().lower() in types, "%s() is sent as %s" % (name, ct), where)
            if ":status" in hs:
                c.must(name + " status", hs[":status"].op == "int" and hs[":status"].a[0] == 200 or "status %s" % show(hs[":status"], 40), "", where)
            if t is None:
                c.unk(name + " body", "the body is not a constant")
                continue
            if name == "index":
                srcs, st = [], []
                class P(HTMLParser):
                    def handle_starttag(s, tag, at):
                        st.append(tag)
                        if tag == "script":
                            d = dict(at)
                            if d.get("type", "text/javascript") in JS_TYPES + ("module", ""):
                                srcs.append(d.get("src"))
                            else:
                                srcs.append(None)
                        if tag == "base":
                            srcs.append("base")
                P().feed(t)
                good = [x for x in srcs if x is not None and x.strip() in ("./js", "js")]
                if "base" in srcs:
                    c.unk("index script", "a base element")
                else:
                    c.must("index script", len(good) == 1, "the page loads the client %d times (its scripts: %s; the client is mounted beside the page as js)" % (len(good), srcs), where)
    try:
        cl = js.Client(client(c))
        if len(cl.sockets) != 1:
            c.bad("socket", "the client opens %d WebSockets" % len(cl.sockets), CLIENT)
        else:
            u = cl.sockets[0]["url"]
            l = cl.global_.v["location"].d
            want = [js.Str(p) + l[h] + l["pathname"] + js.Str("ws") for p in ("ws://", "wss://") for h in ("host",)]
            c.must("socket", True if u in want else False if isinstance(u, js.Str) else "the address %r" % (u,), "the client connects to %s instead of the page's host and path followed by ws" % (u,), CLIENT)
        w = cl.sockets[0] if cl.sockets else None
        c.must("listens", bool(w and (w["handlers"].get("message") or w["props"].get("onmessage", js.UNDEF) not in (js.UNDEF, None))), "nothing handles the server's messages", CLIENT)
    except js.JSThrow as e:
        c.bad("client", "the client cannot be loaded: %s" % e, CLIENT)
    except js.Unknown as e:
        c.unk("client", str(e)[:300])
