"""Interned abstract values ("origin terms") and the linear / byte-level algebra over them."""

class Term:
    __slots__ = ("op", "a", "id")
    def __repr__(self):
        return ps(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, len(_tab)
        _tab[k] = t
    return t

def I(n):
    return T("int", n)
UNIT = T("tup")
TRUE, FALSE = I(1), I(0)

def isint(t):
    return t.op == "int"

# ---------------------------------------------------------------- linear forms
def as_lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    return T("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))

def add(a, b, s=1):
    c1, d1 = as_lin(a)
    c2, d2 = as_lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(c1 + s * c2, d)

def sub(a, b):
    return add(a, b, -1)

def scale(a, k):
    c, d = as_lin(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})

# ---------------------------------------------------------------- booleans
def NOT(c):
    if c.op == "int":
        return I(1 - c.a[0])
    if c.op == "not":
        return c.a[0]
    return T("not", c)

def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return I(1 if a.a[0] < b.a[0] else 0)
    return T("lt", a, b)

def le(a, b):
    return NOT(lt(b, a))

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return I(1 if a.a[0] == b.a[0] else 0)
    if a.op == "int" or (b.op != "int" and b.id < a.id):
        a, b = b, a
    # boolean-valued term compared with a constant
    if b.op == "int" and a.op in BOOLOPS:
        if b.a[0] == 0:
            return NOT(a)
        if b.a[0] == 1:
            return a
    return T("eq", a, b)
BOOLOPS = {"not", "lt", "eq", "streq", "valeq", "bool"}

# ---------------------------------------------------------------- bit operations (non-negative values)
def band(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] & b.a[0])
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        if b.a[0] == 0:
            return I(0)
        if a.op == "band" and a.a[1].op == "int":
            return band(a.a[0], I(a.a[1].a[0] & b.a[0]))
    elif b.id < a.id:
        a, b = b, a
    return T("band", a, b)

def bor(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] | b.a[0])
    if a.op == "int":
        a, b = b, a
    if b.op == "int" and b.a[0] == 0:
        return a
    if b.op != "int" and b.id < a.id:
        a, b = b, a
    return T("bor", a, b)

def bxor(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] ^ b.a[0])
    if a.op == "int" or (b.op != "int" and b.id < a.id):
        a, b = b, a
    if b.op == "int" and b.a[0] == 0:
        return a
    return T("bxor", a, b)

def shl(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] << b.a[0])
    if b.op == "int":
        return scale(a, 1 << b.a[0])
    return T("shl", a, b)

def shr(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] >> b.a[0])
    if b.op == "int" and b.a[0] == 0:
        return a
    return T("shr", a, b)

def trunc(t, bits):
    if t.op == "int":
        return I(t.a[0] & ((1 << bits) - 1))
    if t.op == "trunc" and t.a[1] >= bits:
        return trunc(t.a[0], bits)
    return T("trunc", t, bits)

def rem(a, b):
    if a.op == "int" and b.op == "int" and b.a[0]:
        return I(a.a[0] % b.a[0])
    return T("rem", a, b)

def div(a, b):
    if a.op == "int" and b.op == "int" and b.a[0]:
        return I(a.a[0] // b.a[0])
    return T("div", a, b)

# ---------------------------------------------------------------- sequences (str, String, Vec, slice, array)
def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return seq(T("lit", bytes(b)))

def seq(*pieces):
    out = []
    for p in pieces:
        if p.op == "seq":
            q = p.a
        elif p.op in ("lit", "one", "splice"):
            q = (p,)
        else:
            q = (T("splice", p),)
        for x in q:
            if x.op == "splice" and x.a[0].op == "seq":
                ys = x.a[0].a
            else:
                ys = (x,)
            for y in ys:
                if y.op == "one" and y.a[0].op == "int" and 0 <= y.a[0].a[0] < 256 and False:
                    y = T("lit", bytes([y.a[0].a[0]]))
                if y.op == "lit":
                    if not y.a[0]:
                        continue
                    if out and out[-1].op == "lit":
                        out[-1] = T("lit", out[-1].a[0] + y.a[0])
                        continue
                out.append(y)
    if len(out) == 1 and out[0].op == "splice":
        return out[0].a[0]
    return T("seq", *out)

def one(v):
    return T("one", v)

def pieces(v):
    """The piece list of a sequence value."""
    if v.op == "seq":
        return v.a
    return (T("splice", v),)

def litval(v):
    """bytes of a fully literal sequence (or None)."""
    if v.op != "seq":
        return None
    b = b""
    for p in v.a:
        if p.op == "lit":
            b += p.a[0]
        elif p.op == "one" and p.a[0].op == "int" and 0 <= p.a[0].a[0] < 256:
            b += bytes([p.a[0].a[0]])
        else:
            return None
    return b

def length(v):
    if v.op == "seq":
        n = I(0)
        for p in v.a:
            n = add(n, piece_len(p))
        return n
    if v.op == "store":
        return length(v.a[0])
    if v.op == "data":
        return v.a[2]
    if v.op == "be_bytes":
        return I(v.a[1])
    if v.op == "le_bytes":
        return I(v.a[1])
    if v.op == "comp":
        n, alts = v.a
        if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0].op == "one":
            return n
        if alts and all(len(a[1]) == 1 and a[1][0].op == "one" for a in alts):
            return n
        return T("len", v)
    if v.op in ("sorted", "reversed"):
        return length(v.a[0])
    if v.op == "sub":
        return sub(v.a[2], v.a[1])
    if v.op == "repeat":
        return v.a[1]
    if v.op == "pure" and v.a[0] in ("str::to_ascii_lowercase", "str::to_ascii_uppercase") and len(v.a) == 2:
        return length(v.a[1])
    return T("len", v)

def piece_len(p):
    if p.op == "lit":
        return I(len(p.a[0]))
    if p.op == "one":
        return I(1)
    return length(p.a[0])

# ---------------------------------------------------------------- traversal
def mk(op, a):
    """Rebuild through the smart constructors."""
    if op == "lin":
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, scale(k, v))
        return r
    if op == "seq":
        return seq(*a)
    f = _MK.get(op)
    if f:
        return f(*a)
    return T(op, *a)
_MK = {"not": NOT, "lt": lt, "eq": eq, "band": band, "bor": bor, "bxor": bxor, "shl": shl, "shr": shr, "trunc": trunc,
       "rem": rem, "div": div}

def subst(t, m, memo=None):
    """Replace terms (dict m: Term->Term) everywhere inside t."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if t.op in ("int", "lit"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    def go(x):
        nonlocal ch
        if isinstance(x, Term):
            y = subst(x, m, memo)
            if y is not x:
                ch = True
            return y
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = tuple(go(x) for x in t.a)
    r = mk(t.op, na) if ch else t
    memo[t] = r
    return r

def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)

def contains(t, x):
    return any(y is x for y in walk(t))

def contains_op(t, *ops):
    return any(y.op in ops for y in walk(t))

def ps(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(ps(x, d) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "lit":
        return repr(a[0])[1:]
    if o == "tup":
        return "(" + ", ".join(ps(x, d + 1) for x in a) + ")"
    if o == "adt":
        n = a[0].split("::")[-1]
        return "%s#%s(%s)" % (n, a[1], ", ".join(ps(x, d + 1) for x in a[2:]))
    if o == "seq":
        return "[" + " ".join(ps(x, d + 1) for x in a) + "]"
    if o == "one":
        return "<" + ps(a[0], d + 1) + ">"
    if o == "splice":
        return "*" + ps(a[0], d + 1)
    if o == "fld":
        return ps(a[0], d + 1) + "." + str(a[1])
    if o == "vf":
        return "%s@%s.%s" % (ps(a[0], d + 1), a[1], a[2])
    if o == "lin":
        return "(" + "+".join(([str(a[0])] if a[0] else []) + [("%s*" % v if v != 1 else "") + ps(k, d + 1) for k, v in a[1]]) + ")"
    if o == "arg":
        return "$" + str(a[0])
    return o + "(" + ", ".join(ps(x, d + 1) for x in a) + ")"
