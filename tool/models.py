"""Transfer functions for the library boundaries (std collections, io, fmt, httparse, lunatic, ...)."""
from terms import *
import engine
from engine import Out, Undecided, TYHINT, DISCRS, hint, ISIZE, strip_generics, norm_path, LoopEv, linked

MODELS = {}
def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

OPT, RES = "core::option::Option", "core::result::Result"
def Some(v):
    return T("adt", OPT, 1, v)
NONE = T("adt", OPT, 0)
def Ok(v):
    return T("adt", RES, 0, v)
def Err(v):
    return T("adt", RES, 1, v)
def R(st, v):
    return [Out("ret", st, v)]
def fork(st, cond, fa, fb):
    """Continue with fa(st) under cond and fb(st) under its negation."""
    outs = []
    s2 = st.clone()
    if s2.assume(cond, True):
        outs += fa(s2)
    if st.assume(cond, False):
        outs += fb(st)
    return outs

def tydef(I, i):
    t = I.p.types[I.p.strip(i)]
    return t["def"] if t["k"] == "adt" else t["k"]

def val(I, st, a):
    return I.load(st, a)

# the place a `&mut T` argument designates, following references inside it
def target(I, st, a):
    while a.op == "ref":
        v = I.read(st, a.a[0], a.a[1])
        if v.op == "ref":
            a = v
            continue
        return a, v
    return None, I.load(st, a)

def setv(I, st, a, v):
    tgt, _ = target(I, st, a)
    if tgt is None:
        return False
    I.write(st, tgt.a[0], tgt.a[1], v)
    return True

# ------------------------------------------------------------------ identities
@m("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "String::as_str", "String::as_bytes",
   "str::as_bytes", "String::as_mut_str", "Vec::as_slice", "Vec::as_mut_slice", "Read::by_ref", "Write::by_ref", "Iterator::by_ref", "slice::as_ref",
   "String::into_bytes", "String::into_boxed_str", "str::into_string", "Vec::into_boxed_slice", "slice::into_vec", "str::into_boxed_bytes", "hint::must_use", "hint::black_box", "AsDisplay::as_display",
   "Box::leak", "Box::into_inner", "Vec::leak", "String::leak", "Cow::into_owned", "str::to_owned", "array::as_slice", "Box::from", "Arc::new", "Rc::new", "RefCell::new", "Cell::new", "Box::into_raw",
   "Box::from_raw", "boxed::box_assume_init_into_vec_unsafe", "vec::into_boxed_slice", "Box::as_ref", "Box::as_mut", "BufWriter::get_mut", "Box::assume_init", "boxed::box_new", "PathBuf::as_path", "Url::as_ref", "str::as_str")
def _ident(I, st, c, args, atys, rty):
    a = args[0]
    if rty is not None and I.p.types[rty]["k"] not in ("ref", "ptr"):
        if a.op in ("ref", "cref") and atys and atys[0] is not None and I.p.types[atys[0]]["k"] in ("ref", "ptr"):
            a = I.load(st, a)
    return R(st, a)

@m("Option::as_deref", "Option::as_deref_mut", "Option::as_ref", "Option::as_mut", "Option::cloned", "Option::copied")
def _optref(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op == "adt":
        if v.a[1] == 0:
            return R(st, NONE)
        if tgt is not None and "clon" not in c["method"] and "copi" not in c["method"]:
            x = v.a[2]
            if x.op in ("ref", "cref"):
                return R(st, v)
            return R(st, Some(T("ref", tgt.a[0], tgt.a[1] + (("vf", 1, 0, "0", (OPT, 1), None),))))
        return R(st, Some(I.load(st, v.a[2])) if "clon" in c["method"] or "copi" in c["method"] else v)
    return R(st, v)

@m("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Vec::clone_from", "String::clone", "TcpStream::clone")
def _clone(I, st, c, args, atys, rty):
    return R(st, snapc(I, st, I.load(st, args[0])))

def snapc(I, st, v):
    return v

@m("Box::new", "Pin::new")
def _boxnew(I, st, c, args, atys, rty):
    return R(st, args[0])

@m("Box::new_uninit", "MaybeUninit::uninit")
def _boxuninit(I, st, c, args, atys, rty):
    return R(st, T("uninit"))

@m("MaybeUninit::write")
def _muwrite(I, st, c, args, atys, rty):
    setv(I, st, args[0], args[1])
    return R(st, args[0])

@m("mem::forget")
def _forget(I, st, c, args, atys, rty):
    return R(st, UNIT)

@m("mem::drop")
def _drop(I, st, c, args, atys, rty):
    return [o for s in drop_value(I, st, None, (), args[0]) for o in R(s, UNIT)]

@m("mem::replace")
def _replace(I, st, c, args, atys, rty):
    tgt, v = target1(I, st, args[0])
    I.write(st, tgt.a[0], tgt.a[1], args[1])
    return R(st, v)

def target1(I, st, a):
    """one level: the place a reference points to, without chasing references stored there"""
    if a.op != "ref":
        raise Undecided("store through an unknown reference")
    return a, I.read(st, a.a[0], a.a[1])

@m("mem::take")
def _take(I, st, c, args, atys, rty):
    tgt, v = target1(I, st, args[0])
    outs = default_of(I, st, rty)
    for o in outs:
        I.write(o.st, tgt.a[0], tgt.a[1], o.val)
        o.val = v
    return outs

@m("mem::swap", "ptr::swap")
def _swap(I, st, c, args, atys, rty):
    a, va = target1(I, st, args[0])
    b, vb = target1(I, st, args[1])
    I.write(st, a.a[0], a.a[1], vb)
    I.write(st, b.a[0], b.a[1], va)
    return R(st, UNIT)

@m("Option::take")
def _otake(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    I.write(st, tgt.a[0], tgt.a[1], NONE)
    return R(st, v)

@m("Option::replace", "Option::insert")
def _oreplace(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    I.write(st, tgt.a[0], tgt.a[1], Some(args[1]))
    return R(st, v)

def default_of(I, st, ty):
    t = I.p.types[ty]
    k = t["k"]
    if k in ("int", "bool", "char"):
        return R(st, engine.I(0))
    if k == "tuple":
        fs = []
        for a in t["args"]:
            o = default_of(I, st, a)
            fs.append(o[0].val)
        return R(st, T("tup", *fs))
    if k == "ref":
        return R(st, seq())
    if k == "adt":
        d = t["def"]
        if d in ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "alloc::collections::vec_deque::VecDeque", "alloc::borrow::Cow"):
            return R(st, seq())
        if d == OPT:
            return R(st, NONE)
        if d.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
            return R(st, T("map"))
        for r in I.p.implix.get(("Default", d, "default"), []):
            return I.exec_fn(st, r["key"], [])
    if t["k"] == "adt" and t["def"].endswith("CoreWrapper"):
        return R(st, T("digest", T("ty", t["s"]), seq()))
    return R(st, T("pure", "Default::default", T("ty", t["s"])))

@m("Default::default")
def _default(I, st, c, args, atys, rty):
    return default_of(I, st, rty)

@m("Vec::new", "String::new", "VecDeque::new", "Vec::default", "String::default")
def _vnew(I, st, c, args, atys, rty):
    return R(st, seq())

@m("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new")
def _hmnew(I, st, c, args, atys, rty):
    return R(st, T("map"))

def alloc(st, n):
    """Memory of n elements is requested: record a constant upper bound, or that no more is asked than was already received."""
    lo = st.lb(scale(n, -1))
    ub = -lo if lo is not None else None
    got = False
    if ub is None or ub > 1 << 16:
        total = INT0
        for e in engine.linked(st.ev):
            if e[0] == "r" and isinstance(e[3], Term) and e[3].op in ("ext", "int", "lin", "len", "sub"):
                total = add(total, e[3])
            if e[0] in ("r", "readall"):
                for x in e[2:]:
                    if isinstance(x, Term) and x.op in ("ext", "int", "lin"):
                        l = st.lb(sub(x, n))
                        if l is not None and l >= 0:
                            got = True
        if not got:
            l = st.lb(sub(total, n))
            got = l is not None and l >= 0
    st.event("alloc", n, ub, got)

@m("HashMap::with_capacity")
def _hmcap(I, st, c, args, atys, rty):
    alloc(st, args[0])
    return R(st, T("map"))

@m("Vec::with_capacity", "String::with_capacity")
def _vcap(I, st, c, args, atys, rty):
    alloc(st, args[0])
    return R(st, seq())

@m("Vec::reserve", "String::reserve", "Vec::reserve_exact", "String::reserve_exact", "Vec::try_reserve")
def _reserve(I, st, c, args, atys, rty):
    alloc(st, args[1])
    return R(st, Ok(UNIT) if "try" in c["method"] else UNIT)

@m("vec::from_elem", "slice::repeat", "iter::repeat_n")
def _from_elem(I, st, c, args, atys, rty):
    n = st.simp(args[1])
    alloc(st, n)
    if n.op == "int" and n.a[0] <= 64:
        return R(st, seq(*[one(args[0])] * n.a[0]))
    return R(st, T("repeat", args[0], n))

@m("Vec::resize")
def _resize(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    n = st.simp(args[1])
    alloc(st, n)
    L = length(v)
    def grow(s):
        d = sub(n, L)
        I.write(s, tgt.a[0], tgt.a[1], seq(v, seq(*[one(args[2])] * d.a[0]) if d.op == "int" and d.a[0] <= 64 else T("repeat", args[2], d)))
        return R(s, UNIT)
    def shrink(s):
        I.write(s, tgt.a[0], tgt.a[1], I.subseq(s, v, engine.I(0), n))
        return R(s, UNIT)
    return fork(st, le(L, n), grow, shrink)

# ------------------------------------------------------------------ sequences
@m("Vec::len", "String::len", "str::len", "slice::len", "VecDeque::len", "array::len")
def _len(I, st, c, args, atys, rty):
    return R(st, st.simp(length(I.load(st, args[0]))))

@m("Vec::is_empty", "String::is_empty", "str::is_empty", "slice::is_empty", "VecDeque::is_empty")
def _isempty(I, st, c, args, atys, rty):
    return R(st, eq(length(I.load(st, args[0])), engine.I(0)))

@m("HashMap::len", "BTreeMap::len")
def _hmlen(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, engine.I(0) if v is T("map") else T("len", v))

@m("HashMap::is_empty", "BTreeMap::is_empty")
def _hmempty(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, TRUE if v is T("map") else eq(T("len", v), engine.I(0)))

def append(I, st, a, *ps):
    tgt, v = target(I, st, a)
    if tgt is None:
        raise Undecided("append through an unknown reference")
    I.write(st, tgt.a[0], tgt.a[1], seq(v, *ps))

@m("Vec::push", "VecDeque::push_back")
def _push(I, st, c, args, atys, rty):
    append(I, st, args[0], one(args[1]))
    return R(st, UNIT)

def charpiece(st, ch):
    if ch.op == "int":
        return lit(chr(ch.a[0]))
    lo, hi = st.bounds(ch)
    if hi is not None and hi < 128:
        return one(ch)
    return T("splice", T("utf8", ch))

@m("String::push")
def _spush(I, st, c, args, atys, rty):
    append(I, st, args[0], charpiece(st, args[1]))
    return R(st, UNIT)

@m("String::push_str", "Vec::extend_from_slice", "slice::copy_into")
def _pushstr(I, st, c, args, atys, rty):
    append(I, st, args[0], I.load(st, args[1]))
    return R(st, UNIT)

@m("Vec::append")
def _vappend(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[1])
    append(I, st, args[0], v)
    I.write(st, tgt.a[0], tgt.a[1], seq())
    return R(st, UNIT)

@m("Vec::insert", "String::insert", "String::insert_str")
def _vinsert(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    L = length(v)
    def ok(s):
        x = one(args[2]) if norm_path(c).startswith("Vec") else charpiece(s, args[2]) if norm_path(c) == "String::insert" else I.load(s, args[2])
        I.write(s, tgt.a[0], tgt.a[1], seq(I.subseq(s, v, engine.I(0), args[1]), x, I.subseq(s, v, args[1], L)))
        return R(s, UNIT)
    return fork(st, le(args[1], L), ok, lambda s: [Out("panic", s, ("index", "insert"))])

@m("Vec::remove", "Vec::swap_remove")
def _vremove(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    L = length(v)
    def ok(s):
        x = I.index(s, v, args[1])
        I.write(s, tgt.a[0], tgt.a[1], seq(I.subseq(s, v, engine.I(0), args[1]), I.subseq(s, v, add(args[1], engine.I(1)), L)))
        return R(s, x)
    return fork(st, lt(args[1], L), ok, lambda s: [Out("panic", s, ("index", "remove"))])

@m("Vec::pop")
def _vpop(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    L = length(v)
    def some(s):
        i = sub(L, engine.I(1))
        x = I.index(s, v, i)
        I.write(s, tgt.a[0], tgt.a[1], I.subseq(s, v, engine.I(0), i))
        return R(s, Some(x))
    return fork(st, eq(L, engine.I(0)), lambda s: R(s, NONE), some)

@m("Vec::truncate", "String::truncate")
def _truncate(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    L = length(v)
    def cut(s):
        I.write(s, tgt.a[0], tgt.a[1], I.subseq(s, v, engine.I(0), args[1]))
        return R(s, UNIT)
    return fork(st, lt(args[1], L), cut, lambda s: R(s, UNIT))

@m("Vec::clear", "String::clear")
def _clear(I, st, c, args, atys, rty):
    setv(I, st, args[0], seq())
    return R(st, UNIT)

@m("HashMap::clear", "BTreeMap::clear")
def _hclear(I, st, c, args, atys, rty):
    setv(I, st, args[0], T("map"))
    return R(st, UNIT)

@m("slice::reverse")
def _reverse(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    I.write(st, tgt.a[0], tgt.a[1], T("reversed", v))
    return R(st, UNIT)

def elemref(I, st, a, i):
    tgt, v = target(I, st, a)
    if tgt is None:
        return I.index(st, v, i)
    p = tgt.a[1]
    if p and p[-1][0] == "s":
        return T("ref", tgt.a[0], p[:-1] + (("i", st.simp(add(p[-1][1], i))),))
    return T("ref", tgt.a[0], p + (("i", st.simp(i)),))

def rng(I, st, idx, L):
    """(lo, hi) of a range value, or None when idx is a plain index"""
    v = I.load(st, idx)
    if v.op == "adt":
        d = v.a[0].split("::")[-1]
        if d == "Range":
            return v.a[2], v.a[3]
        if d == "RangeFrom":
            return v.a[2], L
        if d == "RangeTo":
            return engine.I(0), v.a[2]
        if d == "RangeFull":
            return engine.I(0), L
        if d == "RangeInclusive":
            return v.a[2], add(v.a[3], engine.I(1))
        if d == "RangeToInclusive":
            return engine.I(0), add(v.a[2], engine.I(1))
    return None

def subref(I, st, a, lo, hi):
    tgt, v = target(I, st, a)
    if tgt is None:
        return I.subseq(st, v, lo, hi)
    if st.decide(eq(lo, engine.I(0))) is True and st.decide(eq(hi, length(v))) is True:
        return tgt
    p = tgt.a[1]
    if p and p[-1][0] == "s":
        return T("ref", tgt.a[0], p[:-1] + (("s", st.simp(add(p[-1][1], lo)), st.simp(add(p[-1][1], hi))),))
    return T("ref", tgt.a[0], p + (("s", st.simp(lo), st.simp(hi)),))

@m("Index::index", "IndexMut::index_mut")
def _index(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    ty = tydef(I, atys[0]) if atys and atys[0] is not None else ""
    if ty.endswith("Map") or v.op == "map":
        return mapget(I, st, args[0], I.load(st, args[1]), lambda s, r: R(s, r), lambda s: [Out("panic", s, ("index", "map key absent"))])
    L = length(v)
    r = rng(I, st, args[1], L)
    if r is None:
        i = I.load(st, args[1])
        return fork(st, lt(i, L), lambda s: R(s, elemref(I, s, args[0], i)), lambda s: [Out("panic", s, ("index", "out of bounds"))])
    lo, hi = r
    outs = []
    s2 = st.clone()
    if s2.assume(lt(hi, lo), True):
        outs.append(Out("panic", s2, ("index", "range start above end")))
    if st.assume(lt(hi, lo), False):
        s3 = st.clone()
        if s3.assume(lt(L, hi), True):
            outs.append(Out("panic", s3, ("index", "range end out of bounds")))
        if st.assume(lt(L, hi), False):
            if ty in ("str", "alloc::string::String"):
                # byte ranges of a str must fall on character boundaries
                for e in (lo, hi):
                    if not charboundary(I, st, v, e, L):
                        s4 = st.clone()
                        if s4.assume(T("bool", "boundary", v, e), False):
                            outs.append(Out("panic", s4, ("index", "not a char boundary")))
                        if not st.assume(T("bool", "boundary", v, e), True):
                            return outs
            outs += R(st, subref(I, st, args[0], lo, hi))
    return outs

def charboundary(I, st, v, e, L):
    return st.decide(eq(e, engine.I(0))) is True or st.decide(eq(e, L)) is True

@m("slice::get", "slice::get_mut", "str::get", "Vec::get", "VecDeque::get")
def _get(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    L = length(v)
    r = rng(I, st, args[1], L)
    if r is None:
        i = I.load(st, args[1])
        return fork(st, lt(i, L), lambda s: R(s, Some(elemref(I, s, args[0], i))), lambda s: R(s, NONE))
    lo, hi = r
    return fork(st, le(lo, hi), lambda s: fork(s, le(hi, L), lambda t: R(t, Some(subref(I, t, args[0], lo, hi))), lambda t: R(t, NONE)), lambda s: R(s, NONE))

@m("slice::first", "slice::last", "slice::first_mut", "slice::last_mut", "VecDeque::front", "VecDeque::back")
def _first(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    L = length(v)
    i = engine.I(0) if c["method"].startswith(("first", "front")) else sub(L, engine.I(1))
    return fork(st, eq(L, engine.I(0)), lambda s: R(s, NONE), lambda s: R(s, Some(elemref(I, s, args[0], i))))

@m("slice::split_at", "str::split_at", "slice::split_at_mut")
def _splitat(I, st, c, args, atys, rty):
    L = length(I.load(st, args[0]))
    return fork(st, le(args[1], L), lambda s: R(s, T("tup", subref(I, s, args[0], engine.I(0), args[1]), subref(I, s, args[0], args[1], L))),
                lambda s: [Out("panic", s, ("index", "split_at"))])

@m("slice::split_first")
def _splitfirst(I, st, c, args, atys, rty):
    L = length(I.load(st, args[0]))
    return fork(st, eq(L, engine.I(0)), lambda s: R(s, NONE),
                lambda s: R(s, Some(T("tup", elemref(I, s, args[0], engine.I(0)), subref(I, s, args[0], engine.I(1), L)))))

@m("slice::copy_from_slice", "slice::clone_from_slice")
def _copyfrom(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    w = I.load(st, args[1])
    def ok(s):
        I.write(s, tgt.a[0], tgt.a[1], w)
        return R(s, UNIT)
    return fork(st, eq(length(v), length(w)), ok, lambda s: [Out("panic", s, ("index", "copy_from_slice lengths differ"))])

@m("slice::concat", "slice::join", "Concat::concat", "Join::join")
def _concat(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if v.op == "seq" and all(p.op == "one" for p in v.a):
        sep = I.load(st, args[1]) if len(args) > 1 else seq()
        out = []
        for i, p in enumerate(v.a):
            if i:
                out.append(sep)
            out.append(I.load(st, p.a[0]))
        return R(st, seq(*out))
    return None

def rev(v):
    return T("reversed", v)

@m("slice::starts_with", "str::starts_with", "slice::ends_with", "str::ends_with")
def _starts(I, st, c, args, atys, rty):
    v, p = I.load(st, args[0]), I.load(st, args[1])
    if p.op == "int":
        p = lit(chr(p.a[0]))
    a, b = litval(v), litval(p)
    meth = c["method"]
    if a is not None and b is not None:
        return R(st, TRUE if (a.startswith(b) if meth == "starts_with" else a.endswith(b)) else FALSE)
    if b is not None and v.op == "seq" and v.a:
        q = v.a[0] if meth == "starts_with" else v.a[-1]
        if q.op == "lit":
            x = q.a[0]
            n = min(len(x), len(b))
            if meth == "starts_with":
                if x[:n] != b[:n]:
                    return R(st, FALSE)
                if len(b) <= n:
                    return R(st, TRUE)
            else:
                if x[len(x) - n:] != b[len(b) - n:]:
                    return R(st, FALSE)
                if len(b) <= n:
                    return R(st, TRUE)
    if I.tracks_bytes(v) and b is not None and len(b) <= 8 and norm_path(c).startswith("slice"):
        L = length(v)
        off = engine.I(0) if meth == "starts_with" else sub(L, engine.I(len(b)))
        def cmp(s, k):
            if k == len(b):
                return R(s, TRUE)
            return fork(s, eq(I.index(s, v, add(off, engine.I(k))), engine.I(b[k])), lambda t: cmp(t, k + 1), lambda t: R(t, FALSE))
        return fork(st, le(engine.I(len(b)), L), lambda s: cmp(s, 0), lambda s: R(s, FALSE))
    if p.op in ("clo", "fn"):
        return None
    return R(st, T("bool", meth, v, p))

@m("str::contains", "slice::contains", "Vec::contains")
def _contains(I, st, c, args, atys, rty):
    v, p = I.load(st, args[0]), I.load(st, args[1])
    if p.op in ("clo", "fn"):
        return None
    if p.op == "int" and norm_path(c).startswith("str"):
        p = lit(chr(p.a[0]))
    a, b = litval(v), litval(p)
    if a is not None and b is not None:
        return R(st, TRUE if b in a else FALSE)
    return R(st, T("bool", "contains", v, I.snap(st, p)))

@m("str::strip_prefix", "str::strip_suffix", "slice::strip_prefix")
def _strip(I, st, c, args, atys, rty):
    v, p = I.load(st, args[0]), I.load(st, args[1])
    if p.op == "int":
        p = lit(chr(p.a[0]))
    if p.op in ("clo", "fn"):
        return None
    pre = c["method"] == "strip_prefix"
    L, n = length(v), length(p)
    c0 = T("bool", "starts_with" if pre else "ends_with", v, p)
    def yes(s):
        if not s.assume(le(n, L), True):
            return []
        return R(s, Some(subref(I, s, args[0], n, L) if pre else subref(I, s, args[0], engine.I(0), sub(L, n))))
    return fork(st, c0, yes, lambda s: R(s, NONE))

def lower(v):
    b = litval(v)
    if b is not None:
        return lit(b.lower())
    if v.op == "pure" and v.a[0] == "str::to_ascii_lowercase":
        return v
    return T("pure", "str::to_ascii_lowercase", v)

@m("str::to_ascii_lowercase", "slice::to_ascii_lowercase", "str::to_lowercase")
def _lower(I, st, c, args, atys, rty):
    return R(st, lower(I.load(st, args[0])))

@m("str::to_ascii_uppercase", "str::to_uppercase")
def _upper(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    b = litval(v)
    return R(st, lit(b.upper()) if b is not None else T("pure", "str::to_ascii_uppercase", v))

@m("str::make_ascii_lowercase", "String::make_ascii_lowercase")
def _mklower(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    I.write(st, tgt.a[0], tgt.a[1], lower(v))
    return R(st, UNIT)

@m("str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def _eqic(I, st, c, args, atys, rty):
    return R(st, streq(lower(I.load(st, args[0])), lower(I.load(st, args[1]))))

@m("num::to_ascii_lowercase", "char::to_ascii_lowercase")
def _u8lower(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if v.op == "int":
        return R(st, engine.I(ord(chr(v.a[0]).lower()) if v.a[0] < 128 else v.a[0]))
    return R(st, T("pure", "u8::to_ascii_lowercase", v))

def streq(a, b):
    if a is b:
        return TRUE
    x, y = litval(a), litval(b)
    if x is not None and y is not None:
        return TRUE if x == y else FALSE
    if x is not None and lower_only(b) and x != x.lower():
        return FALSE
    if y is not None and lower_only(a) and y != y.lower():
        return FALSE
    if x is not None or (y is None and b.id < a.id):
        a, b = b, a
    return T("streq", a, b)

def lower_only(v):
    return v.op == "pure" and v.a[0] == "str::to_ascii_lowercase"

def isseqty(I, ty):
    t = I.p.types[I.p.strip(ty)]
    if t["k"] in ("str", "slice", "array"):
        return True
    return t["k"] == "adt" and t["def"] in ("alloc::vec::Vec", "alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box")

@m("PartialEq::eq", "PartialEq::ne")
def _eq(I, st, c, args, atys, rty):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    neg = c["method"] == "ne"
    def fin(s, x):
        return R(s, NOT(x) if neg else x)
    if c.get("key") and c["key"] in I.p.bodies and not (isseqty(I, atys[0]) if atys else False):
        return None
    ty = I.p.types[I.p.strip(atys[0])] if atys and atys[0] is not None else {"k": "?"}
    if ty["k"] in ("int", "bool", "char"):
        return fin(st, eq(a, b))
    if a.op == "adt" and b.op == "adt" and a.a[0] == OPT and b.a[0] == OPT:
        if a.a[1] != b.a[1]:
            return fin(st, FALSE)
        if a.a[1] == 0:
            return fin(st, TRUE)
        return fin(st, streq(I.load(st, a.a[2]), I.load(st, b.a[2])))
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and len(a.a) == 2 and len(b.a) == 2:
        return fin(st, TRUE if a.a[1] == b.a[1] else FALSE)
    y = litval(b) if litval(b) is not None else litval(a)
    x = a if litval(b) is not None else b
    if y is not None and litval(x) is None and I.tracks_bytes(x) and len(y) <= 8:
        # byte-wise comparison with a short constant
        def cmp(s, k):
            if k == len(y):
                return fin(s, TRUE)
            return fork(s, eq(I.index(s, x, engine.I(k)), engine.I(y[k])), lambda t: cmp(t, k + 1), lambda t: fin(t, FALSE))
        return fork(st, eq(length(x), engine.I(len(y))), lambda s: cmp(s, 0), lambda s: fin(s, FALSE))
    return fin(st, streq(I.snap(st, a), I.snap(st, b)))

@m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _ord(I, st, c, args, atys, rty):
    if atys and atys[0] is not None:
        d = I.p.types[I.p.strip(atys[0])]
        if d["k"] == "adt" and d["def"].startswith("log::"):
            # logging is on: what is logged is evaluated as well
            return R(st, TRUE if c["method"] in ("lt", "le") else FALSE)
        if d["k"] in ("int", "bool", "char"):
            a, b = I.load(st, args[0]), I.load(st, args[1])
            return R(st, {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[c["method"]])
    return None

@m("log::max_level")
def _maxlevel(I, st, c, args, atys, rty):
    return R(st, engine.I(0))

@m("__private_api::loc")
def _logloc(I, st, c, args, atys, rty):
    return R(st, UNIT)

@m("__private_api::log", "__private_api::enabled")
def _log(I, st, c, args, atys, rty):
    return R(st, TRUE if rty is not None and I.p.types[rty]["k"] == "bool" else UNIT)

@m("Add::add")
def _sadd(I, st, c, args, atys, rty):
    if rty is not None and tydef(I, rty) == "alloc::string::String":
        return R(st, seq(I.load(st, args[0]), I.load(st, args[1])))
    return None

@m("AddAssign::add_assign")
def _sadda(I, st, c, args, atys, rty):
    if tydef(I, atys[0]) == "alloc::string::String":
        append(I, st, args[0], I.load(st, args[1]))
        return R(st, UNIT)
    return None

@m("converts::from_utf8", "str::from_utf8", "String::from_utf8", "from_utf8::from_utf8")
def _fromutf8(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    x = litval(v)
    if x is not None:
        try:
            x.decode()
            return R(st, Ok(v))
        except UnicodeDecodeError:
            return R(st, Err(T("utf8err", v)))
    return fork(st, T("bool", "utf8", v), lambda s: R(s, Ok(v)), lambda s: R(s, Err(T("utf8err", v))))

@m("FromUtf8Error::into_bytes", "FromUtf8Error::as_bytes")
def _utf8bytes(I, st, c, args, atys, rty):
    e = I.load(st, args[0])
    return R(st, e.a[0]) if e.op == "utf8err" else None

@m("FromUtf8Error::utf8_error")
def _utf8error(I, st, c, args, atys, rty):
    return R(st, I.load(st, args[0]))

@m("Utf8Error::valid_up_to")
def _validupto(I, st, c, args, atys, rty):
    e = I.load(st, args[0])
    if e.op != "utf8err":
        return None
    r = T("validupto", e.a[0])
    hint(r, 0, engine.ISIZE)
    # what follows the valid part is the first invalid byte
    st.add_lin(sub(sub(length(e.a[0]), r), INT1))
    return R(st, r)

@m("converts::from_utf8_unchecked", "str::from_utf8_unchecked", "String::from_utf8_unchecked")
def _fromutf8u(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if litval(v) is None:
        st.event("unchecked_utf8", v)
    return R(st, v)

@m("string::from_utf8_lossy", "String::from_utf8_lossy", "String::from_utf8_lossy_owned")
def _lossy(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    x = litval(v)
    return R(st, v if x is not None and isutf8(x) else T("lossy", v))

def isutf8(x):
    try:
        x.decode()
        return True
    except UnicodeDecodeError:
        return False

@m("str::parse", "FromStr::from_str")
def _parse(I, st, c, args, atys, rty):
    if c.get("key") and c["key"] in I.p.bodies and I.p.bodies[c["key"]]["local"]:
        return None
    v = I.load(st, args[0])
    t = I.p.types[rty]
    ok = I.p.tys(t["args"][0]) if t.get("args") else "?"
    errd = I.p.types[t["args"][1]] if t.get("args") and len(t["args"]) > 1 else None
    if ok == "alloc::string::String":
        return R(st, Ok(v))
    if ok == "url::Url":
        return urlparse(I, st, v)
    d = next((r for r in I.p.implix.get(("FromStr", ok, "from_str"), [])), None)
    if d:
        return I.exec_fn(st, d["key"], [v])
    nz = ok.startswith("core::num::nonzero::NonZero<")
    ok = ok[len("core::num::nonzero::NonZero<"):-1] if nz else ok
    c0 = T("bool", "parses", T("ty", ok), v)
    x = T("pure", "parse", T("ty", ok), v)
    if nz:      # (a NonZero is the number it holds)
        err = lambda s: R(s, Err(T("parseerr", T("ty", ok), v)))
        hint(x, *{"u": lambda b: (0, 2 ** b - 1), "i": lambda b: (-2 ** (b - 1), 2 ** (b - 1) - 1)}[ok[0]](int(ok[1:]) if ok[1:].isdigit() else 32))
        return fork(st, c0, lambda s: fork(s, eq(x, INT0), err, lambda s2: R(s2, Ok(x))), err)
    if t.get("args"):
        I.hint_ty(x, t["args"][0])
    return fork(st, c0, lambda s: R(s, Ok(x)), lambda s: R(s, Err(T("parseerr", T("ty", ok), v))))

@m("u16::from_be_bytes", "u32::from_be_bytes", "u64::from_be_bytes", "u128::from_be_bytes", "usize::from_be_bytes", "num::from_be_bytes")
def _from_be(I, st, c, args, atys, rty):
    n = I.p.types[rty]["bits"] // 8
    r = be_of(I, st, I.load(st, args[0]), n)
    return signed(st, r, 8 * n) if I.p.types[rty]["signed"] else R(st, r)

def signed(st, r, bits, wrap=lambda x: x):
    """The number whose `bits` bits are r, read as a signed one."""
    return fork(st, lt(r, engine.I(1 << (bits - 1))), lambda s: R(s, wrap(r)), lambda s: R(s, wrap(add(r, engine.I(-(1 << bits))))))

@m("NonZero::get")
def _nzget(I, st, c, args, atys, rty):
    return R(st, I.load(st, args[0]))

@m("NonZero::new")
def _nznew(I, st, c, args, atys, rty):
    return fork(st, eq(args[0], INT0), lambda s: R(s, NONE), lambda s: R(s, Some(args[0])))

@m("num::unsigned_abs", "num::abs", "num::wrapping_abs")
def _abs(I, st, c, args, atys, rty):
    v = st.simp(args[0])
    return fork(st, lt(v, INT0), lambda s: R(s, scale(v, -1)), lambda s: R(s, v))

@m("num::from_le_bytes")
def _from_le(I, st, c, args, atys, rty):
    n = I.p.types[rty]["bits"] // 8
    v = I.load(st, args[0])
    r = engine.I(0)
    for k in range(n):
        e = I.index(st, v, engine.I(k))
        hint(e, 0, 255)
        r = add(r, scale(e, 256 ** k))
    return signed(st, r, 8 * n) if I.p.types[rty]["signed"] else R(st, r)

@m("num::to_be_bytes", "num::to_le_bytes", "num::to_ne_bytes")
def _to_be(I, st, c, args, atys, rty):
    n = I.p.types[atys[0]]["bits"] // 8
    v = st.simp(args[0])
    bs = [byte_of(st, v, 8 * k) for k in range(n)]
    if "be" in c["method"]:
        bs.reverse()
    return R(st, seq(*[one(b) for b in bs]))

def byte_of(st, v, sh):
    return trunc8(st, shr(v, engine.I(sh)))

def trunc8(st, v):
    lo, hi = st.bounds(v)
    if lo is not None and hi is not None and 0 <= lo and hi <= 255:
        return v
    return trunc(v, 8)

def be_of(I, st, v, n):
    if v.op == "data":
        t = T("be", v.a[0], v.a[1], n)
        return t
    r = engine.I(0)
    bs = [I.index(st, v, engine.I(k)) for k in range(n)]
    for b in bs:
        hint(b, 0, 255)
    # recognise n consecutive stream bytes
    if all(b.op == "byte" for b in bs) and all(b.a[0] is bs[0].a[0] and sub(b.a[1], bs[0].a[1]) is engine.I(k) for k, b in enumerate(bs)):
        return T("be", bs[0].a[0], bs[0].a[1], n)
    for k, b in enumerate(bs):
        r = add(r, scale(b, 256 ** (n - 1 - k)))
    return r

@m("num::swap_bytes", "num::rotate_left")
def _swapb(I, st, c, args, atys, rty):
    return R(st, T("pure", c["method"], *args))

def intrange(I, ty):
    t = I.p.types[ty]
    b = t["bits"]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)

def arith(op, a, b):
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if op == "mul":
        return scale(a, b.a[0]) if b.op == "int" else scale(b, a.a[0]) if a.op == "int" else T("mul", *sorted((a, b)))

@m("num::checked_add", "num::checked_sub", "num::checked_mul", "num::saturating_add", "num::saturating_sub", "num::saturating_mul",
   "num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul", "num::overflowing_add", "num::overflowing_sub")
def _arith(I, st, c, args, atys, rty):
    kind, op = c["method"].split("_")
    a, b = I.load(st, args[0]), I.load(st, args[1])
    I.hint_ty(a, I.p.strip(atys[0])); I.hint_ty(b, I.p.strip(atys[1]))
    a, b = st.simp(a), st.simp(b)
    r = arith(op, a, b)
    lo, hi = intrange(I, I.p.strip(atys[0]))
    if kind == "wrapping":
        t = I.p.types[I.p.strip(atys[0])]
        return R(st, r if I.fits(st, r, t) else trunc(r, t["bits"]))
    def ok(s):
        return R(s, {"checked": lambda: Some(r), "saturating": lambda: r, "overflowing": lambda: T("tup", r, FALSE)}[kind]())
    def over(s):
        return R(s, NONE if kind == "checked" else engine.I(hi) if kind == "saturating" else T("tup", T("wrap", r), TRUE))
    def under(s):
        return R(s, NONE if kind == "checked" else engine.I(lo) if kind == "saturating" else T("tup", T("wrap", r), TRUE))
    return fork(st, lt(r, engine.I(lo)), under, lambda s: fork(s, lt(engine.I(hi), r), over, ok))

@m("Ord::min", "cmp::min", "Ord::max", "cmp::max")
def _min(I, st, c, args, atys, rty):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    if atys and I.p.types[I.p.strip(atys[0])]["k"] not in ("int",):
        return None
    n = norm_path(c)
    if n.endswith("min"):
        return fork(st, le(a, b), lambda s: R(s, a), lambda s: R(s, b))
    return fork(st, le(a, b), lambda s: R(s, b), lambda s: R(s, a))

@m("TryFrom::try_from", "TryInto::try_into")
def _tryfrom(I, st, c, args, atys, rty):
    t = I.p.types[rty]
    ok = I.p.types[t["args"][0]] if t.get("args") else {"k": "?"}
    if ok["k"] == "int" and atys and I.p.types[atys[0]]["k"] == "int":
        a = args[0]
        I.hint_ty(a, atys[0])
        lo, hi = intrange(I, t["args"][0])
        return fork(st, lt(a, engine.I(lo)), lambda s: R(s, Err(T("tryint"))),
                    lambda s: fork(s, lt(engine.I(hi), a), lambda q: R(q, Err(T("tryint"))), lambda q: R(q, Ok(a))))
    if ok["k"] == "array":
        v = I.load(st, args[0])
        n = ok.get("n")
        if n is not None:
            return fork(st, eq(length(v), engine.I(int(n))), lambda s: R(s, Ok(v)), lambda s: R(s, Err(T("tryslice"))))
    if ok["k"] == "adt" and ok["def"] == "url::Url":
        return urlparse(I, st, I.load(st, args[0]))
    return None

@m("From::from", "Into::into")
def _from(I, st, c, args, atys, rty):
    key = c.get("key")
    if key and key in I.p.bodies:
        return None
    g = [x for x in c.get("args") or () if isinstance(x, int)]
    if (rty is None or not atys) and len(g) == 2:         # called through a function value: the types are those of the trait reference
        rty, atys = (g[0], [g[1]]) if c.get("method") == "from" else (g[1], [g[0]])
    if rty is None:
        return None
    d = I.p.types[rty]
    if d["k"] == "adt" and d["def"] in ("alloc::string::String", "alloc::vec::Vec", "alloc::boxed::Box", "alloc::borrow::Cow"):
        sd = I.p.types[I.p.strip(atys[0])] if atys else {"k": "?"}
        if sd["k"] in ("str", "slice", "array", "int", "char") or (sd["k"] == "adt" and sd["def"] in ("alloc::string::String", "alloc::vec::Vec", "alloc::boxed::Box", "alloc::borrow::Cow")):
            v = I.load(st, args[0])
            if sd["k"] == "char":
                v = seq(charpiece(st, v))
            return R(st, v)
    if d["k"] == "int":
        return R(st, args[0])
    if atys and atys[0] == rty:
        return R(st, args[0])
    if d["k"] == "adt" and d["def"] in ("std::collections::hash::map::HashMap", "std::collections::HashMap"):
        return None
    return None

# ------------------------------------------------------------------ maps
def mk_ins(v, k, x):
    return T("map", *(v.a if v.op == "map" else (T("splice", v),)), T("ins", k, x))

def keyof(I, st, k):
    return I.snap(st, k)

def keyeq(a, b):
    return streq(a, b)

def mapget(I, st, mref, k, some, none, mut=False):
    """some(st, element reference/value), none(st)"""
    import views
    tgt, v = target(I, st, mref)
    k = keyof(I, st, k)
    r = views.resolve(k)
    if r.op == "mkey" and r.a[0] is v and not mut:
        x = T("mval", v, r.a[1])
        return some(st, T("cref", x))
    if litval(r) is not None:
        k = r
    def look(s, ops):
        if not ops:
            return none(s)
        o = ops[-1]
        if o.op == "ins":
            e = keyeq(o.a[0], k)
            return fork(s, e, lambda q: some(q, mkelt(q, o.a[1])), lambda q: look(q, ops[:-1]))
        if o.op == "rem":
            return fork(s, keyeq(o.a[0], k), none, lambda q: look(q, ops[:-1]))
        if o.op not in ("splice", "mapcomp", "extend"):
            base, rest = T("map", *ops), ()
        else:
            base, rest = o if o.op == "mapcomp" else o.a[0], ops[:-1]
        return fork(s, T("bool", "mhas", base, k), lambda q: some(q, mkelt(q, T("mget", base, k))), lambda q: look(q, rest))
    def mkelt(s, x):
        if mut and tgt is not None:
            return T("ref", tgt.a[0], tgt.a[1] + (("mk", k),))
        if x.op in ("ref",):
            return x
        return T("cref", x) if x.op != "cref" else x
    if v.op == "map":
        return look(st, v.a)
    return fork(st, T("bool", "mhas", v, k), lambda q: some(q, mkelt(q, T("mget", v, k))), none)

@m("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut")
def _mget(I, st, c, args, atys, rty):
    return mapget(I, st, args[0], I.load(st, args[1]), lambda s, r: R(s, Some(r)), lambda s: R(s, NONE), c["method"] == "get_mut")

@m("HashMap::contains_key", "BTreeMap::contains_key")
def _mhas(I, st, c, args, atys, rty):
    return mapget(I, st, args[0], I.load(st, args[1]), lambda s, r: R(s, TRUE), lambda s: R(s, FALSE))

@m("HashMap::insert", "BTreeMap::insert")
def _mins(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        raise Undecided("map insert through an unknown reference")
    k = keyof(I, st, args[1])
    I.write(st, tgt.a[0], tgt.a[1], mk_ins(v, k, args[2]))
    r = T("pure", "oldvalue", v, k)
    if v is T("map"):
        r = NONE
    return R(st, r)

@m("HashMap::entry", "BTreeMap::entry")
def _mentry(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    return R(st, T("adt", "MapEntry", 0, args[0], keyof(I, st, args[1])))

@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _morins(I, st, c, args, atys, rty):
    e = args[0]
    if e.op != "adt" or e.a[0] != "MapEntry":
        return None
    k = e.a[3]
    meth = c["method"]
    vty = None
    if meth == "or_default":
        if rty is None or I.p.types[rty]["k"] != "ref":
            raise Undecided("map entry")
        vty = I.p.types[rty]["t"]
    def there(s, r):
        return R(s, r)
    def absent(s):
        def put(q, val):
            tgt, v = target(I, q, e.a[2])
            if v.op == "map" and v.a and v.a[-1].op == "rem" and v.a[-1].a[0] is k:
                v = T("map", *v.a[:-1])
            I.write(q, tgt.a[0], tgt.a[1], mk_ins(v, k, val))
            return R(q, T("ref", tgt.a[0], tgt.a[1] + (("mk", k),)))
        if meth == "or_insert":
            return put(s, args[1])
        outs = []
        for o in default_of(I, s, vty) if meth == "or_default" else I.call_value(s, args[1], []):
            outs += put(o.st, o.val) if o.kind == "ret" else [o]
        return outs
    return mapget(I, st, e.a[2], k, there, absent, True)

@m("Entry::insert_entry", "Entry::and_modify", "Entry::key")
def _entryother(I, st, c, args, atys, rty):
    raise Undecided("map entry")

@m("HashSet::insert", "BTreeSet::insert")
def _sins(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    k = keyof(I, st, args[1])
    I.write(st, tgt.a[0], tgt.a[1], mk_ins(v, k, UNIT))
    return R(st, NOT(T("bool", "mhas", v, k)) if v is not T("map") else TRUE)

@m("HashSet::contains")
def _shas(I, st, c, args, atys, rty):
    return mapget(I, st, args[0], I.load(st, args[1]), lambda s, r: R(s, TRUE), lambda s: R(s, FALSE))

@m("HashMap::remove", "BTreeMap::remove")
def _mrem(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    k = keyof(I, st, args[1])
    def fin(s, r):
        tg, v2 = target(I, s, args[0])
        I.write(s, tg.a[0], tg.a[1], T("map", *(v2.a if v2.op == "map" else (T("splice", v2),)), T("rem", k)))
        return R(s, r)
    return mapget(I, st, args[0], args[1], lambda s, r: fin(s, Some(I.load(s, r))), lambda s: fin(s, NONE))

# ------------------------------------------------------------------ iterators
INT0 = engine.I(0)
INT1 = engine.I(1)

def seq_iter(I, st, a, mode):
    """iterator over the sequence a designates; mode: 'ref' yields references, 'val' yields values"""
    tgt, v = target(I, st, a)
    if mode == "ref" and tgt is not None:
        return T("it", "ref", tgt, INT0, length(v))
    return T("it", "val", v, INT0, length(v))

def map_iter(v, what, st=None, ordered=False):
    if ordered and v is not T("map"):
        # a BTreeMap visits its entries in key order
        def item(i):
            k, x = T("mkey", v, i), T("mval", v, i)
            if len(v.a) == 1 and v.op == "map" and v.a[0].op == "ins":
                k, x = v.a[0].a[0], v.a[0].a[1]
            return k, T("tup", k, x) if "kv" in what else k if "k" in what else x
        c = T("comp", T("len", v), (((), (one(item(T("bv", 1))[1]),)),))
        key = item(T("sortvar"))[0]
        st.event("sort", c, key)
        return T("it", "val", T("sorted", c, key), INT0, T("len", v))
    return T("it", "map", v, INT0, T("len", v) if v is not T("map") else INT0, what)

def as_iter(I, st, a, ty, byref=False):
    """IntoIterator::into_iter on the value / reference a of type ty."""
    t = I.p.types[ty] if ty is not None else {"k": "?"}
    isref = False
    while t["k"] == "ref":
        isref = True
        t = I.p.types[t["t"]]
    v = I.load(st, a)
    if v.op == "it":
        # &mut iterator
        if isref:
            tgt, _ = target(I, st, a)
            return tgt if tgt is not None else v
        return v
    if v.op == "adt":
        d = v.a[0]
        if d.endswith(("ops::range::Range", "ops::range::RangeInclusive", "ops::range::RangeFrom")):
            return v
        if d == OPT:
            return T("it", "val", seq(one(v.a[2])) if v.a[1] == 1 else seq(), INT0, engine.I(v.a[1]))
        if I.p.implix.get(("Iterator", d, "next")):
            return a if isref else v
        if d == RES:
            return T("it", "val", seq(one(v.a[2])) if v.a[1] == 0 else seq(), INT0, engine.I(1 - v.a[1]))
    if v.op == "map" or (t["k"] == "adt" and t["def"].endswith(("HashMap", "BTreeMap"))):
        return map_iter(v, "kv" if not isref else "rkv", st, t["k"] == "adt" and t["def"].endswith("BTreeMap"))
    if t["k"] == "adt" and t["def"].endswith(("HashSet", "BTreeSet")):
        return map_iter(v, "k")
    if t["k"] in ("slice", "array", "str") or (t["k"] == "adt" and t["def"] in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::collections::vec_deque::VecDeque")):
        return seq_iter(I, st, a, "ref" if isref else "val")
    if v.op in ("seq", "comp", "data", "sorted"):
        return seq_iter(I, st, a, "ref" if isref else "val")
    if t["k"] == "adt" and (t["def"].endswith(("::Iter", "::IntoIter", "::Split", "::Chars", "::Lines")) ):
        return T("it", "opq", v, INT0)
    if t["k"] == "adt" and I.p.implix.get(("Iterator", t["def"], "next")):
        return a if isref else v
    if t["k"] == "adt" and not isref:
        rs = I.p.implix.get(("IntoIterator", t["def"], "into_iter"), [])
        k = rs[0]["key"] if len(rs) == 1 else None
        if k in I.p.bodies and I.p.bodies[k]["local"] and st.stack.count(k) < 1:
            # the crate's own collection: what its into_iter hands over
            probe = st.clone()
            outs = I.exec_fn(probe, k, [a])
            if len(outs) == 1 and outs[0].kind == "ret" and outs[0].st.path is st.path:
                o = outs[0]
                st.cells.update(o.st.cells)
                st.ev = o.st.ev
                return I.load(st, o.val)
    if t["k"] in ("param", "alias", "opaque") or True:
        return T("it", "opq", v, INT0)

@m("IntoIterator::into_iter")
def _intoiter(I, st, c, args, atys, rty):
    return R(st, as_iter(I, st, args[0], atys[0] if atys else None))

@m("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "VecDeque::iter", "array::iter", "Vec::drain")
def _sliceiter(I, st, c, args, atys, rty):
    if c["method"] == "drain":
        tgt, v = target(I, st, args[0])
        r = rng(I, st, args[1], length(v))
        if r is None:
            return None
        lo, hi = r
        x = I.subseq(st, v, lo, hi)
        I.write(st, tgt.a[0], tgt.a[1], seq(I.subseq(st, v, INT0, lo), I.subseq(st, v, hi, length(v))))
        return R(st, T("it", "val", x, INT0, length(x)))
    return R(st, seq_iter(I, st, args[0], "ref"))

@m("Option::iter", "Option::into_iter")
def _optiter(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if v.op == "adt":
        return R(st, T("it", "val", seq(one(v.a[2])) if v.a[1] == 1 else seq(), INT0, engine.I(v.a[1])))
    d = T("discr", v)
    hint(d, 0, 1)
    return fork(st, eq(d, INT1), lambda s: R(s, T("it", "val", seq(one(T("vf", v, 1, 0))), INT0, INT1)), lambda s: R(s, T("it", "val", seq(), INT0, INT0)))

def isbtree(I, c, atys):
    return bool(atys) and atys[0] is not None and I.p.types[I.p.strip(atys[0])].get("def", "").endswith("BTreeMap")

@m("HashMap::iter", "BTreeMap::iter", "HashMap::iter_mut", "BTreeMap::iter_mut")
def _mapiter(I, st, c, args, atys, rty):
    return R(st, map_iter(I.load(st, args[0]), "rkv", st, isbtree(I, c, atys)))

@m("HashMap::keys", "BTreeMap::keys", "HashSet::iter", "HashMap::into_keys", "BTreeSet::iter")
def _mapkeys(I, st, c, args, atys, rty):
    return R(st, map_iter(I.load(st, args[0]), "k" if "into" in c["method"] else "rk", st, isbtree(I, c, atys)))

@m("HashMap::values", "BTreeMap::values", "HashMap::into_values", "HashMap::values_mut")
def _mapvals(I, st, c, args, atys, rty):
    return R(st, map_iter(I.load(st, args[0]), "v" if "into" in c["method"] else "rv", st, isbtree(I, c, atys)))

@m("str::chars")
def _chars(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    b = litval(v)
    if b is not None and isutf8(b):
        cs = b.decode()
        return R(st, T("it", "val", seq(*[one(engine.I(ord(x))) for x in cs]), INT0, engine.I(len(cs))))
    cv = T("chars", v)
    return R(st, T("it", "val", cv, INT0, T("len", cv)))

@m("str::bytes")
def _bytes(I, st, c, args, atys, rty):
    return R(st, seq_iter(I, st, I.load(st, args[0]), "val"))

@m("str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_whitespace", "str::lines", "str::split_terminator", "str::char_indices", "slice::split", "str::split_inclusive",
   "slice::windows", "slice::chunks", "slice::chunks_exact", "str::split_ascii_whitespace", "str::matches")
def _split(I, st, c, args, atys, rty):
    t = T("split", c["method"], *[I.load(st, a) for a in args])
    if c["method"] in ("split", "rsplit"):
        hint(T("len", t), 1, (1 << 32) - 1)      # (even of an empty text there is one part)
    return R(st, T("it", "val", t, INT0, T("len", t)))

@m("Url::path_segments")
def _pathseg(I, st, c, args, atys, rty):
    u = I.load(st, args[0])
    t = T("pathsegs", u)
    return fork(st, T("bool", "cannot_be_a_base", u), lambda s: R(s, NONE), lambda s: R(s, Some(T("it", "val", t, INT0, T("len", t)))))

@m("iter::once")
def _once(I, st, c, args, atys, rty):
    return R(st, T("it", "val", seq(one(args[0])), INT0, INT1))

@m("iter::empty")
def _empty(I, st, c, args, atys, rty):
    return R(st, T("it", "val", seq(), INT0, INT0))

@m("iter::repeat")
def _repeat(I, st, c, args, atys, rty):
    return R(st, T("it", "rep", args[0]))

@m("iter::from_fn")
def _fromfn(I, st, c, args, atys, rty):
    return R(st, T("it", "fromfn", args[0]))

@m("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::map_while", "Iterator::inspect")
def _adapt(I, st, c, args, atys, rty):
    return R(st, T("it", c["method"], as_iter(I, st, args[0], atys[0] if atys else None), args[1], *( (INT0,) if c["method"] == "skip_while" else ())))

@m("Iterator::flat_map")
def _flatmap(I, st, c, args, atys, rty):
    return R(st, T("it", "flatten", T("it", "map", as_iter(I, st, args[0], atys[0] if atys else None), args[1]), NONE))

@m("Iterator::flatten")
def _flatten(I, st, c, args, atys, rty):
    it = as_iter(I, st, args[0], atys[0] if atys else None)
    if it.op == "it" and it.a[0] in ("val", "ref") and it.a[2].op == "int" and it.a[3].op == "int" and it.a[3].a[0] - it.a[2].a[0] <= 3:
        # a known number of inner sequences
        r = None
        for k in range(it.a[2].a[0], it.a[3].a[0]):
            x = T("ref", it.a[1].a[0], it.a[1].a[1] + (("i", engine.I(k)),)) if it.a[0] == "ref" else I.index(st, it.a[1], engine.I(k))
            y = as_iter(I, st, x, None)
            r = y if r is None else T("it", "chain", r, y)
        return R(st, r if r is not None else T("it", "val", seq(), INT0, INT0))
    return R(st, T("it", "flatten", it, NONE))

@m("Iterator::enumerate")
def _enumerate(I, st, c, args, atys, rty):
    return R(st, T("it", "enumerate", as_iter(I, st, args[0], atys[0] if atys else None), INT0))

@m("Iterator::zip", "Iterator::chain", "zip::zip", "iter::zip")
def _zip(I, st, c, args, atys, rty):
    a = as_iter(I, st, args[0], atys[0] if atys else None)
    b = as_iter(I, st, args[1], atys[1] if atys else None)
    return R(st, T("it", "zip", a, b) if "zip" in c["method"] else T("it", "chain", a, b))

@m("Iterator::take", "Iterator::skip", "Iterator::step_by")
def _takeskip(I, st, c, args, atys, rty):
    a = as_iter(I, st, args[0], atys[0] if atys else None)
    n = args[1]
    # (an item that is only changed, taken or copied on its way is the same item)
    if c["method"] == "take" and a.op == "it" and (a.a[0] == "map" and len(a.a) == 3 or a.a[0] in ("cloned", "enumerate")):
        outs = []
        for o in _takeskip(I, st, c, [a.a[1], n], None, rty):
            o.val = T("it", a.a[0], o.val, *a.a[2:])
            outs.append(o)
        return outs
    if c["method"] == "skip" and a.op == "it" and a.a[0] in ("ref", "val"):
        kind, cc, i, hi = a.a
        return fork(st, le(add(i, n), hi), lambda s: R(s, T("it", kind, cc, add(i, n), hi)), lambda s: R(s, T("it", kind, cc, hi, hi)))
    if c["method"] == "take" and a.op == "it" and a.a[0] in ("ref", "val"):
        kind, cc, i, hi = a.a
        return fork(st, le(add(i, n), hi), lambda s: R(s, T("it", kind, cc, i, add(i, n))), lambda s: R(s, a))
    return R(st, T("it", c["method"], a, n))

@m("Iterator::rev")
def _rev(I, st, c, args, atys, rty):
    return R(st, reverse_it(as_iter(I, st, args[0], atys[0] if atys else None)))

def reverse_it(a):
    """The same items from the back, as a forward count."""
    if a.op == "it" and a.a[0] in ("ref", "val"):
        return T("it", "rv", a.a[0], a.a[1], a.a[3], INT0, sub(a.a[3], a.a[2]))
    if a.op == "it" and a.a[0] == "rv":
        k2, cc, hi, k, n = a.a[1:]
        return T("it", k2, cc, sub(hi, n), sub(hi, k))
    if a.op == "it" and a.a[0] == "cloned":
        return T("it", "cloned", reverse_it(a.a[1]))
    if a.op == "it" and a.a[0] == "map" and len(a.a) == 3:
        return T("it", "map", reverse_it(a.a[1]), a.a[2])
    if a.op == "adt" and a.a[0].endswith("ops::range::Range"):
        return T("it", "rr", a.a[3], INT0, sub(a.a[3], a.a[2]), a.a[2])
    return T("it", "rev", a)

@m("Iterator::cloned", "Iterator::copied")
def _cloned(I, st, c, args, atys, rty):
    return R(st, T("it", "cloned", as_iter(I, st, args[0], atys[0] if atys else None)))

@m("Iterator::fuse", "Iterator::into_iter")
def _fuse(I, st, c, args, atys, rty):
    return R(st, as_iter(I, st, args[0], atys[0] if atys else None))

@m("Iterator::cycle")
def _cycle(I, st, c, args, atys, rty):
    a = as_iter(I, st, args[0], atys[0] if atys else None)
    if a.op == "it" and a.a[0] in ("ref", "val") and a.a[2] is INT0:
        return R(st, T("it", "cycle", a, INT0))
    if a.op == "it" and a.a[0] == "cloned" and a.a[1].op == "it" and a.a[1].a[0] in ("ref", "val") and a.a[1].a[2] is INT0:
        return R(st, T("it", "cloned", T("it", "cycle", a.a[1], INT0)))
    return None

@m("Iterator::peekable")
def _peekable(I, st, c, args, atys, rty):
    return R(st, T("it", "peekable", as_iter(I, st, args[0], atys[0] if atys else None), NONE))

@m("Peekable::peek")
def _peek(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op != "it":
        return None
    pk = v.a[2]
    if pk.op == "adt" and pk.a[1] == 1:
        return R(st, pk.a[2])
    outs = []
    cell = I.newcell(st, v.a[1])
    for s2, x, r in it_next(I, st, T("ref", cell, ())):
        if r is not None:
            outs.append(r)
            continue
        o = NONE if x is None else Some(x)
        I.write(s2, tgt.a[0], tgt.a[1], T("it", "peekable", s2.cells[cell], Some(o)))
        outs += R(s2, o)
    return outs

def block(I, st, cc, i):
    """The i-th block of a sequence cut into blocks of k (i is one of them): it starts inside the sequence, and only the last may be shorter."""
    if cc.op != "split" or cc.a[0] not in ("chunks", "chunks_exact") or len(cc.a) != 3 or cc.a[2].op != "int" or cc.a[2].a[0] <= 0:
        return None
    v, k = cc.a[1], cc.a[2].a[0]
    i = st.simp(i)
    n, lo = length(v), scale(i, k)
    hi = add(lo, engine.I(k))
    out = []
    s2 = st.clone()
    if s2.assume(le(hi, n), True):
        out.append((s2, I.subseq(s2, v, lo, hi)))
    if cc.a[0] == "chunks" and st.assume(le(hi, n), False) and st.assume(lt(lo, n), True):
        out.append((st, I.subseq(st, v, lo, n)))
    return out

def it_next(I, st, ref):
    """Advance the iterator at ref.  -> list of (st, item | None, Out-for-abnormal)"""
    tgt, v = target(I, st, ref)
    if v.op == "adt":
        d = v.a[0]
        if d.endswith("ops::range::Range") or d.endswith("ops::range::RangeFrom"):
            lo = v.a[2]
            if d.endswith("RangeFrom"):
                I.write(st, tgt.a[0], tgt.a[1], T("adt", d, 0, add(lo, INT1)))
                return [(st, lo, None)]
            hi = v.a[3]
            res = []
            s2 = st.clone()
            if s2.assume(lt(lo, hi), True):
                I.write(s2, tgt.a[0], tgt.a[1], T("adt", d, 0, add(lo, INT1), hi))
                res.append((s2, lo, None))
            if st.assume(lt(lo, hi), False):
                res.append((st, None, None))
            return res
        if d.endswith("ops::range::RangeInclusive"):
            lo, hi = v.a[2], v.a[3]
            res = []
            ex = v.a[4] if len(v.a) > 4 else FALSE
            if ex is TRUE:
                return [(st, None, None)]
            s2 = st.clone()
            if s2.assume(le(lo, hi), True):
                I.write(s2, tgt.a[0], tgt.a[1], T("adt", d, 0, add(lo, INT1), hi, FALSE))
                res.append((s2, lo, None))
            if st.assume(le(lo, hi), False):
                res.append((st, None, None))
            return res
        for r in I.p.implix.get(("Iterator", d, "next"), []):
            res = []
            for o in I.exec_fn(st, r["key"], [tgt]):
                if o.kind != "ret":
                    res.append((o.st, None, o))
                    continue
                res += opt_split(I, o.st, o.val)
            return res
        raise Undecided("iterator " + d)
    if v.op != "it":
        if v.op == "hv":
            raise Undecided("widened iterator")
        v = T("it", "opq", v, INT0)
    kind = v.a[0]
    def put(s, *a):
        if tgt is not None:
            I.write(s, tgt.a[0], tgt.a[1], T("it", *a))
    if kind in ("ref", "val"):
        _, cc, i, hi = v.a
        res = []
        s2 = st.clone()
        if s2.assume(lt(i, hi), True):
            put(s2, kind, cc, add(i, INT1), hi)
            blk = block(I, s2, cc, i) if kind == "val" else None
            if blk is not None:
                res += [(q, x, None) for q, x in blk]
            else:
                x = T("ref", cc.a[0], cc.a[1] + (("i", s2.simp(i)),)) if kind == "ref" else I.index(s2, cc, i)
                res.append((s2, x, None))
        if st.assume(lt(i, hi), False):
            res.append((st, None, None))
        return res
    if kind == "map":
        if len(v.a) == 5:     # map iteration
            _, mv, i, hi, what = v.a
            res = []
            s2 = st.clone()
            if s2.assume(lt(i, hi), True):
                put(s2, "map", mv, add(i, INT1), hi, what)
                k, x = T("mkey", mv, s2.simp(i)), T("mval", mv, s2.simp(i))
                if len(mv.a) == 1 and mv.op == "map" and mv.a[0].op == "ins":
                    k, x = mv.a[0].a[0], mv.a[0].a[1]
                item = {"kv": T("tup", k, x), "rkv": T("tup", k, x), "k": k, "rk": k, "v": x, "rv": x}[what]
                res.append((s2, item, None))
            if st.assume(lt(i, hi), False):
                res.append((st, None, None))
            return res
        return with_inner(I, st, tgt, v, 1, lambda s, x: callf(I, s, I_field(tgt, v, 2, s, I), [x]))
    if kind == "inspect":
        def f(s, x):
            return [(q, x, r) for q, _, r in callf(I, s, v.a[2], [x])]
        return with_inner(I, st, tgt, v, 1, f)
    if kind in ("filter", "filter_map", "skip_while"):
        # a virtual loop that skips rejected items, unless the surrounding loop can do so
        if I.retry and (kind != "skip_while" or v.a[3] is not INT1):
            return one_pass(I, st, tgt, v)
        return drive_find(I, st, tgt, v)
    if kind == "take_while" or kind == "map_while":
        res = []
        for s, x, r in inner_next(I, st, tgt, v, 1):
            if r is not None or x is None:
                res.append((s, x, r))
                continue
            if kind == "take_while":
                cell = I.mkref(s, x)
                for s3, b, r3 in callf(I, s, v.a[2], [cell]):
                    if r3 is not None:
                        res.append((s3, None, r3))
                        continue
                    s4 = s3.clone()
                    if s4.assume(b, True):
                        res.append((s4, x, None))
                    if s3.assume(b, False):
                        res.append((s3, None, None))
            else:
                for s3, o, r3 in callf(I, s, v.a[2], [x]):
                    if r3 is not None:
                        res.append((s3, None, r3))
                    else:
                        res += opt_split(I, s3, o)
        return res
    if kind == "enumerate":
        res = []
        k = v.a[2]
        for s, x, r in inner_next(I, st, tgt, v, 1):
            if r is None and x is not None:
                cur = I.read(s, tgt.a[0], tgt.a[1])
                put(s, "enumerate", cur.a[1], add(k, INT1))
                x = T("tup", k, x)
            res.append((s, x, r))
        return res
    if kind == "cloned":
        return [(s, x if x is None or r is not None else I.load(s, x), r) for s, x, r in inner_next(I, st, tgt, v, 1)]
    if kind == "zip":
        res = []
        for s, x, r in inner_next(I, st, tgt, v, 1):
            if r is not None or x is None:
                res.append((s, None, r))
                continue
            v2 = I.read(s, tgt.a[0], tgt.a[1])
            for s3, y, r3 in inner_next(I, s, tgt, v2, 2):
                res.append((s3, T("tup", x, y) if y is not None and r3 is None else None, r3))
        return res
    if kind == "chain":
        res = []
        for s, x, r in inner_next(I, st, tgt, v, 1):
            if r is not None or x is not None:
                res.append((s, x, r))
                continue
            v2 = I.read(s, tgt.a[0], tgt.a[1])
            res += inner_next(I, s, tgt, v2, 2)
        return res
    if kind in ("take",):
        n = v.a[2]
        res = []
        s2 = st.clone()
        if s2.assume(lt(INT0, n), True):
            for s, x, r in inner_next(I, s2, tgt, v, 1):
                if r is None and x is not None:
                    cur = I.read(s, tgt.a[0], tgt.a[1])
                    put(s, "take", cur.a[1], sub(n, INT1))
                res.append((s, x, r))
        if st.assume(lt(INT0, n), False):
            res.append((st, None, None))
        return res
    if kind == "cycle":
        inner, i = v.a[1], v.a[2]
        _, ckind_c, lo, hi = inner.a
        res = []
        s2 = st.clone()
        if s2.assume(lt(INT0, hi), True):
            put(s2, "cycle", inner, add(i, INT1))
            j = rem(i, hi)
            x = T("ref", inner.a[1].a[0], inner.a[1].a[1] + (("i", s2.simp(j)),)) if inner.a[0] == "ref" else I.index(s2, inner.a[1], j)
            res.append((s2, x, None))
        if st.assume(lt(INT0, hi), False):
            res.append((st, None, None))
        return res
    if kind == "rv":
        _, k2, cc, hi, k, n = v.a
        res = []
        s2 = st.clone()
        if s2.assume(lt(k, n), True):
            put(s2, "rv", k2, cc, hi, add(k, INT1), n)
            j = sub(sub(hi, INT1), k)
            x = T("ref", cc.a[0], cc.a[1] + (("i", s2.simp(j)),)) if k2 == "ref" else I.index(s2, cc, j)
            res.append((s2, x, None))
        if st.assume(lt(k, n), False):
            res.append((st, None, None))
        return res
    if kind == "rr":
        _, hi, k, n, lo = v.a
        # an empty range (lo >= hi) yields nothing: n is then not positive
        res = []
        s2 = st.clone()
        if s2.assume(lt(k, n), True):
            put(s2, "rr", hi, add(k, INT1), n, lo)
            res.append((s2, s2.simp(sub(sub(hi, INT1), k)), None))
        if st.assume(lt(k, n), False):
            res.append((st, None, None))
        return res
    if kind == "rev":
        inner = v.a[1]
        if inner.op == "it" and inner.a[0] in ("ref", "val"):
            k2, cc, i, hi = inner.a
            res = []
            s2 = st.clone()
            if s2.assume(lt(i, hi), True):
                j = sub(hi, INT1)
                put(s2, "rev", T("it", k2, cc, i, j))
                x = T("ref", cc.a[0], cc.a[1] + (("i", s2.simp(j)),)) if k2 == "ref" else I.index(s2, cc, j)
                res.append((s2, x, None))
            if st.assume(lt(i, hi), False):
                res.append((st, None, None))
            return res
        if inner.op == "adt" and inner.a[0].endswith("ops::range::Range"):
            lo, hi = inner.a[2], inner.a[3]
            res = []
            s2 = st.clone()
            if s2.assume(lt(lo, hi), True):
                j = sub(hi, INT1)
                put(s2, "rev", T("adt", inner.a[0], 0, lo, j))
                res.append((s2, j, None))
            if st.assume(lt(lo, hi), False):
                res.append((st, None, None))
            return res
        raise Undecided("reversed iterator")
    if kind == "rep":
        return [(st, v.a[1], None)]
    if kind == "fromfn":
        res = []
        for s, o, r in callf(I, st, v.a[1], []):
            if r is not None:
                res.append((s, None, r))
            else:
                res += opt_split(I, s, o)
        return res
    if kind == "peekable":
        pk = v.a[2]
        if pk.op == "adt" and pk.a[1] == 1:
            put(st, "peekable", v.a[1], NONE)
            return opt_split(I, st, pk.a[2])
        return inner_next(I, st, tgt, v, 1)
    if kind == "flatten":
        return flat_next(I, st, tgt, v)
    if kind == "opq":
        src, i = v.a[1], v.a[2]
        n = T("len", src)
        res = []
        s2 = st.clone()
        if s2.assume(lt(i, n), True):
            put(s2, "opq", src, add(i, INT1))
            res.append((s2, T("elem", src, s2.simp(i)), None))
        if st.assume(lt(i, n), False):
            res.append((st, None, None))
        return res
    raise Undecided("iterator " + kind)

def I_field(tgt, v, k, s, I):
    """the closure stored in an adapter, by place so that FnMut state persists"""
    return v.a[k]

def flat_next(I, st, tgt, v, depth=0):
    """inner sequences are consumed one after the other"""
    if depth > 3:
        raise Undecided("flatten")
    front = v.a[2]
    res = []
    if front.op == "adt" and front.a[1] == 1:
        cell = I.newcell(st, front.a[2])
        for s, x, r in it_next(I, st, T("ref", cell, ())):
            if r is not None:
                res.append((s, None, r))
            elif x is not None:
                I.write(s, tgt.a[0], tgt.a[1], T("it", "flatten", v.a[1], Some(s.cells[cell])))
                res.append((s, x, None))
            else:
                v2 = T("it", "flatten", v.a[1], NONE)
                I.write(s, tgt.a[0], tgt.a[1], v2)
                res += flat_next(I, s, tgt, v2, depth + 1)
        return res
    for s, x, r in inner_next(I, st, tgt, v, 1):
        if r is not None or x is None:
            res.append((s, None, r))
            continue
        cur = I.read(s, tgt.a[0], tgt.a[1])
        it = as_iter(I, s, x, None)
        v2 = T("it", "flatten", cur.a[1], Some(it))
        I.write(s, tgt.a[0], tgt.a[1], v2)
        res += flat_next(I, s, tgt, v2, depth + 1)
    return res

def opt_split(I, st, o):
    o = I.load(st, o)
    if o.op == "adt":
        return [(st, o.a[2] if o.a[1] == 1 else None, None)]
    d = T("discr", o)
    hint(d, 0, 1)
    res = []
    s2 = st.clone()
    if s2.assume(eq(d, INT1), True):
        res.append((s2, T("vf", o, 1, 0), None))
    if st.assume(eq(d, INT0), True):
        res.append((st, None, None))
    return res

def callf(I, st, f, args):
    """call a closure value -> list of (st, val, abnormal Out)"""
    outs = []
    for o in I.call_value(st, f, args):
        if o.kind == "ret":
            outs.append((o.st, o.val, None))
        else:
            outs.append((o.st, None, o))
    return outs

def inner_next(I, st, tgt, v, k):
    x = v.a[k]
    if x.op in ("ref",):
        return it_next(I, st, x)
    if tgt is None:
        raise Undecided("iterator adapter without a place")
    cell = I.newcell(st, x, "n")
    res = []
    for s, y, r in it_next(I, st, T("ref", cell, ())):
        cur = I.read(s, tgt.a[0], tgt.a[1])
        a = list(cur.a)
        a[k] = s.cells.pop(cell, x)
        I.write(s, tgt.a[0], tgt.a[1], T("it", *a))
        res.append((s, y, r))
    return res

def with_inner(I, st, tgt, v, k, f):
    res = []
    for s, x, r in inner_next(I, st, tgt, v, k):
        if r is not None or x is None:
            res.append((s, None, r))
        else:
            res += f(s, x)
    return res

def drive(I, st, ref, step, finish, where):
    """for item in iterator: step(st, item) -> list of ('cont', st) | Out ; finish(st) -> list of Out"""
    def iterate(s):
        outs = []
        I.retry = True
        try:
            items = it_next(I, s, ref)
        finally:
            I.retry = False
        for s2, x, r in items:
            if r is not None:
                outs.append(r)
            elif x is None:
                outs += finish(s2)
            else:
                for k in step(s2, x):
                    if isinstance(k, tuple):
                        outs.append(Out("hdr", k[1]))
                    else:
                        outs.append(k)
        return outs
    return I.summarise(st, iterate, where)

def one_pass(I, st, tgt, v):
    """One item of the inner iterator: accepted, or another pass of the surrounding loop."""
    kind = v.a[0]
    res = []
    for s, x, r in inner_next(I, st, tgt, v, 1):
        if r is not None or x is None:
            res.append((s, None, r))
            continue
        arg = x if kind == "filter_map" else I.mkref(s, x)
        for s3, b, r3 in callf(I, s, v.a[2], [arg]):
            if r3 is not None:
                res.append((s3, None, r3))
            elif kind == "filter_map":
                for s4, y, _ in opt_split(I, s3, b):
                    res.append((s4, None, Out("hdr", s4)) if y is None else (s4, y, None))
            else:
                keep = kind == "filter"
                s4 = s3.clone()
                if s4.assume(b, keep):
                    if kind == "skip_while":
                        c2 = I.read(s4, tgt.a[0], tgt.a[1])
                        I.write(s4, tgt.a[0], tgt.a[1], T("it", *c2.a[:3], INT1))
                    res.append((s4, x, None))
                if s3.assume(b, not keep):
                    res.append((s3, None, Out("hdr", s3)))
    return res

def drive_find(I, st, tgt, v):
    kind = v.a[0]
    if kind == "skip_while" and len(v.a) > 3 and v.a[3] is INT1:
        return inner_next(I, st, tgt, v, 1)
    def iterate(s):
        outs = []
        cur = I.read(s, tgt.a[0], tgt.a[1])
        for s2, x, r in inner_next(I, s, tgt, cur, 1):
            if r is not None:
                outs.append(r)
                continue
            if x is None:
                outs.append(Out("ret", s2, NONE))
                continue
            if kind == "filter_map":
                for s3, o, r3 in callf(I, s2, cur.a[2], [x]):
                    if r3 is not None:
                        outs.append(r3)
                        continue
                    for s4, y, _ in opt_split(I, s3, o):
                        outs.append(Out("hdr", s4) if y is None else Out("ret", s4, Some(y)))
            else:
                arg = I.mkref(s2, x)
                for s3, b, r3 in callf(I, s2, cur.a[2], [arg]):
                    if r3 is not None:
                        outs.append(r3)
                        continue
                    s4 = s3.clone()
                    keep = kind == "filter"
                    if s4.assume(b, keep):
                        if kind == "skip_while":
                            c2 = I.read(s4, tgt.a[0], tgt.a[1])
                            I.write(s4, tgt.a[0], tgt.a[1], T("it", *c2.a[:3], INT1))
                        outs.append(Out("ret", s4, Some(x)))
                    if s3.assume(b, not keep):
                        outs.append(Out("hdr", s3))
        return outs
    # one attempt first: when iterated inside an outer loop the outer summary covers the skipping
    res = []
    for o in I.summarise(st, iterate, ("iter", kind)):
        if o.kind == "ret":
            res += [(s, x, None) for s, x, _ in opt_split(I, o.st, o.val)]
        else:
            res.append((o.st, None, o))
    return res

@m("Iterator::next")
def _next(I, st, c, args, atys, rty):
    outs = []
    for s, x, r in it_next(I, st, args[0]):
        outs += [r] if r is not None else R(s, NONE if x is None else Some(x))
    return outs

@m("DoubleEndedIterator::next_back")
def _nextback(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op == "it" and v.a[0] in ("ref", "val"):
        cell = I.newcell(st, T("it", "rev", v))
        outs = []
        for s, x, r in it_next(I, st, T("ref", cell, ())):
            I.write(s, tgt.a[0], tgt.a[1], s.cells[cell].a[1])
            outs += R(s, NONE if x is None else Some(x))
        return outs
    return None

def own_iter(I, st, a, ty):
    """place holding the iterator passed by value or by reference"""
    if a.op == "ref":
        v = I.load(st, a)
        if v.op == "it" or v.op == "adt":
            return a
    it = as_iter(I, st, a, ty)
    if it.op == "ref":
        return it
    return I.mkref(st, it)

def direct_items(I, st, v):
    """the items of an iterator over a literal list of elements"""
    return None

def whole(I, st, v):
    """If the iterator enumerates all of a known sequence unchanged, that sequence."""
    if v.op == "it" and v.a[0] == "val" and v.a[2] is INT0 and (v.a[3] is length(v.a[1]) or st.decide(eq(v.a[3], length(v.a[1]))) is True):
        return v.a[1]
    if v.op == "it" and v.a[0] in ("val",):
        return I.subseq(st, v.a[1], v.a[2], v.a[3])
    if v.op == "it" and v.a[0] == "cloned":
        w = v.a[1]
        if w.op == "it" and w.a[0] == "ref":
            return I.subseq(st, I.load(st, w.a[1]), w.a[2], w.a[3])
        return whole(I, st, w)
    if v.op == "it" and v.a[0] == "chain":
        a, b = whole(I, st, v.a[1]), whole(I, st, v.a[2])
        if a is not None and b is not None:
            return seq(a, b)
    return None

def collect_into(I, st, itref, ty, init, where):
    """-> outs with the collection as value"""
    t = I.p.types[ty] if ty is not None else {"k": "?"}
    d = t.get("def", t["k"])
    if d == RES or d == OPT:
        # stop at the first failure
        inner = t["args"][0]
        acc = I.newcell(st, seq() if not I.p.types[inner].get("def", "").endswith("Map") else T("map"))
        def step(s, x):
            x = I.load(s, x)
            outs = []
            good = 0 if d == RES else 1
            if x.op == "adt":
                cases = [(s, x.a[1], x.a[2] if len(x.a) > 2 else UNIT)]
            else:
                dd = T("discr", x)
                hint(dd, 0, 1)
                cases = []
                s2 = s.clone()
                if s2.assume(eq(dd, engine.I(good)), True):
                    cases.append((s2, good, T("vf", x, good, 0)))
                if s.assume(eq(dd, engine.I(1 - good)), True):
                    cases.append((s, 1 - good, T("vf", x, 1 - good, 0)))
            for s2, k, y in cases:
                if k == good:
                    add_item(I, s2, acc, inner, y)
                    outs.append(("cont", s2))
                else:
                    outs += R(s2, Err(y) if d == RES else NONE)
            return outs
        return drive(I, st, itref, step, lambda s: R(s, Ok(s.cells[acc]) if d == RES else Some(s.cells[acc])), where)
    w = whole(I, st, I.load(st, itref))
    if w is not None and not d.endswith(("Map", "Set")) and d != "alloc::string::String" and init is None:
        return R(st, w)
    acc = I.newcell(st, init if init is not None else (T("map") if d.endswith(("Map", "Set")) else seq()))
    def step(s, x):
        add_item(I, s, acc, ty, x)
        return [("cont", s)]
    outs = drive(I, st, itref, step, lambda s: R(s, s.cells[acc]), where)
    for o in outs:
        if o.kind == "ret" and isinstance(o.val, Term):
            o.val = remap(o.st.cells.get(acc, o.val))
            if d.endswith(("BTreeMap", "BTreeSet")):
                o.st.event("sorted_container", o.val)
    return outs

def remap(v):
    """a map rebuilt entry by entry from another map is that map"""
    if v.op == "map" and len(v.a) == 1 and v.a[0].op == "splice" and v.a[0].a[0].op == "mapcomp":
        v = T("map", v.a[0].a[0])
    if v.op == "map" and len(v.a) == 1 and v.a[0].op == "mapcomp":
        n, alts = v.a[0].a
        if n.op == "len" and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "ins":
            k, x = alts[0][1][0].a
            X = n.a[0]
            if k.op == "mkey" and x.op == "mval" and k.a[0] is X and x.a[0] is X and k.a[1].op == "bv" and x.a[1] is k.a[1]:
                return X
    return v

def add_item(I, s, acc, ty, x):
    t = I.p.types[ty] if ty is not None else {"k": "?"}
    d = t.get("def", t["k"])
    cur = s.cells[acc]
    if d.endswith("Map") or (cur.op == "map" and not d.endswith("Set")):
        x = I.load(s, x)
        k = x.a[0] if x.op == "tup" else T("fld", x, "0")
        y = x.a[1] if x.op == "tup" else T("fld", x, "1")
        s.cells[acc] = mk_ins(cur, keyof(I, s, k), y)
    elif d.endswith("Set"):
        s.cells[acc] = mk_ins(cur, keyof(I, s, x), UNIT)
    elif d == "alloc::string::String":
        y = I.load(s, x)
        if y.op == "int" or y.op in ("elem", "byte", "vf") and TYHINT.get(y):
            s.cells[acc] = seq(cur, charpiece(s, y))
        elif y.op in ("elem",) and y.a[0].op == "chars":
            s.cells[acc] = seq(cur, T("splice", T("utf8", y)))
        else:
            s.cells[acc] = seq(cur, y)
    else:
        s.cells[acc] = seq(cur, one(x))

@m("Iterator::collect", "FromIterator::from_iter")
def _collect(I, st, c, args, atys, rty):
    ref = own_iter(I, st, args[0], atys[0] if atys else None)
    return collect_into(I, st, ref, rty, None, ("collect", c["method"]))

@m("Extend::extend", "Vec::extend", "HashMap::extend")
def _extend(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    ty = I.p.strip(atys[0])
    it = as_iter(I, st, args[1], atys[1] if atys else None)
    d = I.p.types[ty].get("def", "")
    if it.op == "it" and it.a[0] == "opq" and it.a[2] is INT0 and d.endswith("Map"):
        I.write(st, tgt.a[0], tgt.a[1], T("map", *(v.a if v.op == "map" else (T("splice", v),)), T("extend", it.a[1])))
        return R(st, UNIT)
    if it.op == "it" and it.a[0] == "map" and len(it.a) == 5 and it.a[4] in ("kv", "rkv") and d.endswith("Map"):
        I.write(st, tgt.a[0], tgt.a[1], T("map", *(v.a if v.op == "map" else (T("splice", v),)), T("extend", it.a[1])))
        return R(st, UNIT)
    w = whole(I, st, it)
    if w is None and it.op == "it" and it.a[0] == "ref":
        w = I.subseq(st, I.load(st, it.a[1]), it.a[2], it.a[3])
    if w is not None and d == "alloc::vec::Vec":
        I.write(st, tgt.a[0], tgt.a[1], seq(v, w))
        return R(st, UNIT)
    ref = it if it.op == "ref" else I.mkref(st, it)
    outs = collect_into(I, st, ref, ty, v, ("extend", ""))
    for o in outs:
        if o.kind == "ret":
            I.write(o.st, tgt.a[0], tgt.a[1], o.val)
            o.val = UNIT
    return outs

@m("Iterator::find", "Iterator::find_map", "Iterator::any", "Iterator::all", "Iterator::position", "Iterator::for_each", "Iterator::count", "Iterator::fold", "Iterator::last", "Iterator::nth", "Iterator::try_for_each", "Iterator::sum", "Iterator::max", "Iterator::min")
def _consume(I, st, c, args, atys, rty):
    k = c["method"]
    it0 = args[0]
    ref = own_iter(I, st, it0, atys[0] if atys else None)
    if k == "nth":
        it = I.load(st, ref)
        if it.op == "it" and it.a[0] in ("ref", "val"):
            kind, cc, i, hi = it.a
            j = add(i, args[1])
            tgt, _ = target(I, st, ref)
            def yes(s):
                I.write(s, tgt.a[0], tgt.a[1], T("it", kind, cc, add(j, INT1), hi))
                return R(s, Some(T("ref", cc.a[0], cc.a[1] + (("i", s.simp(j)),)) if kind == "ref" else I.index(s, cc, j)))
            def no(s):
                I.write(s, tgt.a[0], tgt.a[1], T("it", kind, cc, hi, hi))
                return R(s, NONE)
            return fork(st, lt(j, hi), yes, no)
        return None
    if k == "count":
        it = I.load(st, ref)
        if it.op == "it" and it.a[0] in ("ref", "val"):
            return R(st, sub(it.a[3], it.a[2]))
    if k == "last":
        it = I.load(st, ref)
        if it.op == "it" and it.a[0] in ("ref", "val"):
            kind, cc, i, hi = it.a
            j = sub(hi, INT1)
            return fork(st, lt(i, hi), lambda s: R(s, Some(T("ref", cc.a[0], cc.a[1] + (("i", s.simp(j)),)) if kind == "ref" else I.index(s, cc, j))), lambda s: R(s, NONE))
    if k in ("count", "last", "sum", "max", "min"):
        return None
    idx = I.newcell(st, INT0 if k == "position" else args[1] if k == "fold" else UNIT)
    f = args[2] if k == "fold" else args[1]
    # closures keep their captured state across calls
    fr = f if f.op in ("ref", "fn") else I.mkref(st, f)
    def step(s, x):
        outs = []
        if k == "find":
            calls = callf(I, s, fr, [I.mkref(s, x)])
        elif k == "fold":
            calls = callf(I, s, fr, [s.cells[idx], x])
        else:
            calls = callf(I, s, fr, [x])
        for s2, v, r in calls:
            if r is not None:
                outs.append(r)
                continue
            if k == "for_each":
                outs.append(("cont", s2))
            elif k == "fold":
                s2.cells[idx] = v
                outs.append(("cont", s2))
            elif k == "find_map":
                for s3, y, _ in opt_split(I, s2, v):
                    outs += [("cont", s3)] if y is None else R(s3, Some(y))
            elif k == "try_for_each":
                v = I.load(s2, v)
                if v.op == "adt":
                    ok = 0 if v.a[0] == RES else 1
                    outs += [("cont", s2)] if v.a[1] == ok else R(s2, v)
                else:
                    raise Undecided("try_for_each")
            else:
                hit = k != "all"
                s3 = s2.clone()
                if s3.assume(v, hit):
                    outs += R(s3, {"find": lambda: Some(x), "any": lambda: TRUE, "all": lambda: FALSE, "position": lambda: Some(s3.cells[idx])}[k]())
                if s2.assume(v, not hit):
                    if k == "position":
                        s2.cells[idx] = add(s2.cells[idx], INT1)
                    outs.append(("cont", s2))
        return outs
    def fin(s):
        return R(s, {"find": lambda: NONE, "find_map": lambda: NONE, "any": lambda: FALSE, "all": lambda: TRUE, "position": lambda: NONE, "for_each": lambda: UNIT,
                     "fold": lambda: s.cells[idx], "try_for_each": lambda: Ok(UNIT)}[k]())
    return drive(I, st, ref, step, fin, ("iter", k))

@m("slice::sort_unstable_by_key", "slice::sort_by_key", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_cached_key")
def _sort(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    key = T("identity")
    if c["method"].endswith("_key"):
        e = T("elem", v, T("sortvar"))
        if v.op == "comp" and len(v.a[1]) == 1 and not v.a[1][0][0]:
            e = I.elem(st, v, T("sortvar"))
        probe = st.clone()
        rs = I.call_value(probe, args[1], [I.mkref(probe, e)])
        rs = [o for o in rs if o.kind == "ret"]
        key = I.snap(rs[0].st, rs[0].val) if len(rs) == 1 else T("unknown")
    elif c["method"].endswith("_by"):
        e1, e2 = T("elem", v, T("sortvar")), T("elem", v, T("sortvar2"))
        if v.op == "comp" and len(v.a[1]) == 1 and not v.a[1][0][0]:
            e1, e2 = I.elem(st, v, T("sortvar")), I.elem(st, v, T("sortvar2"))
        probe = st.clone()
        rs = I.call_value(probe, args[1], [I.mkref(probe, e1), I.mkref(probe, e2)])
        rs = [o for o in rs if o.kind == "ret"]
        key = T("cmpkey", I.snap(rs[0].st, rs[0].val)) if len(rs) == 1 else T("unknown")
    st.event("sort", v, key)
    I.write(st, tgt.a[0], tgt.a[1], T("sorted", v, key))
    return R(st, UNIT)

@m("Vec::retain", "Vec::retain_mut", "VecDeque::retain", "HashMap::retain", "BTreeMap::retain")
def _retain(I, st, c, args, atys, rty):
    """The kept items, each asked about once, in order."""
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    mp = norm_map(c)
    ref = I.mkref(st, map_iter(v, "kv", st, isbtree(I, c, atys)) if mp else T("it", "val", v, INT0, length(v)))
    acc = I.newcell(st, T("map") if mp else seq())
    def step(s, x):
        outs = []
        if mp:
            x = I.load(s, x)
            k, y = (x.a[0], x.a[1]) if x.op == "tup" else (T("fld", x, "0"), T("fld", x, "1"))
            place = I.mkref(s, y)
            a = [I.mkref(s, k), place]
        else:
            place = I.mkref(s, x)
            a = [place]
        for s3, b, r3 in callf(I, s, args[1], a):
            if r3 is not None:
                outs.append(r3)
                continue
            s4 = s3.clone()
            if s4.assume(b, True):
                y = I.load(s4, place)
                s4.cells[acc] = mk_ins(s4.cells[acc], keyof(I, s4, k), y) if mp else seq(s4.cells[acc], one(y))
                outs.append(("cont", s4))
            if s3.assume(b, False):
                outs.append(("cont", s3))
        return outs
    def fin(s):
        w = s.cells[acc]
        I.write(s, tgt.a[0], tgt.a[1], remap(w) if mp else w)
        return R(s, UNIT)
    return drive(I, st, ref, step, fin, ("iter", "retain"))

def norm_map(c):
    return "Map" in (c.get("path") or c["decl"])

@m("Vec::split_off", "String::split_off")
def _splitoff(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    L = length(v)
    def cut(s):
        r = I.subseq(s, v, args[1], L)
        I.write(s, tgt.a[0], tgt.a[1], I.subseq(s, v, INT0, args[1]))
        return R(s, r)
    return fork(st, lt(L, args[1]), lambda s: [Out("panic", s, ("index", "split_off beyond the end"))], cut)

@m("Vec::dedup_by")
def _dedupby(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if tgt is None:
        return None
    e1, e2 = [T("elem", v, T("sortvar")), T("elem", v, T("sortvar2"))]
    probe = st.clone()
    rs = [o for o in I.call_value(probe, args[1], [I.mkref(probe, e1), I.mkref(probe, e2)]) if o.kind == "ret"]
    key = T("samekey", I.snap(rs[0].st, rs[0].val)) if len(rs) == 1 else T("pure", "key")
    I.write(st, tgt.a[0], tgt.a[1], T("dedup", v, key))
    return R(st, UNIT)

@m("Vec::dedup", "Vec::dedup_by_key")
def _dedup(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    e = I.elem(st, v, T("sortvar")) if v.op == "comp" and len(v.a[1]) == 1 and not v.a[1][0][0] else T("elem", v, T("sortvar"))
    key = e
    if c["method"].endswith("_key"):
        probe = st.clone()
        rs = [o for o in I.call_value(probe, args[1], [I.mkref(probe, e)]) if o.kind == "ret"]
        key = I.snap(rs[0].st, rs[0].val) if len(rs) == 1 else T("pure", "key")
    I.write(st, tgt.a[0], tgt.a[1], T("dedup", v, key))
    return R(st, UNIT)

@m("Ord::cmp", "PartialOrd::partial_cmp", "str::cmp")
def _cmp(I, st, c, args, atys, rty):
    if c.get("key") and c["key"] in I.p.bodies and I.p.bodies[c["key"]]["local"]:
        return None
    r = T("cmp", I.snap(st, args[0]), I.snap(st, args[1]))
    return R(st, r if c["method"] == "cmp" else Some(r))

# ------------------------------------------------------------------ formatting
def decode_template(b):
    """fmt::Arguments template bytes -> list of ('lit', bytes) | ('arg', index|None, flags)"""
    out, i = [], 0
    nxt = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", b[i + 1:i + 1 + x]))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(("lit", b[i + 3:i + 3 + n]))
            i += 3 + n
        else:
            i += 1
            extra = False
            if x & 1:
                i += 4
                extra = True
            if x & 2:
                i += 2
                extra = True
            if x & 4:
                i += 2
                extra = True
            k = nxt
            if x & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            nxt = k + 1
            out.append(("arg", k, extra))
    return out

@m("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def _fmtstr(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, T("fmtargs", T("p", v)))

@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def _fmtarg(I, st, c, args, atys, rty):
    ty = atys[0] if atys and atys[0] is not None else None
    t = ty
    if t is not None:
        t = I.p.strip(t)
    return R(st, T("fmtarg", c["method"][4:], args[0], t))

@m("Arguments::new")
def _fmtnew(I, st, c, args, atys, rty):
    tpl = litval(I.load(st, args[0]))
    av = I.load(st, args[1])
    if tpl is None or av.op != "seq":
        raise Undecided("format template")
    al = [p.a[0] for p in av.a]
    ps_ = []
    for p in decode_template(tpl):
        if p[0] == "lit":
            ps_.append(T("p", lit(bytes(p[1]))))
        else:
            ps_.append(T("p", I.load(st, al[p[1]]) if not p[2] else T("fmtspec", I.load(st, al[p[1]]))))
    return R(st, T("fmtargs", *ps_))

def display(I, st, fa):
    """-> list of (st, seq, abnormal)"""
    if fa.op == "fmtspec":
        x = fa.a[0]
        return [(st, T("fmt", "spec", I.snap(st, x.a[1])), None)]
    kind, ref, ty = fa.a
    v = I.load(st, ref)
    if kind != "display":
        return [(st, T("fmt", kind, I.snap(st, v)), None)]
    t = I.p.types[ty] if ty is not None else {"k": "?"}
    if t["k"] == "int":
        return [(st, T("dec", v) if v.op != "int" else lit(str(v.a[0])), None)]
    if t["k"] == "char":
        return [(st, seq(charpiece(st, v)), None)]
    if t["k"] == "bool":
        x = st.simp(v)
        if x.op == "int":
            return [(st, lit("true" if x.a[0] else "false"), None)]
        return [(st, T("fmt", "bool", v), None)]
    if t["k"] == "str" or (t["k"] == "adt" and t["def"] in ("alloc::string::String", "alloc::borrow::Cow")):
        return [(st, v, None)]
    if t["k"] == "adt" and t["def"] == "alloc::boxed::Box" and v.op in ("seq",):
        return [(st, v, None)]
    d = t.get("def")
    if d:
        for r in I.p.implix.get(("Display", d, "fmt"), []):
            buf = I.newcell(st, seq(), "fb")
            res = []
            self_ = ref if ref.op == "ref" else I.mkref(st, v)
            for o in I.exec_fn(st, r["key"], [self_, T("ref", buf, ())]):
                if o.kind != "ret":
                    res.append((o.st, None, o))
                else:
                    x = I.load(o.st, o.val)
                    if x.op == "adt" and x.a[1] == 1:
                        res.append((o.st, None, Out("panic", o.st, ("panic", "fmt", "a Display implementation returned an error"))))
                        continue
                    res.append((o.st, o.st.cells[buf], None))
            return res
        if d == "core::fmt::Arguments":
            return render(I, st, v)
    return [(st, T("pure", "Display::fmt", I.snap(st, v)), None)]

def render(I, st, fargs):
    """-> list of (st, seq, n pieces, abnormal)"""
    v = I.load(st, fargs)
    if v.op != "fmtargs":
        raise Undecided("format arguments")
    acc = [(st, [], 0, None)]
    for p in v.a:
        x = p.a[0]
        nacc = []
        for s, ps_, n, r in acc:
            if r is not None:
                nacc.append((s, ps_, n, r))
                continue
            if x.op in ("fmtarg", "fmtspec"):
                for s2, y, r2 in display(I, s, x):
                    nacc.append((s2, ps_ + [y] if y is not None else ps_, n + 1, r2))
            else:
                nacc.append((s, ps_ + [x], n + 1, None))
        acc = nacc
    return [(s, seq(*[q if q.op in ("seq", "splice", "lit") else T("splice", q) for q in ps_]), n, r) for s, ps_, n, r in acc]

@m("fmt::format")
def _format(I, st, c, args, atys, rty):
    return [r if r is not None else Out("ret", s, q) for s, q, n, r in render(I, st, args[0])]

@m("ToString::to_string")
def _tostring(I, st, c, args, atys, rty):
    ty = I.p.strip(atys[0]) if atys and atys[0] is not None else None
    t = I.p.types[ty] if ty is not None else {"k": "?"}
    if t["k"] in ("param", "alias", "opaque", "dynamic", "?"):
        v = I.load(st, args[0])
        return R(st, v if v.op == "seq" else T("pure", "ToString::to_string", I.snap(st, v)))
    outs = []
    for s, q, r in display(I, st, T("fmtarg", "display", args[0], ty)):
        outs += [r] if r is not None else R(s, q)
    return outs

@m("Formatter::write_str", "Formatter::write_char", "Formatter::pad", "fmt::Write::write_str")
def _fwrite(I, st, c, args, atys, rty):
    x = I.load(st, args[1])
    append(I, st, args[0], charpiece(st, x) if c["method"] == "write_char" else x)
    return R(st, Ok(UNIT))

@m("Formatter::write_fmt")
def _fwritefmt(I, st, c, args, atys, rty):
    outs = []
    for s, q, n, r in render(I, st, args[1]):
        if r is not None:
            outs.append(r)
            continue
        append(I, s, args[0], q)
        outs += R(s, Ok(UNIT))
    return outs

@m("Display::fmt")
def _dispfmt(I, st, c, args, atys, rty):
    if c.get("key") and c["key"] in I.p.bodies and I.p.bodies[c["key"]]["local"]:
        return None
    outs = []
    ty = I.p.strip(atys[0]) if atys and atys[0] is not None else None
    for s, q, r in display(I, st, T("fmtarg", "display", args[0], ty)):
        if r is not None:
            outs.append(r)
            continue
        append(I, s, args[1], q)
        outs += R(s, Ok(UNIT))
    return outs

# ------------------------------------------------------------------ io
def is_mem_writer(I, ty, v):
    if v.op in ("seq", "comp") or (v.op == "hv" and v.a[1] == "acc"):
        return True
    if ty is not None:
        t = I.p.types[I.p.strip(ty)]
        if t["k"] == "adt" and t["def"] in ("alloc::vec::Vec", "alloc::string::String"):
            return True
    return False

def io_fork(I, st, ok, err, tag):
    """the operation may fail with an io::Error"""
    s2 = st.clone()
    outs = ok(st)
    e = s2.fresh("ioerr", T("tag", tag))
    outs += err(s2, e)
    return outs

def write_to(I, st, a, ty, data, atomic, okval=UNIT):
    """all of data goes to the writer a, or an error"""
    tgt, v = target(I, st, a)
    if is_mem_writer(I, ty, v):
        if tgt is None:
            raise Undecided("append through an unknown reference")
        I.write(st, tgt.a[0], tgt.a[1], seq(v, data))
        return R(st, Ok(okval))
    if v.op == "adt" and v.a[0] in ("BufWriter",):
        # what does not fit is written early, in pieces of its own
        now = seq(v.a[3], data)
        I.write(st, tgt.a[0], tgt.a[1], T("adt", "BufWriter", 0, v.a[2], now, v.a[4], engine.I(v.a[5].a[0] + 1)))
        if st.decide(le(length(now), v.a[4])) is True:
            return R(st, Ok(okval))
        def lost(s, e):
            s.event("w", bw_inner(I, s, v), data, False, atomic)
            return R(s, Err(e))
        return io_fork(I, st, lambda s: R(s, Ok(okval)), lost, "bufwrite")
    if v.op == "adt" and v.a[0] == "Cursor":
        inner, mem = target(I, st, v.a[2]) if v.a[2].op == "ref" else (None, v.a[2])
        if st.decide(eq(v.a[3], length(mem))) is not True or not is_mem_writer(I, None, mem):
            raise Undecided("write through a cursor")
        if inner is not None:
            I.write(st, inner.a[0], inner.a[1], seq(mem, data))
        I.write(st, tgt.a[0], tgt.a[1], T("adt", "Cursor", 0, v.a[2] if inner is not None else seq(mem, data), add(v.a[3], length(data))))
        return R(st, Ok(okval))
    def ok(s):
        s.event("w", v, data, True, atomic)
        return R(s, Ok(okval))
    def err(s, e):
        s.event("w", v, data, False, atomic)
        return R(s, Err(e))
    return io_fork(I, st, ok, err, "write")

def bw_inner(I, st, v):
    return target(I, st, v.a[2])[1]

def bw_flush(I, st, v):
    """What a BufWriter still holds goes to its writer: in one write when all of it fitted into the buffer, or came in one piece."""
    inner, buf, cap, n = v.a[2], v.a[3], v.a[4], v.a[5].a[0]
    ps_ = list(pieces(buf))
    k = next((i for i, p in enumerate(ps_) if p.op == "splice" and p.a[0].op == "copied"), None)
    if k is not None:
        with_ = lambda b: T("adt", "BufWriter", 0, inner, b, cap, v.a[5])
        def rest(s):
            return bw_flush(I, s, with_(seq(*ps_[k + 1:]))) if ps_[k + 1:] else R(s, Ok(UNIT))
        def body(s):
            def ok(s):
                s.event("copy", ps_[k].a[0].a[0], bw_inner(I, s, v), True)
                return rest(s)
            def err(s, e):
                s.event("copy", ps_[k].a[0].a[0], bw_inner(I, s, v), False)
                return R(s, Err(e))
            return io_fork(I, s, ok, err, "copy")
        if not k:
            return body(st)
        outs = []
        for o in bw_flush(I, st, with_(seq(*ps_[:k]))):
            outs += body(o.st) if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == 0 else [o]
        return outs
    whole = n <= 1 or not st.clone().assume(lt(cap, length(buf)), True)
    return write_to(I, st, inner if inner.op == "ref" else I.mkref(st, inner), None, buf, whole)

def drop_value(I, st, cell, path, v):
    """Dropping a BufWriter flushes it; failures go unseen. Returns the states."""
    if v.op == "adt" and v.a[0] == "BufWriter":
        if not pieces(v.a[3]):
            return [st]
        return [o.st for o in bw_flush(I, st, v)]
    sts = [st]
    if v.op in ("adt", "tup"):
        for x in v.a:
            if isinstance(x, Term):
                sts = [s2 for s1 in sts for s2 in drop_value(I, s1, None, (), x)]
    return sts

@m("Write::write_all")
def _writeall(I, st, c, args, atys, rty):
    return write_to(I, st, args[0], atys[0] if atys else None, I.load(st, args[1]), True)

@m("Write::write")
def _write(I, st, c, args, atys, rty):
    d = I.load(st, args[1])
    tgt, v = target(I, st, args[0])
    if is_mem_writer(I, atys[0] if atys else None, v):
        return write_to(I, st, args[0], atys[0], d, True, length(d))
    n = st.fresh("written", d)
    hint(n, 0, ISIZE)
    def ok(s):
        if not s.assume(le(n, length(d)), True):
            return []
        s.event("w_partial", v, d, n)
        return R(s, Ok(n))
    return io_fork(I, st, ok, lambda s, e: R(s, Err(e)), "write")

@m("Write::flush")
def _flush(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op == "adt" and v.a[0] == "BufWriter":
        I.write(st, tgt.a[0], tgt.a[1], T("adt", "BufWriter", 0, v.a[2], seq(), v.a[4], INT0))
        if not pieces(v.a[3]):
            return R(st, Ok(UNIT))
        return bw_flush(I, st, v)
    if is_mem_writer(I, atys[0] if atys else None, v):
        return R(st, Ok(UNIT))
    def ok(s):
        s.event("flush", v, True)
        return R(s, Ok(UNIT))
    return io_fork(I, st, ok, lambda s, e: R(s, Err(e)), "flush")

@m("Write::write_fmt")
def _writefmt(I, st, c, args, atys, rty):
    outs = []
    for s, q, n, r in render(I, st, args[1]):
        if r is not None:
            outs.append(r)
        elif is_str_fmt_write(I, c):
            append(I, s, args[0], q)
            outs += R(s, Ok(UNIT))
        else:
            outs += write_to(I, s, args[0], atys[0] if atys else None, q, n <= 1)
    return outs

def is_str_fmt_write(I, c):
    return (c.get("trait") or "").startswith("core::fmt")

@m("Write::write_str", "Write::write_char")
def _wstr(I, st, c, args, atys, rty):
    x = I.load(st, args[1])
    append(I, st, args[0], charpiece(st, x) if c["method"] == "write_char" else x)
    return R(st, Ok(UNIT))

def ends_big(I, c):
    return any("BigEndian" in I.p.tys(x) or "NetworkEndian" in I.p.tys(x) for x in c.get("args", [])) or not any("LittleEndian" in I.p.tys(x) for x in c.get("args", []))

@m("WriteBytesExt::write_u8", "WriteBytesExt::write_u16", "WriteBytesExt::write_u24", "WriteBytesExt::write_u32", "WriteBytesExt::write_u64", "WriteBytesExt::write_uint", "WriteBytesExt::write_i8", "WriteBytesExt::write_i16", "WriteBytesExt::write_i32", "WriteBytesExt::write_i64")
def _wint(I, st, c, args, atys, rty):
    k = c["method"][6:]
    if k == "uint":
        n = args[2].a[0] if args[2].op == "int" else None
        if n is None:
            raise Undecided("write_uint")
    else:
        n = int(k[1:]) // 8
    v = st.simp(args[1])
    if v.op == "icast" and v.a[1] >= 8 * n:
        v = v.a[0]          # the same low bits
    bs = [byte_of(st, v, 8 * j) for j in range(n)]
    if ends_big(I, c):
        bs.reverse()
    return write_to(I, st, args[0], atys[0] if atys else None, seq(*[one(b) for b in bs]), True)

@m("BufWriter::new", "BufWriter::with_capacity")
def _bufwriter(I, st, c, args, atys, rty):
    cap = args[0] if len(args) > 1 else engine.I(8192)
    return R(st, T("adt", "BufWriter", 0, args[-1], seq(), st.simp(cap), INT0))

@m("BufWriter::into_inner")
def _bwinto(I, st, c, args, atys, rty):
    v = args[0]
    if v.op == "adt" and v.a[0] == "BufWriter":
        inner = v.a[2]
        if not pieces(v.a[3]):
            return R(st, Ok(inner))
        outs = []
        for o in bw_flush(I, st, v):
            x = o.val
            o.val = Ok(inner) if x.a[1] == 0 else Err(x.a[2])
            outs.append(o)
        return outs
    return None

# ---- reading
class Src:
    """a byte source: ('stream', id, layers) or ('mem', place)"""

def open_src(I, st, a, ty=None):
    """-> dict describing the reader argument a designates"""
    tgt, v = target(I, st, a)
    if v.op == "adt" and v.a[0] == "BufReader":
        inner = open_val(I, st, v.a[2])
        return dict(inner, buf=v.a[3])
    if v.op == "adt" and v.a[0] == "Take":
        inner = open_val(I, st, v.a[2])
        return dict(inner, limit=v.a[3], take=tgt)
    if v.op == "adt" and v.a[0] == "Cursor":
        return dict(kind="cursor", place=tgt, data=v.a[2], pos=v.a[3])
    if v.op in ("seq",) or (ty is not None and I.p.types[I.p.strip(ty)]["k"] in ("slice",)):
        # &mut &[u8]: the place holding the slice reference
        place = a
        while place.op == "ref" and I.read(st, place.a[0], place.a[1]).op == "ref" and I.read(st, *I.read(st, place.a[0], place.a[1]).a).op == "ref":
            place = I.read(st, place.a[0], place.a[1])
        return dict(kind="slice", place=place, data=v)
    if v.op == "adt" and v.a[0].startswith(I.p.crate + "::") or v.op == "adt" and "::" in v.a[0]:
        return dict(kind="local", id=I.snap(st, v), place=tgt, ty=v.a[0])
    return dict(kind="stream", id=v)

def open_val(I, st, v):
    if v.op == "ref":
        return open_src(I, st, v)
    if v.op == "adt":
        return open_src(I, st, I.mkref(st, v))
    return dict(kind="stream", id=v)

def poscell(st, sid):
    c = ("pos", sid)
    if c not in st.cells:
        st.cells[c] = INT0
    return c

def advance(I, st, d, n, how):
    """consume n bytes -> data term"""
    if d["kind"] == "stream":
        c = poscell(st, d["id"])
        off = st.cells[c]
        st.cells[c] = add(off, n)
        st.event("r", d["id"], off, n, how, d.get("buf"))
        return T("data", d["id"], off, n)
    if d["kind"] == "cursor":
        off = d["pos"]
        cur = I.read(st, d["place"].a[0], d["place"].a[1])
        I.write(st, d["place"].a[0], d["place"].a[1], T("adt", "Cursor", 0, cur.a[2], add(off, n)))
        return I.subseq(st, I.load(st, d["data"]), off, add(off, n))
    if d["kind"] == "slice":
        x = d["data"]
        r = I.subseq(st, x, INT0, n)
        I.write(st, d["place"].a[0], d["place"].a[1], T("cref", I.subseq(st, x, n, length(x))))
        return r
    raise Undecided("read from " + d["kind"])

def avail(I, st, d):
    """upper bound on what is available (None: unknown)"""
    if d["kind"] == "cursor":
        return sub(length(I.load(st, d["data"])), d["pos"])
    if d["kind"] == "slice":
        return length(d["data"])
    return None

def take_update(I, st, d, n):
    if d.get("take") is not None:
        v = I.read(st, d["take"].a[0], d["take"].a[1])
        I.write(st, d["take"].a[0], d["take"].a[1], T("adt", "Take", 0, v.a[2], sub(v.a[3], n)))

def min_fork(st, a, b, k):
    """k(st, min(a, b))"""
    return fork(st, le(a, b), lambda s: k(s, a), lambda s: k(s, b))

@m("Read::read_exact")
def _readexact(I, st, c, args, atys, rty):
    d = open_src(I, st, args[0], atys[0] if atys else None)
    buf, bv = target(I, st, args[1])
    n = length(bv)
    if d["kind"] == "local":
        return None
    def ok(s):
        x = advance(I, s, d, n, "exact")
        take_update(I, s, d, n)
        I.write(s, buf.a[0], buf.a[1], x)
        return R(s, Ok(UNIT))
    def err(s, e):
        s.event("rfail", d.get("id", UNIT), n, "exact")
        I.write(s, buf.a[0], buf.a[1], T("clobbered", e))
        return R(s, Err(e))
    av = d.get("limit") if d.get("limit") is not None else avail(I, st, d)
    if av is not None and d["kind"] != "stream":
        return fork(st, le(n, av), ok, lambda s: err(s, s.fresh("ioerr", T("tag", "eof"))))
    if av is not None:
        return fork(st, le(n, av), lambda s: io_fork(I, s, ok, err, "read"), lambda s: err(s, s.fresh("ioerr", T("tag", "eof"))))
    return io_fork(I, st, ok, err, "read")

@m("Read::read")
def _read(I, st, c, args, atys, rty):
    d = open_src(I, st, args[0], atys[0] if atys else None)
    buf, bv = target(I, st, args[1])
    L = length(bv)
    if d["kind"] == "local":
        return None
    n = st.fresh("nread", T("tag", "read"), L if d.get("limit") is None else T("min", L, d["limit"]))
    hint(n, 0, ISIZE)
    def ok(s):
        if not s.assume(le(n, L), True):
            return []
        if d.get("limit") is not None and not s.assume(le(n, d["limit"]), True):
            return []
        av = avail(I, s, d)
        if av is not None and not s.assume(le(n, av), True):
            return []
        x = advance(I, s, d, n, "partial")
        take_update(I, s, d, n)
        I.write(s, buf.a[0], buf.a[1], seq(x, I.subseq(s, bv, n, L)))
        return R(s, Ok(n))
    if d["kind"] != "stream":
        return ok(st)
    def err(s, e):
        s.event("rfail", d.get("id", UNIT), L, "partial")
        return R(s, Err(e))
    return io_fork(I, st, ok, err, "read")

@m("Read::read_to_end", "Read::read_to_string")
def _readtoend(I, st, c, args, atys, rty):
    d = open_src(I, st, args[0], atys[0] if atys else None)
    dst, dv = target(I, st, args[1])
    string = c["method"] == "read_to_string"
    if d["kind"] == "local":
        # default methods of Read over a type of this crate: repeated read()
        x = T("contents", d["id"])
        def okl(s):
            s.event("readall", d["id"], d["ty"])
            I.write(s, dst.a[0], dst.a[1], seq(dv, x))
            if d.get("place") is not None:
                I.write(s, d["place"].a[0], d["place"].a[1], T("drained", d["id"]))
            return R(s, Ok(T("len", x)))
        return io_fork(I, st, okl, lambda s, e: R(s, Err(e)), "read")
    n = st.fresh("nrest", T("tag", "rest"), *([d["limit"]] if d.get("limit") is not None else []))
    hint(n, 0, ISIZE)
    def ok(s):
        if d.get("limit") is not None and not s.assume(le(n, d["limit"]), True):
            return []
        av = avail(I, s, d)
        k = n
        if av is not None:
            if d.get("limit") is None:
                k = av
            elif not s.assume(le(n, av), True):
                return []
        x = advance(I, s, d, k, "toend" if d.get("limit") is None else "limited")
        take_update(I, s, d, k)
        if string and not s.assume(T("bool", "utf8", x), True):
            return []
        I.write(s, dst.a[0], dst.a[1], seq(dv, x))
        return R(s, Ok(k))
    def err(s, e):
        s.event("rfail", d.get("id", UNIT), n, "toend")
        return R(s, Err(e))
    if d["kind"] != "stream" and not string:
        return ok(st)
    return io_fork(I, st, ok, err, "read")

@m("read::read_to_string", "io::read_to_string")
def _io_readtostring(I, st, c, args, atys, rty):
    out = I.mkref(st, seq())
    rd = args[0] if args[0].op == "ref" else I.mkref(st, args[0])
    outs = _readtoend(I, st, dict(c, method="read_to_string"), [rd, out], [atys[0] if atys else None, None], None)
    res = []
    for o in outs:
        if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == 0:
            o.val = Ok(I.read(o.st, out.a[0], out.a[1]))
        res.append(o)
    return res

@m("BufRead::read_until", "BufRead::read_line")
def _readuntil(I, st, c, args, atys, rty):
    d = open_src(I, st, args[0], atys[0] if atys else None)
    if d["kind"] == "local":
        return None
    line = c["method"] == "read_line"
    delim = engine.I(10) if line else args[1]
    dst, dv = target(I, st, args[1] if line else args[2])
    n = st.fresh("nuntil", delim)
    hint(n, 0, ISIZE)
    def ok(s):
        av = avail(I, s, d)
        if av is not None and not s.assume(le(n, av), True):
            return []
        x = advance(I, s, d, n, "until")
        I.write(s, dst.a[0], dst.a[1], seq(dv, x))
        return R(s, Ok(n))
    def err(s, e):
        s.event("rfail", d.get("id", UNIT), n, "until")
        return R(s, Err(e))
    if line:
        return io_fork(I, st, ok, err, "read")
    return io_fork(I, st, ok, err, "read")

@m("ReadBytesExt::read_uint", "ReadBytesExt::read_u8", "ReadBytesExt::read_u16", "ReadBytesExt::read_u24", "ReadBytesExt::read_u32", "ReadBytesExt::read_u64", "ReadBytesExt::read_u128", "ReadBytesExt::read_i8", "ReadBytesExt::read_i16", "ReadBytesExt::read_i24", "ReadBytesExt::read_i32", "ReadBytesExt::read_i64", "ReadBytesExt::read_i128", "ReadBytesExt::read_int")
def _readint(I, st, c, args, atys, rty):
    d = open_src(I, st, args[0], atys[0] if atys else None)
    k = c["method"][5:]
    if k in ("uint", "int"):
        if args[1].op != "int":
            raise Undecided("read_uint")
        n = args[1].a[0]
    else:
        n = int(k[1:]) // 8
    big = ends_big(I, c)
    def ok(s):
        x = advance(I, s, d, engine.I(n), "exact")
        take_update(I, s, d, engine.I(n))
        if n == 1:
            r = I.index(s, x, INT0)
            hint(r, 0, 255)
        elif big:
            r = be_of(I, s, x, n)
        else:
            r = INT0
            for j in range(n):
                r = add(r, scale(I.index(s, x, engine.I(j)), 256 ** j))
        return signed(s, r, 8 * n, Ok) if k[0] == "i" else R(s, Ok(r))
    def err(s, e):
        s.event("rfail", d.get("id", UNIT), engine.I(n), "exact")
        return R(s, Err(e))
    av = avail(I, st, d)
    if av is not None:
        return fork(st, le(engine.I(n), av), ok, lambda s: err(s, s.fresh("ioerr", T("tag", "eof"))))
    return io_fork(I, st, ok, err, "read")

@m("Read::take")
def _rtake(I, st, c, args, atys, rty):
    return R(st, T("adt", "Take", 0, args[0], args[1]))

@m("Take::limit")
def _tlimit(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, v.a[3] if v.op == "adt" else T("fld", v, "limit"))

@m("Take::into_inner", "BufReader::into_inner", "BufReader::get_ref", "BufReader::get_mut", "Cursor::into_inner", "Cursor::get_ref")
def _intoinner(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if v.op == "adt" and v.a[0] in ("Take", "BufReader", "Cursor", "BufWriter"):
        if v.a[0] == "BufReader":
            st.event("bufdrop", v.a[3])
        return R(st, v.a[2])
    return None

@m("BufReader::new", "BufReader::with_capacity")
def _bufreader(I, st, c, args, atys, rty):
    inner = args[-1]
    st.cnt += 1
    bid = T("bufid", st.cnt)
    d = open_val(I, st, inner)
    if len(args) > 1:
        alloc(st, st.simp(args[0]))
    st.event("bufnew", bid, d.get("id", d["kind"]))
    return R(st, T("adt", "BufReader", 0, inner, bid))

@m("Cursor::new")
def _cursor(I, st, c, args, atys, rty):
    return R(st, T("adt", "Cursor", 0, args[0], INT0))

@m("util::empty", "io::empty")
def _ioempty(I, st, c, args, atys, rty):
    return R(st, T("adt", "Cursor", 0, seq(), INT0))

@m("array::map", "slice::map")
def _arrmap(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    if v.op != "seq" or length(v).op != "int" or length(v).a[0] > 64:
        raise Undecided("map of an array of unknown contents")
    f = args[1] if args[1].op in ("ref", "fn") else I.mkref(st, args[1])
    done, live = [], [(st, ())]
    for i in range(length(v).a[0]):
        nxt = []
        for s, got in live:
            for s2, x, r in callf(I, s, f, [I.index(s, v, T("int", i))]):
                if r is not None:
                    done.append(r)
                else:
                    nxt.append((s2, got + (x,)))
        live = nxt
        if len(live) > 4096:
            raise Undecided("map of an array")
    return done + [Out("ret", s, seq(*[one(x) for x in got])) for s, got in live]

@m("Cursor::position")
def _curpos(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, v.a[3])

@m("Read::chain")
def _rchain(I, st, c, args, atys, rty):
    return R(st, T("chainreader", I.snap(st, args[0]), I.snap(st, args[1])))

@m("Read::bytes")
def _rbytes(I, st, c, args, atys, rty):
    raise Undecided("Read::bytes")

@m("copy::copy", "io::copy")
def _copy(I, st, c, args, atys, rty):
    src = I.snap(st, args[0])
    tgt, v = target(I, st, args[1])
    stgt, _ = target(I, st, args[0])
    if v.op == "adt" and v.a[0] == "BufWriter":
        # what it copies stays behind what it holds; all that does not fit is written early
        def okb(s):
            I.write(s, tgt.a[0], tgt.a[1], T("adt", "BufWriter", 0, v.a[2], seq(v.a[3], T("copied", src)), v.a[4], engine.I(v.a[5].a[0] + 2)))
            if stgt is not None:
                I.write(s, stgt.a[0], stgt.a[1], T("drained", src))
            return R(s, Ok(T("len", T("contents", src))))
        def errb(s, e):
            s.event("copy", src, bw_inner(I, s, v), False)
            return R(s, Err(e))
        return io_fork(I, st, okb, errb, "copy")
    if is_mem_writer(I, atys[1] if atys else None, v):
        d = open_src(I, st, args[0], atys[0] if atys else None)
        if d["kind"] != "local":
            # into a vector it is read_to_end
            return _readtoend(I, st, dict(c, method="read_to_end"), args, atys, rty)
        def okm(s):
            I.write(s, tgt.a[0], tgt.a[1], seq(v, T("contents", src)))
            s.event("copy", src, UNIT, True)
            return R(s, Ok(T("len", T("contents", src))))
        return io_fork(I, st, okm, lambda s, e: R(s, Err(e)), "copy")
    def ok(s):
        s.event("copy", src, v, True)
        if stgt is not None:
            I.write(s, stgt.a[0], stgt.a[1], T("drained", src))
        return R(s, Ok(T("len", T("contents", src))))
    def err(s, e):
        s.event("copy", src, v, False)
        return R(s, Err(e))
    return io_fork(I, st, ok, err, "copy")

# ------------------------------------------------------------------ httparse / url / crypto / json
@m("Request::new", "Response::new")
def _hpnew(I, st, c, args, atys, rty):
    d = tydef(I, rty) if rty is not None else ""
    if not d.startswith("httparse::"):
        return None
    n = I.p.adts[d]["variants"][0]["fields"]
    return R(st, T("adt", d, 0, *[args[0] if f[0] == "headers" else NONE for f in n]))

@m("Request::parse", "Response::parse")
def _hpparse(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op != "adt" or not v.a[0].startswith("httparse::"):
        return None
    buf = I.load(st, args[1])
    cap = length(I.load(st, v.a[2 + [f[0] for f in I.p.adts[v.a[0]]["variants"][0]["fields"]].index("headers")]))
    fields = I.p.adts[v.a[0]]["variants"][0]["fields"]
    def fill(s, hv):
        fs = []
        for f in fields:
            if f[0] == "headers":
                fs.append(hv)
            else:
                x = T("hp", f[0], buf)
                I.hint_ty(x, f[2] if len(f) > 2 and isinstance(f[2], int) else I.p.strip(rty)) if False else None
                dd = T("discr", x)
                DISCRS[dd] = (0, 1)
                if f[0] == "code":
                    hint(T("vf", x, 1, 0), 100, 999)
                fs.append(x)
        I.write(s, tgt.a[0], tgt.a[1], T("adt", v.a[0], 0, *fs))
    ok = T("bool", "hp_ok", buf)
    def good(s):
        h = T("hp", "headers", buf)
        hint(length(h), 0, cap.a[0] if cap.op == "int" else ISIZE)
        fill(s, h)
        s.event("httparse", buf, True, cap)
        complete = T("bool", "hp_complete", buf)
        sd = next((x for x in I.p.adts if x.endswith("httparse::Status")), "httparse::Status")
        def comp(q):
            # a complete head has every field of its first line
            for f in fields:
                if f[0] != "headers":
                    q.assume(eq(T("discr", T("hp", f[0], buf)), INT1), True)
            n = T("hp", "consumed", buf)
            hint(n, 0, ISIZE)
            return R(q, Ok(T("adt", sd, 0, n)))
        return fork(s, complete, comp, lambda q: R(q, Ok(T("adt", sd, 1))))
    def bad(s):
        # fields parsed before the error stay filled in
        fill(s, T("hp", "headers", buf))
        s.event("httparse", buf, False, cap)
        return R(s, Err(T("hperr", buf)))
    return fork(st, ok, good, bad)

def urlparse(I, st, x):
    return fork(st, T("bool", "url_ok", x), lambda s: R(s, Ok(T("url", x))), lambda s: R(s, Err(T("urlerr", x))))

@m("Url::parse")
def _urlparse(I, st, c, args, atys, rty):
    return urlparse(I, st, I.load(st, args[0]))

@m("Digest::new", "Sha1::new")
def _shanew(I, st, c, args, atys, rty):
    return R(st, T("digest", T("ty", I.p.tys(rty)), seq()))

@m("Digest::update", "Update::update", "Digest::chain_update")
def _shaupd(I, st, c, args, atys, rty):
    tgt, v = target(I, st, args[0])
    if v.op != "digest":
        return None
    x = T("digest", v.a[0], seq(v.a[1], I.load(st, args[1])))
    if c["method"] == "chain_update":
        return R(st, x)
    I.write(st, tgt.a[0], tgt.a[1], x)
    return R(st, UNIT)

@m("Digest::finalize")
def _shafin(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    return R(st, T("hash", v.a[0], v.a[1])) if v.op == "digest" else None

@m("Digest::digest")
def _shadig(I, st, c, args, atys, rty):
    ty = c["args"][0] if c.get("args") else None
    return R(st, T("hash", T("ty", I.p.tys(ty) if ty is not None else "?"), I.load(st, args[0])))

@m("encode::encode", "base64::encode")
def _b64(I, st, c, args, atys, rty):
    return R(st, T("base64", I.load(st, args[0])))

@m("encode::encode_config", "base64::encode_config")
def _b64c(I, st, c, args, atys, rty):
    cfg = I.load(st, args[1])
    # Config { char_set, pad, decode_allow_trailing_bits }: STANDARD is the first character set, padded
    if cfg.op == "adt" and len(cfg.a) >= 4 and cfg.a[2].op == "adt" and cfg.a[3].op == "int":
        if cfg.a[2].a[1] == 0 and cfg.a[3].a[0] == 1:
            return R(st, T("base64", I.load(st, args[0])))
        return R(st, T("pure", "base64::config", I.load(st, args[0]), cfg))
    return None

@m("ser::to_string", "serde_json::to_string")
def _tojson(I, st, c, args, atys, rty):
    v = I.snap(st, args[0])
    return R(st, Ok(T("json", v))) if True else None

@m("de::from_str", "serde_json::from_str")
def _fromjson(I, st, c, args, atys, rty):
    v = I.load(st, args[0])
    ok = I.p.tys(I.p.types[rty]["args"][0])
    x = T("unjson", T("ty", ok), v)
    I.hint_ty(x, I.p.types[rty]["args"][0])
    return fork(st, T("bool", "json_ok", T("ty", ok), v), lambda s: R(s, Ok(x)), lambda s: R(s, Err(T("jsonerr", v))))

# ------------------------------------------------------------------ lunatic
@m("TcpListener::accept")
def _accept(I, st, c, args, atys, rty):
    x = st.fresh("accept", I.snap(st, args[0]))
    def ok(s):
        s.event("accept", x, True)
        return R(s, Ok(T("tup", T("conn", x), T("peer", x))))
    return io_fork(I, st, ok, lambda s, e: (s.event("accept", x, False), R(s, Err(e)))[1], "accept")

@m("Process::spawn", "Process::spawn_link", "Process::spawn_config", "Process::spawn_link_tag", "Process::spawn_link_config", "Process::spawn_link_config_tag")
def _spawn(I, st, c, args, atys, rty):
    n = norm_path(c)
    f = args[-1]
    ctx = args[1] if "config" in c["method"] else args[0]
    snap = I.snap(st, ctx)
    p = st.fresh("process", T("tag", n))
    sub_ = st.clone()
    sub_.ev, sub_.path = None, None
    sub_.stack = ()
    # captured values travel by serialisation: the child only sees the snapshot
    mb = T("mailbox", p)
    outs = None
    if I.spawn_exec:
        outs = I.call_value(sub_, f, [snap, mb])
    st.event("spawn", snap, f, outs, p)
    return R(st, p)

@m("Mailbox::receive")
def _receive(I, st, c, args, atys, rty):
    mb = I.snap(st, args[0])
    x = st.fresh("msg", mb)
    st.event("receive", mb, x)
    if rty is not None:
        I.hint_ty(x, rty)
    return R(st, x)

@m("Process::send")
def _send(I, st, c, args, atys, rty):
    st.event("send", I.snap(st, args[0]), I.snap(st, args[1]))
    return R(st, UNIT)
