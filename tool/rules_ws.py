"""WebSocket rules."""
from lib import *

RULES = {}
def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d

OPC = {0: "Continue", 1: "Text", 2: "Binary", 8: "Terminate", 9: "Ping", 10: "Pong"}

# ---------------------------------------------------------------- the frame decoder, tabulated
ALL16 = (1 << 65536) - 1
def _tile0(bits256):
    """set over b0 -> set over (b0,b1), index b0*256+b1"""
    r = 0
    full = (1 << 256) - 1
    for b in range(256):
        if bits256 >> b & 1:
            r |= full << (b * 256)
    return r
_T1 = sum(1 << (b * 256) for b in range(256))
def _tile1(bits256):
    return bits256 * _T1

class Grid:
    """The set of first-two-byte values (65536-bit set) satisfying a fact, for one choice of the remaining header
    bytes / availability: the value-set domain on which path conditions are evaluated."""
    def __init__(g, src, ext, delta=0):
        g.src, g.ext, g.delta = src, ext, delta     # ext: bytes 2.. ; delta: bytes missing at the end of the payload
        g.memo = {}
    def env(g, b0, b1):
        def f(t):
            if t.op == "byte" and t.a[0] is g.src and t.a[1].op == "int":
                o = t.a[1].a[0]
                if o == 0: return b0
                if o == 1: return b1
                if o - 2 < len(g.ext): return g.ext[o - 2]
                return None
            if t.op == "ext" and t.a[0] in ("nread", "nrest") and len(t.a) > 3:
                # everything asked for is there (up to delta)
                v = ev(t.a[3], f)
                return None if v is None or (t.a[0] == "nrest" and v < g.delta) else v - (g.delta if t.a[0] == "nrest" else 0)
            return None
        return f
    def sat(g, fact):
        r = g.memo.get(fact)
        if r is not None:
            return r
        t, tr = fact
        offs = {x.a[1] for x in walk(t) if x.op == "byte"} | {add(x.a[1], I(i)) for x in walk(t) if x.op == "be" for i in range(x.a[2])}
        dep0 = I(0) in offs
        dep1 = I(1) in offs or any(x.op == "ext" for x in walk(t)) or any(o.op != "int" for o in offs)
        if not dep0:
            m = 0
            for b1 in range(256):
                v = ev(t, g.env(0, b1))
                if v is None or bool(v) == tr:
                    m |= 1 << b1
            r = _tile1(m)
        elif not dep1:
            m = 0
            for b0 in range(256):
                v = ev(t, g.env(b0, 0))
                if v is None or bool(v) == tr:
                    m |= 1 << b0
            r = _tile0(m)
        else:
            r = 0
            for b0 in range(256):
                m = 0
                for b1 in range(256):
                    v = ev(t, g.env(b0, b1))
                    if v is None or bool(v) == tr:
                        m |= 1 << b1
                r |= m << (b0 * 256)
        g.memo[fact] = r
        return r
    def region(g, o):
        r = ALL16
        for f in o.facts():
            r &= g.sat(f)
            if not r:
                break
        return r

def members(region, limit=None):
    n = 0
    while region:
        low = (region & -region).bit_length() - 1
        yield low >> 8, low & 255
        region &= region - 1
        n += 1
        if limit and n >= limit:
            return

LENREPS = [0, 1, 5, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 70000, 1 << 24]
def grids(src, outs):
    """Header continuations covering every class of declared length the code can distinguish."""
    consts = set(LENREPS)
    for o in outs:
        for f, tr in o.facts():
            for x in walk(f):
                if x.op == "int" and 0 <= x.a[0] < 1 << 32:
                    consts |= {x.a[0], x.a[0] + 1} | ({x.a[0] - 1} if x.a[0] else set())
    gs = []
    for n in sorted(consts):
        if n < 65536:
            # bytes 2..3 hold n as u16; bytes 4.. are mask/payload bytes when the 16-bit form is in use
            gs.append((Grid(src, n.to_bytes(2, "big"), 0), 126, n))
        gs.append((Grid(src, n.to_bytes(8, "big"), 0), 127, n))
    gs.append((Grid(src, b"", 0), 0, None))
    return gs

_S126 = _tile1(sum(1 << b for b in range(256) if b & 127 == 126))
_S127 = _tile1(sum(1 << b for b in range(256) if b & 127 == 127))
_SHORT = ALL16 & ~_S126 & ~_S127
_MASKED = _tile1(sum(1 << b for b in range(256) if b & 128))
def cls_region(c):
    return {126: _S126, 127: _S127, 0: _SHORT}[c]

def valid_region(cls, n):
    """Headers RFC 6455 requires a server to accept from a client (for length class cls, extended length n)."""
    r0 = 0
    for b0 in range(256):
        op = b0 & 15
        if b0 & 0x70 or op not in OPC:
            continue
        if op >= 8 and not b0 & 0x80:
            continue
        r0 |= 1 << b0
    r = _tile0(r0) & _MASKED & cls_region(cls)
    ctl = _tile0(sum(1 << b0 for b0 in range(256) if b0 & 15 >= 8))
    if cls == 126:
        if n < 126: return 0
        r &= ~ctl
    if cls == 127:
        if n < 65536: return 0
        r &= ~ctl
    return r

def frame_parse(c):
    root = c.fn("ws::frame::Frame::parse")
    I_, outs = c.run(root)
    src = T("arg", 0)
    return root, I_, outs, src

def reads_of(o, src):
    """(ok reads, failed?, foreign buffering?)"""
    rs, fail, buf = [], False, False
    for e in flat(o.events()):
        if e[0] == "r" and e[1] is src:
            rs.append(e)
        elif e[0] == "rfail":
            fail = True
        elif e[0] in ("bufnew", "bufdrop"):
            buf = True
    return rs, fail, buf

@rule("W03")
def w03(c):
    """decode table: fin/rsv/opcode bits, length class; valid headers accepted, errors only when justified"""
    root, I_, outs, src = frame_parse(c)
    F = c.adt("Frame")["path"]
    oks = [o for o in outs if o.kind == "ret" and is_ok(o.val)]
    if not oks:
        return c.never("no-success-path", "Frame::parse never succeeds", root["path"])
    g0 = Grid(src, b"", 0)
    for fname, bit in (("fin", 0x80), ("rsv1", 0x40), ("rsv2", 0x20), ("rsv3", 0x10)):
        bad = unk = None
        seen = set()
        for o in oks:
            reg = g0.region(o)
            v = I_.snap(o.st, c.field(I_.snap(o.st, pay(o.val)), "Frame", fname))
            b0s = {b0 for b0 in range(256) if reg >> (b0 * 256) & ((1 << 256) - 1)}
            for b0 in b0s:
                x = ev(v, g0.env(b0, 0))
                if x is None:
                    unk = show(v)
                elif bool(x) != bool(b0 & bit):
                    bad = (b0, x, show(v))
        c.must("decode:" + fname, False if bad else (("value not a function of byte 0: " + unk) if unk else True),
               "Frame::parse sets %s to %s for first byte 0x%02x (term %s)" % ((fname, bad[1], bad[0], bad[2]) if bad else (fname, 0, 0, "")), root["path"])
    bad = unk = None
    for o in oks:
        reg = g0.region(o)
        v = I_.snap(o.st, c.field(I_.snap(o.st, pay(o.val)), "Frame", "op_code", ty="OpCode"))
        b0s = {b0 for b0 in range(256) if reg >> (b0 * 256) & ((1 << 256) - 1)}
        if v.op != "adt":
            unk = show(v)
            continue
        name = c.vname("OpCode", v.a[1])
        for b0 in b0s:
            want = OPC.get(b0 & 15, "Reserved")
            if name != want:
                bad = (b0, name, want)
    c.must("decode:opcode", False if bad else (("opcode not tabulated: " + unk) if unk else True),
           "Frame::parse decodes first byte 0x%02x as OpCode::%s, the protocol says %s" % (bad or (0, "", "")), root["path"])
    # declared length: the payload read must be bounded by exactly the declared length
    badacc = badlen = None
    ncls = 0
    for g, cls, n in grids(src, outs):
        vr = valid_region(cls, n)
        cov = 0
        for o in outs:
            reg = g.region(o) & cls_region(cls)
            if not reg:
                continue
            rs, fail, buf = reads_of(o, src)
            if o.kind == "ret" and is_ok(o.val):
                cov |= reg
                ncls += 1
                dec = I_.snap(o.st, c.field(I_.snap(o.st, pay(o.val)), "Frame", "decoded", ty="Vec"))
                ln = length(dec)
                for b0, b1 in members(reg & _one_per_b1(), 256):
                    L = (b1 & 127) if cls == 0 else n
                    x = ev(ln, g.env(b0, b1))
                    if L >= 1 << 31:
                        # more than the address space holds: such a payload cannot have been read
                        at = o.st.cells.get(("pos", src))
                        at = None if at is None else ev(at, g.env(b0, b1))
                        if at is None or at >= L:
                            continue
                    if x is not None and x != L:
                        badlen = (b0, b1, L, x, show(ln))
            elif o.kind == "ret" and not fail:
                hit = reg & vr
                if hit:
                    b0, b1 = next(members(hit))
                    badacc = badacc or (b0, b1, n, show(o.val))
        miss = vr & ~cov
        if miss:
            b0, b1 = next(members(miss))
            badacc = badacc or (b0, b1, n, "no success path")
    c.must("decode:length", badlen is None, "declared length %s: header 0x%02x 0x%02x yields a payload of %s bytes (%s)" % ((badlen[2], badlen[0], badlen[1], badlen[3], badlen[4]) if badlen else (0, 0, 0, 0, "")), root["path"])
    c.must("decode:valid-accepted", badacc is None, "a valid header is refused: bytes 0x%02x 0x%02x, extended length %s -> %s" % (badacc or (0, 0, 0, "")), root["path"])
    c.samples.append("%d success paths, %d failing paths tabulated over 65536 first-two-byte values x %d length representatives" % (len(oks), len(outs) - len(oks), len(grids(src, outs))))

_one = None
def _one_per_b1():
    """one b0 (0x82) for every b1 plus every b0 for a few b1: enough to read the length"""
    global _one
    if _one is None:
        _one = _tile0(sum(1 << b for b in (0x00, 0x01, 0x81, 0x82, 0x89, 0x8a, 0x88)))
    return _one


# ---------------------------------------------------------------- element-level view of a decoded payload
def elem_at(v, i, env):
    """Term of element i of a sequence value, lengths evaluated by env; None when unknown."""
    off = 0
    for p in pieces(v):
        if p.op == "lit":
            n = len(p.a[0])
        elif p.op == "one":
            n = 1
        else:
            n = ev(length(p.a[0]), env)
            if n is None and p.a[0].op == "comp":
                n = comp_at(p.a[0], None, env)
        if n is None:
            return None
        if i - off < n:
            j = i - off
            if p.op == "lit":
                return I(p.a[0][j])
            if p.op == "one":
                return p.a[0]
            q = p.a[0]
            if q.op == "data":
                return T("byte", q.a[0], add(q.a[1], I(j)))
            if q.op == "comp" and (len(q.a[1]) > 1 or q.a[1][0][0]):
                return comp_at(q, j, env)
            if q.op == "comp" and len(q.a[1]) == 1 and not q.a[1][0][0]:
                ps_ = q.a[1][0][1]
                if any(x.op != "one" for x in ps_) or not ps_:
                    return None
                return subst(ps_[j % len(ps_)].a[0], {T("bv", engine.compdepth(q)): I(j // len(ps_))})
            if q.op == "store":
                x = ev(q.a[1], env)
                if x is None:
                    return None
                return q.a[2] if x == j else elem_at(q.a[0], j, env)
            if q.op == "repeat":
                return q.a[0]
            if q.op == "sub":
                lo = ev(q.a[1], env)
                return None if lo is None else elem_at(q.a[0], lo + j, env)
            if q.op == "cyc":
                n2 = ev(length(q.a[0]), env)
                return None if not n2 else elem_at(q.a[0], j % n2, env)
            return None
        off += n
    return None

COMPS = {}
def comp_at(q, j, env):
    """Element j of what a loop with passes of several kinds wrote: the passes are laid out one after the other, each of the kind its
    conditions select.  (How many there are, when j is None.)"""
    n = ev(q.a[0], env)
    if n is None:
        return None
    k = ("bv", engine.compdepth(q))
    bv = T(*k)
    st = COMPS.get(q)
    if st is None or st[0] is not env:
        if len(COMPS) > 64:
            COMPS.clear()
        st = COMPS[q] = [env, 0, []]      # passes laid out so far, (first element, pieces) of each
    _, off, rows = st
    import bisect
    while (j is None or off <= j) and len(rows) < n:
        i = len(rows)
        e2 = lambda t: i if t is bv else env(t)
        hit = None
        for fs, ps_ in q.a[1]:
            ok = True
            for f, t in fs:
                v = ev(f, e2)
                if v is None:
                    return None
                if bool(v) != t:
                    ok = False
                    break
            if ok:
                hit = ps_
                break
        if hit is None:
            return None
        rows.append((off, hit))
        m = ev(length(seq(*hit)), e2)
        if m is None:
            return None
        off += m
        st[1] = off
    if j is None:
        return off
    i = bisect.bisect_right(rows, j, key=lambda r: r[0]) - 1
    if i < 0 or j >= off:
        return None
    x = elem_at(seq(*[subst(p, {bv: I(i)}) for p in rows[i][1]]), j - rows[i][0], env)
    return None if x is None else subst(x, {bv: I(i)})

def xor_leaves(t, env, src):
    """The stream offsets xored together in t plus an integer constant; None when t is not such a xor."""
    if t.op == "bxor":
        a, b = xor_leaves(t.a[0], env, src), xor_leaves(t.a[1], env, src)
        return None if a is None or b is None else (sorted(a[0] + b[0]), a[1] ^ b[1])
    if t.op == "byte" and t.a[0] is src:
        o = ev(t.a[1], env)
        return None if o is None else ([o], 0)
    if t.op == "elem":
        j = ev(t.a[1], env)
        x = elem_at(t.a[0], j, env) if j is not None else None
        return None if x is None else xor_leaves(x, env, src)
    if t.op == "trunc" and t.a[1] == 8:
        return xor_leaves(t.a[0], env, src)
    if t.op in ("shr", "band", "be", "lin", "div", "rem"):
        # a byte cut out of a wider big-endian read
        x = bytecut(t, env, src)
        if x is not None:
            return x
    v = ev(t, lambda x: None)
    return None if v is None else ([], v & 255)

def bytecut(t, env, src):
    sh, w = 0, t
    if w.op == "band" and w.a[1].op == "int" and w.a[1].a[0] == 255:
        w = w.a[0]
    if w.op == "shr":
        k = ev(w.a[1], env)
        if k is None or k % 8:
            return None
        sh, w = k // 8, w.a[0]
    if w.op == "be" and w.a[0] is src:
        o = ev(w.a[1], env)
        if o is None or sh >= w.a[2]:
            return None
        return ([o + w.a[2] - 1 - sh], 0)
    return None

def cancel(offs):
    out = []
    for o in offs:
        if out and out[-1] == o:
            out.pop()
        else:
            out.append(o)
    return out

def ok_classes(c):
    """(path, grid, length class, declared length, header bytes, region) for every success path and length class."""
    root, I_, outs, src = frame_parse(c)
    gs = grids(src, outs)
    for o in outs:
        if o.kind != "ret" or not is_ok(o.val):
            continue
        for g, cls, n in gs:
            reg = g.region(o) & cls_region(cls)
            if reg:
                yield o, g, cls, n, reg

def idx_reps(L):
    if L <= 600:
        return range(L)
    return list(range(600)) + list(range(L - 8, L)) + [x for x in (65534, 65535, 65536, 65537) if x < L]

@rule("W04")
def w04(c):
    """Masking: an unmasked non-empty frame is never accepted, and payload byte i is wire byte i xor key byte i mod 4, the key being the four bytes after the length."""
    root, I_, outs, src = frame_parse(c)
    unm = unk = bad = None
    done = set()
    n_elems = 0
    for o, g, cls, n, reg in ok_classes(c):
        um = reg & ~_MASKED
        if cls == 0:
            um &= ~_tile1(1)          # declared length zero
        if um and not (cls and n == 0):
            b0, b1 = next(members(um))
            unm = unm or (b0, b1, n)
        m = reg & _MASKED
        if not m:
            continue
        dec = I_.snap(o.st, c.field(I_.snap(o.st, pay(o.val)), "Frame", "decoded", ty="Vec"))
        if cls == 0:
            b1s = sorted({b1 for b0, b1 in members(m & _one_per_b1())})
        else:
            b1s = [255 if cls == 127 else 254]
        for b1 in b1s:
            L = (b1 & 127) if cls == 0 else n
            if L == 0 or L > 1 << 20:
                continue
            key = (dec, cls, L)
            if key in done:
                continue
            done.add(key)
            h = 2 + (2 if cls == 126 else 8 if cls == 127 else 0)
            env = g.env(0x82, b1)
            for i in idx_reps(L):
                n_elems += 1
                e = elem_at(dec, i, env)
                x = None if e is None else xor_leaves(e, env, src)
                if x is None:
                    unk = "payload element %d of %d: %s" % (i, L, show(e or dec))
                    break
                want = sorted([h + 4 + i, h + i % 4])
                if cancel(x[0]) != want or x[1]:
                    bad = bad or (L, i, show(e), cancel(x[0]), x[1], want)
                    break
    c.must("mask:required", unm is None, "an unmasked frame with a payload is accepted (first bytes %s, extended length %s)" % (unm and "0x%02x 0x%02x" % unm[:2], unm and unm[2]), root["path"])
    c.must("mask:xor", False if bad else (unk if unk else True),
           bad and "payload of %d bytes: byte %d is %s (stream offsets %s, constant %d), the protocol says offsets %s" % bad, root["path"])
    c.samples.append("%d payload elements compared with wire[i] ^ key[i mod 4]" % n_elems)

@rule("W07")
def w07(c):
    """Exact consumption: a decoded frame has consumed exactly its header, key and payload bytes, however they were chunked, read-ahead buffers are never used, and truncated frames are never accepted."""
    root, I_, outs, src = frame_parse(c)
    oks = [o for o in outs if o.kind == "ret" and is_ok(o.val)]
    buf = part = None
    for o in outs:
        for e in flat(o.events()):
            if e[0] == "bufnew" and e[2] is src:
                buf = True
    for name in ("ws::message::Message::next",):
        r = c.fn(name)
        I2 = c.interp()
        hook_result(I2, "Frame::parse", "frame")
        _, os2 = c.run(r, I2)
        for o in os2:
            for e in flat(o.events()):
                if e[0] == "bufnew":
                    buf = True
    for r, tag in ((c.fn(self="WebSocket", trait="Iterator", name="next"), "Message::next"),):
        I2 = c.interp()
        hook_result(I2, "Message::next", "message")
        _, os2 = c.run(r, I2)
        for o in os2:
            for e in flat(o.events()):
                if e[0] == "bufnew":
                    buf = True
    c.must("consume:no-read-ahead", buf is None, "a frame is read through a fresh read-ahead buffer: bytes of the next frame are lost with it", root["path"])
    # short reads
    for o in oks:
        for e in o.events():
            if e[0] == "r" and e[1] is src and e[4] == "partial":
                n = e[3]
                req = n.a[3] if n.op == "ext" and len(n.a) > 3 else None
                if req is None:
                    continue
                # does the path exclude a short read?
                if o.st.clone().assume(lt(n, req), True):
                    part = show(n)
    c.must("consume:short-read", part is None, "a short read is taken for a complete one (%s): a frame split across segments is decoded from bytes that were never received" % part, root["path"])
    wrong = unk = trunc_ = None
    cnt = 0
    seen = set()
    for o, g, cls, n, reg in ok_classes(c):
        pos = o.st.cells.get(("pos", src))
        if pos is None:
            unk = "position not tracked"
            continue
        for b0, b1 in members(reg & _one_per_b1()):
            L = (b1 & 127) if cls == 0 else n
            if (pos, cls, L, b1 & 128) in seen:
                continue
            seen.add((pos, cls, L, b1 & 128))
            cnt += 1
            x = ev(pos, g.env(b0, b1))
            want = 2 + (2 if cls == 126 else 8 if cls == 127 else 0) + (4 if b1 & 128 else 0) + L
            if x is None:
                unk = show(pos)
            elif x != want:
                wrong = wrong or (b0, b1, L, x, want, show(pos))
    c.must("consume:exact", False if wrong else (unk if unk else True),
           wrong and "frame 0x%02x 0x%02x with declared length %d consumes %d bytes instead of %d (%s)" % wrong, root["path"])
    # truncated payloads
    for n in (1, 2, 5, 125, 126, 127, 65535, 65536, 70000):
        for d in (1, n):
            for cls, ext in ((0, b""), (126, n.to_bytes(2, "big") if n < 65536 else None), (127, n.to_bytes(8, "big"))):
                if ext is None or (cls == 0 and n > 125):
                    continue
                g = Grid(src, ext, d)
                only = cls_region(cls) if cls else _tile1((1 << n) | (1 << (n | 128)))
                for o in oks:
                    if not any(e[0] == "r" and e[3].op == "ext" for e in flat(o.events())) and not any(x.op == "ext" for f, t in o.facts() for x in walk(f)):
                        continue
                    r = g.region(o) & only & _MASKED
                    # the condition on which a counting loop is left holds in the end, whatever it counts to
                    cs = {e[1].counter[0] for e in flat(o.events()) if e[0] == "loop" and e[1].counter is not None}
                    if r and not any(ev(f, g.env(*next(members(r)))) is None for f, t in o.facts() if any(x.op == "ext" for x in walk(f)) and not any(x in cs for x in walk(f))):
                        trunc_ = trunc_ or (n, n - d)
    c.must("consume:truncated", trunc_ is None, trunc_ and "a frame declaring %d bytes is accepted when the stream ends after %d" % trunc_, root["path"])
    c.samples.append("%d (path, header class) pairs: final stream position compared with 2 + extended length + key + payload" % cnt)

# ---------------------------------------------------------------- sending
KIND = {"Text": 1, "Binary": 2, "Ping": 9, "Pong": 10}
SENDLENS = [0, 1, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, (1 << 24) + 3, (1 << 31) - 1]

def sent(o, evs=None):
    """Written pieces of a path (successful writes), and whether any write failed / was partial."""
    ws, fail, partial = [], False, False
    for e in flat(o.events() if evs is None else evs):
        if e[0] == "w":
            ws.append(e)
            fail |= not e[3]
        elif e[0] == "w_partial":
            ws.append(e)
            partial = True
    return ws, fail, partial

def check_frame(v, plen, payload_of, op, n):
    """Compare a written byte layout with the RFC 6455 server frame for opcode op and a payload of n bytes.
    Returns True, a mismatch message, or None with a reason (undecided)."""
    env = lambda t: n if t is plen else None
    lay = layout(v, env)
    hdr = [0x80 | op] + ([n] if n < 126 else [126] + list(n.to_bytes(2, "big")) if n < 65536 else [127] + list(n.to_bytes(8, "big")))
    k = len(hdr)
    got = lay[:k]
    for i, (x, y) in enumerate(zip(got, hdr)):
        if isinstance(x, tuple):
            if x[0] == "over":
                return False, "header byte %d overflows (%d)" % (i, x[1])
            if x[0] == "*":
                return False, "header has %d bytes, needs %d" % (i, k)
            return None, "header byte %d is %s" % (i, show(x[1]))
        if x != y:
            return False, "header byte %d is 0x%02x, the protocol says 0x%02x" % (i, x, y)
    if len(got) < k:
        return False, "header has %d bytes, needs %d" % (len(got), k)
    rest = lay[k:]
    if payload_of is None:
        if rest:
            return False, "unexpected bytes after the header"
        return True, ""
    rest = [x for x in rest]
    if n == 0 and not rest:
        return True, ""
    if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == "*":
        if rest[0][1] is payload_of:
            return True, ""
        if opaque_in(rest[0][1]):
            return None, "payload is %s" % show(rest[0][1])
        return False, "payload is %s instead of the message's own" % show(rest[0][1])
    if any(isinstance(x, tuple) and x[0] != "over" and opaque_in(x[1]) for x in rest):
        return None, "payload layout %s" % str(rest)[:200]
    return False, "payload layout is %s, not the message's payload" % (", ".join(("0x%02x" % x) if isinstance(x, int) else show(x[1]) if isinstance(x[1], Term) else str(x) for x in rest[:6]) or "empty")

def msg_paths(c, I_, outs, m):
    """(variant name, payload term or None for absent, path)"""
    for o in outs:
        if o.kind != "ret":
            continue
        for vi, var in enumerate(c.adt("Message")["variants"]):
            d = T("discr", m)
            f1 = facts_hold([f for f in o.facts()], lambda t: vi if t is d else None)
            if f1 is False:
                continue
            p = T("vf", m, vi, 0)
            if "Option" in var["fields"][0][1]:
                dd = T("discr", p)
                for k in (0, 1):
                    if facts_hold(o.facts(), lambda t: vi if t is d else k if t is dd else None) is False:
                        continue
                    yield var["name"], (T("vf", p, 1, 0) if k else None), o
            else:
                yield var["name"], p, o

def send_root(c):
    root = c.fn("ws::websocket::WebSocket::send_to_stream")
    I_, outs = c.run(root)
    return root, I_, outs, T("arg", 0), T("arg", 1)

def joined(ws):
    return seq(*[p for e in ws for p in pieces(e[2])])

def each_sent(c):
    """(variant, payload, path, joined bytes, plen term, length n) for every successful send and payload length class."""
    for root, mi in ((c.fn("ws::websocket::WebSocket::send_to_stream"), 1), (c.fn("ws::websocket::WebSocket::send"), 1)):
        I_, outs = c.run(root)
        m = T("arg", mi)
        for name, p, o in msg_paths(c, I_, outs, m):
            if not is_ok(o.val):
                continue
            plen = length(p) if p is not None else None
            # lengths the code compares with
            lens = set(SENDLENS) if p is not None else {0}
            if p is not None:
                for f, t in o.facts():
                    for x in walk(f):
                        if x.op == "int" and 0 <= x.a[0] < 1 << 32:
                            lens |= {max(0, x.a[0] - 1), x.a[0], x.a[0] + 1}
            for n in sorted(lens):
                if p is not None and facts_hold(o.facts(), lambda t: n if t is plen else None) is False:
                    continue
                yield root, name, p, o, plen, n

@rule("W05")
def w05(c):
    """Frame encoding: the bytes written for a message start with FIN set, no reserved bits, unmasked, with the shortest length form the protocol defines, and carry exactly the payload's length."""
    cnt = 0
    bad, unk, cov = {}, {}, set()
    for root, name, p, o, plen, n in each_sent(c):
        ws, fail, partial = sent(o)
        v = joined(ws)
        env = lambda t: n if t is plen else None
        lay = layout(v, env)
        cnt += 1
        cov.add((root["name"], name, n))
        b0 = lay[0] if lay else None
        form = "len%s" % ("7" if n < 126 else "16" if n < 65536 else "64")
        if b0 is None:
            bad["empty:" + name] = "%s(%d bytes): nothing is written" % (name, n)
            continue
        if isinstance(b0, tuple):
            unk["flags"] = str(b0)
        elif b0 & 0xf0 != 0x80:
            bad["flags"] = "%s: first byte 0x%02x, FIN must be set and the reserved bits clear" % (name, b0)
        hdr = ([n] if n < 126 else [126] + list(n.to_bytes(2, "big")) if n < 65536 else [127] + list(n.to_bytes(8, "big")))
        got = lay[1:1 + len(hdr)]
        rest = lay[1 + len(hdr):]
        def isbytes(x): return isinstance(x, int)
        if any(isinstance(x, tuple) and x[0] == "?" for x in got):
            unk[form] = str([x for x in got if isinstance(x, tuple)][:1])
        elif got != hdr:
            bad[form] = "%s of %d bytes: length bytes %s, the protocol says %s" % (name, n, [x if isbytes(x) else x[0] for x in got], hdr)
        else:
            # payload length: what follows
            tot = 0
            for x in rest:
                if isbytes(x) or x[0] == "?":
                    tot += 1
                else:
                    k = ev(length(x[1]), env) if isinstance(x[1], Term) else None
                    tot = None if tot is None or k is None else tot + k
            if tot is None:
                unk["size"] = "length of the written payload: %s" % show(v)
            elif tot != n:
                bad["size"] = "%s of %d bytes: %d payload bytes are written" % (name, n, tot)
    for k in ("flags", "len7", "len16", "len64", "size"):
        c.must("encode:" + k, False if k in bad else unk.get(k, True), bad.get(k, ""), "WebSocket::send")
    for k in bad:
        if k.startswith("empty"):
            c.bad("encode:" + k, bad[k], "WebSocket::send")
    c.samples.append("%d (entry, path, payload length) triples laid out byte by byte; length classes %s" % (cnt, sorted({x[2] for x in cov})[:24]))
    answers(c)

def own_form(lay, env):
    """Is a written byte layout a well-formed server frame of its own payload?  (True|False|None, reason)"""
    for x in lay[:2]:
        if not isinstance(x, int):
            return None, "header is %s" % (x,)
    if len(lay) < 2:
        return False, "only %d bytes are written" % len(lay)
    if lay[0] & 0xf0 != 0x80:
        return False, "first byte 0x%02x, FIN must be set and the reserved bits clear" % lay[0]
    k = {126: 2, 127: 8}.get(lay[1], 0)
    ext = lay[2:2 + k]
    if any(not isinstance(x, int) for x in ext):
        return None, "length is %s" % (ext,)
    if len(ext) < k:
        return False, "the extended length is cut off"
    n = int.from_bytes(bytes(x & 255 for x in ext), "big") if k else lay[1] & 127
    if lay[1] & 128:
        return False, "the frame is masked"
    if k and n < (126 if k == 2 else 65536):
        return False, "length %d is written in the %d byte form" % (n, k)
    tot = 0
    for x in lay[2 + k:]:
        if isinstance(x, int) or x[0] == "?":
            tot += 1
        else:
            q = ev(length(x[1]), env) if isinstance(x[1], Term) else None
            if q is None:
                return None, "payload %s" % (show(x[1]) if isinstance(x[1], Term) else x,)
            tot += q
    return (True, "") if tot == n else (False, "length %d is declared and %d payload bytes follow" % (n, tot))

def answers(c):
    """The frames a connection writes by itself (pongs, close frames) are well-formed as well."""
    f = ws_fresh(c)
    if f is None:
        return c.unk("encode:answers", "WebSocket::new is not a plain constructor")
    I_, o0, s = f
    root, res = nexts(c, I_, o0, o0.val)
    close = c.fn("ws::websocket::WebSocket::close")
    runs = [(root, x, evs, fs) for x, evs, fs, conn in res] + [(close, x, evs, fs) for x, evs, fs in c.chain(I_, o0, close, [o0.val])]
    pi = c.var("Message", "Ping")
    bad = unk = None
    n = 0
    for r, x, evs, fs in runs:
        ws = [e for e in flat(evs) if e[0] == "w" and e[3]]
        if len(ws) != 1 or any(e[0] == "w_partial" for e in flat(evs)):
            continue
        ms = [e[3] for e in flat(evs) if e[0] == "message" and e[2]]
        plen = length(T("vf", T("vf", ms[0], pi, 0), 1, 0)) if ms else None
        for k in SENDLENS if plen is not None and contains(ws[0][2], plen.a[0]) else [0]:
            env = lambda t: k if t is plen else None
            if facts_hold(fs, env) is False:
                continue
            n += 1
            ok, why = own_form(layout(joined(ws), env), env)
            if ok is False:
                bad = bad or "%s writes a malformed frame: %s" % (r["path"], why)
            elif ok is None:
                unk = why
    c.must("encode:answers", False if bad else (unk or True), bad or "", root["path"])
    c.samples.append("%d (path, payload length) pairs of pongs and close frames" % n)

@rule("W14")
def w14(c):
    """Message to frame: each kind of message is sent with its own opcode and with exactly its own payload (an absent control payload is empty), and a successful send wrote it."""
    bad, unk, seen = {}, {}, set()
    cnt = 0
    for root, name, p, o, plen, n in each_sent(c):
        seen.add(name)
        ws, fail, partial = sent(o)
        v = joined(ws)
        lay = layout(v, lambda t: n if t is plen else None)
        cnt += 1
        b0 = lay[0] if lay else None
        if b0 is None:
            bad[name] = "nothing is written for %s" % name
        elif isinstance(b0, tuple):
            unk[name] = "first byte %s" % (b0,)
        elif b0 & 15 != KIND[name]:
            bad[name] = "Message::%s is sent with opcode %d instead of %d" % (name, b0 & 15, KIND[name])
        k = 2 + (0 if n < 126 else 2 if n < 65536 else 8)
        rest = lay[k:]
        runs = [x for x in rest if isinstance(x, tuple) and x[0] == "*"]
        if p is None or n == 0:
            continue
        if len(rest) == 1 and runs and runs[0][1] is p:
            continue
        if any(isinstance(x, tuple) and (x[0] == "?" or (isinstance(x[1], Term) and opaque_in(x[1]))) for x in rest) and not any(isinstance(x, tuple) and x[0] == "*" and x[1] is p for x in rest):
            unk[name] = "payload %s" % show(v)
        else:
            bad[name] = "Message::%s of %d bytes: what follows the header is not exactly its payload: %s" % (name, n, show(v))
    for name in KIND:
        if name not in seen:
            c.bad("send:" + name, "no successful send path for Message::%s" % name, "WebSocket::send")
            continue
        c.must("send:" + name, False if name in bad else unk.get(name, True), bad.get(name, ""), "WebSocket::send")
    # the public conversion
    r = c.fn(self="Frame", trait="From", name="from", opt=True)
    if r:
        I_, outs = c.run(r)
        m = T("arg", 0)
        bad = unk = None
        for name, p, o in msg_paths(c, I_, outs, m):
            f = I_.snap(o.st, o.val)
            opc = c.field(f, "Frame", "op_code", ty="OpCode")
            dec = I_.snap(o.st, c.field(f, "Frame", "decoded", ty="Vec"))
            if opc.op != "adt":
                unk = show(opc)
                continue
            if c.vname("OpCode", opc.a[1]) != name:
                bad = "From<Message>: %s becomes OpCode::%s" % (name, c.vname("OpCode", opc.a[1]))
            want = p if p is not None else seq()
            if dec is not want:
                if opaque_in(dec): unk = show(dec)
                else: bad = "From<Message>: the payload of %s becomes %s" % (name, show(dec))
        c.must("send:from", False if bad else (unk or True), bad or "", r["path"])
    c.samples.append("%d (entry, path, payload length) triples" % cnt)

@rule("W12")
def w12(c):
    """Single write: a frame reaches the transport in one atomic write, so frames sent through copies of the connection cannot interleave. Sending does not report success on a path whose write failed, nor without a write."""
    roots = [(c.fn("ws::websocket::WebSocket::send_to_stream"), None), (c.fn("ws::websocket::WebSocket::send"), None),
             (c.fn("ws::websocket::WebSocket::close"), None), (c.fn(self="WebSocket", trait="Iterator", name="next"), "Message::next")]
    for root, hk in roots:
        I_ = c.interp()
        if hk:
            hook_result(I_, hk, "message")
        _, outs = c.run(root, I_)
        bad = lost = None
        n = 0
        for o in outs:
            ws, fail, partial = sent(o)
            n += len(ws)
            inloop = any(e[0] == "loop" and any(x[0] in ("w", "w_partial") for b in e[1].backs for x in flat(b[1])) for e in o.events())
            if partial:
                bad = "a frame is written with a bare write(), which may stop half way"
            elif len(ws) > 1 or inloop:
                bad = "a frame is written in %s pieces: %s" % ("a loop of" if inloop else len(ws), "; ".join(show(e[2], 80) for e in ws[:4]))
            elif ws and not ws[0][4]:
                bad = "a frame is written by a formatter piece by piece"
            if root["name"].startswith("send") and o.kind == "ret" and is_ok(I_.snap(o.st, o.val)):
                if fail:
                    lost = "reports success although the frame could not be written"
                elif not ws and not partial and not inloop:
                    lost = "reports success although nothing was written"
        if root["name"].startswith("send"):
            c.must("result:" + root["name"], not lost, "%s %s" % (root["path"], lost), root["path"])
        c.must("single-write:" + root["name"], bad is None, "%s: %s" % (root["path"], bad), root["path"])
        c.samples.append("%s: %d paths, %d writes" % (root["name"], len(outs), n))

# ---------------------------------------------------------------- message assembly
class Fr:
    """One frame read on a path of Message::next."""
    def __init__(s, t, kind):
        s.t, s.kind = t, kind     # kind: top | loop

def frames_of(o):
    """[('one', frame)| ('fail',) | ('many', LoopEv)] in order, or None when the shape is not understood."""
    out = []
    for e in o.events():
        if e[0] == "frame":
            out.append(("one", e[3]) if e[2] else ("fail", e[3]))
        elif e[0] == "loop":
            n = 0
            for fs, es, st in e[1].backs:
                k = [x for x in flat(es) if x[0] == "frame"]
                if any(x[0] == "loop" for x in es):
                    return None
                if len(k) > 1 or any(not x[2] for x in k):
                    return None
                n += len(k)
            if n:
                out.append(("many", e[1]))
    return out

def message_outs(c):
    root = c.fn("ws::message::Message::next")
    I_ = c.interp()
    hook_result(I_, "Frame::parse", "frame")
    _, outs = c.run(root, I_)
    return root, I_, outs

def fr_env(c, assign):
    """valuation of frame attributes; assign: {frame term: (opcode name, fin, payload length)}"""
    fi = c.adt("Frame")["variants"][0]["fields"]
    opn = next(f[0] for f in fi if "OpCode" in f[1])
    dec = next(f[0] for f in fi if "Vec" in f[1])
    m = {}
    for t, (op, fin, n) in assign.items():
        m[T("discr", T("fld", t, opn))] = int(c.adt("OpCode")["variants"][c.var("OpCode", op)]["discr"])
        m[T("fld", t, "fin")] = fin
        m[T("len", T("fld", t, dec))] = n
        for r in ("rsv1", "rsv2", "rsv3"):
            m[T("fld", t, r)] = 0
    return lenv(m)

OPS = ["Continue", "Binary", "Text", "Reserved", "Terminate", "Ping", "Pong"]

def expected(op, fin):
    """what a first frame means"""
    if op == "Terminate": return "close"
    if op in ("Text", "Binary"): return "msg" if fin else "more"
    if op in ("Ping", "Pong"): return "msg" if fin else "err"
    return "err"

@rule("W08")
def w08(c):
    """Message assembly: a message is one unfragmented frame, or a data frame followed by continuation frames up to FIN with the payloads joined in order; nothing else is ever delivered as a message, and each such message is delivered with the first frame's kind."""
    root, I_, outs = message_outs(c)
    fields = c.adt("Frame")["variants"][0]["fields"]
    dec = next(f[0] for f in fields if "Vec" in f[1])
    bad, unk = {}, {}
    okcov = set()
    combos = 0
    def payload_terms(fr):
        return T("fld", fr, dec)
    for o in outs:
        fr = frames_of(o)
        if fr is None:
            unk["shape"] = "frame reads of a path are not in sequence"
            continue
        if o.kind == "div":
            continue
        if o.kind != "ret":
            continue
        tops = [x for x in fr]
        if not tops or tops[0][0] != "one":
            if is_ok(o.val):
                if tops and tops[0][0] == "many":
                    unk["shape"] = "the first frame is read inside the loop"
                else:
                    bad["from-nothing"] = "a message is delivered without a frame having been read"
            continue
        if len(tops) > 3 or any(x[0] == "many" for x in tops[2:]):
            unk["shape"] = "frame sequence %s" % [x[0] for x in tops]
            continue
        first = tops[0][1]
        loop = next((x[1] for x in tops if x[0] == "many"), None)
        last = tops[-1][1] if len(tops) > 1 and tops[-1][0] == "one" else None
        failed = tops[-1][0] == "fail"
        if len(tops) == 2 and loop is not None and not failed and last is None:
            unk["shape"] = "loop without a final frame"
            continue
        okp = is_ok(o.val)
        val = I_.snap(o.st, pay(o.val))
        for op1 in OPS:
            for fin1 in (0, 1):
                for n1 in (0, 3):
                    combos += 1
                    exp1 = expected(op1, fin1)
                    if last is None:
                        env = fr_env(c, {first: (op1, fin1, n1)})
                        h = facts_hold(o.facts(), env)
                        if h is False:
                            continue
                        if okp:
                            if exp1 != "msg":
                                if h is True or all(x.op == "bool" for f, t in o.facts() if ev(f, env) is None for x in [f if f.op != "not" else f.a[0]]):
                                    bad["single:%s:%d" % (op1, fin1)] = "a single %s frame with FIN=%d is delivered as a message" % (op1, fin1)
                                continue
                            okcov.add((op1, n1))
                            v = val_check(c, o, val, op1, [("one", payload_terms(first))], n1, I_)
                            if v is not True:
                                (bad if v[0] is False else unk)["payload:single:" + op1] = v[1]
                        elif not failed and exp1 == "msg" and h is True:
                            bad["refused:%s" % op1] = "a single unfragmented %s frame (%d bytes) is answered with %s" % (op1, n1, show(o.val))
                        elif not failed and exp1 == "more" and (h is True or partial_text(o, env)):
                            bad["refused:frag:%s" % op1] = "the first fragment of a %s message is answered with %s" % (op1, show(o.val))
                        continue
                    for op2 in OPS:
                        for fin2 in (0, 1):
                            for n2 in (0, 3):
                                env = fr_env(c, {first: (op1, fin1, n1), last: (op2, fin2, n2)})
                                h = facts_hold(o.facts(), env)
                                if h is False:
                                    continue
                                want = exp1 == "more" and op2 == "Continue" and fin2
                                if okp:
                                    if not want:
                                        if h is True or text_only(o, env):
                                            bad["frag:%s:%d:%s:%d" % (op1, fin1, op2, fin2)] = "a %s frame (FIN=%d) followed by a %s frame (FIN=%d) is delivered as a message" % (op1, fin1, op2, fin2)
                                        continue
                                    okcov.add((op1, "frag", n1))
                                    ps_ = [("one", payload_terms(first))] + ([("many", loop)] if loop else []) + [("one", payload_terms(last))]
                                    v = val_check(c, o, val, op1, ps_, n1 + n2, I_, dec)
                                    if v is not True:
                                        (bad if v[0] is False else unk)["payload:frag:" + op1] = v[1]
                                elif want and not failed and (h is True or partial_text(o, env, [payload_terms(first), payload_terms(last)])):
                                    bad["refused:frag-end:%s" % op1] = "the final continuation of a %s message is answered with %s" % (op1, show(o.val))
                                elif exp1 == "more" and op2 == "Continue" and not fin2 and not failed and (h is True or partial_text(o, env)):
                                    bad["refused:frag-mid:%s" % op1] = "a middle fragment of a %s message is answered with %s" % (op1, show(o.val))
        if loop is not None:
            for fs, es, st in loop.backs:
                k = [x for x in es if x[0] == "frame"]
                if not k:
                    continue
                mid = k[0][3]
                for op2 in OPS:
                    for fin2 in (0, 1):
                        for op1 in ("Text", "Binary"):
                            env = fr_env(c, {mid: (op2, fin2, 3), first: (op1, 0, 3)})
                            if facts_hold(fs, env) is False:
                                continue
                            if op2 in ("Ping", "Pong") and fin2:
                                continue    # a control frame between fragments may be skipped
                            if op2 == "Continue" and not fin2:
                                continue
                            if facts_hold(fs, env) is True:
                                bad["mid:%s:%d" % (op2, fin2)] = "a %s frame with FIN=%d inside a fragmented message is passed over" % (op2, fin2)
    for op in ("Text", "Binary", "Ping", "Pong"):
        for n in (0, 3):
            if (op, n) not in okcov:
                bad.setdefault("never:" + op, "an unfragmented %s frame is never delivered" % op) if not unk else unk.setdefault("never:" + op, "not decided")
    for op in ("Text", "Binary"):
        if not any(x[0] == op and "frag" in x for x in okcov):
            if unk: unk.setdefault("never-frag:" + op, "not decided")
            else: bad["never-frag:" + op] = "a fragmented %s message is never delivered" % op
    for k, v in bad.items():
        c.bad("assemble:" + k, v, root["path"])
    for k, v in unk.items():
        if k not in bad:
            c.unk("assemble:" + k, v)
    if not bad and not unk:
        for k in ("single", "fragmented", "middle", "payload", "kind"):
            c.ok("assemble:" + k)
    c.samples.append("%d paths x frame attribute combinations (%d evaluated): kinds %s" % (len(outs), combos, sorted({str(x) for x in okcov})))

def text_only(o, env):
    """every fact the valuation leaves open is about text decoding"""
    for f, t in o.facts():
        if ev(f, env) is None:
            g = f.a[0] if f.op == "not" else f
            if not (g.op == "bool" and g.a[0] == "utf8"):
                return False
    return True

def partial_text(o, env, whole=None):
    """the path is taken because a part of the payload (not the whole) is not text by itself: the parts of a valid text need not be"""
    part = False
    for f, t in o.facts():
        v = ev(f, env)
        if v is not None:
            if bool(v) != t:
                return False
            continue
        g, u = (f.a[0], not t) if f.op == "not" else (f, t)
        if not (g.op == "bool" and g.a[0] == "utf8"):
            return False
        if not u and (whole is None or not all(contains(g.a[1], w) for w in whole)):
            part = True
    return part

def val_check(c, o, val, op, parts, n, I_, dec=None):
    if val.op != "adt":
        return None, "delivered value is %s" % show(val)
    name = c.vname("Message", val.a[1])
    if name != op:
        return False, "a %s frame is delivered as Message::%s" % (op, name)
    p = val.a[2]
    if op in ("Ping", "Pong"):
        if is_none(p):
            ln = T("len", parts[0][1])
            for k in const_lens(o):
                if facts_hold(o.facts(), lambda t: k if t is ln else None) is not False:
                    return False, "a %s with a payload of %d bytes can be delivered without it" % (op, k)
            return True
        if not is_some(p):
            return None, "control payload is %s" % show(p)
        p = pay(p)
    if p.op == "sub" and p.a[1] is I(0) and p.a[2].op == "int" and parts[-1][0] == "one" and list(pieces(p.a[0]))[-1:] == [T("splice", parts[-1][1])] \
            and o.st.decide(lt(p.a[2], length(p.a[0]))) is True and len(parts) > 1:
        return False, "a message of more than %d bytes is delivered without its end" % p.a[2].a[0]
    got = list(pieces(p))
    i = 0
    for kind, x in parts:
        if kind == "many" and any(y.op == "hv" and x.accs.get(y) == "prepend" for y in walk(p)):
            return False, "fragments are joined in the wrong order: %s" % show(p)
    for kind, x in parts:
        if kind == "one":
            if i < len(got) and got[i].op == "splice" and got[i].a[0] is x:
                i += 1
                continue
            if i >= len(got) and ev_len0(o, x):
                continue
            if opaque_in(p, ("hv",)) or any(y.op == "hv" and y.a[1] != "acc" for y in walk(p)):
                return None, "payload is %s" % show(p)
            return False, "the payload delivered for a %s message is %s; part %s is missing or out of place" % (op, show(p), show(x))
        # the accumulated middle
        if i < len(got) and got[i].op == "splice" and got[i].a[0].op == "hv" and got[i].a[0] in x.accs:
            per = x.accs[got[i].a[0]]
            for (fs, es, st), app in zip(x.backs, per):
                k = [e for e in es if e[0] == "frame"]
                if app is None or not k:
                    return None, "fragments are accumulated by %s" % (app,)
                want = T("fld", k[0][3], dec)
                isc = facts_hold(fs, fr_env(c, {k[0][3]: ("Continue", 0, 3)})) is not False
                if isc and not (len(app) == 1 and app[0].op == "splice" and app[0].a[0] is want):
                    if any(opaque_in(y) for y in app):
                        return None, "a fragment contributes %s" % (app,)
                    return False, "a middle fragment contributes %s instead of its payload" % ([show(y) for y in app],)
                if not isc and app:
                    return False, "a frame other than a continuation contributes %s to the message" % ([show(y) for y in app],)
            i += 1
            continue
        if any(y.op == "hv" for y in walk(p)):
            return None, "payload is %s" % show(p)
        return False, "middle fragments are missing from the payload %s" % show(p)
    if i != len(got):
        if opaque_in(p, ("hv",)):
            return None, "payload is %s" % show(p)
        return False, "the payload delivered has extra parts: %s" % show(p)
    return True

def const_lens(o):
    r = {1, 2, 3, 125, 126, 127, 65535, 65536}
    for f, t in o.facts():
        for x in walk(f):
            if x.op == "int" and 0 < x.a[0] < 1 << 32:
                r |= {x.a[0] - 1, x.a[0], x.a[0] + 1}
    return sorted(x for x in r if x > 0)

def ev_len0(o, x):
    return facts_hold(o.facts(), lambda t: 3 if t is T("len", x) else None) is False

@rule("W09")
def w09(c):
    """Text is UTF-8: a text message is delivered only after its whole payload passed validation, byte for byte, and invalid text is an error."""
    root, I_, outs = message_outs(c)
    ti = c.var("Message", "Text")
    bad = unk = part = None
    n = m = 0
    for o in outs:
        for e in flat(o.events()):
            if e[0] == "unchecked_utf8":
                bad = "text is built without validation (%s)" % show(e[1])
        if o.kind != "ret":
            continue
        if is_ok(o.val):
            v = I_.snap(o.st, pay(o.val))
            if v.op != "adt":
                unk = show(v)
                continue
            if v.a[1] != ti:
                continue
            n += 1
            p = v.a[2]
            if any(x.op == "lossy" for x in walk(p)):
                bad = "invalid text is replaced instead of refused: %s" % show(p)
                continue
            for f, t in o.facts():
                if not t and f.op == "bool" and f.a[0] == "utf8" and f.a[1] is not p and any(x.op == "sub" and x.a[0] is f.a[1] for x in walk(p)) and not opaque_in(p, ("hv",)):
                    bad = "a text message is delivered although its payload is not valid: %s" % show(p)
            ok = any(t and f.op == "bool" and f.a[0] == "utf8" and f.a[1] is p for f, t in o.facts())
            if not ok:
                if opaque_in(p, ("hv",)):
                    unk = "payload %s" % show(p)
                else:
                    bad = "a text message is delivered although its payload (%s) was not validated as a whole" % show(p)
        elif is_err(o.val):
            if any((not t) and f.op == "bool" and f.a[0] == "utf8" for f, t in o.facts()):
                m += 1
            fr = [x for x in frames_of(o) or [] if x[0] != "many"]
            if fr and all(x[0] == "one" for x in fr) and len(fr) <= 2:
                fd = next(f[0] for f in c.adt("Frame")["variants"][0]["fields"] if "Vec" in f[1])
                for fin in (0, 1) if len(fr) == 2 else (0,):
                    env = fr_env(c, {fr[0][1]: ("Text", 0, 3), **({fr[1][1]: ("Continue", fin, 3)} if len(fr) == 2 else {})})
                    if partial_text(o, env, [T("fld", x[1], fd) for x in fr] if fin else None):
                        part = "a text message is refused because one of its fragments is not valid text by itself: a character may be split between them"
    if n == 0:
        unk = unk or "no path delivers text"
    c.must("utf8:validated", False if bad else (unk or True), bad or "", root["path"])
    c.must("utf8:fragments", part is None, part or "", root["path"])
    c.must("utf8:invalid-is-error", True if m else ("no failing-validation path seen" if unk else (bad is None or "see above")), "", root["path"])
    c.samples.append("%d text deliveries carry the fact utf8(payload); %d refused for invalid text" % (n, m))

# ---------------------------------------------------------------- the connection
def ws_fresh(c, hook=True):
    """A connection as WebSocket::new makes it: (interp, state, self value, stream term)."""
    I_ = c.interp()
    if hook:
        hook_result(I_, "Message::next", "message")
    new = c.fn("ws::websocket::WebSocket::new")
    s = T("arg", 0)
    outs = I_.exec_fn(St(), new["key"], [s])
    c.account(I_, outs)
    if len(outs) != 1 or outs[0].kind != "ret":
        return None
    return I_, outs[0], s

def nexts(c, I_, o, val):
    """Calls of next on a connection value in a path's final state: [(out, events, facts, connection after)]"""
    root = c.fn(self="WebSocket", trait="Iterator", name="next")
    st = o.st.clone()
    ref = I_.mkref(st, val)
    o2 = Out("ret", st)
    res = []
    for x, evs, fs in c.chain(I_, o2, root, [ref]):
        res.append((x, evs, fs, I_.load(x.st, ref) if x.kind == "ret" else None))
    return root, res

def item(v):
    """('ok'|'err'|'none'|'?', payload) of an Option<Result<..>>"""
    if is_none(v): return "none", None
    if is_some(v):
        r = pay(v)
        if is_ok(r): return "ok", pay(r)
        if is_err(r): return "err", pay(r)
    return "?", v

@rule("W10")
def w10(c):
    """Ping is answered: whenever the iterator yields a Ping it has first written one Pong frame with the same payload to the connection; nothing is written for other messages; the message itself is handed on unchanged."""
    f = ws_fresh(c)
    if f is None:
        return c.unk("pong", "WebSocket::new is not a plain constructor")
    I_, o0, s = f
    root, res = nexts(c, I_, o0, o0.val)
    pi = c.var("Message", "Ping")
    nping = 0
    bad, unk = {}, {}
    seen = set()
    for x, evs, fs, conn in res:
        if x.kind != "ret":
            if x.kind == "panic":
                ms = [e for e in evs if e[0] == "message"]
                if ms: bad["panic"] = "next can panic: %s" % (x.val,)
            continue
        msgs = [e for e in flat(evs) if e[0] == "message"]
        ws = [e for e in flat(evs) if e[0] in ("w", "w_partial")]
        k, v = item(I_.snap(x.st, x.val))
        if k == "?":
            unk["shape"] = show(v)
            continue
        okm = [e for e in msgs if e[2]]
        if not okm:
            if k == "ok":
                bad["invented"] = "an item is yielded although no message was read"
            continue
        if len(okm) > 1:
            unk["shape"] = "several messages are read in one call"
            continue
        m = okm[0][3]
        d = T("discr", m)
        for vi, var in enumerate(c.adt("Message")["variants"]):
            if facts_hold(fs, lambda t: vi if t is d else None) is False:
                continue
            seen.add(var["name"])
            if k == "ok" and v is not m and v.op != "adt":
                unk["item"] = show(v)
            if k == "ok" and v is not m and v.op == "adt" and opaque_in(v) is None:
                same = v.a[1] == vi and len(v.a) == 3 and same_payload(v.a[2], T("vf", m, vi, 0), fs)
                if same is False:
                    bad["item:" + var["name"]] = "a %s message is handed on as %s" % (var["name"], show(v))
            if var["name"] != "Ping":
                if ws:
                    bad["write:" + var["name"]] = "%s is written when a %s message arrives" % (show(ws[0][2]), var["name"])
                if k != "ok" and facts_hold(fs, lambda t: vi if t is d else None) is True:
                    bad["lost:" + var["name"]] = "a %s message is read and not yielded (%s)" % (var["name"], show(x.val))
                continue
            nping += 1
            if not ws:
                if k == "ok":
                    bad["no-pong"] = "a Ping is yielded and no Pong was written"
                continue
            if any(e[1] is not s for e in ws):
                bad["stream"] = "the Pong is written to %s" % show(ws[0][1])
            p = T("vf", m, vi, 0)
            for absent in (True, False):
                dd = T("discr", p)
                if facts_hold(fs, lambda t: vi if t is d else (0 if absent else 1) if t is dd else None) is False:
                    continue
                pl = None if absent else T("vf", p, 1, 0)
                plen = None if absent else length(pl)
                for n in ([0] if absent else SENDLENS):
                    if not absent and facts_hold(fs, lambda t: n if t is plen else None) is False:
                        continue
                    r, why = check_frame(joined(ws), plen, pl, 10, n)
                    if r is False:
                        bad["pong-bytes"] = "Ping with %s payload: %s" % ("no" if absent else "a %d byte" % n, why)
                    elif r is None:
                        unk["pong-bytes"] = why
    if not nping and not unk:
        bad["no-ping-path"] = "no path handles a Ping"
    for k, v in bad.items():
        c.bad("pong:" + k, v, root["path"])
    for k, v in unk.items():
        c.unk("pong:" + k, v)
    if not bad and not unk:
        for k in ("written", "bytes", "stream", "others-silent", "item-unchanged"):
            c.ok("pong:" + k)
    c.samples.append("%d paths of next on a fresh connection, %d with a Ping; kinds %s" % (len(res), nping, sorted(seen)))

def same_payload(a, b, fs):
    if a is b:
        return True
    if is_none(a):
        return facts_hold(fs, lambda t: 1 if t is T("discr", b) else None) is False
    if is_some(a):
        return pay(a) is T("vf", b, 1, 0)
    return False

@rule("W11")
def w11(c):
    """Close typestate: a close frame (and only that) ends the message stream as closed and is answered with exactly one close frame; after any error nothing more is read or written and every further item is 'connection closed' (or there is none); close() writes one close frame if none was sent and otherwise nothing."""
    # which frame ends the stream, and as what
    root, I_, outs = message_outs(c)
    closed = c.var("DecodeMessageError", "ClientSentCloseFrame")
    bad = unk = None
    n = 0
    for o in outs:
        fr = frames_of(o)
        if o.kind != "ret" or not fr:
            continue
        if fr[-1][0] == "many" or fr[0][0] == "many":
            continue
        lastt = fr[-1][1]
        firstt = fr[0][1]
        for op in OPS:
            for fin in (0, 1):
                if fr[-1][0] == "fail":
                    if is_err(o.val) and pay(o.val).op == "adt" and pay(o.val).a[1] == closed:
                        bad = "a frame that cannot be decoded is reported as an orderly close"
                    continue
                env = fr_env(c, {lastt: (op, fin, 3)})
                h = facts_hold(o.facts(), env)
                if h is False:
                    continue
                n += 1
                e = I_.snap(o.st, pay(o.val)) if is_err(o.val) else None
                if op == "Terminate":
                    if is_ok(o.val):
                        bad = bad or "a close frame is delivered as a message"
                    elif e.op == "adt" and e.a[1] != closed:
                        bad = "a close frame (FIN=%d) is reported as %s" % (fin, c.vname("DecodeMessageError", e.a[1]))
                    elif e.op != "adt":
                        unk = show(e)
                elif e is not None and e.op == "adt" and e.a[1] == closed and h is True:
                    bad = "a %s frame is reported as a close" % op
    for o in outs:
        for e in o.events():
            if e[0] == "loop":
                for fs, es, st in e[1].backs:
                    for x in es:
                        if x[0] == "frame" and x[2] and facts_hold(fs, fr_env(c, {x[3]: ("Terminate", 1, 0)})) is not False:
                            bad = "a close frame inside a fragmented message is passed over"
    c.must("close:recognised", False if bad else (unk or True), bad or "", root["path"])
    # the connection
    f = ws_fresh(c)
    if f is None:
        return c.unk("close:typestate", "WebSocket::new is not a plain constructor")
    I_, o0, s = f
    nroot, res = nexts(c, I_, o0, o0.val)
    NE = "NextMessageError"
    cc = c.var(NE, "ConnectionClosed")
    bad, unk = {}, {}
    closef = c.fn("ws::websocket::WebSocket::close")
    nerr = nok = 0
    def dclose(e):
        return facts_err(e)
    for x, evs, fs, conn in res:
        if x.kind == "panic":
            bad["panic"] = "next panics: %s" % (x.val,)
            continue
        if x.kind != "ret":
            continue
        k, v = item(I_.snap(x.st, x.val))
        msgs = [e for e in flat(evs) if e[0] == "message"]
        ws = [e for e in flat(evs) if e[0] in ("w", "w_partial")]
        if k == "none":
            bad["none"] = "the iterator ends instead of reporting that the connection is closed"
            continue
        if not msgs:
            bad["fresh-closed"] = "next on a fresh connection reads nothing"
            continue
        if k == "ok":
            nok += 1
            # still open: the next call reads again
            _, r2 = nexts(c, I_, x, conn)
            for y, e2, f2, c2 in r2:
                if y.kind == "ret" and not any(e[0] == "message" for e in e2):
                    bad["closed-early"] = "after a message was delivered, next reads nothing more"
            continue
        if k != "err":
            unk["item"] = show(v)
            continue
        nerr += 1
        err = [e for e in msgs if not e[2]]
        nclose = 0
        if err:
            d = T("discr", err[0][3])
            isclose = facts_hold(fs, lambda t: closed if t is d else None) is not False
            isother = facts_hold(fs, lambda t: c.var("DecodeMessageError", "ClientProtocolViolationError") if t is d else None) is not False
            if v.op == "adt":
                nm = c.vname(NE, v.a[1])
                if isclose and nm != "ConnectionClosed":
                    bad["report-close"] = "a close frame from the peer is reported as %s" % nm
                if isother and not isclose and nm == "ConnectionClosed":
                    bad["report-error"] = "a protocol violation is reported as an orderly close"
            else:
                unk["report"] = show(v)
            if isclose:
                if len(ws) != 1:
                    bad["echo"] = "a close frame from the peer is answered with %d writes" % len(ws)
                else:
                    r, why = check_frame(joined(ws), None, None, 8, 0)
                    r2 = layout(ws[0][2], lambda t: None)
                    if r is False and r2[:1] == [0x88] and not any(isinstance(z, int) for z in r2[2:]):
                        pass        # a close frame with a body
                    elif r is False:
                        bad["echo"] = "the answer to a close frame is not a close frame: %s" % why
                    elif r is None:
                        unk["echo"] = why
                    if ws[0][1] is not s:
                        bad["echo-stream"] = "the close frame goes to %s" % show(ws[0][1])
        # after an error nothing is read or written any more
        _, r2 = nexts(c, I_, x, conn)
        for y, e2, f2, c2 in r2:
            if y.kind != "ret":
                bad["after-error-panic"] = "next panics after an error"
                continue
            if any(e[0] in ("message", "w", "w_partial", "r") for e in flat(e2)):
                bad["after-error-io"] = "after %s the connection is used again: %s" % (show(v), [e[0] for e in flat(e2)][:3])
            k2, v2 = item(I_.snap(y.st, y.val))
            if k2 != "none" and (k2 != "err" or (v2.op == "adt" and v2.a[1] != cc)):
                bad["after-error-item"] = "after an error next yields %s" % show(y.val)
        # ... nor through another handle on it, taken now
        for cp in copiers(c):
            by = I_.mkref(x.st, conn) if c.progs["puck"].types[cp["inputs"][0]]["k"] == "ref" else conn
            for y, e2, f2 in c.chain(I_, x, cp, [by]):
                if y.kind != "ret":
                    continue
                _, r3 = nexts(c, I_, y, I_.snap(y.st, y.val))
                for z, e3, f3, c3 in r3:
                    if any(e[0] in ("message", "w", "w_partial", "r") for e in list(flat(e2)) + list(flat(e3))):
                        if definite(z):
                            bad["after-error-copy"] = "after %s a copy of the connection (%s) is used again: %s" % (show(v), cp["name"], [e[0] for e in list(flat(e2)) + list(flat(e3))][:3])
                        else:
                            unk["after-error-copy"] = "a copy made by %s reads again" % cp["name"]
        for y, e2, f2 in c.chain(I_, x, closef, [conn]):
            w2 = [e for e in flat(e2) if e[0] in ("w", "w_partial")]
            if y.kind == "ret" and ws and w2 and err:
                bad["second-close"] = "close() sends another close frame after the peer's was answered"
    for y, e2, f2 in c.chain(I_, o0, closef, [o0.val]):
        if y.kind != "ret":
            bad["close-panic"] = "close() panics: %s" % (y.val,)
            continue
        w2 = [e for e in flat(e2) if e[0] in ("w", "w_partial")]
        if len(w2) != 1:
            bad["close-frame"] = "close() on an open connection makes %d writes" % len(w2)
        else:
            r, why = check_frame(joined(w2), None, None, 8, 0)
            if r is False:
                bad["close-frame"] = "close() writes something else than a close frame: %s" % why
            elif r is None:
                unk["close-frame"] = why
            if w2[0][3] is False and is_ok(y.val):
                bad["close-result"] = "close() reports success although the close frame could not be written"
            if w2[0][3] is True and is_err(y.val):
                bad["close-result"] = "close() reports failure although the close frame was written"
    if not nok: unk["ok-paths"] = "no path yields a message"
    if not nerr: unk["err-paths"] = "no path yields an error"
    for k, v in bad.items():
        c.bad("close:" + k, v, nroot["path"])
    for k, v in unk.items():
        if k not in bad:
            c.unk("close:" + k, v)
    for k in ("report", "echo", "after-error", "after-error-copy", "second-close", "close-frame", "close-result", "closed-early"):
        if not any(b.startswith(k) for b in bad) and not any(b.startswith(k) for b in unk):
            c.ok("close:" + k)
    c.samples.append("%d first-call paths chained with a second next and with close" % len(res))

def facts_err(e):
    return e

def copiers(c):
    """The public functions that make another WebSocket of one."""
    p = c.progs["puck"]
    def isws(t, deref=True):
        k = p.types[t]
        if deref and k["k"] == "ref":
            return isws(k["t"], False)
        return strip_generics(p.tydef(t) or "").split("::")[-1] == "WebSocket"
    return [r for r in p.roots if r.get("pub") and r["key"] in p.bodies and r.get("output") is not None and isws(r["output"], False)
            and len(r.get("inputs") or []) == 1 and isws(r["inputs"][0])]

@rule("W13")
def w13(c):
    """No peer-triggered panic: decoding frames and messages, iterating, sending and closing never panic, whatever bytes arrive and however the transport fails."""
    todo = [("Frame::parse", lambda: frame_parse(c)[2]),
            ("Message::next", lambda: message_outs(c)[2]),
            ("WebSocket::send", lambda: c.run(c.fn("ws::websocket::WebSocket::send"))[1]),
            ("WebSocket::send_to_stream", lambda: c.run(c.fn("ws::websocket::WebSocket::send_to_stream"))[1])]
    def nx():
        f = ws_fresh(c)
        I_, o0, s = f
        return [x for x, _, _, _ in nexts(c, I_, o0, o0.val)[1]]
    def cl():
        f = ws_fresh(c)
        I_, o0, s = f
        return [x for x, _, _ in c.chain(I_, o0, c.fn("ws::websocket::WebSocket::close"), [o0.val])]
    todo += [("WebSocket::next", nx), ("WebSocket::close", cl)]
    for name, f in todo:
        try:
            outs = f()
        except Undecided as e:
            c.unk("panic-free:" + name, e)
            continue
        ps_ = [o for o in outs if o.kind == "panic"]
        inner = [p for o in outs for e in flat(o.events()) if e[0] == "panic" for p in [e]]
        if ps_:
            o = next((p for p in ps_ if definite(p)), ps_[0])
            real = definite(o)
            msg = "%s can panic at %s: %s, when %s" % (name, o.where, o.val, showfacts(o, 300))
            if real:
                c.bad("panic-free:" + name, msg, str(o.where), "\n".join("%s (%s) when %s" % (p.val, p.where, showfacts(p)) for p in ps_[:6]))
            else:
                c.unk("panic-free:" + name, msg)
        else:
            c.ok("panic-free:" + name)
        c.samples.append("%s: %d paths, %d panicking" % (name, len(outs), len(ps_)))

def definite(o, *about):
    """Is this path a real one (its conditions only speak about inputs), or may it be an artefact of lost precision?  With terms
    given: nor does any loop on the path test them (what the passes left behind about them is not in the path's facts)."""
    for f, t in o.facts():
        if opaque_in(f) and not (f.op == "bool" and f.a[0] == "utf8" and not t and f.a[1].op == "seq" and any(x.op == "splice" and not opaque_in(x) for x in f.a[1].a)):
            return False        # (bytes the peer chose make the whole invalid, whatever the rest of it is)
    if about:
        for e in flat(o.events()):
            if e[0] == "loop" and any(contains(f, x) for fs, es, st in e[1].backs for f, t in fs for x in about):
                return False
    return True
