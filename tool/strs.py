"""What the text functions of the standard library give for texts that are known: used where a rule decides a summary clause
at representative texts."""
import re

class NotText(Exception):
    pass

WS = " \t\n\x0b\x0c\r\x85\xa0"
def trim_(s, left=True, right=True, chars=WS):
    if left: s = s.lstrip(chars)
    if right: s = s.rstrip(chars)
    return s

def pat(x):
    """A pattern argument: a character (its code) or a text."""
    if isinstance(x, bool):
        raise NotText()
    if isinstance(x, int):
        return chr(x)
    if isinstance(x, str):
        return x
    if isinstance(x, list) and not x:
        return ""
    raise NotText()

def ascii_(s, up):
    return "".join((c.upper() if up else c.lower()) if c.isascii() else c for c in s)

def evaluate(t, val):
    """Value of the text operation t (val evaluates its operands); raises NotText when it is not one this module knows."""
    op, a = t.op, t.a
    def text(x):
        v = val(x)
        if isinstance(v, str):
            return v
        if isinstance(v, list) and not v:
            return ""
        raise NotText()
    if op == "split":
        kind = a[0]
        s = text(a[1])
        if kind == "lines":
            return [x[:-1] if x.endswith("\r") else x for x in (s[:-1] if s.endswith("\n") else s).split("\n")] if s else []
        if kind in ("split_whitespace", "split_ascii_whitespace"):
            return s.split()
        if kind in ("split", "rsplit", "split_terminator", "split_inclusive") and len(a) == 3:
            p = pat(val(a[2]))
            if not p:
                raise NotText()
            r = s.split(p)
            if kind == "rsplit":
                return r[::-1]
            if kind == "split_terminator":
                return r[:-1] if r[-1] == "" else r
            if kind == "split_inclusive":
                r = [x + p for x in r[:-1]] + r[-1:]
                return r[:-1] if r[-1] == "" else r
            return r
        if kind in ("splitn", "rsplitn") and len(a) == 4:
            n, p = val(a[2]), pat(val(a[3]))
            if not p or n < 1:
                raise NotText()
            return s.split(p, n - 1) if kind == "splitn" else s.rsplit(p, n - 1)[::-1]
        raise NotText()
    if op == "chars":
        return [ord(c) for c in text(a[0])]
    if op == "pure" and isinstance(a[0], str) and a[0].startswith("str::"):
        f = a[0][5:]
        s = text(a[1])
        r = a[2:]
        if f == "to_ascii_lowercase": return ascii_(s, False)
        if f == "to_ascii_uppercase": return ascii_(s, True)
        if f == "to_lowercase": return s.lower()
        if f == "to_uppercase": return s.upper()
        if f == "trim": return trim_(s)
        if f in ("trim_start", "trim_left"): return trim_(s, right=False)
        if f in ("trim_end", "trim_right"): return trim_(s, left=False)
        if f in ("trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches") and len(r) == 1:
            p = pat(val(r[0]))
            if not p:
                return s
            if f not in ("trim_end_matches", "trim_right_matches"):
                while s.startswith(p): s = s[len(p):]
            if f not in ("trim_start_matches", "trim_left_matches"):
                while s.endswith(p): s = s[:len(s) - len(p)]
            return s
        if f == "replace" and len(r) == 2:
            p = pat(val(r[0]))
            if p:
                return s.replace(p, text(r[1]))
        if f == "replacen" and len(r) == 3:
            p = pat(val(r[0]))
            if p:
                return s.replace(p, text(r[1]), val(r[2]))
        if f == "repeat" and len(r) == 1:
            return s * val(r[0])
        raise NotText()
    if op == "bool" and a[0] in ("starts_with", "ends_with", "contains") and len(a) == 3:
        s, p = text(a[1]), pat(val(a[2]))
        return int(s.startswith(p) if a[0] == "starts_with" else s.endswith(p) if a[0] == "ends_with" else p in s)
    if op == "bool" and a[0] == "is_ascii" and len(a) == 2:
        return int(text(a[1]).isascii())
    raise NotText()

def cut(s, i, j):
    """s[i..j] of a text: byte offsets, on character boundaries."""
    b = s.encode()
    if not 0 <= i <= j <= len(b):
        raise NotText()
    try:
        b[:i].decode(), b[j:].decode()
        return b[i:j].decode()
    except UnicodeDecodeError:
        raise NotText()
