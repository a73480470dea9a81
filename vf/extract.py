"""Mechanical extraction of real functions for Verus: the text of /repo's source with contracts, loop invariants
and proof blocks put in at structural places (function signature, loop header, start / end of a loop body).
What the extraction changes is listed in REWRITES and reported in the evidence."""
import re

def lex(s):
    """tokens (text, start, end) of Rust source, comments dropped"""
    out, i, n = [], 0, len(s)
    rx = re.compile(r'''(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*)|(?P<str>b?"(?:[^"\\]|\\.)*")|(?P<chr>b?'(?:[^'\\\n]|\\(?:.|u\{[0-9a-fA-F]+\}))')|(?P<life>'[A-Za-z_][A-Za-z0-9_]*)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>[0-9][0-9A-Za-z_]*)|(?P<op>->|=>|::|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|.)''', re.S)
    while i < n:
        m = rx.match(s, i)
        if m.lastgroup == "bc":
            d, i = 1, m.end()
            while d and i < n:
                if s.startswith("/*", i): d += 1; i += 2
                elif s.startswith("*/", i): d -= 1; i += 2
                else: i += 1
            continue
        if m.lastgroup not in ("ws", "lc"): out.append((m.group(), m.start(), m.end()))
        i = m.end()
    return out

class Misfit(Exception): pass

OPEN = {"{": "}", "(": ")", "[": "]"}
def match(t, i):
    """index of the token that closes t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j][0] in OPEN: d += 1
        elif t[j][0] in OPEN.values():
            d -= 1
            if d == 0: return j
    raise Misfit("unbalanced")

def items(s, t, a=0, b=None):
    """top-level items in the token range: (kind, name, first, last)"""
    b = len(t) if b is None else b
    i, out = a, []
    while i < b:
        f = i
        while t[i][0] == "#":
            i = match(t, i + 1 if t[i + 1][0] == "[" else i + 2) + 1
        if t[i][0] == "pub":
            i += 1
            if t[i][0] == "(": i = match(t, i) + 1
        while t[i][0] in ("unsafe", "async", "default") or t[i][0] == "const" and t[i + 1][0] == "fn": i += 1
        kind = t[i][0]
        j = i
        while t[j][0] not in ("{", ";") :
            if t[j][0] in ("(", "["): j = match(t, j)
            j += 1
        if t[j][0] == "{":
            e = match(t, j)
            if kind in ("use", "const", "static", "let") or kind == "struct" and False:
                while t[e][0] != ";": e += 1
        else: e = j
        if kind == "impl":
            hd = [x[0] for x in t[i + 1:j]]
            if hd and hd[0] == "<":
                d = 0
                for q, x in enumerate(hd):
                    d += (x == "<") - (x == ">")
                    if d == 0: break
                hd = hd[q + 1:]
            if "for" in hd: tr = hd[0]; hd = hd[hd.index("for") + 1:]; name = "%s for %s" % (tr, hd[0])
            else: name = hd[0]
        else: name = t[i + 1][0]
        out.append((kind, name, f, e, j))
        i = e + 1
    return out

def loops(t, a, b):
    """(keyword index, index of the body's brace) of every loop in the token range, in order of appearance"""
    out = []
    for i in range(a, b):
        if t[i][0] in ("while", "for", "loop") and not (t[i][0] == "for" and t[i + 1][0] == "<"):
            j = i + 1
            while t[j][0] != "{":
                if t[j][0] in ("(", "["): j = match(t, j)
                j += 1
            out.append((i, j))
    return out

class Extract:
    def __init__(s, src, file):
        s.src, s.file = src, file
        s.t = lex(src)
        s.items = items(src, s.t)
        s.log = {}
    def fns(s):
        """every function: (qualified name, signature start, brace, end)"""
        out = []
        for kind, name, f, e, j in s.items:
            if kind == "fn": out.append((name, f, j, e))
            elif kind == "impl" or kind == "trait":
                for k2, n2, f2, e2, j2 in items(s.src, s.t, j + 1, e):
                    if k2 == "fn": out.append(("%s::%s" % (name, n2), f2, j2, e2))
        return out
    def shape(s):
        """names of the functions and the number of loops of each"""
        return {n: len(loops(s.t, j, e)) for n, f, j, e in s.fns()}
    def note(s, what): s.log[what] = s.log.get(what, 0) + 1
    def build(s, contracts, drop=(), rewrite=None, keep_derive=("Clone", "Copy"), external=(), only=None):
        """the annotated text; contracts: {function: {"ret", "spec", "start", "loops": [{"name","spec","before","start","end"}]}}"""
        t, edits = s.t, []       # edits: (position, end, text)
        fns = {n: (f, j, e) for n, f, j, e in s.fns()}
        for n in contracts:
            if n not in fns: raise Misfit("function %s not found in %s" % (n, s.file))
        for n, c in contracts.items():
            f, j, e = fns[n]
            sig = c.get("spec", "")
            if c.get("ret"):
                k = next((q for q in range(f, j) if t[q][0] == "->"), None)
                if k is None: raise Misfit("%s returns nothing" % n)
                w = next((q for q in range(k, j) if t[q][0] == "where"), j)
                edits.append((t[k + 1][1], t[k + 1][1], "(%s: " % c["ret"])); edits.append((t[w - 1][2], t[w - 1][2], ")"))
            if sig: edits.append((t[j][1], t[j][1], "\n" + sig + "\n"))
            if c.get("start"): edits.append((t[j][2], t[j][2], "\n" + c["start"] + "\n"))
            if c.get("end"): edits.append((t[e][1], t[e][1], ("" if t[e - 1][0] in (";", "{", "}") else ";") + "\n" + c["end"] + "\n"))
            if c.get("attr"): q = next(q for q in range(f, j) if t[q][0] == "fn"); edits.append((t[q][1], t[q][1], c["attr"] + "\n"))
            ls = loops(t, j, e)
            if len(ls) != len(c.get("loops", [])): raise Misfit("%s has %d loops, its contract is for %d" % (n, len(ls), len(c.get("loops", []))))
            for (k, q), l in zip(ls, c.get("loops", [])):
                if t[k][0] != l.get("kw", t[k][0]): raise Misfit("%s: a %s loop where a %s loop was" % (n, t[k][0], l["kw"]))
                if l.get("name"):
                    i = next(x for x in range(k, q) if t[x][0] == "in")
                    edits.append((t[i][2], t[i][2], " %s:" % l["name"]))
                edits.append((t[q][1], t[q][1], "\n" + l.get("spec", "") + "\n"))
                if l.get("before"): edits.append((t[k][1], t[k][1], l["before"] + "\n"))
                if l.get("after"):
                    m = match(t, q)
                    edits.append((t[m][2], t[m][2], "\n" + l["after"] + "\n"))
                if l.get("start"): edits.append((t[q][2], t[q][2], "\n" + l["start"] + "\n"))
                if l.get("end"):
                    m = match(t, q)
                    # a match or if without ; at the end of a body is still its value
                    edits.append((t[m][1], t[m][1], ("" if t[m - 1][0] in (";", "{", "}") else ";") + "\n" + l["end"] + "\n"))
        parts = []
        for kind, name, f, e, j in s.items:
            if only is not None and name not in only: continue
            if kind in ("use", "mod") or "%s %s" % (kind, name) in drop:
                s.note("left out: %s %s" % (kind, name)); continue
            if any(x[0] == "cfg" for x in t[f:f + 4]): s.note("left out: #[cfg] item %s" % name); continue
            parts.append(s.text(f, e, edits, rewrite, keep_derive))
        return "\n".join(parts)
    def text(s, f, e, edits, rewrite, keep):
        t = s.t
        # token texts with edits; comments vanish, white space is normalised
        out, i = [], f
        ed = {}
        for p, q, x in edits: ed.setdefault(p, []).append(x)
        skip = set()
        k = f
        while k <= e:
            if t[k][0] == "#" and t[k + 1][0] == "[":
                m = match(t, k + 1)
                if t[k + 2][0] == "derive":
                    names = [x[0] for x in t[k + 4:m - 1] if x[0] in keep]
                    out.append("#[derive(%s)]" % ", ".join(names) if names else "")
                    if len(names) != sum(x[0] not in (",", "(", ")") for x in t[k + 4:m - 1]): s.note("derives other than %s dropped" % "/".join(keep))
                else: s.note("attribute dropped: " + "".join(x[0] for x in t[k:m + 1]))
                k = m + 1; continue
            if t[k][0] == "pub" and t[k + 1][0] != "(": s.note("visibility dropped"); k += 1; continue
            if t[k][0] == "pub": k = match(t, k + 1) + 1; continue
            x = t[k][0]
            pre = "".join(ed.get(t[k][1], ()))
            post = "".join(ed.get(t[k][2], ())) if t[k][2] not in {y[1] for y in t[k + 1:k + 2]} else ""
            out.append(("\n" if x in ("fn", "}") else " ") + pre + x + post)
            if x in ("{", ";", "}", ","): out.append("\n")
            k += 1
        txt = "".join(out)
        for rx, sub, what in rewrite or ():
            txt, n = re.subn(rx, sub, txt)
            if n: s.log[what] = s.log.get(what, 0) + n
        return txt
