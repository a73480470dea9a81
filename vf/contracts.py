"""The contract of every printing rule (X, k) and the check that one symbolic path meets it.

Contract: whenever X::new(n).build(b) returns (n any node of kind k the grammar allows), the document
it returns spells, whatever the printer does with the line breaks,

    comments in front of n . tokens of n's children in source order . dangling comments . comments behind n

where a child c appears through the contract of the rule called on it, through its text, or child by
child.  The words are exactly the source's (keywords up to letter case), and between two words that
would fuse there is always white space."""
import z3
from .values import *
from .tree import Node
from .emit import ASSOC
from .grammar import Rep, cls

class Mismatch(Exception): pass

class Spec:
    """builds the specification of a node on one path"""
    def __init__(s, I):
        s.I, s.T, s.g = I, I.tree, I.g
    def chars(s, text):
        out, glued = [], False
        for ch in text:
            if ch == " ": glued = False; continue
            out.append(("ch", ch.lower(), glued)); glued = True
        return out
    def anon(s, c):
        """an anonymous token"""
        ts = s.T.textset(c)
        if ts is None or len(ts) != 1: raise Unsupported("open anonymous token %s" % sorted(c.kinds))
        t = next(iter(ts))
        return [("tok", (c,), t)] if t.strip() else []
    def children(s, n, cs):
        k = n.kind()
        if k in COND: cs = noparens(cs)
        if k == "modifiers": return modifiers(s, n, cs)
        return special(s, n, cs, s.plain(n, cs, k if k in COND else None))
    def plain(s, n, cs, cond=None):
        out = []
        for c in cs:
            if isinstance(c, Many): out.append(("many", c.m, s.plain(n, c.items, cond), c))
            elif c.named: out.append(("cond", c, cond) if cond and c.kinds <= BOOL | {"comparison_expression"} else ("node", c))
            else: out += s.anon(c)
        return out
    def body(s, n):
        """alternatives for the inside of n; n's children as far as the path knows them"""
        if n.children is None and n.orig is not None and n.sub is None and n.orig.children is not None: n.children = n.orig.children
        if n.children is not None: return [s.children(n, n.children)]
        ts = s.T.textset(n)
        if ts is not None and len(ts) == 1: return [s.chars(next(iter(ts)))]
        k = n.kind()
        if k is None or s.g.is_leaf(k): raise Mismatch("%s (%s) is not printed where it belongs" % (n.name, "|".join(sorted(n.kinds))[:60]))
        # not looked at on this path: has to be right for every shape
        out = []
        for i, sh in enumerate(s.g.shapes(k, n.via)):
            if any(not isinstance(e, Many) and hasattr(e, "alts") for e in sh): raise Mismatch("%s (%s) is not printed where it belongs" % (n.name, k))
            l = []
            for j, e in enumerate(sh):
                l.append(Node("%s.?%d_%d" % (n.name, i, j), e.kinds, e.named, e.fields, n)); l[-1].via = e.via
            out.append(s.children(n, l))
        return out

# permitted differences (properties P01, P02, P04, P07)
BOOL = frozenset(["and_expression", "or_expression", "not_expression"])
COND = BOOL | {"where_clause", "having_clause"}
def needs_parens(parent, kinds):
    """the grouping changes without the parentheses"""
    return parent in BOOL and bool(kinds & (BOOL - ({parent} - {"not_expression"})))
def noparens(cs):
    out = []
    for c in cs:
        if isinstance(c, Many):
            x = noparens(c.items)
            if x: out.append(Many(c.m, x))
        elif c.named or not c.kinds <= {"(", ")"}: out.append(c)
    return out
def modifiers(sp, n, cs):
    """annotations may be moved in front of the keywords"""
    src = sp.plain(n, cs)
    def part(l, ks):
        out = []
        for c in l:
            if isinstance(c, Many):
                x = part(c.items, ks)
                if x: out.append(Many(c.m, x))
                continue
            i = c.kinds & ks
            if not i: continue
            if i != c.kinds: y = Node(c.name, i, c.named, c.fields, c.parent, c.many, c.extra); y.orig = c; y.sub = i; y.via = c.via; c = y
            out.append(c)
        return out
    ann = frozenset(["annotation"])
    rest = frozenset(k for c in every(cs) for k in c.kinds) - ann
    return [("or", [src, sp.plain(n, part(cs, ann)) + sp.plain(n, part(cs, rest))])]
def every(cs):
    for c in cs:
        if isinstance(c, Many): yield from every(c.items)
        else: yield c
def special(sp, n, cs, out):
    k = n.kind()
    if k in STRAY:          # lone semicolons between members or statements
        def loose(l): return [("opt", [x]) if x[0] == "tok" and x[2] == ";" else ("many", x[1], loose(x[2]), x[3]) if x[0] == "many" else x for x in l]
        out = loose(out)
    elif k == "annotation_argument_list" and all(not c.named for c in cs if isinstance(c, Node)) and not any(isinstance(c, Many) for c in cs) and len(cs) == 2:
        out = [("opt", out)]
    elif k == "storage_alias":          # AS of an alias
        out = [("opt", [x]) if x[0] == "tok" and x[2] == "as" else x for x in out]
    return out
STRAY = {"class_body", "interface_body", "enum_body", "block", "trigger_body", "constructor_body", "parser_output"}

# ---------------------------------------------------------------- normal forms
def flatten(us, sep=False):
    """units without separators and comments; every unit carries whether white space certainly stands in front:
    ("c", char, sep, uids) ("t", atom, sep) ("call", X, node, sep) ("p", nodes, sep) ("many", m, items, sep)"""
    out = []
    for u in us:
        if u[0] == "s":
            if u[1] in ("sp", "soft", "nl", "nl0"): sep = True
            elif u[1] == "maybe" and sep is False: sep = "maybe"
            continue
        if u[0] == "cm":
            if sep is False: sep = "maybe"
            continue
        if u[0] == "many":
            x, _ = flatten(u[2], "?")
            if x: out.append(("many", u[1], x, sep))
            else: continue
        elif u[0] == "c": out.append(("c", u[1], sep, frozenset([u[2]])))
        elif u[0] == "t": out.append(("t", u[1], sep))
        elif u[0] == "call": out.append(("call", u[1], u[2], sep))
        elif u[0] == "p": out.append(("p", (u[1],), sep))
        sep = False
    return out, sep
def same(a, b):
    if a[0] != b[0]: return None
    if a[0] == "c" and a[1] == b[1]: return ("c", a[1], a[2] if a[2] == b[2] else "?", a[3] | b[3])
    if a[0] == "tok" and a[2] == b[2]: return ("tok", a[1] + b[1], a[2])
    if a[0] == "p" and a[1][0].kinds == b[1][0].kinds and not a[1][0].name.startswith("next"): return ("p", a[1] + b[1], a[2] if a[2] == b[2] else "?")
    return None
def rotate(l):
    l = [(x[0], x[1], rotate(x[2])) + x[3:] if x[0] == "many" else ("opt", rotate(x[1])) if x[0] == "opt" else x for x in l]
    i = 0
    while i + 1 < len(l):
        if l[i][0] == "many" and l[i][2]:
            r = same(l[i][2][0], l[i + 1])
            if r is not None:
                m = l[i]
                l[i:i + 2] = [r, (m[0], m[1], m[2][1:] + [r]) + m[3:]]
        i += 1
    return l
def collapse(l):
    """( condition ) as one unit"""
    out = []
    for x in l:
        if x[0] == "many": x = x[:2] + (collapse(x[2]),) + x[3:]
        if x[0] == "c" and x[1] == ")" and len(out) > 1 and out[-1][0] in ("call", "paren") and out[-2][0] == "c" and out[-2][1] == "(":
            c = out[-1]
            while c[0] == "paren": c = c[1]
            if c[2].kinds <= BOOL | {"comparison_expression"}:
                u = out.pop(); o = out.pop()
                out.append(("paren", u, o[2], o[3] | x[3])); continue
        out.append(x)
    return out

# ---------------------------------------------------------------- matching
class Match:
    def __init__(s, I, sp):
        s.I, s.sp = I, sp
        s.far = (-1, "")
        s.steps = 0
    def fail(s, i, why):
        if i >= s.far[0]: s.far = (i, why)
        return None
    def empty(s, m):
        """the path knows that the repetition is empty"""
        if ("N", m) not in s.I.ints: return False
        z = s.I.z(); z.push(); z.add(z3.Int("N_" + m) > 0); r = z.check(); z.pop()
        return r == z3.unsat
    def equal(s, a, b):
        z = s.I.z(); z.push(); z.add(a != b); r = z.check(); z.pop()
        return r == z3.unsat
    def is_node(s, a, b):
        return a is b or a.name == b.name and a.kinds == b.kinds and (a.orig is b or b.orig is a or (a.orig is not None and a.orig is b.orig))
    def droppable(s, l): return all(x[0] == "opt" or x[0] == "many" and s.droppable(x[2]) for x in l)
    def go(s, E, i, S, j, top):
        """matches E[i:] with S[j:]; -> requirements list or None"""
        s.steps += 1
        if s.steps > 20000: raise Unsupported("matching too long")
        req = []
        while True:
            if j == len(S):
                if i < len(E): return s.fail(i, "printed too much: %s" % (brief(E[i]),))
                return req
            x = S[j]
            u = E[i] if i < len(E) else ("end",)
            k = x[0]
            if k == "ch":
                if u[0] == "c" and u[1].lower() == x[1] and not (x[2] and u[2] is not False):
                    if not x[2]: req.append(("start", u[3]))
                    i += 1; j += 1; continue
                return s.fail(i, "expected token %r, printed %s" % (x[1], brief(u)))
            if k == "tok":
                if u[0] == "p" and {y.name for y in u[1]} == {y.name for y in x[1]}: i += 1; j += 1; continue
                if u[0] == "t" and u[1][0] in ("text", "lower", "upper") and len(x[1]) == 1 and s.is_node(u[1][1], x[1][0]): i += 1; j += 1; continue
                if u[0] == "call" and len(x[1]) == 1 and s.is_node(u[2], x[1][0]): S = S[:j] + [("node", x[1][0])] + S[j + 1:]; continue
                if u[0] == "t" and u[1][0] == "repeat":
                    e = s.repeated(u[1], S, j)
                    if e is not None: i += 1; j = e; continue
                S = S[:j] + s.sp.chars(x[2]) + S[j + 1:]; continue
            if k == "opt":
                r = s.go(E, i, S[:j] + x[1] + S[j + 1:], j, top)
                if r is not None: return req + r
                j += 1; continue
            if k == "or":
                for a in x[1]:
                    r = s.go(E, i, rotate(S[:j] + a + S[j + 1:]), j, top)
                    if r is not None: return req + r
                return None
            if k == "cond":
                c = x[1]
                if not needs_parens(x[2], c.kinds):
                    r = s.go(E, i, S[:j] + [("node", c)] + S[j + 1:], j, top)
                    if r is not None: return req + r
                v = u
                while v[0] == "paren":
                    req.append(("start", v[3])); v = v[1]
                    r = s.go([v], 0, [("node", c)], 0, False)
                    if r is not None: req += r; break
                else: return s.fail(i, "%s (%s) needs its parentheses, printed %s" % (c.name, "|".join(sorted(c.kinds)), brief(u)))
                i += 1; j += 1; continue
            if k == "pp":
                if u[0] == "p" and u[1][0].name in ("next,", "next;", "next?"):
                    req.append(("prints-next", u[1][0].name[-1])); i += 1
                j += 1; continue
            if k == "many":
                if u[0] == "many" and u[1] == x[1]:
                    r = s.go(u[2], 0, x[2], 0, False)
                    if r is not None: req += r; i += 1; j += 1; continue
                    if not (s.droppable(x[2]) or s.empty(x[1])): return s.fail(i, "repetition %s: %s" % (x[1], s.far[1]))
                if u[0] == "t" and u[1][0] == "repeat":
                    e = s.repeated(u[1], S, j)
                    if e is not None: i += 1; j = e; continue
                if s.droppable(x[2]) or s.empty(x[1]): j += 1; continue
                return s.fail(i, "repetition %s not printed, but %s" % (x[1], brief(u)))
            if k == "any":      # alternatives, all of which must match
                rs = []
                for a in x[1]:
                    r = s.go(E, i, S[:j] + a + S[j + 1:], j, top)
                    if r is None: return None
                    rs += r
                return req + rs
            if k == "node":
                c = x[1]
                if u[0] == "call" and s.is_node(u[2], c):
                    i += 1; j += 1
                    call = (u[1], u[2].kinds)
                    # punctuation behind
                    nx = S[j] if j < len(S) else None
                    if nx is not None and nx[0] == "tok" and nx[2] in (",", ";"):
                        r = s.go(E, i, S, j + 1, top)
                        if r is not None: return req + [("pp", call, nx[2], True)] + r
                        req.append(("pp", call, nx[2], False))
                    elif nx is not None and nx[0] == "many" and nx[2] and nx[2][0][0] == "tok" and nx[2][0][2] in (",", ";"): req.append(("pp", call, nx[2][0][2], False))
                    elif nx is not None and nx[0] == "pp" and u[2] is s.I.rootnode:
                        if i < len(E) and E[i][0] == "p": req += [("pp", call, q, False) for q in sorted(E[i][1][0].kinds)]
                        else: req.append(("pp-root", call))
                    continue
                if u[0] == "t" and u[1][0] in ("text", "lower", "upper") and s.is_node(u[1][1], c):
                    if u[1][0] != "text" and s.sp.T.textset(c) is None and not c.kinds <= FOLDED:
                        return s.fail(i, "letter case of %s changed" % c.name)
                    i += 1; j += 1
                    continue
                try: bs = s.sp.body(c)
                except Mismatch as e: return s.fail(i, "%s, but %s" % (e, brief(u)))
                if len(bs) == 1: S = rotate(S[:j] + bs[0] + S[j + 1:])
                else: S = S[:j] + [("any", [rotate(b) for b in bs])] + S[j + 1:]
                continue
            raise Unsupported("spec item " + k)
    def repeated(s, atom, S, j):
        """text.repeat(n): as many copies as the tree has; -> index behind, or None"""
        want = atom[1].replace(" ", "").lower()
        def copies(l):
            """l spells a whole number of copies; the number or None"""
            t, n = "", 0
            for x in l:
                if x[0] == "tok": t += x[2].replace(" ", "")
                elif x[0] == "ch": t += x[1]
                elif x[0] == "many":
                    if len(t) % len(want): return None
                    q = copies(x[2])
                    if q is None: return None
                    n = n + s.I.count(x[1]) * q
                else: return None
            if len(t) % len(want) or t != want * (len(t) // len(want)): return None
            return n + len(t) // len(want)
        for e in range(len(S), j, -1):
            q = copies(S[j:e])
            if q is not None and s.equal(atom[2], q): return e
        return None
FOLDED = frozenset(["decimal_floating_point_literal"])

def brief(u):
    if u[0] == "c": return "%r" % u[1]
    if u[0] == "t": return "text %s" % (u[1],)
    if u[0] == "call": return "%s of %s" % (u[1], u[2].name)
    if u[0] == "cm": return "%s comments of %s" % (u[2], u[1].name)
    if u[0] == "paren": return "(%s)" % brief(u[1])
    if u[0] == "p": return "punctuation %s" % u[1][0].name
    if u[0] == "many": return "a repetition %s of %s" % (u[1], [brief(x) for x in u[2]][:4])
    return u[0]
def showspec(S):
    o = []
    for x in S:
        if x[0] == "ch": o.append(x[1])
        elif x[0] == "tok": o.append("`%s`" % x[2])
        elif x[0] == "cond": o.append("[cond %s:%s]" % (x[1].name, "|".join(sorted(x[1].kinds))))
        elif x[0] in ("or", "any"): o.append("%s{%s}" % (x[0], " / ".join(showspec(a) for a in x[1])))
        elif x[0] == "node": o.append("[%s:%s]" % (x[1].name, "|".join(sorted(x[1].kinds))[:40]))
        elif x[0] == "cm": o.append("{%s %s}" % (x[2], x[1].name))
        elif x[0] == "opt": o.append("<%s>?" % showspec(x[1]))
        elif x[0] == "many": o.append("(%s)*%s" % (showspec(x[2]), x[1]))
        else: o.append(x[0])
    return " ".join(o)

def check_tokens(p):
    """the token contract on one finished path; -> (ok, detail, requirements)"""
    I, n = p.I, p.node
    sp = Spec(I)
    E, _ = flatten(p.units)
    E = rotate(collapse(E))
    m = Match(I, sp)
    # delegation to another rule for the same node: that rule's contract is ours
    if n.children is None or any(u[0] == "call" and u[2] is n or u[0] == "t" and u[1][0] in ("text", "lower", "upper") and u[1][1] is n for u in E): S = [("node", n)]
    else:
        try: S = rotate(sp.body(n)[0])
        except Mismatch as e: return False, str(e), []
    S = S + [("pp",)]
    r = m.go(E, 0, S, 0, True)
    if r is None: return False, "%s  [contract: %s]" % (m.far[1], showspec(S)[:600]), []
    return True, None, r

# ---------------------------------------------------------------- white space between words
MAYBE_EMPTY = frozenset(["annotation_argument_list"])
class Fuse:
    """which characters may not stand next to each other when they end and begin two tokens"""
    def __init__(s, g):
        s.g = g
        def strings(r):
            if isinstance(r, dict):
                if r.get("type") == "STRING": yield r["value"]
                for x in r.values(): yield from strings(x)
            elif isinstance(r, list):
                for x in r: yield from strings(x)
        s.tokens = {"//", "/*", "/**"} | {t for t in strings(g.R) if len(t) > 1 and not any(c.isalnum() or c in "_ " for c in t)}
        s.cache = {}
    def __call__(s, a, b):
        """the longest token is read: a token is prolonged by what follows if a longer one starts with both"""
        W = ("w", "d", "f")
        if a in W and b in W: return True
        if a == "d" and b[:1] == ".": return True
        return a not in W and any(t != a and t.startswith(a + b[0]) for t in s.tokens)
    def of(s, T, n, last):
        b = None if last else T.ctx.begins.get(n.name)
        key = (n.kinds, n.named, last, n.texts, n.via, b)
        if key in s.cache: return s.cache[key]
        ts = T.textset(n)
        if ts is not None: r = {cls(t, last) for t in ts if t}
        else: r = set().union(*(s.g.edge(k, last) for k in n.kinds)) if n.named else {"\0"}
        if b is not None: r = r & b
        s.cache[key] = r
        return r

def separation(p, starts, fuse):
    """every two neighbouring tokens that would be read as one are kept apart; -> (offending pairs, requirements on
    the rules called: ("sep", left call, right call, detail) - one of the two has to bring the white space itself)"""
    I, T = p.I, p.I.tree
    bad, req, ends, begins = {}, set(), {}, {}
    def first_last(u):
        if u[0] == "c": c = "w" if u[1].isalnum() or u[1] in "_$" else u[1]; return {c}, {c}
        if u[0] == "t":
            if u[1][0] in ("text", "lower", "upper"): return fuse.of(T, u[1][1], 0), fuse.of(T, u[1][1], 1)
            if u[1][0] == "repeat" and u[1][1]: return {u[1][1][0]}, {u[1][1][-1]}
            return {"\0"}, {"\0"}
        if u[0] == "call": return fuse.of(T, u[2], 0), fuse.of(T, u[2], 1)
        if u[0] == "p": return set(u[1].kinds), set(u[1].kinds)
    def walk(l, st):
        for u in l:
            k = u[0]
            if k == "s":
                if u[1] in ("sp", "soft", "nl", "nl0"): st = frozenset()
                continue
            if k == "cm":
                for c, w, _ in st:
                    if c != "^" and c in "/*" and u[2] != "dangling": bad[(w, "comment", c, "/")] = 1
                continue
            if k == "many":
                m = ("^", u[1], None)
                def fix(l, a):
                    while True:
                        y = walk(l, a)
                        if y <= a: return a
                        a |= y
                if len(u) > 3:
                    a = frozenset()
                    if "one" in u[3]: a |= walk(u[3]["one"], st)
                    if "first" in u[3]:
                        x = walk(u[3]["first"], st)
                        if "mid" in u[3]: x = fix(u[3]["mid"], x)
                        a |= walk(u[3]["last"], x)
                    st = st | a
                    for q, l in u[3].items():
                        x = walk(l, frozenset([m if q in ("mid", "last") else ("^", None, None)]))
                        if q in ("first", "mid"): ends.setdefault(u[1], set()).update(y for y in x if y[0] != "^")
                else:
                    a = fix(u[2], st)
                    x = walk(u[2], frozenset([m]))
                    # repetitions printed by another path of the rule may be neighbours of these
                    ends.setdefault(u[1], set()).update(q for q in x if q[0] != "^")
                    st = a
                continue
            f, la = first_last(u)
            name = brief_raw(u)
            me = (u[1], tuple(sorted(u[2].kinds))) if k == "call" else None
            if k == "c" and u[2] not in starts and la & {"w"} == set():
                # a token printed in pieces
                la = {c + u[1] if c not in ("w", "d", "f", "^", "\0") else u[1] for c, _, _ in st} or la
            if not (k == "c" and u[2] not in starts):
                for c, w, lc in st:
                    for d in f:
                        if c == "^":
                            if w is not None: begins.setdefault(w, set()).add((d, name, me))
                        elif fuse(c, d):
                            if lc or me: req.add(("sep", lc, me, "%s directly followed by %s (%s%s)" % (w, name, c, d), c, d))
                            else: bad[(w, name, c, d)] = 1
            new = frozenset((c, name, me) for c in la)
            st = st | new if k == "call" and u[2].kinds & MAYBE_EMPTY else new
        return st
    walk(p.units, frozenset())
    return sorted(bad), req, ends, begins
def edges(p):
    """does the path start / end with certain white space: True, False or the call that decides; what it starts and ends with"""
    def at(us):
        for u in us:
            if u[0] == "s":
                if u[1] in ("sp", "soft", "nl", "nl0"): return True
                continue
            if u[0] == "cm": continue
            if u[0] == "call": return (u[1], tuple(sorted(u[2].kinds)))
            return False
        return False
    return at(p.units), at(p.units[::-1])
def brief_raw(u):
    if u[0] == "c": return "%r" % u[1]
    if u[0] == "t": return "text %s" % (u[1],)
    if u[0] == "call": return "%s of %s" % (u[1], u[2].name)
    if u[0] == "p": return "punctuation %s" % u[1].name
    return u[0]

# ---------------------------------------------------------------- comments
INF = 1 << 30
def position(n, root):
    """place of a node in the tree of the path, as a tuple (source order)"""
    if n is root: return ()
    p = n.parent
    if p is None: raise Unsupported("place of %s" % n.name)
    base = position(p, root)
    for i, c in enumerate(p.children or ()):
        if isinstance(c, Many):
            for j, x in enumerate(c.items):
                if not isinstance(x, Many) and x.name == n.name: return base + (i, j)
                if isinstance(x, Many):
                    for q, y in enumerate(x.items):
                        if not isinstance(y, Many) and y.name == n.name: return base + (i, j, q)
        elif c.name == n.name: return base + (i,)
    raise Unsupported("place of %s" % n.name)
def many_position(m, us, root):
    """common place of a repeated group"""
    ps = []
    for u in us:
        if u[0] == "many": ps.append(many_position(u[1], u[2], root))
        else:
            n = u[2] if u[0] == "call" else u[1]
            q = position(n, root)
            # the place of the repetition itself: without the index inside it
            while n is not root and n.parent is not None:
                par = n.parent
                for i, c in enumerate(par.children or ()):
                    if isinstance(c, Many) and c.m == m: ps.append(position(par, root) + (i,)); break
                else: n = par; continue
                break
            else: raise Unsupported("repetition %s prints something else" % m)
    if len(set(ps)) != 1: raise Unsupported("repetition %s" % m)
    return ps[0]

def check_comments(p, own):
    """every comment that is marked as printed is printed, none twice, and in the order of the source;
    own(X, kinds): which of its own comments the rule X prints.  -> (ok, detail)"""
    I, root = p.I, p.node
    def keep(us):
        out = []
        for u in us:
            if u[0] == "many":
                x = keep(u[2])
                if x: out.append(("many", u[1], x))
            elif u[0] in ("call", "cm", "p"): out.append(u)
        return out
    us = keep(p.units)
    reorder = root.kind() == "modifiers"
    seen = {}
    def interval(u):
        if u[0] == "many":
            q = many_position(u[1], u[2], root)
            return q + (-2,), q + (INF + 5,)
        n = u[2] if u[0] == "call" else u[1]
        if u[0] == "p" and n.name.startswith("next"): return (INF + 10,), (INF + 11,)
        q = position(n, root)
        if u[0] == "p": return q + (-1,), q + (INF + 2,)
        if u[0] == "cm":
            x = {"pre": -1, "dangling": INF + 1, "post": INF + 2}[u[2]]
            return q + (x,), q + (x,)
        o = own(u[1], n.kinds)
        return q + (-1 if "pre" in o else -0.5,), q + (INF + 2 if "post" in o else INF + 1 if "dangling" in o else INF,)
    def walk(l):
        last, lastu = None, None
        for u in l:
            if u[0] == "many":
                d = walk(u[2])
                if d: return d
            a, b = interval(u)
            if reorder:
                key = (a, u[2].kinds if u[0] == "call" else None)
                if u[0] != "many":
                    if key in seen: return "%s printed twice" % desc(u)
                    seen[key] = 1
                continue
            if last is not None and not last < a: return "comments of %s are printed behind those of %s (twice, or out of order)" % (desc(u), desc(lastu))
            last, lastu = b, u
        return None
    def desc(u): return "the repetition %s" % u[1] if u[0] == "many" else "%s (%s)" % (brief_raw(u) if u[0] != "cm" else "%s of %s" % (u[2], u[1].name), "|".join(sorted((u[2] if u[0] == "call" else u[1]).kinds))[:50])
    d = walk(us)
    if d: return False, d
    # marks
    printed, verbatim = set(), set()
    def collect(us):
        for u in us:
            if u[0] == "many": collect(u[2])
            elif u[0] == "cm": printed.add((u[1].name, u[2]))
            elif u[0] == "t" and u[1][0] in ("text",): verbatim.add(u[1][1].name)
    collect(p.units)
    for e in I.effects:
        if e[0] == "mark" and (e[1].name, e[2]) not in printed and not (e[2] == "dangling" and e[1].name in verbatim):
            return False, "%s comments of %s are marked as printed but are not printed" % (e[2], e[1].name)
    return True, None
def own_comments(p):
    """what the rule prints of the comments of its own node: set of pre / dangling / post, and the rules it leaves them to"""
    out, to = set(), set()
    def walk(us):
        for u in us:
            if u[0] == "many": walk(u[2])
            elif u[0] == "cm" and u[1] is p.node: out.add(u[2])
            elif u[0] == "call" and u[2] is p.node: to.add((u[1], p.node.kind()))
    walk(p.units)
    return out, to
def twice(p):
    """requirements on callees whose node's own comments this path prints itself"""
    out = set()
    def names(us, w):
        for u in us:
            if u[0] == "many": names(u[2], w)
            elif u[0] == "cm": w.add((u[1].name, u[2]))
    printed = set()
    names(p.units, printed)
    def walk(us):
        for u in us:
            if u[0] == "many": walk(u[2])
            elif u[0] == "call" and u[1] != "Punctuation":
                for w in ("pre", "dangling", "post"):
                    if (u[2].name, w) in printed: out.add(("nocm", u[1], tuple(sorted(u[2].kinds)), w))
    walk(p.units)
    return out
# ---------------------------------------------------------------- line structure
NOSEP = ("fb", "g(", "g)", "F(", "F)")
BODY = {"class_body", "interface_body", "enum_body", "block", "constructor_body", "switch_block", "parser_output"}
KEEP_BLANKS = BODY - {"enum_body", "switch_block"}
class Holders:
    """kinds of nodes that can contain a braced body (anonymous classes and accessors left aside)"""
    def __init__(s, g):
        par = {}
        def walk(p, sh):
            for el in sh:
                if isinstance(el, Rep):
                    for a in el.alts: walk(p, a)
                elif el.named:
                    for k in el.kinds: par.setdefault(k, set()).add(p)
        for p in g.bodies:
            if p in ("object_creation_expression", "accessor_list"): continue
            for sh in g.shapes(p): walk(p, sh)
        s.kinds, todo = set(BODY), list(BODY)
        while todo:
            for q in par.get(todo.pop(), ()):
                if q not in s.kinds: s.kinds.add(q); todo.append(q)

def nonempty(I, m):
    """the path knows that there is at least one repetition"""
    if ("N", m) not in I.ints: return False
    z = I.z(); z.push(); z.add(z3.Int("N_" + m) == 0); r = z.check(); z.pop()
    return r == z3.unsat
def layout(p, holders):
    """obligations on line breaks and indentation; -> (list of (obligation, key, detail), requirements)"""
    I, root = p.I, p.node
    k = root.kind()
    bad, req = [], set()
    def name(q): return q if isinstance(q, str) else q.name
    body = k in BODY and root.children is not None and not any(u[0] == "call" and u[2] is root for u in p.units)
    members = {}
    if body:
        for c in every(root.children):
            if c.named: members[c.name] = c
    def unfl(st): return {(q, seps[:-1] if seps and seps[-1][0] == "fl" else seps) for q, seps in st}
    def show(seps): return " ".join("%s%d" % (t, l) for t, l in seps) or "nothing"
    def step(u, st, d):
        """states: (what was printed last, separators since)"""
        if u[0] == "s":
            if u[1] in NOSEP: return st, d
            # the pending line break is written out (fl): a line break behind it is another one
            if u[1] == "fl": return frozenset((q, seps[:6] + (("fl", 0),)) if seps and seps[-1][0] == "nl" else (q, seps) for q, seps in st), d
            return frozenset((q, seps[:6] + ((u[1], u[2]),)) for q, seps in st), d
        if u[0] == "cm": return st, d
        if u[0] == "c":
            if u[1] == "}":
                d -= 1
                if body and d == 0:
                    for q, seps in unfl(st):
                        if q == "{": continue
                        if not seps or seps[-1] != ("nl", 0): bad.append(("indent", "close", "the closing brace of %s stands behind %s (%s)" % (k, show(seps), name(q))))
                        elif k in KEEP_BLANKS and seps != (("nl", 0),): bad.append(("blank", "close", "%s between the last member of %s and the closing brace" % (show(seps), k)))
            if u[1] == "{": d += 1
            return frozenset([(u[1], ())]), d
        if u[0] == "many":
            d0 = d
            def run(l, st):
                d = d0
                for x in l: st, d = step(x, st, d)
                if d != d0: raise Unsupported("braces in a repetition")
                return st
            def fix(l, x):
                while True:
                    y = run(l, x)
                    if y <= x: return x
                    x |= y
            if len(u) > 3:
                x = frozenset()
                if "one" in u[3]: x |= run(u[3]["one"], st)
                if "first" in u[3]:
                    y = run(u[3]["first"], st)
                    if "mid" in u[3]: y = fix(u[3]["mid"], y)
                    x |= run(u[3]["last"], y)
            else: x = fix(u[2], st)
            if len(u) > 3 and nonempty(I, u[1]): return x, d0
            return st | x, d0
        if u[0] == "call":
            n, l = u[2], u[3]
            if n.kinds & holders.kinds and l != d:
                ok = k == "if_statement" and l == d + 1
                if ok:
                    for q, seps in unfl(st):
                        if not seps or seps[-1] != ("nl", d + 1): ok = False
                    req.add(("clean", u[1], tuple(sorted(n.kinds)), 0))
                if not ok: bad.append(("indent", "level " + u[1], "%s of %s is printed at level %d inside %d pairs of braces" % (u[1], name(n), l, d)))
            if body and n.name in members:
                d1 = 0 if k == "parser_output" else 1
                if l != d1 or d != d1: bad.append(("indent", "member level " + u[1], "%s of %s is printed at level %d inside %d pairs of braces" % (u[1], name(n), l, d)))
                for q, seps in unfl(st):
                    if q == "start" and not seps and k == "parser_output": continue
                    if not seps or seps[-1] != ("nl", d1): bad.append(("indent", "own line " + u[1], "%s of %s does not start on a line of its own: %s behind %s" % (u[1], name(n), show(seps), name(q))))
                    elif k in KEEP_BLANKS:
                        want = (("nl", d1),)
                        if not isinstance(q, str):
                            g = I.facts.get(("gap", q.name))
                            if g is None: bad.append(("blank", "unknown", "whether a blank line follows %s is not looked at" % q.name)); continue
                            if g: want = (("nl0", d1), ("nl", d1))
                        elif q not in ("{", "start"): bad.append(("blank", "behind " + q, "%s of %s behind %r" % (u[1], name(n), q))); continue
                        if seps not in (want, (("nl0", 0),) + want[1:]) : bad.append(("blank", "between", "%s between %s and %s, expected %s" % (show(seps), name(q), name(n), show(want))))
                for e in (0, 1): req.add(("clean", u[1], tuple(sorted(n.kinds)), e))
            return frozenset([(n if n.name in members else "call", ())]), d
        return frozenset([(u[0], ())]), d
    st, d = frozenset([("start", ())]), 0
    for u in p.units: st, d = step(u, st, d)
    if d != 0 and k not in ("enum_body",): bad.append(("indent", "braces", "the braces printed are not balanced"))
    if body and k == "parser_output":
        for q, seps in unfl(st):
            if q != "start" and seps != (("nl", 0),): bad.append(("blank", "end", "%s behind the last declaration" % show(seps)))
    return bad, req
def clean_edges(p):
    """does the path print white space of its own at its start / end: True, False, or the call that decides"""
    def at(us, rev):
        out, fl = set(), False
        for u in us[::-1] if rev else us:
            if u[0] == "s":
                # at the end only an empty line matters: other white space merges with the line break that follows,
                # unless something has written it out
                if u[1] in NOSEP: continue
                if u[1] == "fl": fl = True; continue
                if rev and u[1] != "nl0" and not fl: continue
                return out | {(u[1], rev)}
            if u[0] == "cm" or u[0] == "p" and u[1].name == "next?": continue
            if u[0] == "p": return out | {False}
            if u[0] == "many":
                for l in u[3].values() if len(u) > 3 else [u[2]]: out |= at(l, rev)
                continue
            if u[0] == "call": return out | {(u[1], tuple(sorted(u[2].kinds)))}
            return out | {False}
        return out | {False}
    def fin(x): return {True if isinstance(q, tuple) and isinstance(q[1], bool) else q for q in x}
    return fin(at(p.units, False)), fin(at(p.units, True))

# ---------------------------------------------------------------- where lines are broken (P08)
# constructs that always take several lines (or, an annotation, a line of their own)
FORCED = BODY | {"accessor_list", "annotation", "if_statement", "trigger_body"}
CHAIN = frozenset(["method_invocation", "field_access"])
# constructs made of several nodes: the break points of an inner one belong to the group of the outer one
def adopts(k, n, kk):
    """may the break points of child n, a kk, be broken together with those of its parent, a k?"""
    ks = {kk}
    if k in ("field_access", "java_field_access", "method_invocation"): return "object" in n.fields or not n.fields
    if k == "array_access": return "index" not in n.fields
    if k == "binary_expression": return ks <= {"binary_expression"}
    if k in COND: return ks <= BOOL
    if k in ("query_expression", "subquery", "soql_query_body", "sosl_query_body", "soql_query", "sosl_query"): return all(q.endswith(("_body", "_clause", "_type", "_with_clause")) for q in ks)
    if k in ("with_type", "with_clause"): return True
    return False
LISTS = {"argument_list": "(", "formal_parameters": "(", "array_initializer": "{", "map_initializer": "{", "comparable_list": "(", "type_parameters": "<", "subquery": "(", "query_expression": "["}
SEQS = {"constant_declaration": "variable_declarator", "field_declaration": "variable_declarator", "local_variable_declaration": "variable_declarator"}
CLOSE = {"(": ")", "{": "}", "[": "]", "<": ">"}
def must_break(k, root, a, b):
    """is there a break point between the neighbouring parts a and b of a k; a part is a character or a node"""
    na, nb = isinstance(a, Node), isinstance(b, Node)
    if k in LISTS:
        o = LISTS[k]
        return (a == o or na) and (b == CLOSE[o] or nb) and (na or nb)
    if not (na and nb): return False
    if k in SEQS: return a.kinds <= {SEQS[k]} and b.kinds <= {SEQS[k]}
    if k in ("binary_expression", "ternary_expression", "and_expression", "or_expression", "soql_query_body", "sosl_query_body"): return True
    if k in ("assignment_expression", "variable_declarator"): return ("right" in b.fields or "value" in b.fields) and not ("query_expression" in b.kinds)
    if k in ("method_invocation", "field_access"): return "object" in a.fields and a.kinds <= CHAIN
    return False
def breaks(p):
    """-> (failures, facts): facts are ("loose", parents) - break points outside any group of the rule, under these
    kinds of parents; ("flow" / "need", X, kind, parent kinds, parents) - the rule called hands its own on / must have none"""
    I, root = p.I, p.node
    k = root.kind()
    pk = I.tree.parents.get("p")
    pk = tuple(sorted(pk.kinds)) if pk is not None else None
    bad, facts = {}, set()
    own = not any(u[0] == "call" and u[2] is root for u in p.units)
    # the group that encloses each call: alone in it, or with others
    def walk(us, depth):
        stack = []      # per open group: [number of things inside]
        for i, u in enumerate(us):
            q = u[1] if u[0] == "s" else None
            if q == "g(": stack.append(i); continue
            if q == "g)": stack.pop(); continue
            if q == "F(":
                j, lv, hard = i + 1, 1, False
                while lv:
                    if us[j][0] == "s": lv += {"F(": 1, "F)": -1}.get(us[j][1], 0)
                    hard = hard or us[j][0] in ("call", "many") or us[j][0] == "s" and us[j][1] in ("soft", "maybe"); j += 1
                if hard: bad[("flat", "the %s is never broken over lines" % k)] = 1
                continue
            if q in ("nl", "nl0"):
                if k not in FORCED: bad[("forced", "the %s always takes several lines" % k)] = 1
                continue
            if q == "fb":
                bad[("forced", "the groups around the %s are always broken" % k)] = 1
                continue
            if q in ("soft", "maybe"):
                if not stack and not depth: facts.add(("loose", pk))
                continue
            if u[0] == "many":
                for l in (u[3].values() if len(u) > 3 else (u[2],)): walk(l, depth + len(stack))
                continue
            if u[0] == "call" and u[1] != "Punctuation":
                n = u[2]
                alone = stack and us[stack[-1] + 1] is u and us[i + 1][:2] == ("s", "g)")
                if alone: continue
                same = n is root or n.orig is root
                par = None if same else tuple(sorted(n.parent.kinds)) if n.parent is not None else ("?",)
                for kk in n.kinds:
                    if same:
                        if not (stack or depth): facts.add(("flow", u[1], kk, None, pk))
                    elif any(adopts(x, n, kk) for x in par):
                        if not (stack or depth): facts.add(("flow", u[1], kk, par, pk))
                    else: facts.add(("need", u[1], kk, par, pk))
    walk(p.units, 0)
    if own and root.children is not None and (k in LISTS or k in SEQS or k in ("binary_expression", "ternary_expression", "and_expression", "or_expression", "soql_query_body", "sosl_query_body", "assignment_expression", "variable_declarator", "method_invocation", "field_access")):
        def part(u):
            if u[0] == "c" and k in LISTS and u[1] in (LISTS[k], CLOSE[LISTS[k]]): return u[1]
            if u[0] == "call" and u[1] != "Punctuation" and u[2].named and (u[2].parent is root or root.orig is not None and u[2].parent is root.orig): return u[2]
            return None
        def step(l, st):
            for u in l:
                if u[0] == "s":
                    if u[1] in ("soft", "maybe", "nl", "nl0"): st = frozenset((a, True) for a, _ in st)
                    continue
                if u[0] == "many":
                    def fix(l, x):
                        while True:
                            y = step(l, x)
                            if y <= x: return x
                            x |= y
                    if len(u) > 3:
                        x = frozenset()
                        if "one" in u[3]: x |= step(u[3]["one"], st)
                        if "first" in u[3]:
                            y = step(u[3]["first"], st)
                            if "mid" in u[3]: y = fix(u[3]["mid"], y)
                            x |= step(u[3]["last"], y)
                        st = x if nonempty(I, u[1]) else st | x
                    else: st = fix(u[2], st)
                    continue
                b = part(u)
                if b is None: continue
                for a, br in st:
                    if a is not None and not br and must_break(k, root, a, b):
                        bad[("point", "no break point between %s and %s of the %s" % (a if isinstance(a, str) else "|".join(sorted(a.kinds))[:40], b if isinstance(b, str) else "|".join(sorted(b.kinds))[:40], k))] = 1
                st = frozenset([(b, False)])
            return st
        step(p.units, frozenset([(None, False)]))
    return sorted(bad), facts

# ---------------------------------------------------------------- totality
# constructs the formatter does not support (P18 says so), by parent: a source with one may be rejected
DECL = frozenset(["class_declaration", "enum_declaration", "interface_declaration", "trigger_declaration"])
def unsupported(parent, k):
    """is a node of kind k below one of kind parent outside of what the formatter supports?"""
    if parent == "parser_output": return k not in DECL                        # anonymous Apex
    if k in DECL or k == "method_declaration": return parent not in ("class_body", "interface_body")      # local declarations
    if k == "array_initializer": return parent != "array_creation_expression"   # { .. } without new
    return k in ("annotated_type", "type_of_clause", "with_record_visibility_expression")
def excluded(p):
    """is the path about a source with an unsupported construct?"""
    def bad(n, cs):
        for c in cs:
            if isinstance(c, Node):
                if c.extra: continue
                if n.kind() is not None and c.named and all(unsupported(n.kind(), k) for k in c.kinds): return True
                if c.children and bad(c, c.children): return True
            elif isinstance(c, Many) and bad(n, c.items): return True
        return False
    return bad(p.node, p.node.children or ())
def commented(p):
    """is the path about a source with comments?"""
    I = p.I
    if I.commented: return True
    if I.solver is None: return False
    s = z3.Solver(); s.set("timeout", 2000)
    s.add(I.solver.assertions())
    for n in list(I.ints):
        if n[0] == "N" and (n[1].startswith("cm.") or "gap" in n[1]): s.add(z3.Int("N_" + n[1]) == 0)
    return s.check() == z3.unsat
def total(p):
    """a path that fails: what it fails on, None if that is no supported source without comments"""
    if excluded(p) or commented(p): return None
    def sh(n, cs): return " ".join("|".join(sorted(c.kinds)[:4]) + ("" if not c.texts or len(c.texts) > 3 else "=" + "/".join(sorted(c.texts))) + ("(%s)" % sh(c, c.children) if c.children else "") if isinstance(c, Node) else "(%s)*" % sh(n, c.items) for c in cs if not (isinstance(c, Node) and c.extra or isinstance(c, Many) and all(isinstance(x, Node) and x.extra for x in c.items)))
    return "a %s%s" % (p.node.kind(), (" of " + sh(p.node, p.node.children))[:300] if p.node.children else "")
def live(p, g, out, self):
    """the calls of this path on supported nodes"""
    if excluded(p): return
    def walk(us):
        for u in us:
            if u[0] == "many": walk(u[2])
            elif u[0] == "call":
                n = u[2]
                if n is p.node or n.orig is p.node: self.update((u[1], g.key(k, n.via)) for k in n.kinds); continue
                o = n.parent
                for k in n.kinds:
                    if o is None or o.kind() is None or not unsupported(o.kind(), k): out.add((u[1], g.key(k, n.via)))
    walk(p.units)


# ---------------------------------------------------------------- P15: a second pass prints the same
def stable(p):
    """what the document of this path depends on besides the shape of the tree, the texts that are printed and the blank
    lines between members, which the output has again"""
    I, out = p.I, set()
    for f in I.facts:
        if not (isinstance(f, tuple) and f[0] == "gap"): out.add("depends on %s" % (str(f)[:80],))
    if I.posreads: out.add("depends on a position in the source: %s" % sorted(I.posreads)[0])
    if I.cased:
        same = set()
        def walk(us):
            for u in us:
                if u[0] == "t" and u[1][0] == "text": same.add(u[1][1].name)
                elif u[0] == "many": walk(u[2])
        walk(p.units)
        for n in sorted(I.cased - same): out.add("depends on the letter case of %s, which is not printed as it is" % n)
    return out

DROPS = (COND - {"comparison_expression"}) | STRAY | {"storage_alias", "annotation", "annotation_argument_list", "modifiers"}
def kindsof(cs): return tuple((c.m, kindsof(c.items)) if isinstance(c, Many) else c.kinds for c in cs)
def nocm(us):
    from .emit import show
    return show([u for u in us if u[0] != "cm"])
def has_named(c): return any(has_named(x) if isinstance(x, Many) else x.named for x in c.items)
def sizes(p, cs, top):
    """numbers of repetitions, at most `top` each, that this path allows"""
    import itertools
    free = [c for c in cs if isinstance(c, Many) and has_named(c)]
    z = p.I.z()
    for l in itertools.product(range(top + 1), repeat=len(free)):
        z.push()
        for c, n in zip(free, l): z.add(p.I.count(c.m) == n)
        r = z.check(); z.pop()
        if r != z3.unsat: yield {**{c.m: 0 for c in cs if isinstance(c, Many)}, **{c.m: n for c, n in zip(free, l)}}
def printed(us, at, skip=()):
    """the text of the units when repetition m consists of the children at[m] = [(kinds, label)], child n of at[n]"""
    def text(us, cur):
        o, lone = [], False
        lab = lambda n: cur[1] if cur and n.many else at[(n.orig or n).name][0][1] if (n.orig or n).name in at else n.name
        for u in us:
            if u[0] == "s":
                if not lone: o.append("%s%d" % (u[1], u[2]))
                continue
            lone = False
            if u[0] == "c": o.append(u[1])
            elif u[0] == "cm": pass
            elif u[0] == "many":
                if u[1] not in at:
                    if any(v[0] not in ("s", "cm") for v in u[2]): raise Unsupported("repetition %s" % u[1])
                    continue
                ks = {k for v in u[2] if v[0] == "call" for k in v[2].kinds}
                its = [x for x in at[u[1]] if x[0] & ks]
                lone = len(u) > 3 and not its      # the first of a list: no separator in front of what follows
                for q, x in enumerate(its):
                    l = u[2]
                    if len(u) > 3: l = u[3]["one" if len(its) == 1 else "first" if q == 0 else "last" if q == len(its) - 1 else "mid"]
                    o.append(text(l, x))
            elif u[0] == "t": o.append("<%s %s>" % (u[1][0], lab(u[1][1]) if isinstance(u[1][1], Node) else u[1][1]))
            elif u[0] == "call":
                if u[2].name in skip: continue
                o.append("[%s %s %d]" % (u[1], lab(u[2]), u[3]))
            elif u[0] == "p": o.append("P(%s)" % lab(u[1]))
            else: o.append(str(u))
        return " ".join(x for x in o if x)
    return text(us, None)
def reduced(p, top=2):
    """(reduced tree, printed text) of a path without comments, every repetition 0 to `top` times: the tree without the
    tokens the rule may drop; nodes are named by their place in it"""
    cs = p.node.children
    if cs is None or any(True for _ in dangling(p.units)): return
    k = p.node.kind()
    gap = {f[1]: v for f, v in p.I.facts.items() if isinstance(f, tuple) and f[0] == "gap"}
    args = [c.name for c in cs if k == "annotation" and not isinstance(c, Many) and c.kinds == {"annotation_argument_list"}]
    for z in sizes(p, cs, top):
        for skip in ((), args) if args else ((),):
            at, key = {}, []
            def one(c, many):
                if not c.named or c.name in skip: return
                at.setdefault(many or c.name, []).append((c.kinds, "#%d" % len(key)))
                key.append((c.kinds, gap.get(c.name)))
            for c in cs:
                if not isinstance(c, Many): one(c, None); continue
                at.setdefault(c.m, [])
                if sum(2 * has_named(x) if isinstance(x, Many) else x.named for x in c.items) > 1: raise Unsupported("repetition of several")
                for _ in range(z[c.m]):
                    for x in c.items:
                        if not isinstance(x, Many): one(x, c.m)
            t = printed(p.units, at, skip)
            if k == "annotation_argument_list" and not key: t = "" if t.replace(" ", "") in ("", "()") else t
            if key and key[-1][1] is not None: key[-1] = (key[-1][0], None)     # nothing follows: no question of a blank line
            yield tuple(key), t
def dangling(us):
    for u in us:
        if u[0] == "cm" and u[2] == "dangling": yield u
        elif u[0] == "many": yield from dangling(u[2])

def erasure(seen):
    """seen: {(reduced tree, text)}: what is printed is a function of the reduced tree"""
    def meet(a, b): return len(a) == len(b) and all(x[0] & y[0] and (x[1] is None or y[1] is None or x[1] == y[1]) for x, y in zip(a, b))
    l = sorted(seen, key=str)
    for i, (a, x) in enumerate(l):
        for b, y in l[:i]:
            if x != y and meet(a, b): return "with other tokens that may be dropped the same tree is printed as %s / %s" % (x[:200], y[:200])
    return None

def instances(p, top=4):
    """for up to `top` annotations and keywords in any order: (order, printed text); nodes are named by kind and place among their kind"""
    import itertools
    cs = p.node.children
    if cs is None: return
    if any(isinstance(c, Many) and len(c.items) != 1 for c in cs): raise Unsupported("modifiers in another form")
    for z in sizes(p, cs, top):
        ks = [(c.items[0] if isinstance(c, Many) else c, c) for c in cs for _ in range(z[c.m] if isinstance(c, Many) else 1)]
        if len(ks) > top: continue
        for seq in itertools.product(*[sorted(t.kinds) for t, c in ks]):
            at, n = {c.m: [] for c in cs if isinstance(c, Many)}, {}
            for x, (t, c) in zip(seq, ks):
                at.setdefault(c.m if isinstance(c, Many) else c.name, []).append((frozenset([x]), "%s%d" % (x, n.get(x, 0))))
                n[x] = n.get(x, 0) + 1
            yield seq, printed([u for u in p.units if u[0] != "p"], at)
def reorder(seen):
    """seen: {(order, text)}: the text for an order is the text for the order it is printed in"""
    import re
    f = {}
    for q, t in sorted(seen):
        if f.setdefault(q, t) != t: return "modifiers in the order %s are printed in two ways" % (q,)
    for q, t in f.items():
        r = tuple(x for x in re.findall(r" (annotation|modifier)\d+ ", t))
        if f.get(r) != t: return "modifiers in the order %s are printed as %s, and these as %s" % (q, t[:150], str(f.get(r))[:150])
    return None
