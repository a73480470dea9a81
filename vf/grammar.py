"""The node kinds of the syntax trees afmt receives, read from grammar.json of the parser version
named in Cargo.lock: for every kind the set of child sequences it can have (REPEAT as nothing, one,
or first / any number / last), the fields of the children, and the texts of its tokens.

This file is the *precondition* of every contract: "the node given has the shape the grammar
allows".  Whether the generated parser really follows its grammar is assumed (property P17)."""
import json, functools, re
from . import gen as _gen

def ci_text(p):
    """the text of a case-insensitive keyword pattern, None if the pattern is not one.  White space
    inside a keyword ("GROUP  BY") counts as one blank, optional white space as none."""
    out, i = "", 0
    while i < len(p):
        c = p[i]
        q = None
        if c == "[":
            j = p.index("]", i); cl = p[i+1:j]
            if set(cl.replace("\\s", " ").replace("\\n", " ").replace("\\t", " ")) <= {" ", "\n", "\t"}: q = " "
            else:
                s = set(cl.lower())
                if len(s) != 1: return None
                q = cl[0].lower()
            i = j + 1
        elif c == "\\" and p[i+1:i+2] in ("s", "n", "t"): q = " "; i += 2
        elif c == "\\" and p[i+1:i+2] in (".", "?", "+", "*", "(", ")", "[", "]", "/", "-", "|", "^", "&"): q = p[i+1]; i += 2
        elif c.isalnum() or c in "_ <>=!&|@~,;:%": q = c.lower(); i += 1
        else: return None
        n = p[i:i+1]
        if n in ("*", "?", "{"):
            if q != " " or n == "{": return None
            q = ""; i += 1
        elif n == "+":
            if q != " ": return None
            i += 1
        out += q
    return re.sub(" +", " ", out)

class Child:
    """one child position: the kinds it can have, its fields, named or not; via: the alias the node is made by"""
    __slots__ = ("kinds", "fields", "named", "via")
    def __init__(s, kinds, fields=(), named=True, via=None): s.kinds, s.fields, s.named, s.via = frozenset(kinds), tuple(fields), named, via
    def key(s): return (s.kinds, s.fields, s.named, s.via)
    def __repr__(s): return "%s%s%s" % ("".join(f + ":" for f in s.fields), "|".join(sorted(s.kinds)), "" if s.named else "'")
class Rep:
    """any number (also none) of repetitions of a child sequence"""
    __slots__ = ("alts",)
    def __init__(s, alts): s.alts = alts       # list of sequences, each repetition takes one of them
    def __repr__(s): return "(%s)*" % " / ".join(map(repr, s.alts))
    def key(s): return ("rep", tuple(tuple(x.key() for x in a) for a in s.alts))
def seqkey(s): return tuple(x.key() for x in s)

class Grammar:
    def __init__(s, path=None):
        s.path = path or _gen.grammar_path()
        g = json.load(open(s.path))
        s.R = g["rules"]
        s.inline = set(g["inline"]); s.super = set(g["supertypes"])
        s.extras = {e["name"] for e in g["extras"] if e["type"] == "SYMBOL"}
        # kind -> rule bodies
        s.bodies = {}; s.via = {}
        def walk(r):
            if r["type"] == "ALIAS":
                if r["named"]:
                    # an alias to a symbol: the node replaces that symbol's node
                    c = s.strip(r["content"])
                    b = s.R[c["name"]] if c["type"] == "SYMBOL" and not s.hidden(c["name"]) else c
                    s.bodies.setdefault(r["value"], []).append(b)
                    s.via[json.dumps(r, sort_keys=True)] = b
            for x in r.get("members", []): walk(x)
            if "content" in r: walk(r["content"])
        for n, r in s.R.items():
            if not s.hidden(n): s.bodies.setdefault(n, []).append(r)
        for r in s.R.values(): walk(r)
        s._sh = {}; s._shv = {}; s._stack = []; s.anon_src = {}
        # kinds made in several ways (a rule and aliases of other rules): a position in the tree knows which, "kind@i" names one
        s.vias = {}
        for k in sorted(s.bodies):
            if len(s.bodies[k]) < 2 or s.is_leaf(k): continue
            l = sorted(v for v in s.via if v[0] == "{" and json.loads(v)["value"] == k)
            if k in s.R and not s.hidden(k): s.via["\1" + k] = s.R[k]; l.append("\1" + k)
            if len(l) > 1: s.vias[k] = l
        s._sh = {}; s._shv = {}
    def key(s, k, via):
        return "%s@%d" % (k, s.vias[k].index(via)) if k in s.vias and via is not None else k
    def unkey(s, k):
        n, at, i = k.partition("@")
        return (n, s.vias[n][int(i)]) if at and n in s.vias else (k, None)
    def nested(s, n, fields):
        """a hidden rule met again inside itself: only "( rule )" is known; it becomes any number of
        further parentheses around one of the visible alternatives"""
        kinds = set()
        seen = set()
        def vis(r):
            t = r["type"]
            if t == "CHOICE":
                for m in r["members"]: vis(m)
            elif t == "SYMBOL" and s.hidden(r["name"]):
                if r["name"] not in seen: seen.add(r["name"]); vis(s.R[r["name"]])
            elif t == "SYMBOL": kinds.add(r["name"])
            elif t == "SEQ" and [m.get("value") for m in (r["members"][0], r["members"][-1])] == ["(", ")"] and len(r["members"]) == 3: vis(r["members"][1])
            else: raise ValueError("recursive hidden rule %s" % n)
        vis(s.R[n])
        par = lambda c: Rep([(Child([c], fields, False),)])
        return [(par("("), Child(kinds, fields, True), par(")"))]
    def hidden(s, n): return n.startswith("_") or n in s.inline or n in s.super
    # ---------------------------------------------------------------- shapes
    def alts(s, r, fields=()):
        """child sequences of a rule body; single-child alternatives are merged into one Child"""
        t = r["type"]
        if t == "BLANK": return [()]
        if t == "STRING":
            s.anon_src.setdefault(r["value"], {})["="] = r
            return [(Child([r["value"]], fields, False),)]
        if t == "PATTERN": return [(Child(["\0" + r["value"]], fields, False),)]
        if t in ("TOKEN", "IMMEDIATE_TOKEN"):
            c = r["content"]
            if c["type"] in ("STRING", "PATTERN"): return s.alts(c, fields)
            return [(Child(["\0" + json.dumps(c)], fields, False),)]
        if t == "ALIAS":
            if not r["named"]: s.anon_src.setdefault(r["value"], {})[json.dumps(r["content"], sort_keys=True)] = r["content"]
            return [(Child([r["value"]], fields, r["named"], json.dumps(r, sort_keys=True) if r["named"] else None),)]
        if t == "SYMBOL":
            n = r["name"]
            if s.hidden(n):
                if n in s._stack: return s.nested(n, fields)
                s._stack.append(n)
                try: return s.alts(s.R[n], fields)
                finally: s._stack.pop()
            return [(Child([n], fields, True, "\1" + n if "\1" + n in s.via else None),)]
        if t == "FIELD": return s.alts(r["content"], fields + (r["name"],))
        if t.startswith("PREC"): return s.alts(r["content"], fields)
        if t == "SEQ":
            out = [()]
            for m in r["members"]:
                a = s.alts(m, fields)
                out = [x + y for x in out for y in a]
            return s.dedup(out)
        if t == "CHOICE":
            out = []
            for m in r["members"]: out += s.alts(m, fields)
            return s.merge(out)
        if t in ("REPEAT", "REPEAT1"):
            a = [x for x in s.alts(r["content"], fields) if x]
            a = s.merge(a)
            out = [] if t == "REPEAT1" else [()]
            out += list(a)                                    # once
            mid = (Rep(a),)
            out += [x + mid + y for x in a for y in a]       # first, any number, last
            return out
        raise ValueError(t)
    def dedup(s, l):
        seen, out = set(), []
        for x in l:
            k = seqkey(x)
            if k not in seen: seen.add(k); out.append(x)
        return out
    def merge(s, l):
        """union of the single-child alternatives that differ in kind only"""
        single, out, order = {}, [], []
        for x in l:
            if len(x) == 1 and isinstance(x[0], Child) and x[0].named and x[0].via is None:
                k = (x[0].fields, x[0].named)
                if k not in single: single[k] = set(); order.append(("s", k))
                single[k] |= x[0].kinds
            else: order.append(("x", x))
        for t, v in order:
            out.append((Child(single[v], v[0], v[1]),) if t == "s" else v)
        return s.dedup(out)
    def shapes(s, kind, via=None):
        """child sequences of a node of this kind ([()] for a leaf)"""
        if via is not None:
            if via not in s._shv:
                b = s.strip(s.via[via])
                out = [()] if s.is_token(b) else s.dedup(s.alts(b))
                s._shv[via] = [()] if s.shapes(kind) == [()] or any(s.open_part(q) for q in out) else out
            return s._shv[via]
        if kind not in s._sh:
            if kind not in s.bodies: s._sh[kind] = [()]
            else:
                out = []
                for b in s.bodies[kind]:
                    b = s.strip(b)
                    if s.is_token(b): out.append(())
                    else: out += s.alts(b)
                # a kind with a token alternative, or with a part of open text that is no child of its own
                # (version_number), is taken as a unit: its text is the text of the node
                if () in out and any(s.is_token(s.strip(b)) for b in s.bodies[kind]) or any(s.open_part(q) for q in out): out = [()]
                s._sh[kind] = s.dedup(out)
        return s._sh[kind]
    def has_rep(s, kind): return any(isinstance(e, Rep) for sh in s.shapes(kind) for e in sh)
    def open_part(s, seq):
        for e in seq:
            if isinstance(e, Rep):
                if any(s.open_part(a) for a in e.alts): return True
            elif any(k.startswith("\0") and s.anon_text(k) is None for k in e.kinds): return True
        return False
    def strip(s, b):
        while b["type"].startswith("PREC"): b = b["content"]
        return b
    def is_token(s, b):
        b = s.strip(b)
        return b["type"] in ("TOKEN", "IMMEDIATE_TOKEN", "STRING", "PATTERN")
    # ---------------------------------------------------------------- texts
    def _texts(s, r):
        """finite set of the (lower case) texts of a token rule, None if open"""
        t = r["type"]
        if t == "STRING": return {r["value"].lower()}
        if t == "PATTERN":
            x = ci_text(r["value"])
            return None if x is None else {x}
        if t == "BLANK": return {""}
        if t == "SEQ":
            out = {""}
            for m in r["members"]:
                a = s._texts(m)
                if a is None: return None
                out = {x + y for x in out for y in a}
            return out
        if t == "CHOICE":
            out = set()
            for m in r["members"]:
                a = s._texts(m)
                if a is None: return None
                out |= a
            return out
        if t in ("REPEAT", "REPEAT1"): return None
        if t == "SYMBOL": return s._texts(s.R[r["name"]])
        return s._texts(r["content"])
    @functools.lru_cache(None)
    def leaf_texts(s, kind):
        """texts of a leaf kind: finite set of lower case texts, or None"""
        if not s.is_leaf(kind): return None
        out = set()
        for b in s.bodies.get(kind, []):
            b = s.strip(b)
            while b["type"] == "SYMBOL": b = s.strip(s.R[b["name"]])
            a = s._texts(b)
            if a is None: return None
            out |= a
        return frozenset(out) if out else None
    @functools.lru_cache(None)
    def is_leaf(s, kind): return s.shapes(kind) == [()]
    # ---------------------------------------------------------------- first / last tokens
    def anon_text(s, kind):
        """text of an anonymous child (None: pattern with an open set of texts)"""
        if kind.startswith("\0"):
            if kind[1:2] == "{": t = s._texts(json.loads(kind[1:])); return next(iter(t)) if t and len(t) == 1 else None
            return ci_text(kind[1:])
        out = set()
        for c in s.anon_src.get(kind, {}).values():
            x = s._texts(c)
            if x is None: return None
            out |= x
        return next(iter(out)) if len(out) == 1 else None
    # first / last token of a node: "w" a word character, otherwise the token; "\\0" anything
    OPEN = {"string_literal": ("'", "'"), "int": ("w", "d"), "decimal": ("w-", "w"), "date": ("w", "w"), "date_time": ("w", "w"),
            "currency_literal": ("w", "w"), "decimal_floating_point_literal": ("w.", "wf"), "type_identifier": ("w", "w"), "identifier": ("w", "w"), "version_number": ("w", "w"),
            "line_comment": ("/", "\0"), "block_comment": ("/", "/"), "term": ("\0", "\0")}
    def edge(s, kind, last, _seen=None):
        c = s.__dict__.setdefault("_edge", {})
        if (kind, last) in c: return c[(kind, last)]
        if kind in s.OPEN: return set(s.OPEN[kind][last])
        # fixpoint over the kinds reachable at that end
        deps, base = {}, {}
        todo = [kind]
        while todo:
            k = todo.pop()
            if k in deps: continue
            deps[k], base[k] = set(), set()
            if k in s.OPEN: base[k] = set(s.OPEN[k][last]); continue
            for sh in s.shapes(k):
                if not sh:
                    tx = s.leaf_texts(k)
                    base[k] |= {"\0"} if tx is None else {cls(x, last) for x in tx if x}
                    continue
                s._ends(sh, last, deps[k], base[k])
            todo += list(deps[k])
        ch = True
        while ch:
            ch = False
            for k in deps:
                n = len(base[k])
                for d in deps[k]: base[k] |= base[d]
                ch = ch or len(base[k]) != n
        for k in base: c[(k, last)] = base[k]
        return base[kind]
    def _ends(s, seq, last, deps, base):
        els = reversed(seq) if last else seq
        for el in els:
            if isinstance(el, Rep):
                for a in el.alts: s._ends(a, last, deps, base)
                continue
            for k in el.kinds:
                if el.named: deps.add(k)
                else:
                    x = s.anon_text(k)
                    base |= {"\0"} if not x else {cls(x, last)}
            return
def cls(x, last):
    c = x[-1 if last else 0]
    return "w" if c.isalnum() or c in "_$" else x if not any(a.isalnum() or a in "_$ " for a in x) else c
