"""Deductive verification of the functions the printing rules rely on by contract: the printing of the comments of
a bucket, the punctuation behind a node, comments themselves, and the final check for erased comments.  Each function
of /repo is executed symbolically on arbitrary arguments and its contract is checked on every path.
Run with python3-vt:  helpers.py AST.json OUT.json"""
import sys, os, re, json, time, traceback
if __name__ == "__main__": sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
import z3
from vf.sym import Interp, Driver, Program, STATS
from vf.values import *
from vf.effects import Check, every, outcome, Bad
from vf import builtins

def opq(n, *x): return Opaque(n, *x)
INDENT = z3.Int("indent_size")
META = ("has_leading_content", "has_trailing_content", "has_empty_line_above", "has_empty_line_below", "has_prev_node", "is_followed_by_bracket_composite_node")

class Failed(Exception): pass

class HW(Interp):
    def __init__(s, prog, driver):
        Interp.__init__(s, prog, None, driver)
        s.vecs = []
        s.b = St("DocBuilder", {"arena": opq("arena"), "config": St("PrettyConfig", {"indent_size": INDENT})})
        s.assume(INDENT > 0)
        s.out = []
        s.hooks["opaque"] = s.opaque
        s.hooks["partition"] = lambda x, f: s.split(x, f)
        s.hooks["string"] = lambda r, n, a: s.string_hook(r, n, a)
        msg = lambda *a: S(("msg",))
        s.intrinsics.update({"red": msg, "yellow": msg})
    def more(s, o, n, a): return None
    def loop_state(s, seen, env):
        h = s.hooks.get("head")
        if h: h(env)
        return super().loop_state(seen, env)
    def eq(s, a, b):
        a, b = s.force(a), s.force(b)
        # nodes of one tree, and their ids: equal exactly if they are the same node
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.n == b.n and a.n in ("id", "hnode"): return a.x == b.x
        return super().eq(a, b)
    def string_hook(s, r, n, a): return None
    def opaque(s, o, n, a):
        if o.n == "arena" and n == "alloc": return a[0]
        return s.more(o, n, a)
    # a comment nothing is known about
    def comment(s, name, typ=None, value=None):
        f = {"value": value if value is not None else S(("cv", name)), "comment_type": typ or opq("ctype", name), "is_printed": St("Cell", {"v": z3.Bool("printed_" + name)}), "\0id": name}
        d = s.P.structs.get("CommentMetadata")
        names = [x["n"] for x in d["fields"]["f"]] if d else META
        f["metadata"] = St("CommentMetadata", {n: z3.Bool("%s_%s" % (n, name)) for n in names})
        return St("Comment", f)
    def split(s, x, f):
        """comments divided by a condition on their type: two sublists in the order of the list"""
        y = x.items[0] if len(x.items) == 1 else None
        if not (isinstance(y, St) and y.t == "Comment" and isinstance(y.f["comment_type"], Opaque)): return None
        r = {}
        for t in ("Line", "Block"):
            c = St("Comment", dict(y.f, comment_type=En("CommentType", t)))
            v = s.force(f(c))
            if not isinstance(v, bool): return None
            r.setdefault(v, []).append(Many(x.m + "|" + t, [c]))
        for l in r.values():
            if len(l) == 2: l[:] = [x]
        return r.get(True, []), r.get(False, [])
    def filteritems(s, items, f):
        out = []
        for x in items:
            if isinstance(x, Many):
                r = s.split(x, f)
                if r is not None: out += r[0]; continue
            out += Interp.filteritems(s, [x], f)
        return out
    def use_contracts(s):
        """Comment::build and mark_as_printed stand for their contracts"""
        doc = lambda c: En("Doc", "\0cb", s.force(c))
        def inner(c, b, res): s.force(res).items.append(doc(c)); return UNIT
        s.intrinsics.update({"Comment::build": lambda c, b: doc(c), "Comment::build_inner": inner,
            "Comment::mark_as_printed": lambda c: s.effects.append(("mark", c.f["\0id"])) or UNIT})
    def bucket(s, dangling=True):
        f = {}
        for w in ("pre", "post", "dangling"): f[w + "_comments"] = s.vec([Many(w, [s.comment(w)])])
        return St("CommentBucket", f)

def flat(I, items, out, level=0):
    """documents as a list of ("s", ..) white space, ("x", text), ("cb", comment), ("many", m, {part: units})"""
    for d in items:
        if isinstance(d, Many):
            ps = d.parts if d.parts is not None else {"": d.items}
            u = {}
            for nm, its in ps.items():
                u[nm] = []; flat(I, its, u[nm], level)
            out.append(("many", d.m, u)); continue
        d = I.force(d)
        if not isinstance(d, En): raise Unsupported("document %r" % (d,))
        v = d.v
        if v == "Text":
            p = I.force(d.a[0])
            c = p.const()
            w, k = I.force(d.a[1]), builtins.chars(I, p)
            if not (isinstance(w, int) and isinstance(k, int) and w == k or isinstance(w, z3.ExprRef) and isinstance(k, z3.ExprRef) and w.eq(k)): raise Failed("the width of the text %s is taken to be %s" % (p, w))
            if c is not None and not c.strip(" "): out.append(("s", "text", c))
            else: out.append(("x", p))
        elif v in ("Newline", "NewlineWithNoIndent", "Softline", "Maybeline", "ForceBreak"): out.append(("s", v, level))
        elif v in ("Indent", "Dedent"): flat(I, [d.a[1]], out, level + (1 if v == "Indent" else -1))
        elif v == "Flat": flat(I, [d.a[0]], out, level)
        elif v == "Concat": flat(I, I.force(d.a[0]).items, out, level)
        elif v == "\0cb": out.append(("cb", d.a[0].f["\0id"]))
        elif v == "\0old": out.append(("old",))
        elif v == "Choice": raise Unsupported("choice")
        else: raise Unsupported("document " + v)
    return out

def strip(us):
    o = []
    for u in us:
        if u[0] == "s": continue
        if u[0] == "many":
            ps = [strip(x) for x in u[2].values()]
            if any(x != ps[0] for x in ps): o.append(("many", u[1], u[2]))
            elif ps and ps[0]: o.append(("many", u[1], ps[0]))
        else: o.append(u)
    return o

def expect(I, u, want):
    """u = want, lists of comments that are empty on this path left out"""
    w = []
    for x in want:
        if x[0] == "many":
            z = I.z(); z.push(); z.add(I.count(x[1]) > 0); e = z.check() == z3.unsat; z.pop()
            if e: continue
        w.append(x)
    return strip(u) == w

def marks(I):
    o = []
    for e in I.effects:
        if e[0] == "many": o.append((e[1], tuple(e[2])))
        elif e[0] == "manyparts":
            ps = [tuple(x) for x in e[2].values()]
            o.append((e[1], ps[0] if all(x == ps[0] for x in ps) else ("different",)))
        else: o.append(e)
    return o
def expect_marks(I, names):
    w = []
    for n in names:
        z = I.z(); z.push(); z.add(I.count(n) > 0); e = z.check() == z3.unsat; z.pop()
        if not e: w.append((n, (("mark", n),)))
    return sorted(marks(I), key=str) == sorted(w, key=str)

OLD = En("Doc", "\0old")
def handle(prog, w, fn, which, ret):
    I = w
    I.use_contracts()
    bk = I.bucket()
    res = I.vec([OLD])
    f = prog.fns[fn]
    kind, v = outcome(I, lambda: I.call_fn(f, [I.b, bk] + ([] if ret else [res])))
    z = I.z(); z.push(); z.add(I.count(which) > 0); empty = z.check() == z3.unsat; z.pop()
    return kind, v, (I.force(v).items if ret and kind == "ret" else res.items), empty

def handle_contract(prog, fn, which, ret=False):
    c = Check(fn, ("P05",))
    def go(I, c):
        try: kind, v, items, empty = handle(prog, I, fn, which, ret)
        except Failed as e: c.need("P08 the widths of the texts are right", False, str(e)); return
        us = []
        if kind == "ret": flat(I, items, us)
        d = lambda: "%s %s effects %s" % (kind, us, I.effects)
        if kind == "panic": c.need("P05 it fails only if there is nothing to print", ret and empty, d); return
        want = [("many", which, [("cb", which)])]
        c.need("P05 every %s comment is printed once, in order, and nothing but white space besides; what was printed before stays" % which, expect(I, us, ([] if ret else [("old",)]) + want), d)
        c.need("P05 exactly the %s comments are marked as printed, each once" % which, expect_marks(I, [which]), d)
    every(prog, c, go, HW)
    return c

def punct_contract(prog):
    c = Check("Punctuation::build_inner", ("P05",))
    def go(I, c):
        I.use_contracts()
        bk = I.bucket()
        ID = opq("id")
        def get(i):
            if I.force(i) is not ID: raise Failed("the comments of another node are looked up")
            return bk
        I.intrinsics["get_comment_bucket"] = get
        t = I.choose(2, "type")
        p = St("Punctuation", {"id": ID, "type_": En("PuncuationType", ("Comma", "Semicolon")[t])})
        res = I.vec([OLD])
        m = prog.methods["Punctuation"]["build_inner"]
        try: kind, v = outcome(I, lambda: I.call_fn(m, [I.b, res], p, "Punctuation"))
        except Failed as e: c.need("P05 P08 the comments are those of the node, widths are right", False, str(e)); return
        us = []
        if kind == "ret": flat(I, res.items, us)
        d = lambda: "%s %s effects %s" % (kind, us, I.effects)
        c.need("P05 P18 it does not fail", kind == "ret", d)
        if kind != "ret": return
        s = strip(us)
        tok = [u for u in s if u[0] == "x"]
        c.need("P01 P02 P03 P04 P05 exactly the token is printed besides comments and white space", len(tok) == 1 and tok[0][1].const() == (",", ";")[t] and s[:1] == [("old",)], d)
        seq = [u if u[0] != "x" else "tok" for u in s[1:]]
        one = lambda m, n: ("many", m, [("cb", n)])
        # comments in front of the token keep their order; line comments are moved behind it, in front of the others
        orders = [[one("pre|Block", "pre"), "tok", one("pre|Line", "pre"), one("post", "post")], [one("pre", "pre"), "tok", one("post", "post")]]
        c.need("P05 every comment is printed once, in order, line comments in front of the token moved behind it", any(_drop(I, o) == _drop(I, seq) for o in orders), d)
        c.need("P05 every comment is marked as printed, once", expect_marks(I, ["pre", "post"]), d)
    every(prog, c, go, HW)
    return c
def _drop(I, l):
    o = []
    for x in l:
        if isinstance(x, tuple) and x[0] == "many":
            z = I.z(); z.push(); z.add(I.count(x[1]) > 0); e = z.check() == z3.unsat; z.pop()
            if e: continue
        o.append(x)
    return o

def follows_contract(prog):
    """Punctuation::from: the first sibling behind the node that is not a comment, if it is , or ;"""
    c = Check("Punctuation::from, is_punctuation_node, Punctuation::new", ("P01", "P02", "P03", "P04", "P05"))
    def go(I, c):
        ex = opq("hnode", "extra"); nodes = {k: opq("hnode", k) for k in (",", ";", "other")}
        me = opq("hnode", "me")
        last = []
        def more(o, n, a):
            if o.n != "hnode": return None
            k = o.x[0]
            if n in ("next_sibling", "next_named_sibling") and k in ("me", "extra"):
                if n == "next_named_sibling": raise Unsupported(n)
                i = I.choose(5, "next sibling")
                last[:] = [(ex, nodes[","], nodes[";"], nodes["other"], None)[i]]
                return some(last[0]) if last[0] is not None else NONE
            if n == "is_extra": return k == "extra"
            if n == "is_named": return k in ("extra", "me") or k == "other" and I.fact(("named",))
            if n == "id": return opq("id", k)
            if n == "kind":
                if k in (",", ";"): return S(k)
                if k == "extra": return S(("block_comment", "line_comment")[I.choose(2, "comment")])
                return S(("kind of another node",))
        I.more = more
        I.str_in = lambda a, cs: a.const() in cs if a.const() is not None else False if set(cs) <= {",", ";"} else (_ for _ in ()).throw(Unsupported("kind"))
        m = prog.methods["Punctuation"]["from"]
        kind, v = outcome(I, lambda: I.call_fn(m, [me], None, "Punctuation"))
        d = lambda: "%s %s, the first sibling that is not a comment: %s" % (kind, v, last and last[0] and last[0].x)
        c.need("P01 P02 P03 P04 P05 P18 it does not fail", kind == "ret", d)
        if kind != "ret": return
        v = I.force(v)
        c.need("it looks as far as the first sibling that is not a comment", bool(last) and last[0] is not ex, d)
        k = last[0].x[0] if last and last[0] is not None else None
        if k in (",", ";"):
            p = I.force(v.a[0]) if v.v == "Some" else None
            c.need("a following , or ; is found, with its type and its node", p is not None and I.force(p.f["type_"]).v == {",": "Comma", ";": "Semicolon"}[k] and isinstance(I.force(p.f["id"]), Opaque) and I.force(p.f["id"]).x == (k,), d)
        else: c.need("nothing else is taken for punctuation", v.v == "None", d)
    every(prog, c, go, HW)
    return c

def gap_contract(prog):
    c = Check("BodyMember::has_trailing_newline, BodyMember::new", ("P10",))
    def go(I, c):
        bk = I.bucket()
        bk.f["post_comments"] = I.vec([])
        me, nx = opq("hnode", "me"), opq("hnode", "next")
        last = I.choose(2, "a member follows") == 1
        # the anonymous siblings between the two members: stray semicolons.  Any number of them, by induction: the loop that walks over them is, behind
        # the second one, in the state it had behind the first one, one sibling further (same_state below); so the executions with 0 .. 3 of them
        # are all there are
        k = I.choose(4, "stray semicolons")
        heads = []
        def sig(v):
            v = I.force(v)
            if isinstance(v, Opaque): return (v.n, tuple(sig(x) for x in v.x))
            if isinstance(v, En): return (v.v, tuple(sig(x) for x in v.a))
            if isinstance(v, z3.ExprRef) or isinstance(v, (str, int, bool)) or v is None or isinstance(v, S):
                t = str(v.parts) if isinstance(v, S) else str(v)
                return re.sub(r"stray(\d+)", lambda m: "stray<%+d>" % (int(m.group(1)) - len(heads)), t)
            return "bucket" if v is bk else (type(v).__name__, id(v))
        def head(env):
            st = []
            while env is not None:
                st += [(n, sig(v)) for n, v in sorted(env.v.items())]
                env = env.p
            heads.append(tuple(st))
        I.hooks["head"] = head
        chain = [me] + [opq("hnode", "stray%d" % q) for q in range(k)] + ([] if last else [nx])
        P = {}
        def pos(n):
            if n not in P:
                v = I.nint(n); I.assume(v >= 0); I.assume(v <= 1 << 40); P[n] = opq("point", v)
            return P[n]
        where = lambda o: chain.index(o) if any(o is x for x in chain) else None
        rows = [pos("%s_%s" % (x.x[0], w)).x[0] for x in chain for w in ("start", "end")]
        for a_, b_ in zip(rows, rows[1:]): I.assume(a_ <= b_)
        def more(o, n, a):
            if o.n != "hnode": return None
            if n == "id": return opq("id", o.x[0])
            q = where(o)
            if n == "next_named_sibling": return NONE if last or o is nx else some(nx)
            if n == "next_sibling" and q is not None and q + 1 < len(chain): return some(chain[q + 1])
            if n == "end_position": return pos(o.x[0] + "_end")
            if n == "start_position": return pos(o.x[0] + "_start")
            if n == "is_named": return not o.x[0].startswith("stray")
            if n == "kind" and o.x[0].startswith("stray"): return S(";")
        I.more = more
        I.hooks["field"] = lambda v, f: v.x[0] if v.n == "point" and f == "row" else (_ for _ in ()).throw(Unsupported("field " + f))
        I.intrinsics["get_comment_bucket"] = lambda i: bk if isinstance(I.force(i), Opaque) and I.force(i).x == ("me",) else (_ for _ in ()).throw(Unsupported("bucket"))
        MEM = opq("member")
        kind, v = outcome(I, lambda: I.call_fn(prog.methods["BodyMember"]["new"], [me, MEM], None, "BodyMember"))
        d = lambda: "%s %s" % (kind, v)
        c.need("P10 P18 it does not fail", kind == "ret", d)
        if kind != "ret": return
        f = I.force(v).f
        c.need("P10 the member is kept", I.force(f["member"]) is MEM, d)
        HEADS.setdefault((last, k), []).append(heads)
        r = I.force(f["has_trailing_newline"])
        if isinstance(r, bool): r = z3.BoolVal(r)
        want = z3.BoolVal(False) if last else z3.Or([pos(x.x[0] + "_end").x[0] + 1 < pos(y.x[0] + "_start").x[0] for x, y in zip(chain, chain[1:])])
        z = I.z(); z.push(); z.add(r != want); ok_ = z.check() == z3.unsat; z.pop()
        c.need("P10 without comments behind it, a member is followed by a blank line exactly if there is a row without a token between it and the next one", ok_, lambda: "%s instead of %s" % (r, want))
    HEADS = {}
    every(prog, c, go, HW)
    # one loop head per iteration; the states behind the first and the second stray semicolon, with the same ahead of them
    def behind(k, i): return {h[i] for h in HEADS.get((False, k), []) if len(h) > i}
    norm = lambda x: re.sub(r"_(start|end)[\w!]*", r"_\1", str(x))
    same = lambda a, b: bool(a) and {norm(x) for x in a} == {norm(x) for x in b}
    if not (same(behind(3, 0), behind(3, 1)) and same(behind(1, 0), behind(2, 1)) and same(behind(2, 1), behind(3, 2))) or any(h for (l, k), hs in HEADS.items() if l for h in hs):
        c.unsupported["no invariant found for the walk over stray semicolons"] += 1
    c.heads = HEADS
    return c

def cell_contract(prog):
    c = Check("Comment::mark_as_printed, Comment::is_printed", ("P05",))
    def go(I, c):
        x = I.comment("x")
        M = prog.methods["Comment"]
        kind, v = outcome(I, lambda: I.call_fn(M["is_printed"], [], x, "Comment"))
        c.need("P05 is_printed returns the mark and changes nothing", kind == "ret" and str(I.force(v)) == "printed_x" and str(x.f["is_printed"].f["v"]) == "printed_x", str(v))
        kind, v = outcome(I, lambda: I.call_fn(M["mark_as_printed"], [], x, "Comment"))
        c.need("P05 mark_as_printed sets the mark", kind == "ret" and x.f["is_printed"].f["v"] is True, str(v))
        keep = {k: y for k, y in x.f.items() if k != "is_printed"}
        c.need("P05 mark_as_printed changes nothing else", keep == {k: y for k, y in I.comment("x").f.items() if k != "is_printed"} or all(str(y) == str(I.comment("x").f[k]) for k, y in keep.items()), str(x))
    every(prog, c, go, HW)
    return c

class Missing(HW):
    """lists of comments filtered by their mark: emptiness is decided list by list"""
    def leaves(s, items, f, out):
        for x in items:
            if isinstance(x, Many): s.leaves(x.items, f, out) if any(isinstance(y, Many) for y in x.items) else out.append((x, [f(x.m)]))
        return out
    def filteritems(s, items, f):
        out = []
        for x in items:
            if not isinstance(x, Many): raise Unsupported("filter")
            if all(isinstance(y, Many) for y in x.items):
                r = s.filteritems(x.items, f)
                if r: out.append(Many(x.m, r))
                continue
            y = x.items[0] if len(x.items) == 1 else None
            if not (isinstance(y, St) and y.t == "Comment"): raise Unsupported("filter")
            r = {}
            for b in (True, False):
                r[b] = s.force(f(St("Comment", dict(y.f, is_printed=St("Cell", {"v": b})))))
                if not isinstance(r[b], bool): raise Unsupported("filter by something but the mark")
            if r[True] and r[False]: out.append(x)
            elif r[False]: out.append(Many("unprinted " + x.m, x.items))
            elif r[True]: out.append(Many("printed " + x.m, x.items))
        return out
    def is_empty(s, items):
        for x in items:
            if not isinstance(x, Many): return False
            if x.items and all(isinstance(y, Many) for y in x.items):
                if not s.is_empty(x.items): return False
            elif s.fact(("some", x.m)): return False
        return True
    def iter(s, v):
        v = s.force(v)
        l = HW.iter(s, v)
        while any(isinstance(x, Many) and any(isinstance(y, Many) for y in x.items) for x in l):
            l = [y for x in l for y in (x.items if isinstance(x, Many) and any(isinstance(y, Many) for y in x.items) else [x])]
        return l
    def length(s, items):
        if any(isinstance(x, Many) for x in items): raise Unsupported("length")
        return len(items)

def missing_contract(prog):
    c = Check("assert_no_missing_comments", ("P05",))
    def go(I, c):
        bk = I.bucket()
        mp = opq("map")
        I.intrinsics["get_comment_map"] = lambda: mp
        def more(o, n, a):
            if o is mp and n == "values": return It([Many("buckets", [bk])], I.depth)
            if o is mp and n in ("iter", "into_iter"): return It([Many("buckets", [Tup(opq("id"), bk)])], I.depth)
        I.more = more
        kind, v = outcome(I, lambda: I.call_fn(prog.fns["assert_no_missing_comments"], []))
        F = {k[1]: x for k, x in I.facts.items() if k[0] == "some"}
        d = lambda: "%s %s" % (kind, F)
        if kind == "ret": c.need("P05 it returns only if no comment of any bucket is unprinted", F == {"unprinted " + w: False for w in ("pre", "post", "dangling")}, d)
        else: c.need("P05 P18 it fails only if some comment is unprinted", any(F.get("unprinted " + w) for w in ("pre", "post", "dangling")), d)
    every(prog, c, go, Missing)
    return c

# ------------------------------------------------------------------ the text of a comment
class TW(HW):
    """texts made of blanks ("ws", i) (possibly none), ("ws1", i) (at least one), words and literals.  A word ("any", i)
    is not empty, neither begins nor ends with a blank and contains no line break; ("nostar", i) does not begin with a star"""
    BL = " \t\r\x0b\x0c"
    def fact(s, key):
        if key[0] == "empty" and any(isinstance(p, str) or p[0] != "ws" for p in key[1]): return False
        return HW.fact(s, key)
    def trim(s, p, left, right):
        p = list(p)
        while left and p:
            if isinstance(p[0], str):
                q = p[0].lstrip(s.BL + "\n")
                if q: p[0] = q; break
                p.pop(0)
            elif p[0][0] in ("ws", "ws1"): p.pop(0)
            else: break
        while right and p:
            if isinstance(p[-1], str):
                q = p[-1].rstrip(s.BL + "\n")
                if q: p[-1] = q; break
                p.pop()
            elif p[-1][0] in ("ws", "ws1"): p.pop()
            else: break
        return S(*p)
    def head(s, r, t):
        """does it begin with t"""
        p = list(r.parts)
        while p:
            if isinstance(p[0], str):
                if p[0].startswith(t): return True
                if not t.startswith(p[0]): return False
                t = t[len(p[0]):]; p.pop(0); continue
            if p[0][0] in ("ws", "ws1") and t[0] not in s.BL:
                if p[0][0] == "ws1": return False
                p.pop(0); continue
            if p[0][0] == "nostar" and t[0] == "*": return False
            raise Unsupported("prefix of %s" % (p[0],))
        return not t
    def tail(s, r, t):
        p = list(r.parts)
        if not p: return not t
        if isinstance(p[-1], str):
            if p[-1].endswith(t): return True
            if len(p) == 1 or not t.endswith(p[-1]): return False
        elif p[-1][0] == "ws1":
            if t[-1] not in s.BL: return False
        elif s.noend: return False
        raise Unsupported("suffix of %s" % (p[-1],))
    noend = False
    def string_hook(s, r, n, a):
        if r is s.value and n in ("split", "lines", "split_terminator"):
            if n == "split":
                o = s.force(a[0])
                if (o.c if isinstance(o, Char) else o.const()) != "\n": raise Unsupported("split")
            return It(list(s.lines), s.depth)
        if n in ("trim", "trim_start", "trim_end"): return s.trim(r.parts, n != "trim_end", n != "trim_start")
        if n == "len":
            k = 0
            for p in r.parts: k = k + (len(p.encode()) if isinstance(p, str) else s.size(p))
            return k
        if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix"):
            o = s.force(a[0])
            t = o.c if isinstance(o, Char) else o.const() if isinstance(o, S) else None
            if t is None: raise Unsupported(n)
            if n in ("starts_with", "strip_prefix"):
                y = s.head(r, t)
                if n == "starts_with": return y
                return some(S(r.parts[0][len(t):], *r.parts[1:])) if y else NONE
            y = s.tail(r, t)
            if n == "ends_with": return y
            return some(S(*r.parts[:-1], r.parts[-1][:len(r.parts[-1]) - len(t)])) if y else NONE
        if n == "trim_start_matches":
            o = s.force(a[0])
            t = o.c if isinstance(o, Char) else o.const() if isinstance(o, S) else None
            if t is None: raise Unsupported(n)
            while s.head(r, t): r = S(r.parts[0][len(t):], *r.parts[1:])
            return r
        return None
    def size(s, p):
        v = s.nint("len_" + str(p)); s.assume(v >= (0 if p[0] == "ws" else 1)); return v
    def str_slice(s, v, a, b):
        if b is None and isinstance(a, int) and v.parts and isinstance(v.parts[0], str) and len(v.parts[0]) >= a: return S(v.parts[0][a:], *v.parts[1:])
        raise Unsupported("slice")
    def str_in(s, a, cs):
        if a.const() is not None: return a.const() in cs
        r = False
        for t in cs:
            if t and all(isinstance(p, str) is False for p in a.parts): 
                raise Unsupported("comparison of a word")
            if any(isinstance(p, str) and p not in t for p in a.parts): continue
            raise Unsupported("comparison")
        return r

def shape(I, name, star=True):
    """an arbitrary line: blanks, or blanks around a text; star: whether a star in front matters"""
    ws = lambda x: ("ws", name + x)
    if not star: return [ws("<")] if I.choose(2, name + ": text") == 0 else [ws("<"), ("any", name), ws(">")]
    t = [[], [("nostar", name)], ["*"], ["*", ("nostar", name)], ["*", ("ws1", name + "*"), ("nostar", name)], ["*", ("ws1", name + "*"), "*", ws("+"), ("any", name)], ["*", ("ws1", name + "*"), "*"], ["**"], ["**", ws("*"), ("any", name)]]
    k = I.choose(len(t), name + ": text")
    return [ws("<")] + t[k] + ([ws(">")] if k else [])

def payload(I, parts, destar):
    """the text of a line without blanks around it and, if destar, without one star in front"""
    r = I.trim(parts, True, True)
    if destar and r.parts and isinstance(r.parts[0], str) and r.parts[0].startswith("*"): r = I.trim(S(r.parts[0][1:], *r.parts[1:]).parts, True, True)
    return r.parts

def outlines(I, us, nested=False):
    """the lines of a document: lists of parts, or ("many", m, {part: parts of one line}).  A line break waits for the
    next text, even an empty one: without a text between them, two line breaks are one"""
    lines = [[]]
    for u in us:
        if u[0] == "s" and u[1] == "text": lines[-1].append(u[2])
        elif u[0] == "s" and u[1] == "Newline":
            if lines[-1] == [] and not (nested and len(lines) == 1): raise Failed("a line is lost: nothing is printed between two line breaks")
            lines.append([])
        elif u[0] == "s": raise Unsupported("white space " + u[1])
        elif u[0] == "x": lines[-1].extend(u[1].parts or [""])
        elif u[0] == "many":
            front = None
            ps = {}
            for nm, x in u[2].items():
                l = outlines(I, x, True)
                if any(isinstance(y, tuple) for y in l): raise Unsupported("nested lines")
                if len(l) == 2 and l[1] == [] and l[0]: f, t = False, l[0]
                elif len(l) == 2 and l[0] == [] and l[1]: f, t = True, l[1]
                else: raise Failed("a line is printed as %s" % (l,))
                if front not in (None, f): raise Unsupported("line breaks")
                front = f; ps[nm] = t
            if not front:
                if lines[-1]: raise Failed("text in front of a line")
                lines[-1] = ("many", u[1], ps); lines.append([])
            else: lines.append(("many", u[1], ps))
        else: raise Unsupported(u[0])
    return lines

def text_contract(prog):
    c = Check("Comment::build_inner", ("P06",))
    def go(I, c):
        doc = I.choose(3, "kind of comment")          # line, block, JavaDoc
        n = 1 if doc == 0 else 1 + I.choose(2, "several lines")
        I.noend = True
        if doc == 0:
            I.lines = [S("//", ("any", "0"))]; I.value = S("//", ("any", "0"))
            if I.choose(2, "empty") == 1: I.lines = [S("//")]; I.value = S("//")
        else:
            op = "/*" if doc == 1 else "/**"
            star = doc == 2
            if n == 1:
                if doc == 1:
                    # not a JavaDoc comment: no star behind the delimiter
                    body = [[("ws1", "<")], [("ws", "<"), ("nostar", "0"), ("ws", ">")], [("ws1", "<"), ("any", "0"), ("ws", ">")]][I.choose(3, "text")]
                    I.lines = [S(op, *body, "*/")]
                elif I.choose(2, "/**/"): I.lines = [S("/**/")]; body = None
                else: body = shape(I, "0"); I.lines = [S(op, *body, "*/")]
            else:
                if doc == 1: X = [[("ws", "<")], [("ws", "<"), ("nostar", "0"), ("ws", ">")], [("ws1", "<"), ("any", "0"), ("ws", ">")]][I.choose(3, "text")]
                else: X = shape(I, "0")
                I.lines = [S(op, *X), Many("lines", [S(*shape(I, "i", star))]), S(*shape(I, "n", star), "*/")]
            I.value = S(*[p for i, l in enumerate(I.lines) for p in ((["\n"] if i else []) + (list(l.parts) if isinstance(l, S) else [("the lines between",)]))])
        cm = I.comment("x", En("CommentType", "Line" if doc == 0 else "Block"), I.value)
        res = I.vec([OLD])
        m = prog.methods["Comment"]["build_inner"]
        d0 = lambda: "lines %s" % (I.lines,)
        try:
            kind, v = outcome(I, lambda: I.call_fn(m, [I.b, res], cm, "Comment"))
            if kind != "ret":
                c.need("P06 a comment is always printed", False, d0); return
            us = flat(I, res.items, [])
            c.need("P06 what was printed before stays", us[:1] == [("old",)], d0)
            us = us[1:]
            d = lambda: "%s printed as %s" % (I.lines, us)
            if doc == 0:
                c.need("P06 a line comment is printed as its text and a line break", [u[:2] for u in us] == [("x", us[0][1]), ("s", "Newline")] and us[0][1].parts == I.value.parts, d)
                return
            c.need("P06 a block comment ends with its delimiter", bool(us) and us[-1][0] == "x" and I.tail(S(*us[-1][1].parts), "*/"), d)
            ls = outlines(I, us)
        except Failed as e: c.need("P06 every line is printed on a line of its own", False, "%s: %s" % (e, d0())); return
        if doc == 1:
            c.need("P06 a block comment keeps its lines", len(ls) == len(I.lines), d)
            if n == 1: c.need("P06 a block comment of one line is printed with exactly its characters", len(ls) == 1 and S(*ls[0]).parts == I.value.parts, d)
            else:
                good = len(ls) == 3 and isinstance(ls[1], tuple) and ls[1][1] == "lines"
                c.need("P06 the text of every line is kept, in order", good and payload(I, ls[0], False) == payload(I, I.lines[0].parts, False) and payload(I, ls[2], False) == payload(I, I.lines[2].parts, False)
                       and all(payload(I, x, False) == payload(I, I.lines[1].items[0].parts, False) for x in ls[1][2].values()), d)
            return
        # JavaDoc: the contents of the lines, without delimiters and decoration
        cut = lambda l: list(S(*l).parts)
        first, lst = cut(ls[0]) if isinstance(ls[0], list) else None, cut(ls[-1]) if isinstance(ls[-1], list) else None
        ok0 = first is not None and lst is not None and I.head(S(*first), "/**") and I.tail(S(*lst), "*/")
        c.need("P06 a JavaDoc comment begins with /** and ends with */", ok0, d)
        if not ok0: return
        got = []
        whole = len(ls) == 1
        for i, l in enumerate(ls):
            if isinstance(l, tuple): got.append(("many", {payload(I, x, True) for x in l[2].values()})); continue
            p = cut(l)
            if i == 0: p[0] = p[0][3:]
            if i == len(ls) - 1: p[-1] = p[-1][:-2]
            got.append(payload(I, p, i > 0))
        want = []
        if n == 1: want.append(I.trim(body, True, True).parts if body is not None else ())
        else:
            want = [payload(I, S(I.lines[0].parts[0][3:], *I.lines[0].parts[1:]).parts, False), ("many", {payload(I, I.lines[1].items[0].parts, True)}), payload(I, S(*I.lines[2].parts[:-1], I.lines[2].parts[-1][:-2]).parts, True)]
        ne = lambda l: [x for x in l if x != ()]
        c.need("P06 a JavaDoc comment keeps the text of every line, in order", ne(got) == ne(want), lambda: "%s: %s instead of %s" % (d(), got, want))
    every(prog, c, go, TW)
    return c

def from_node_contract(prog):
    c = Check("Comment::from_node", ("P05", "P06"))
    def go(I, c):
        k = I.choose(3, "kind")
        kinds = ("line_comment", "block_comment")
        me = opq("hnode", "me")
        I.intrinsics.update({"CommentMetadata::from": lambda n, t: opq("metadata", I.force(t)), "panic_unknown_node": lambda *a: (_ for _ in ()).throw(PathPanic("unknown node"))})
        T = S(("text", "me"))
        def more(o, n, a):
            if o is me:
                if n == "kind": return S(kinds[k]) if k < 2 else S(("kind of another node",))
                if n in ("value", "v"): return T
        I.more = more
        I.str_in = lambda a, cs: a.const() in cs if a.const() is not None else False
        I.string_hook = lambda r, n, a: S(("trim_end", r.parts)) if n in ("trim_end",) and r.parts == T.parts else None
        kind, v = outcome(I, lambda: I.call_fn(prog.methods["Comment"]["from_node"], [me], None, "Comment"))
        d = lambda: "%s %s" % (kind, v)
        c.need("P05 P06 it fails exactly on a node that is not a comment", (kind == "panic") == (k == 2), d)
        if kind != "ret": return
        f = I.force(v).f
        c.need("P05 P06 a line comment is a line comment, a block comment a block comment", I.force(f["comment_type"]).v == ("Line", "Block")[k], d)
        val = I.force(f["value"]).parts
        c.need("P05 P06 the value is the text, trailing blanks aside", val in (T.parts, (("trim_end", T.parts),)) if k == 1 else val == (("trim_end", T.parts),), lambda: str(val))
        c.need("P05 a new comment is not marked as printed", I.force(I.force(f["is_printed"]).f["v"]) is False, d)
    every(prog, c, go, HW)
    return c

def main():
    ast = json.load(open(sys.argv[1]))
    prog = Program(ast)
    t0 = time.time()
    out = []
    G = ("P01", "P02", "P03", "P04")
    L = [("handle_pre_comments", ("P05",), lambda p: handle_contract(p, "handle_pre_comments", "pre")), ("handle_post_comments", ("P05",), lambda p: handle_contract(p, "handle_post_comments", "post")),
         ("handle_dangling_comments", ("P05",), lambda p: handle_contract(p, "handle_dangling_comments", "dangling", True)), ("Punctuation::build_inner", G + ("P05", "P18"), punct_contract), ("Punctuation::from", G + ("P05", "P18"), follows_contract),
         ("BodyMember::has_trailing_newline", ("P10", "P18"), gap_contract), ("Comment marks", ("P05",), cell_contract), ("assert_no_missing_comments", ("P05", "P18"), missing_contract), ("Comment::build_inner", ("P06",), text_contract), ("Comment::from_node", ("P05", "P06"), from_node_contract)]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    for name, props, f in L:
        if only and only not in props: continue
        t1 = time.time()
        try: c = f(prog)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c = Check(name, props); c.unsupported["%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)] += 1
        c.props = props
        out.append({"contract": name, "s": round(time.time() - t1, 2), "fn": c.fn, "props": c.props, "paths": c.paths, "unsupported": dict(c.unsupported), "used": sorted(c.used),
                    "obs": [{"name": n, "n": k, "fail": b} for n, (k, b) in c.obs.items()]})
    json.dump({"time": round(time.time() - t0, 2), "queries": STATS["queries"], "zt": round(STATS["time"], 3), "contracts": out}, open(sys.argv[2], "w"), indent=1)
if __name__ == "__main__": main()
