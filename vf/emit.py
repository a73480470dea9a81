"""Runs one printing rule (X, k) - X::new(node).build(b) for an arbitrary node of kind k - and turns the
document it returns into a list of units (tokens, separators, calls of other rules, comments)."""
from .values import *
from .tree import Node
from .sym import Interp, Driver, Program
from .builtins import chars
import z3

INDENT = z3.Int("indent_size")
ASSOC = frozenset([",", ";", "else"])

def mk(prog, g, driver, inline=frozenset()):
    I = Interp(prog, g, driver)
    I.vecs = []; I.uid = 0; I.widths, I.choices = [], []; I.inline = inline; I.opaque_punc = True
    buckets = {}
    def bucket(idv):
        idv = I.force(idv)
        if not isinstance(idv, IdV): raise Unsupported("bucket of %r" % (idv,))
        n = idv.node
        key = (n.name, I.depth)
        if key not in buckets:
            def lst(w):
                c = St("Comment", {"\0src": (n, w)})
                return VecV([Many("cm.%s.%s" % (w, n.name), [c])], 0)
            # contract of collect_comments: a node with a child that comments can be attached to has no dangling comments
            nd = n.children is not None and any(isinstance(c, Node) and (c.named or c.kinds <= ASSOC) for c in n.children) or all(g.is_leaf(k) for k in n.kinds)
            buckets[key] = St("CommentBucket", {"pre_comments": lst("pre"), "post_comments": lst("post"), "dangling_comments": VecV([], 0) if nd else lst("dangling"), "\0node": n})
        return buckets[key]
    def push(v, d):
        v = I.force(v)
        if not isinstance(v, VecV): raise Unsupported("push on %r" % (v,))
        v.items.append(d)
        return UNIT
    def cm(bk, w): return En("Doc", "\0cm", I.force(bk).f["\0node"], w)
    def pre(b, bk, res): return push(res, cm(bk, "pre"))
    def post(b, bk, res): return push(res, cm(bk, "post"))
    def dang(b, bk):
        if I.is_empty(I.force(bk).f["dangling_comments"].items): raise PathPanic("no dangling comments")
        return I.vec([cm(bk, "dangling")])
    def mark(c): I.effects.append(("mark",) + c.f["\0src"]); return UNIT
    def punct(p, b):
        n = I.force(p.f["id"]).node
        if n.name == "next?": return En("Doc", "\0p", n)
        want = {"Comma": ",", "Semicolon": ";"}[I.force(p.f["type_"]).v]
        if n.kind() != want: raise Unsupported("punctuation %s for %s" % (want, n.kind()))
        return En("Doc", "\0p", n)
    def built(r, n, args):
        if r.t in I.inline: return None
        if n == "build": return En("Doc", "\0call", r.t, r.node)
        if n == "build_inner": return push(args[1], En("Doc", "\0call", r.t, r.node))
        return None
    def follows(node):
        """contract of Punctuation::from: the , or ; that follows the node, comments left aside"""
        n = I.force(node)
        if not (isinstance(n, Node) and n is I.rootnode and I.rootnext is None and I.opaque_punc): return NotImplemented
        q = Node("next?", [",", ";"], False); q.root = True
        def known():
            if I.rootnext is None:
                i = I.choose(3, "punctuation behind the node")
                f = [Node("nextOther", ["\1other"], True), Node("next,", [","], False), Node("next;", [";"], False)][i]
                f.root = True; I.rootnext = ("set", f)
            f = I.rootnext[1]
            for tok, v in ((",", "Comma"), (";", "Semicolon")):
                if f is not None and f.kinds == {tok}: return some(St("Punctuation", {"id": IdV(f), "type_": En("PuncuationType", v)}))
            return NONE
        return OptPunc(known, St("Punctuation", {"id": IdV(q), "type_": En("PuncuationType", "\1any")}))
    I.intrinsics.update({"Punctuation::from": follows, "get_comment_bucket": bucket, "handle_pre_comments": pre, "handle_post_comments": post, "handle_dangling_comments": dang,
        "Comment::mark_as_printed": mark, "Punctuation::build": punct, "get_source_code": lambda: S(("src",)),
        "BodyMember::has_trailing_newline": lambda n: I.fact(("gap", I.force(n).name)), "red": lambda x: S(("msg",)), "yellow": lambda x: S(("msg",))})
    I.hooks["built_method"] = built
    def opaque(o, n, args):
        if o.n == "arena" and n == "alloc": return args[0]
        return None
    I.hooks["opaque"] = opaque
    return I

def units(I, d, level, out):
    d = I.force(d)
    if not isinstance(d, En): raise Unsupported("document %r" % (d,))
    v = d.v
    if v == "Text":
        # every text writes out the line break that is pending
        w, c = I.force(d.a[1]), chars(I, d.a[0])
        if not (isinstance(w, int) and isinstance(c, int) and w == c or isinstance(w, z3.ExprRef) and isinstance(c, z3.ExprRef) and (w.eq(c) or I.z().check(w != c) == z3.unsat)):
            I.widths.append("the width of the text %s is taken to be %s, it has %s characters" % (d.a[0], w, c))
        if not d.a[0].parts: out.append(("s", "fl", level))
        for p in d.a[0].parts:
            if isinstance(p, str):
                for ch in p:
                    if ch in " \t": out.append(("s", "sp", level))
                    elif ch == "\n": raise Unsupported("line break in text")
                    else: I.uid += 1; out.append(("c", ch, I.uid))
            else: out.append(("t", p))
    elif v == "Newline": out.append(("s", "nl", level))
    elif v == "NewlineWithNoIndent": out.append(("s", "nl0", level))
    elif v == "Softline": out.append(("s", "soft", level))
    elif v == "Maybeline": out.append(("s", "maybe", level))
    elif v == "ForceBreak": out.append(("s", "fb", level))
    elif v in ("Indent", "Dedent"):
        a = d.a[0]
        if not (isinstance(a, z3.ExprRef) and a.eq(INDENT)):
            if isinstance(a, int) and a == 0: return units(I, d.a[1], level, out)
            raise Unsupported("indent by %r" % (a,))
        units(I, d.a[1], level + (1 if v == "Indent" else -1), out)
    elif v == "Flat":
        out.append(("s", "F(", level)); units(I, d.a[0], level, out); out.append(("s", "F)", level))
    elif v == "Concat": seq(I, I.force(d.a[0]).items, level, out)
    elif v == "Choice":
        a, b = I.force(d.a[0]), I.force(d.a[1])
        x, y = [], []
        while isinstance(a, En) and a.v == "Flat": a = I.force(a.a[0])
        out.append(("s", "fl", level))     # so does the start of a group
        if a is not b or I.force(d.a[0]) is a:
            I.choices.append("a choice that is not group(x)")
        if a is not b:
            units(I, a, level, x)
        units(I, b, level, y)
        if a is not b and strip(x) != strip(y): raise Unsupported("the two sides of a choice differ")
        out.append(("s", "g(", level)); out += y; out.append(("s", "g)", level))
    elif v == "\0call" and d.a[0] == "Punctuation":
        if not d.a[1].kinds <= {",", ";"}: raise Unsupported("punctuation of another kind")
        out.append(("p", d.a[1], level))
    elif v == "\0call": out.append(("call", d.a[0], d.a[1], level))
    elif v == "\0cm": out.append(("cm", d.a[0], d.a[1], level))
    elif v == "\0p": out.append(("p", d.a[0], level))
    else: raise Unsupported("document " + v)
def seq(I, items, level, out):
    for x in items:
        if isinstance(x, Many):
            o = []
            seq(I, x.items, level, o)
            ps = None
            if x.parts is not None:
                ps = {}
                for nm, its in x.parts.items():
                    ps[nm] = []
                    seq(I, its, level, ps[nm])
                    if strip(ps[nm]) != strip(o): raise Unsupported("repetitions print different things")
                same = lambda l: [u[:2] if u[0] == "c" else u for u in l]
                if all(same(l) == same(o) for l in ps.values()): ps = None
            if x.m == "\1pp":
                if strip(o) != strip(o)[:1] or len(o) != 1 or o[0][0] != "p": raise Unsupported("optional part")
                out.append(o[0]); continue
            if o: out.append(("many", x.m, o) if ps is None else ("many", x.m, o, ps))
        else: units(I, x, level, out)
def strip(us):
    o = []
    for u in us:
        if u[0] == "s": continue
        if u[0] == "many":
            x = strip(u[2])
            if x: o.append(("many", u[1], x))
        elif u[0] in ("call", "cm", "p"): o.append(u[:-1])
        elif u[0] == "c": o.append(u[:2])
        else: o.append(u)
    return o

class Path: pass
def run(prog, g, X, k, driver, inline=frozenset(), unroll=0):
    """one path; returns Path with status ok / panic / skip / unsupported"""
    p = Path()
    I = mk(prog, g, driver, inline)
    I.unroll = unroll
    p.I = I
    k, via = g.unkey(k)
    n = I.tree.root(k); n.via = via
    I.rootnode, I.roott = n, X
    p.node = n
    p.units = None; p.why = None
    try:
        b = St("DocBuilder", {"arena": Opaque("arena"), "config": St("PrettyConfig", {"indent_size": INDENT})})
        I.assume(INDENT > 0)
        fn = prog.methods[X]["new"]
        val = I.call_fn(fn, [n], None, X)
        doc = I.method(val, "build", [b])
        out = []
        units(I, doc, 0, out)
        p.units = out
        p.status = "ok"
    except PathPanic as e: p.status, p.why = "panic", str(e)
    except (Infeasible, Subsumed) as e: p.status, p.why = "skip", type(e).__name__
    except Unsupported as e: p.status, p.why = "unsupported", str(e)
    return p

def paths(prog, g, X, k, limit=200000, inline=frozenset(), unroll=0):
    d = Driver()
    n = 0
    while True:
        yield run(prog, g, X, k, d, inline, unroll)
        n += 1
        if not d.next(): return
        if n >= limit:
            p = Path(); p.status, p.why, p.units, p.I, p.node = "unsupported", "too many paths", None, None, None
            yield p; return

def show(us):
    o = []
    for u in us:
        if u[0] == "c": o.append(u[1])
        elif u[0] == "s": o.append({"sp": "_", "soft": "~", "maybe": "?", "nl": "\\n%d" % u[2], "nl0": "\\n-", "fb": "!", "fl": "`", "g(": "<", "g)": ">", "F(": "=<", "F)": ">="}[u[1]])
        elif u[0] == "t": o.append("<%s>" % (u[1],))
        elif u[0] == "call": o.append("[%s %s%s]" % (u[1], u[2].name, "" if not u[3] else "+%d" % u[3]))
        elif u[0] == "cm": o.append("{%s %s}" % (u[2], u[1].name))
        elif u[0] == "p": o.append("P(%s)" % u[1].name)
        elif u[0] == "many": o.append("(%s%s)*%s" % ("".join("%s: %s; " % (a, show(l)) for a, l in sorted(u[3].items())) if len(u) > 3 else "", show(u[2]), u[1]))
    return " ".join(o)
