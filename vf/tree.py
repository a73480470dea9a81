"""Symbolic syntax-tree nodes: everything a node of the given kinds can look like."""
from .values import *
from .grammar import Child, Rep

class Node:
    """one tree node; kinds is narrowed along a path.  children: None while nobody looked,
    else list of Node / Many (template nodes)"""
    __slots__ = ("name", "kinds", "named", "fields", "parent", "children", "many", "extra", "texts", "orig", "root", "shape", "sub", "via")
    def __init__(s, name, kinds, named=True, fields=(), parent=None, many=None, extra=False):
        s.name, s.kinds, s.named, s.fields, s.parent, s.many, s.extra = name, frozenset(kinds), named, tuple(fields), parent, many, extra
        s.children = None; s.texts = None; s.orig = None; s.root = False; s.shape = None; s.sub = None; s.via = None
    def __repr__(s): return s.name
    def kind(s): return next(iter(s.kinds)) if len(s.kinds) == 1 else None

class Tree:
    """nodes of one path; ctx makes the choices"""
    def __init__(s, g, ctx): s.g, s.ctx, s.n, s.parents = g, ctx, 0, {}
    def fresh(s, p):
        s.n += 1
        return "%s%d" % (p, s.n)
    def root(s, kind):
        n = Node("n", [kind]); n.root = True
        return n
    # ------------------------------------------------------------ narrowing
    def kind_is(s, n, ks):
        """is the kind of n one of ks? narrows n"""
        a = n.kinds & ks
        if not a: return False
        if a == n.kinds: return True
        if s.ctx.choose(2, "kind(%s)" % n.name) == 0: s.narrow(n, a); return True
        s.narrow(n, n.kinds - a); return False
    def narrow(s, n, ks):
        s.ctx.touched(n)
        n.kinds = frozenset(ks)
        o = n.orig
        if o is not None and n.sub is None: o.kinds = n.kinds
    def single(s, n):
        """fork until the kind of n is known"""
        if len(n.kinds) > 1:
            ks = sorted(n.kinds)
            s.narrow(n, [ks[s.ctx.choose(len(ks), "kind(%s)" % n.name)]])
        return n.kind()
    # ------------------------------------------------------------ texts
    def textset(s, n):
        """finite set of lower-case texts of the node, None if open"""
        if n.texts is not None: return n.texts
        out = set()
        if n.via is not None:
            b = s.g.strip(s.g.via[n.via])
            t = s.g._texts(b) if s.g.is_token(b) else None
            if t is None and not s.g.is_leaf(n.kind()):
                one = set()
                for sh in s.g.shapes(n.kind(), n.via):
                    if len(sh) != 1 or isinstance(sh[0], Rep): one = None; break
                    for kk in sh[0].kinds:
                        x = s.kindtexts(kk) if sh[0].named else ({s.g.anon_text(kk)} if s.g.anon_text(kk) else None)
                        if x is None: one = None; break
                        one |= x
                    if one is None: break
                t = one
            n.texts = frozenset(t) if t is not None else None
            return n.texts
        for k in n.kinds:
            if not n.named:
                t = s.g.anon_text(k)
                if t is None: return None
                out.add(t)
            else:
                t = s.kindtexts(k)
                if t is None: return None
                out |= t
        n.texts = frozenset(out)
        return n.texts
    def kindtexts(s, k, _depth=0):
        """finite set of texts a node of the kind can have (blanks between its tokens not counted)"""
        c = getattr(s.g, "_kt", None)
        if c is None: c = s.g._kt = {}
        if k in c: return c[k]
        c[k] = None
        if s.g.is_leaf(k): c[k] = s.g.leaf_texts(k); return c[k]
        out = set()
        for sh in s.g.shapes(k):
            cur = {""}
            for el in sh:
                if isinstance(el, Rep): return None
                ts = set()
                for kk in el.kinds:
                    if el.named:
                        t = s.kindtexts(kk)
                        if t is None: return None
                        ts |= t
                    else:
                        t = s.g.anon_text(kk)
                        if t is None: return None
                        ts.add(t)
                if len(sh) > 1: return None
                cur = {x + y for x in cur for y in ts}
            out |= cur
        c[k] = frozenset(out)
        return c[k]
    # ------------------------------------------------------------ children
    def make(s, parent, shape, many=None, prefix=""):
        out = []
        for i, el in enumerate(shape):
            nm = "%s.%s%d" % (parent.name, prefix, i)
            if isinstance(el, Rep):
                if s.ctx.unroll and many is None:
                    # case split: exactly 0 .. K-1 repetitions, or K of them followed by any number
                    j = s.ctx.choose(s.ctx.unroll + 1, "number of %s" % nm)
                    for q in range(j):
                        a = 0 if len(el.alts) == 1 else s.ctx.choose(len(el.alts), "alt(%s %d)" % (nm, q))
                        out += s.make(parent, el.alts[a], "\0", prefix + "%du%d_" % (i, q))
                    if j < s.ctx.unroll: continue
                k = 0 if len(el.alts) == 1 else s.ctx.choose(len(el.alts), "alt(%s)" % nm)
                m = nm
                mm = Many(m, s.make(parent, el.alts[k], m, prefix + "%d_" % i))
                s.ctx.reps[m] = (el, k)
                out.append(mm)
            else:
                out.append(Node(nm, el.kinds, el.named, el.fields, parent, None if many == "\0" else many))
                out[-1].via = el.via
        return out
    def expand(s, n):
        if n.children is not None: return n.children
        if n.orig is not None and n.sub is None:
            n.children = s.expand(n.orig); return n.children
        k = s.single(n)
        s.ctx.touched(n)
        shapes = s.g.shapes(k, n.via)
        i = s.ctx.choose(len(shapes), "shape(%s:%s)" % (n.name, k)) if len(shapes) > 1 else 0
        n.shape = (k, i)
        n.children = s.make(n, shapes[i])
        return n.children
    def gap(s, n, i):
        """the comments in front of the i-th child (all that may stand there)"""
        key = (n.name, "gap", i)
        if key not in s.ctx.gaps:
            e = Node("%s.#%s" % (n.name, i), s.g.extras, True, (), n, "%s.gap%s" % (n.name, i), True)
            s.ctx.gaps[key] = Many("%s.gap%s" % (n.name, i), [e])
        return s.ctx.gaps[key]
    def seq(s, n, named=False, extras=True):
        """children with the comments that may stand between them"""
        cs = s.expand(n)
        out = []
        def pick(c):
            its = [y for y in ((pick(x) if isinstance(x, Many) else x) for x in c.items) if y is not None and (isinstance(y, Many) or y.named or not named)]
            return Many(c.m, its) if its else None
        for i, c in enumerate(cs):
            if extras: out.append(s.gap(n, c.m if isinstance(c, Many) else c.name))
            if isinstance(c, Many):
                x = pick(c)
                if x is not None: out.append(x)
            elif c.named or not named: out.append(c)
        if extras: out.append(s.gap(n, "end"))
        return out
    def split_many(s, n, m, tmpl, ks_before, ks_at):
        """some repetition has template node `tmpl` with kind in ks_at; the first such one is made a node"""
        cs = s.expand(n)
        for i, c in enumerate(cs):
            if isinstance(c, Many) and c.m == m:
                def clone(suffix, ks, many):
                    out = []
                    for x in c.items:
                        if isinstance(x, Many): raise Unsupported("nested repetition split")
                        y = Node(x.name + suffix, x.kinds, x.named, x.fields, n, many); y.via = x.via
                        if x is tmpl or x is tmpl.orig:
                            if ks is not None: y.kinds = frozenset(ks)
                        out.append(y)
                    return out
                new = []
                if ks_before:
                    new.append(Many(m + "a", clone("a", ks_before, m + "a"))); s.ctx.reps[m + "a"] = s.ctx.reps.get(m)
                mid = clone("b", ks_at, None)
                new += mid
                new.append(Many(m + "c", clone("c", None, m + "c"))); s.ctx.reps[m + "c"] = s.ctx.reps.get(m)
                cs[i:i+1] = new
                for x, y in zip(c.items, mid):
                    if x is tmpl or x is tmpl.orig: return y
        raise Unsupported("repetition %s not among the children of %s" % (m, n.name))
    # ------------------------------------------------------------ siblings
    def following(s, n):
        """next sibling (comments included) or None; forks"""
        p = n.parent
        if n.root or p is None: return s.root_following(n)
        if p.children is None: raise Unsupported("sibling of a node whose parent is not expanded")
        cs = p.children
        if n.extra:
            key = n.name.split(".#", 1)[1]
            if s.ctx.choose(2, "more comments %s" % n.name) == 1: return n
            if key == "end": return None
            for i, c in enumerate(cs):
                if isinstance(c, Many):
                    if c.m == key: return s.enter(p, cs, i)
                    for x in c.items:
                        if x.name == key: return x
                elif c.name == key: return c
            raise Unsupported("comment position")
        for i, c in enumerate(cs):
            if c is n: return s.after(p, cs, i + 1)
            if isinstance(c, Many):
                for j, x in enumerate(c.items):
                    if x is n or x is n.orig:
                        if j + 1 < len(c.items): return s.maybe_extra(p, c.items[j + 1])
                        # last of the template: another repetition follows or what is behind
                        rep = s.ctx.reps.get(c.m)
                        alts = len(rep[0].alts) if rep and rep[0] else 1
                        k = s.ctx.choose(2, "last of %s" % c.m)
                        if k == 0:
                            if alts == 1: return s.maybe_extra(p, c.items[0])
                            a = s.ctx.choose(alts, "alt of next %s" % c.m)
                            t = s.make(p, rep[0].alts[a], c.m, "nx_")
                            return s.maybe_extra(p, t[0])
                        return s.after(p, cs, i + 1)
        raise Unsupported("sibling of %s" % n.name)
    def maybe_extra(s, p, x):
        e = s.gap(p, x.name).items[0]
        if s.ctx.choose(2, "comment before %s" % x.name) == 1: return s.ctx.comment(e)
        return x
    def enter(s, p, cs, i):
        """the i-th element is a repetition: its first member, or what follows if there is none"""
        c = cs[i]
        k = s.ctx.choose(2, "any of %s" % c.m)
        if k == 0: return c.items[0]
        return s.after(p, cs, i + 1)
    def after(s, p, cs, i):
        if i >= len(cs):
            if s.ctx.choose(2, "comment at end of %s" % p.name) == 1: return s.ctx.comment(s.gap(p, "end").items[0])
            return None
        c = cs[i]
        if isinstance(c, Many):
            e = s.gap(p, c.m).items[0]
            if s.ctx.choose(2, "comment before %s" % c.m) == 1: return s.ctx.comment(e)
            return s.enter(p, cs, i)
        return s.maybe_extra(p, c)
    def root_following(s, n):
        f = s.ctx.rootnext
        if f is None:
            k = s.ctx.choose(5, "what follows the node")
            mk = lambda nm, ks, named, ex=False: Node(nm, ks, named, (), None, None, ex)
            f = [None, mk("next,", [","], False), mk("next;", [";"], False), mk("nextOther", ["\1other"], True), mk("n.#next", s.g.extras, True, True)][k]
            s.ctx.rootnext = ("set", f)
            if f is not None: f.root = True
            if k == 4: s.ctx.rootnext = None; s.ctx.rootextra = f; s.ctx.comment(f)
            return f
        return f[1]
    def parent_of(s, n):
        if n.parent is not None: return n.parent
        if n.root:
            if "p" not in s.parents:
                ks = s.ctx.possible_parents(n)
                s.parents["p"] = Node("parent", ks)
                s.parents["p"].root = True
            return s.parents["p"]
        raise Unsupported("parent of %s" % n.name)
