"""Symbolic executor for the Rust subset afmt is written in.

Executes function bodies given as the syntax tree printed by rsdump (the real source, parsed by syn on
every run) on symbolic syntax-tree nodes.  A path is re-executed from the start for every sequence of
choices; nothing is bounded: repetitions are handled by running a loop body once for an arbitrary
repetition and checking that it only appends (frame condition)."""
import re, z3, time
from .values import *
from .tree import Node, Tree

class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception):
    def __init__(s, l, v=None): s.l, s.v = l, v
class Cont(Exception):
    def __init__(s, l): s.l = l

# ---------------------------------------------------------------------------------- program
class Program:
    def __init__(s, ast):
        s.fns, s.structs, s.enums, s.consts, s.traits = {}, {}, {}, {}, {}
        s.methods = {}      # type -> name -> fn
        s.implements = {}   # type -> set of traits
        s.variants = {}     # variant name -> [(enum, fields)]
        s.aliases = {}
        s.where = {}
        for f, items in ast.items(): s.load(f, items)
    def load(s, f, items):
        for i in items:
            k = i["k"]
            if k == "Fn":
                if i["n"] in s.fns: s.fns[i["n"]] = None       # ambiguous between files
                else: s.fns[i["n"]] = i
                i["file"] = f; i["impl"] = None
            elif k == "StructDef": s.structs[i["n"]] = i; i["file"] = f
            elif k == "EnumDef":
                s.enums[i["n"]] = i; i["file"] = f
                for v in i["v"]: s.variants.setdefault(v["n"], []).append(i["n"])
            elif k == "Const" or k == "Static": s.consts[i["n"]] = i
            elif k == "TypeAlias": s.aliases[i["n"]] = i["ty"]
            elif k == "Trait":
                s.traits[i["n"]] = {x["n"]: x for x in i["items"] if x["k"] == "Fn"}
                for x in i["items"]:
                    if x["k"] == "Fn": x["file"] = f; x["impl"] = i["n"]
            elif k == "Impl":
                t = i["ty"]["n"]
                if i["trait"]: s.implements.setdefault(t, set()).add(i["trait"][-1])
                for x in i["items"]:
                    if x["k"] == "Fn":
                        x["file"] = f; x["impl"] = t; x["trait"] = i["trait"][-1] if i["trait"] else None
                        s.methods.setdefault(t, {})[x["n"]] = x
            elif k == "Mod" and i.get("items"): s.load(f, i["items"])
    def method(s, t, n):
        m = s.methods.get(t, {}).get(n)
        if m: return m
        for tr in s.implements.get(t, ()):
            d = s.traits.get(tr, {}).get(n)
            if d and d["body"] is not None: return d
        return None

class Env:
    __slots__ = ("v", "p")
    def __init__(s, p=None): s.v, s.p = {}, p
    def get(s, n):
        e = s
        while e is not None:
            if n in e.v: return e.v[n]
            e = e.p
        raise KeyError(n)
    def has(s, n):
        e = s
        while e is not None:
            if n in e.v: return True
            e = e.p
        return False
    def set(s, n, x):
        e = s
        while e is not None:
            if n in e.v: e.v[n] = x; return e
            e = e.p
        raise Unsupported("assignment to unknown variable " + n)

POS = re.compile(r"\b(row|col|byte)_[se]_\S*")
# ---------------------------------------------------------------------------------- choices
class Driver:
    """depth-first enumeration of choice sequences"""
    def __init__(s, prefix=()):
        s.script, s.arity, s.labels, s.pos, s.fixed = list(prefix), [None] * len(prefix), [None] * len(prefix), 0, len(prefix)
    def choose(s, n, label):
        if s.pos < len(s.script):
            r = s.script[s.pos]; s.arity[s.pos] = n; s.labels[s.pos] = label
        else:
            s.script.append(0); s.arity.append(n); s.labels.append(label); r = 0
        s.pos += 1
        return r
    def next(s):
        """advance to the next sequence; False when done"""
        s.script = s.script[:s.pos]; s.arity = s.arity[:s.pos]; s.labels = s.labels[:s.pos]
        while len(s.script) > s.fixed and s.script[-1] + 1 >= s.arity[-1]:
            s.script.pop(); s.arity.pop(); s.labels.pop()
        if len(s.script) <= s.fixed: return False
        s.script[-1] += 1
        s.pos = 0
        return True

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
class Solver(z3.Solver):
    def check(s, *a):
        t = time.time()
        r = z3.Solver.check(s, *a)
        STATS["queries"] += 1; STATS["time"] += time.time() - t
        if r == z3.unknown: STATS["unknown"] += 1
        return r

MAXSTEPS = 60000
class Interp:
    def __init__(s, prog, g, driver, hooks=None):
        s.P, s.g, s.d = prog, g, driver
        s.tree = Tree(g, s)
        s.reps, s.gaps, s.rootnext, s.rootextra = {}, {}, None, None
        s.unroll = 0       # split repetitions into so many single ones and the rest
        s.facts = {}; s.posreads, s.cased = set(), set(); s.begins = {}            # decided boolean keys
        s.solver = None
        s.depth = 0             # nesting of Many bodies
        s.scope = [0]
        s.effects = []
        s.sandbox = None        # clone nodes that may be narrowed inside a local exploration
        s.hooks = hooks or {}
        s.steps = 0
        s.calls = []            # edges to contracts: (type, node)
        s.used = set()          # functions executed
        s.ints = {}
        s.stack = []
        s.newvecs = 0
        s.rootnode = None
        s.intrinsics = {}
        s.env_extra = {}
        s.commented = False
    # ------------------------------------------------------------ choice and facts
    def choose(s, n, label=""):
        if n == 1: return 0
        return s.d.choose(n, label)
    def comment(s, n):
        """n is a comment: this path is about a source with comments"""
        s.commented = True
        return n
    def touched(s, n):
        if s.sandbox is not None and n not in s.sandbox: raise Unsupported("predicate narrows %s" % n.name)
    def starts(s, n, d):
        """does the text of a node of any kind start with d (no letters)? splits on its first token; None: cannot tell"""
        ts = s.tree.textset(n)
        if ts is not None:
            hit = frozenset(t for t in ts if t.startswith(d))
            if not hit or hit == ts: return bool(hit)
            yes = s.choose(2, "text(%s) starts with %s" % (n.name, d)) == 0
            s.touched(n); n.texts = hit if yes else ts - hit
            return yes
        if not n.named: return None
        all_ = s.begins[n.name] if n.name in s.begins else frozenset().union(*(s.tree.g.edge(k, 0) for k in n.kinds))
        word = ("w", "d", "f")
        if "\0" in all_: return None
        pos = frozenset(t for t in all_ if t not in word and (t.startswith(d) or d.startswith(t)))
        neg = frozenset(t for t in all_ if t in word or not t.startswith(d))
        if not pos: return False
        if not neg: return True
        yes = s.choose(2, "text(%s) starts with %s" % (n.name, d)) == 0
        s.begins[n.name] = pos if yes else neg
        return yes
    def fact(s, key):
        """an unknown boolean named key; the same answer every time on one path"""
        if key not in s.facts:
            s.facts[key] = s.choose(2, str(key)) == 0
        return s.facts[key]
    def possible_parents(s, n):
        k = n.kind()
        c = getattr(s.g, "_pp", None)
        if c is None:
            c = s.g._pp = {}
            from .grammar import Rep
            def walk(p, sh):
                for el in sh:
                    if isinstance(el, Rep):
                        for a in el.alts: walk(p, a)
                    elif el.named:
                        for kk in el.kinds: c.setdefault(kk, set()).add(p)
            for p in s.g.bodies:
                for sh in s.g.shapes(p): walk(p, sh)
        return frozenset(c.get(k, ())) or frozenset(["\1none"])
    def z(s):
        if s.solver is None: s.solver = Solver(); s.solver.set("timeout", 5000)
        return s.solver
    def assume(s, c):
        s.z().add(c)
    def branch(s, c, label="if"):
        """truth of c on this path"""
        if isinstance(c, bool): return c
        if isinstance(c, z3.BoolRef):
            c = z3.simplify(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            z = s.z()
            z.push(); z.add(c); a = z.check(); z.pop()
            z.push(); z.add(z3.Not(c)); b = z.check(); z.pop()
            if a == z3.unsat: return False
            if b == z3.unsat: return True
            m = POS.search(str(c))
            if m: s.posreads.add(m.group(0))
            if s.choose(2, label + " " + str(c)[:60]) == 0: s.assume(c); return True
            s.assume(z3.Not(c)); return False
        raise Unsupported("condition %r" % (c,))
    def count(s, m):
        """number of repetitions of m"""
        n = z3.Int("N_" + m)
        if ("N", m) not in s.ints: s.ints[("N", m)] = n; s.assume(n >= 0)
        return n
    # ------------------------------------------------------------ local exploration of predicates
    def outcomes(s, fn, clones):
        """all results of fn over its own choices; it may narrow only the clones"""
        save = (s.d, s.sandbox)
        d = Driver()
        res = set()
        s.sandbox = set(clones) | (s.sandbox or set())
        try:
            while True:
                s.d = d
                kk = [(c, c.kinds, c.children, c.texts) for c in clones]
                nf = dict(s.facts)
                try: res.add(fn())
                except PathPanic: res.add("panic")
                for c, k, ch, tx in kk: c.kinds, c.children, c.texts = k, ch, tx
                if s.facts != nf: raise Unsupported("predicate decides something outside")
                if not d.next(): break
        finally: s.d, s.sandbox = save
        return res
    def clone(s, n, ks):
        c = Node(n.name, ks, n.named, n.fields, n.parent, n.many, n.extra)
        c.orig = n; c.sub = frozenset(ks); c.via = n.via
        return c
    def pred_kinds(s, n, f):
        """kinds of template node n for which predicate f holds / fails"""
        c = s.clone(n, n.kinds)
        try:
            r = s.outcomes(lambda: s.branch(f(c)), [c])
            if r == {True}: return n.kinds, frozenset()
            if r == {False}: return frozenset(), n.kinds
        except Unsupported: pass
        P = set()
        for k in sorted(n.kinds):
            c = s.clone(n, [k])
            r = s.outcomes(lambda: s.branch(f(c)), [c])
            if r == {True}: P.add(k)
            elif r != {False}: raise Unsupported("predicate on a repeated child is not decided by its kind: %s %r" % (k, r))
        return frozenset(P), n.kinds - P
    # ------------------------------------------------------------ functions
    def call_fn(s, fn, args, selfv=None, selft=None):
        name = (fn["impl"] + "::" if fn.get("impl") else "") + fn["n"]
        s.used.add(name)
        env = Env()
        if fn["self"] is not None: env.v["self"] = selfv
        ps = fn["params"]
        if len(ps) != len(args): raise Unsupported("arity of " + name)
        for p, a in zip(ps, args):
            if not s.bind(p["p"], a, env): raise Unsupported("refutable parameter")
        if len(s.stack) > 120: raise Unsupported("recursion too deep in " + name)
        s.stack.append(name)
        fnctx = {"selft": selft or fn.get("impl"), "fn": fn}
        old = getattr(s, "fnctx", None)
        s.fnctx = fnctx
        try:
            try: return s.block(fn["body"], env, fn.get("ret"))
            except Ret as r: return r.v
        finally:
            s.stack.pop(); s.fnctx = old
    def call_value(s, f, args):
        if isinstance(f, Closure):
            env = Env(f.env)
            if len(f.params) != len(args): raise Unsupported("closure arity")
            for p, a in zip(f.params, args):
                if not s.bind(p, a, env): raise Unsupported("refutable closure parameter")
            old = s.fnctx; s.fnctx = f.fnctx
            try:
                try: return s.ev(f.body, env)
                except Ret as r: return r.v
            finally: s.fnctx = old
        if isinstance(f, FnRef): return s.call_path(f.t, f.n, args, f.tys)
        if isinstance(f, Py): return f.f(*args)
        raise Unsupported("call of %r" % (f,))
    # ------------------------------------------------------------ statements
    def block(s, stmts, env, hint=None):
        env = Env(env)
        last = UNIT
        n = len(stmts)
        for i, st in enumerate(stmts):
            k = st["k"]
            if k == "Let":
                if st["e"] is None:
                    s.declare(st["p"], env); last = UNIT; continue
                h = st["p"].get("ty") if st["p"]["k"] == "Type" else None
                v = s.ev(st["e"], env, h)
                if not s.bind(st["p"], v, env):
                    if st["else"] is None: raise Unsupported("let pattern fails")
                    s.ev(st["else"], env)
                    raise Unsupported("let else falls through")
                last = UNIT
            elif k == "Expr":
                v = s.ev(st["e"], env, hint if i == n - 1 and not st["semi"] else None)
                last = UNIT if st["semi"] else v
            elif k == "Item":
                it = st["i"]
                if it["k"] == "Fn":
                    it.setdefault("file", ""); it.setdefault("impl", None)
                    env.v[it["n"]] = Py(lambda *a, it=it: s.call_fn(it, list(a)))
                elif it["k"] == "Const": env.v[it["n"]] = s.ev(it["e"], env)
                elif it["k"] != "Use": raise Unsupported("item in function body")
                last = UNIT
        return last
    def declare(s, p, env):
        if p["k"] == "Type": p = p["p"]
        if p["k"] == "Ident": env.v[p["n"]] = None
        elif p["k"] == "Tuple":
            for x in p["p"]: s.declare(x, env)
        else: raise Unsupported("let without value")
    # ------------------------------------------------------------ patterns
    def bind(s, p, v, env):
        k = p["k"]
        if k == "Ident":
            n = p["n"]
            if p["sub"] is None and n[:1].isupper():
                if n == "None": return s.is_variant(v, "None")
                if n in s.P.consts: return s.branch(s.eq(v, s.ev(s.P.consts[n]["e"], Env())))
            if p["sub"] is not None and not s.bind(p["sub"], v, env): return False
            env.v[n] = v
            return True
        if k in ("Wild", "Rest"): return True
        if k == "Type": return s.bind(p["p"], v, env)
        if k == "Ref": return s.bind(p["p"], s.deref(v), env)
        if k == "Lit": return s.branch(s.eq(v, s.ev(p["e"], env)))
        if k == "Or":
            # string alternatives together, so that a kind is narrowed once
            if all(x["k"] == "Lit" and x["e"]["k"] == "Str" for x in p["p"]):
                return s.str_in(s.force(v), [x["e"]["v"] for x in p["p"]])
            for x in p["p"]:
                if s.bind(x, v, env): return True
            return False
        v = s.force(v)
        if k == "Tuple":
            if v is UNIT and not p["p"]: return True
            if not isinstance(v, Tup): raise Unsupported("tuple pattern on %r" % (v,))
            ps = p["p"]
            if any(x["k"] == "Rest" for x in ps):
                i = [x["k"] for x in ps].index("Rest")
                tail = len(ps) - i - 1
                es = v.e[:i] + [None] + (v.e[len(v.e)-tail:] if tail else [])
            else: es = v.e
            return all(s.bind(x, y, env) for x, y in zip(ps, es) if x["k"] != "Rest")
        if k in ("TupleStruct", "Path", "Struct"):
            n = p["path"][-1]
            if isinstance(v, St):
                if k == "Struct": return all(s.bind(q, v.f[f], env) for f, q in p["f"])
                return all(s.bind(q, v.f[str(i)], env) for i, q in enumerate(p["p"]))
            if k == "Path" and not isinstance(v, En) and n in s.P.consts:
                return s.branch(s.eq(v, s.ev(s.P.consts[n]["e"], Env())))
            if not s.is_variant(v, n): return False
            v = s.force(v)
            if k == "Path": return True
            if k == "Struct":
                names = s.variant_fields(v)
                return all(s.bind(q, v.a[names.index(f)], env) for f, q in p["f"])
            return all(s.bind(q, y, env) for q, y in zip(p["p"], v.a) if q["k"] != "Rest")
        if k == "Slice":
            v = s.force(v)
            if isinstance(v, VecV) and not any(isinstance(x, Many) for x in v.items) and not any(q["k"] == "Rest" for q in p["p"]):
                return len(v.items) == len(p["p"]) and all(s.bind(q, y, env) for q, y in zip(p["p"], v.items))
        raise Unsupported("pattern " + k)
    def variant_fields(s, v):
        for x in s.P.enums[v.t]["v"]:
            if x["n"] == v.v: return [f["n"] for f in x["fields"]["f"]]
    def is_variant(s, v, n):
        v = s.force(v)
        if isinstance(v, En): return v.v == n
        if isinstance(v, Opaque) and v.n == "opt":       # unknown Option
            raise Unsupported("unknown option")
        raise Unsupported("variant %s of %r" % (n, v))
    # ------------------------------------------------------------ values
    def force(s, v):
        while True:
            if isinstance(v, MutRef): v = v.get(); continue
            if isinstance(v, OptPunc):
                if v.val is None: v.val = v.resolve()
                v = v.val; continue
            if isinstance(v, Built):
                if v.val is None:
                    v.val = s.construct(v)
                v = v.val; continue
            return v
    def construct(s, v):
        fn = s.P.methods[v.t][v.fn]
        return s.call_fn(fn, [v.node], None, v.t)
    def deref(s, v): return v.get() if isinstance(v, MutRef) else v
    def eq(s, a, b):
        a, b = s.force(a), s.force(b)
        if isinstance(a, Char) and isinstance(b, Char): return a.c == b.c
        if isinstance(a, S) and isinstance(b, S):
            x, y = a.const(), b.const()
            if x is not None and y is not None: return x == y
            if y is not None: return s.str_in(a, [y])
            if x is not None: return s.str_in(b, [x])
            if a.parts == b.parts: return True
            return s.fact(("eq", a.parts, b.parts))
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return a == b
        if isinstance(a, En) and isinstance(b, En):
            if a.v != b.v: return False
            return all(s.branch(s.eq(x, y)) for x, y in zip(a.a, b.a))
        if isinstance(a, Tup) and isinstance(b, Tup): return all(s.branch(s.eq(x, y)) for x, y in zip(a.e, b.e))
        if isinstance(a, IdV) and isinstance(b, IdV) and a.node is b.node: return True
        if isinstance(a, Node) and isinstance(b, Node) and a is b: return True
        if a is UNIT and b is UNIT: return True
        raise Unsupported("comparison of %r and %r" % (a, b))
    def str_in(s, a, cs):
        """is the string a one of the constants cs"""
        if isinstance(a, Char): return a.c in cs
        if not isinstance(a, S): raise Unsupported("string comparison of %r" % (a,))
        x = a.const()
        if x is not None: return x in cs
        at = a.atom()
        if at is not None and at[0] == "kind":
            return s.tree.kind_is(at[1], frozenset(cs))
        if at is not None and at[0] in ("text", "lower", "upper"):
            n = at[1]
            ts = s.tree.textset(n)
            if ts is not None:
                if at[0] == "upper": hit = frozenset(t for t in ts if t.upper() in cs)
                elif at[0] == "lower": hit = frozenset(t for t in ts if t in cs)
                else: hit = frozenset(t for t in ts if any(c.lower() == t for c in cs))
                if not hit: return False
                caseless = at[0] != "text" or all(not any(ch.isalpha() for ch in t) for t in hit)
                if caseless and hit == ts: return True
                if not caseless: s.cased.add(n.name)
                if s.choose(2, "text(%s) in %s" % (n.name, cs)) == 0: s.touched(n); n.texts = hit; return True
                if caseless: s.touched(n); n.texts = ts - hit
                return False
            return s.fact(("texteq", at[0], n.name, tuple(cs)))
        return s.fact(("streq", a.parts, tuple(cs)))
    def tostr(s, v):
        v = s.force(v)
        if isinstance(v, S): return v
        if isinstance(v, Char): return S(v.c)
        if isinstance(v, bool): return S("true" if v else "false")
        if isinstance(v, int): return S(str(v))
        if isinstance(v, z3.ExprRef): return S(("int", str(v)))
        if isinstance(v, (St, En)):
            m = s.P.method(v.t, "to_string")
            if m: return s.call_fn(m, [], v, v.t)
            raise Unsupported("to_string of %r" % (v,))
        return S(("opaque", repr(v)))
    def truth(s, v):
        v = s.force(v)
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return s.branch(v)
        raise Unsupported("truth of %r" % (v,))
    # ------------------------------------------------------------ expressions
    def ev(s, e, env, hint=None):
        s.steps += 1
        if s.steps > MAXSTEPS: raise Unsupported("path too long")
        return getattr(s, "e_" + e["k"])(e, env, hint)
    def e_Unknown(s, e, env, h): raise Unsupported("syntax: " + e.get("src", "")[:60])
    def e_Str(s, e, env, h): return S(e["v"])
    def e_Char(s, e, env, h): return Char(e["v"])
    def e_Int(s, e, env, h): return int(e["v"])
    def e_Bool(s, e, env, h): return e["v"]
    def e_Path(s, e, env, h):
        p = e["path"]
        if len(p) == 1:
            n = p[0]
            if env.has(n): return env.get(n)
            if n == "None": return NONE
            if n in ("Some", "Ok", "Err"): return FnRef(None, n)
            if n in s.P.consts: return s.ev(s.P.consts[n]["e"], Env())
            if n in s.P.fns or n in s.intrinsics: return FnRef(None, n, e["tys"])
            if n in s.P.structs: return St(n, {})
            raise Unsupported("name " + n)
        t, n = p[-2], p[-1]
        if t == "Self": t = s.fnctx["selft"]
        if t in s.P.aliases: t = s.P.aliases[t]["n"]
        if t in s.P.enums:
            for v in s.P.enums[t]["v"]:
                if v["n"] == n:
                    if v["fields"]["k"] == "Unit": return En(t, n)
                    return Py(lambda *a: En(t, n, *a))
        if t == "Option" and n == "None": return NONE
        if t[0].islower():      # module path
            if n in s.P.consts: return s.ev(s.P.consts[n]["e"], Env())
            if n in s.P.fns: return FnRef(None, n, e["tys"])
        return FnRef(t, n, e["tys"])
    def e_Ref(s, e, env, h):
        x = e["e"]
        if e["mut"]:
            if x["k"] == "Path" and len(x["path"]) == 1:
                n = x["path"][0]
                v = env.get(n)
                if isinstance(v, (int, bool, S, En, Tup, z3.ExprRef)) or v is None:
                    return MutRef(lambda: env.get(n), lambda y: s.assign_var(env, n, y))
                return v
            if x["k"] == "Field":
                o = s.force(s.ev(x["e"], env))
                if isinstance(o, St) and isinstance(o.f[x["f"]], (int, bool, S, En, Tup, z3.ExprRef)):
                    return MutRef(lambda: o.f[x["f"]], lambda y: s.assign_field(o, x["f"], y))
        return s.ev(x, env, h)
    def e_Unary(s, e, env, h):
        v = s.ev(e["e"], env)
        if e["op"] == "*": return s.deref(v)
        v = s.force(v)
        if e["op"] == "!":
            if isinstance(v, bool): return not v
            return z3.Not(v)
        if e["op"] == "-": return -v
        raise Unsupported("unary " + e["op"])
    def e_Binary(s, e, env, h):
        op = e["op"]
        if op == "&&": return s.truth(s.ev(e["l"], env)) and s.truth(s.ev(e["r"], env))
        if op == "||": return s.truth(s.ev(e["l"], env)) or s.truth(s.ev(e["r"], env))
        if op in ("+=", "-=", "*="):
            cur = s.force(s.ev(e["l"], env))
            r = s.force(s.ev(e["r"], env))
            s.assign(e["l"], s.arith(op[0], cur, r), env)
            return UNIT
        a, b = s.ev(e["l"], env), s.ev(e["r"], env)
        if op == "==": return s.eq(a, b)
        if op == "!=":
            r = s.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        a, b = s.force(a), s.force(b)
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, S) or isinstance(b, S): raise Unsupported("string order")
            a, b = s.num(a), s.num(b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("&", "|") and isinstance(a, bool) and isinstance(b, bool): return (a and b) if op == "&" else (a or b)
        return s.arith(op, a, b)
    def num(s, v):
        v = s.force(v)
        if isinstance(v, (int, z3.ArithRef)): return v
        raise Unsupported("number %r" % (v,))
    def arith(s, op, a, b):
        if op == "+" and isinstance(a, S): return S(a, s.tostr(b))
        a, b = s.num(a), s.num(b)
        if op == "+": return a + b
        if op == "*": return a * b
        if op == "-":
            r = a - b
            if isinstance(r, int):
                if r < 0: raise PathPanic("subtraction underflows")
                return r
            if not s.branch(r >= 0, "underflow"): raise PathPanic("subtraction underflows")
            return r
        raise Unsupported("operator " + op)
    def e_Assign(s, e, env, h):
        s.assign(e["l"], s.ev(e["r"], env), env)
        return UNIT
    def assign(s, l, v, env):
        k = l["k"]
        if k == "Path" and len(l["path"]) == 1:
            if l["path"][0] == "_": return
            return s.assign_var(env, l["path"][0], v)
        if k == "Unary" and l["op"] == "*":
            r = s.ev(l["e"], env)
            if isinstance(r, MutRef): return r.set(v)
            raise Unsupported("assignment through reference")
        if k == "Field":
            o = s.force(s.ev(l["e"], env))
            if isinstance(o, St): return s.assign_field(o, l["f"], v)
            if isinstance(o, Tup): s.guard_mut("tuple field"); o.e[int(l["f"])] = v; return
        if k == "Index":
            o = s.force(s.ev(l["e"], env)); i = s.force(s.ev(l["i"], env))
            if isinstance(o, VecV) and isinstance(i, int) and not any(isinstance(x, Many) for x in o.items[:i+1]):
                s.frame(o)
                if i >= len(o.items): raise PathPanic("index")
                o.items[i] = v; return
        raise Unsupported("assignment to " + k)
    def assign_var(s, env, n, v):
        e = env
        while e is not None and n not in e.v: e = e.p
        if e is None: raise Unsupported("assignment to unknown " + n)
        if s.depth and id(e) in s.outer:
            old = e.v[n]
            same = old is v or (isinstance(old, (int, bool, str)) and type(old) == type(v) and old == v) or (isinstance(old, S) and isinstance(v, S) and old.parts == v.parts)
            if not same: s.loopvars.append((e, n, old, v))
        e.v[n] = v
    def assign_field(s, o, f, v):
        if s.depth: raise Unsupported("field assignment inside a repetition")
        o.f[f] = v
    def guard_mut(s, what):
        if s.depth: raise Unsupported(what + " changed inside a repetition")
    def frame(s, vec):
        """vec is changed other than by appending"""
        if s.depth and vec.depth < s.depth: raise Unsupported("collection changed inside a repetition")
    outer = frozenset()
    def e_If(s, e, env, h):
        env2 = Env(env)
        c = e["c"]
        if c["k"] == "LetCond" and e["e"] is None and c["p"]["k"] == "TupleStruct" and c["p"]["path"][-1] == "Some":
            v = s.deref(s.ev(c["e"], env))
            if isinstance(v, OptPunc) and v.val is None:     # the same for every answer: what is printed becomes optional
                def body():
                    if not s.bind(c["p"]["p"][0], v.sub, env2): raise Unsupported("pattern in optional part")
                    s.block(e["t"], env2)
                s.many_body(Many("\1pp", []), body, env)
                return UNIT
            hit = s.bind(c["p"], v, env2)
        else: hit = s.cond(c, env2)
        if hit: return s.block(e["t"], env2, h)
        if e["e"] is not None: return s.ev(e["e"], env, h)
        return UNIT
    def cond(s, c, env):
        if c["k"] == "LetCond": return s.bind(c["p"], s.ev(c["e"], env), env)
        if c["k"] == "Binary" and c["op"] == "&&": return s.cond(c["l"], env) and s.cond(c["r"], env)
        return s.truth(s.ev(c, env))
    def e_LetCond(s, e, env, h): return s.bind(e["p"], s.ev(e["e"], env), env)
    def e_Match(s, e, env, h):
        v = s.ev(e["e"], env)
        for a in e["arms"]:
            env2 = Env(env)
            if s.bind(a["p"], v, env2) and (a["g"] is None or s.cond(a["g"], env2)):
                return s.ev(a["b"], env2, h)
        raise Unsupported("no arm matches")
    def e_Matches(s, e, env, h):
        env2 = Env(env)
        return s.bind(e["p"], s.ev(e["e"], env), env2) and (e["g"] is None or s.truth(s.ev(e["g"], env2)))
    def e_Block(s, e, env, h):
        try: return s.block(e["b"], env, h)
        except Brk as b:
            if b.l is not None and b.l == e["label"]: return b.v if b.v is not None else UNIT
            raise
    def e_Closure(s, e, env, h): return Closure(e["p"], e["b"], env, s.fnctx)
    def e_Return(s, e, env, h): raise Ret(UNIT if e["e"] is None else s.ev(e["e"], env, s.fnctx["fn"].get("ret")))
    def e_Break(s, e, env, h): raise Brk(e["label"], s.ev(e["e"], env) if e["e"] else None)
    def e_Continue(s, e, env, h): raise Cont(e["label"])
    def e_Try(s, e, env, h):
        v = s.force(s.ev(e["e"], env))
        if isinstance(v, En):
            if v.v in ("Some", "Ok"): return v.a[0]
            raise Ret(v)
        raise Unsupported("? on %r" % (v,))
    def e_Cast(s, e, env, h):
        v = s.force(s.ev(e["e"], env))
        if isinstance(v, bool): v = int(v)
        if isinstance(v, (int, z3.ArithRef)):
            # sizes and positions are taken to be below 2^31: casts to 32 bits and more keep them
            bits = {"u8": 8, "u16": 16, "i8": 8, "i16": 16}.get((e.get("ty") or {}).get("n"))
            if bits is None: return v
            if e["ty"]["n"][0] == "u": return v % (1 << bits)
            h = 1 << bits - 1
            return (v + h) % (1 << bits) - h
        raise Unsupported("cast")
    def e_Tuple(s, e, env, h):
        if not e["e"]: return UNIT
        return Tup(*[s.ev(x, env) for x in e["e"]])
    def e_Array(s, e, env, h): return s.vec([s.ev(x, env) for x in e["e"]])
    def e_VecRepeat(s, e, env, h):
        n = s.force(s.ev(e["n"], env))
        if isinstance(n, int): 
            v = s.ev(e["e"], env)
            return s.vec([v] * n)
        raise Unsupported("vec![x; n]")
    def vec(s, items): return VecV(items, s.depth)
    def e_Range(s, e, env, h):
        a = s.num(s.ev(e["s"], env)) if e["s"] else None
        b = s.num(s.ev(e["e"], env)) if e["e"] else None
        if e["inc"] and b is not None: b = b + 1
        return Tup("range", a, b)
    def e_Struct(s, e, env, h):
        p = e["path"]
        t = p[-1]
        if t == "Self": t = s.fnctx["selft"]
        f = {}
        en = None
        if len(p) > 1 or (t not in s.P.structs):
            q = p[-2] if len(p) > 1 else None
            if q == "Self": q = s.fnctx["selft"]
            if q in s.P.enums: en = q
        for n, x in e["f"]: f[n] = s.ev(x, env)
        if e["rest"] is not None:
            o = s.force(s.ev(e["rest"], env))
            for n in o.f: f.setdefault(n, o.f[n])
        if en:
            names = [y["n"] for v in s.P.enums[en]["v"] if v["n"] == p[-1] for y in v["fields"]["f"]]
            return En(en, p[-1], *[f[n] for n in names])
        return St(t, f)
    def e_Field(s, e, env, h):
        v = s.force(s.ev(e["e"], env))
        return s.field(v, e["f"])
    def field(s, v, f):
        if isinstance(v, St):
            if f in v.f: return v.f[f]
            raise Unsupported("field %s of %s" % (f, v.t))
        if isinstance(v, Tup): return v.e[int(f)]
        if isinstance(v, Opaque):
            h = s.hooks.get("field")
            if h: return h(v, f)
        raise Unsupported("field %s of %r" % (f, v))
    def e_Index(s, e, env, h):
        v = s.force(s.ev(e["e"], env)); i = s.force(s.ev(e["i"], env))
        if isinstance(v, VecV):
            if isinstance(i, int):
                x = s.nth(v.items, i)
                if x is None: raise PathPanic("index out of bounds")
                return x
            if isinstance(i, z3.ArithRef): return s.nth_sym(v.items, i)
            if isinstance(i, Tup):
                a = i.e[1] or 0
                if isinstance(a, int) and i.e[2] is None: return s.vec(s.drop(v.items, a))
        if isinstance(v, S) and isinstance(i, Tup):
            c = v.const()
            if c is not None: return S(c[(i.e[1] or 0):i.e[2]])
            return s.str_slice(v, i.e[1], i.e[2])
        raise Unsupported("index of %r" % (v,))
    def str_slice(s, v, a, b):
        h = s.hooks.get("str_slice")
        if h: return h(v, a, b)
        return S(("slice", v.parts, str(a), str(b)))
    def nth(s, items, i):
        """i-th item, forking on the sizes of repetitions in front; None if out of range"""
        out = items
        while True:
            if not out: return None
            x = out[0]
            if isinstance(x, Many):
                if not s.branch(s.count(x.m) > 0, "any of %s" % x.m): out = out[1:]; continue
                # the first repetition
                if i < len(x.items) and not isinstance(x.items[i], Many): return x.items[i]
                raise Unsupported("index into a repetition")
            if i == 0: return x
            out = out[1:]; i -= 1
    def nth_sym(s, items, i):
        """last item: index len-1"""
        n = s.length(items)
        z = s.z()
        if items and not isinstance(items[-1], Many):
            z.push(); z.add(i != n - 1); r = z.check(); z.pop()
            if r == z3.unsat: return items[-1]
        raise Unsupported("symbolic index")
    def length(s, items):
        n = 0
        for x in items:
            if isinstance(x, Many): n = n + s.count(x.m) * len(x.items)
            else: n = n + 1
        return n
    def is_empty(s, items):
        if any(not isinstance(x, Many) for x in items): return False
        for x in items:
            if s.branch(s.count(x.m) > 0, "any of %s" % x.m): return False
        return True
    def drop(s, items, n):
        out = list(items)
        while n and out:
            x = out[0]
            if isinstance(x, Many): raise Unsupported("skip over a repetition")
            out.pop(0); n -= 1
        return out
    # ------------------------------------------------------------ loops
    def e_While(s, e, env, h):
        seen = []
        while True:
            env2 = Env(env)
            try:
                if not s.cond(e["c"], env2): return UNIT
                s.block(e["b"], env2)
            except Brk as b:
                if b.l is not None and b.l != e["label"]: raise
                return UNIT
            except Cont as c:
                if c.l is not None and c.l != e["label"]: raise
            s.loop_state(seen, env)
    def e_Loop(s, e, env, h):
        seen = []
        while True:
            try: s.block(e["b"], env)
            except Brk as b:
                if b.l is not None and b.l != e["label"]: raise
                return b.v if b.v is not None else UNIT
            except Cont as c:
                if c.l is not None and c.l != e["label"]: raise
            s.loop_state(seen, env)
    def loop_state(s, seen, env):
        """a loop whose variables are back in a state met before does nothing new: that state is the
        invariant, and this path ends here"""
        st = []
        e = env
        while e is not None:
            for n in sorted(e.v):
                v = e.v[n]
                if isinstance(v, VecV): st.append((n, id(v), len(v.items)))
                elif isinstance(v, It): st.append((n, id(v), len(v.items)))
                elif isinstance(v, En): st.append((n, v.v, tuple(id(x) for x in v.a)))
                elif isinstance(v, (int, str, bool)): st.append((n, v))
                elif isinstance(v, z3.ExprRef): st.append((n, str(v)))
                elif isinstance(v, S): st.append((n, v.parts))
                elif isinstance(v, St): st.append((n, id(v), tuple((a, id(v.f[a])) for a in sorted(v.f, key=str))))
                else: st.append((n, id(v)))
            e = e.p
        st = (tuple(st), len(s.effects))
        for st2, pos in seen:
            if st2 == st:
                # nothing was decided since: the same steps follow for ever
                if pos == (s.d, s.d.pos): raise PathPanic("a loop of %s never ends" % (s.stack[-1] if s.stack else "?"))
                raise Subsumed()
        seen.append((st, (s.d, s.d.pos)))
        if len(seen) > 40: raise Unsupported("loop without invariant")
    def e_For(s, e, env, h):
        it = s.iter(s.ev(e["e"], env))
        def body(x):
            env2 = Env(env)
            if not s.bind(e["p"], x, env2): raise Unsupported("for pattern")
            try: s.block(e["b"], env2)
            except Cont as c:
                if c.l is not None and c.l != e["label"]: raise
        try: s.each(it, body, env)
        except Brk as b:
            if b.l is not None and b.l != e["label"]: raise
        return UNIT
    def each(s, items, body, env=None):
        """body for every item; results collected"""
        out = []
        i = 0
        for x in items:
            if isinstance(x, Many):
                r = s.many_body(x, lambda: [y for y in (body(z) for z in x.items)], env)
                out.append(Many(x.m, r, s.parts_r)); s.parts_r = None
            else: out.append(body(x))
        return out
    def many_body(s, mm, run, env=None):
        """run the body once for an arbitrary repetition; everything that existed before may only be
        appended to; what was appended becomes a repetition.  If the body is told the index, the first
        repetition and an arbitrary later one are run apart"""
        if mm.parts is not None: raise Unsupported("loop over repetitions that differ")
        s.parts_r = None
        if mm.idx is not None:
            j, mm.idx = mm.idx, None
            z, N = s.z(), s.count(mm.m)
            marks = [(v, len(v.items)) for v in s.live_vecs()]
            rs, new, eff, neff = {}, {}, {}, len(s.effects)
            try:
                for nm, cs in (("mid", [j > 0, j < N - 1]), ("first", [j == 0, N >= 2]), ("last", [j == N - 1, N >= 2]), ("one", [j == 0, N == 1])):
                    z.push(); z.add(*cs)
                    try:
                        if z.check() == z3.unsat: continue
                        rs[nm] = s.many_body(mm, run, env)
                        new[nm] = [v.items[n].items if len(v.items) > n else [] for v, n in marks]
                    finally: z.pop()
                    for v, n in marks: del v.items[n:]
                    eff[nm] = s.effects[neff:]; del s.effects[neff:]
                if not rs: return run and []
                if any(eff.values()):
                    e0 = next(iter(eff.values()))
                    if all(x == e0 for x in eff.values()): s.effects += e0
                    else: s.effects.append(("manyparts", mm.m, eff))
                for i, (v, n) in enumerate(marks):
                    ps = {nm: new[nm][i] for nm in new}
                    if any(ps.values()):
                        if not all(ps.values()): raise Unsupported("only some repetitions print")
                        v.items.append(Many(mm.m, ps.get("mid") or next(iter(ps.values())), ps))
                s.parts_r = rs
                return rs.get("mid") or next(iter(rs.values()))
            finally: mm.idx = j
        marks = [(v, len(v.items)) for v in s.live_vecs()]
        neff = len(s.effects)
        save = (s.outer, getattr(s, "loopvars", None))
        out = set()
        e = env
        while e is not None: out.add(id(e)); e = e.p
        s.outer = save[0] | out; s.loopvars = []
        s.depth += 1
        try:
            try: r = run()
            except (Brk, Ret): raise Unsupported("break or return inside a repetition")
            if s.loopvars: raise Unsupported("variable %s changes in a repetition" % s.loopvars[0][1])
        finally:
            s.depth -= 1; s.outer, s.loopvars = save
        for v, n in marks:
            if len(v.items) > n:
                new = v.items[n:]
                del v.items[n:]
                v.items.append(Many(mm.m, new))
        if len(s.effects) > neff:
            new = s.effects[neff:]; del s.effects[neff:]
            s.effects.append(("many", mm.m, new))
        return r
    def live_vecs(s):
        return [v for v in s.vecs if v.depth <= s.depth]
    vecs = ()
    def new_vec(s, items=()):
        v = VecV(items, s.depth)
        s.vecs = list(s.vecs) + [v] if not isinstance(s.vecs, list) else (s.vecs.append(v) or s.vecs)
        return v
    def vec(s, items): return s.new_vec(items)
    # ------------------------------------------------------------ iterators
    def iter(s, v):
        """items of anything iterable"""
        v = s.force(v)
        if isinstance(v, VecV): return list(v.items)
        if isinstance(v, It): 
            r = v.items; v.items = []
            return r
        if isinstance(v, En) and v.t == "Option": return list(v.a)
        if isinstance(v, Tup) and v.e and v.e[0] == "range":
            a, b = v.e[1], v.e[2]
            if isinstance(a, int) and isinstance(b, int): return list(range(a, b))
            raise Unsupported("symbolic range")
        h = s.hooks.get("iter")
        if h:
            r = h(v)
            if r is not None: return r
        raise Unsupported("iteration over %r" % (v,))
    def mapitems(s, items, f):
        out = []
        for x in items:
            if isinstance(x, Many):
                r = s.many_body(x, lambda: [f(y) for y in x.items])
                out.append(Many(x.m, r, s.parts_r)); s.parts_r = None
            else: out.append(f(x))
        return out
    def filteritems(s, items, f):
        out = []
        for x in items:
            if isinstance(x, Many):
                keep = []
                for y in x.items:
                    n = s.node_in(y)
                    if n is None:
                        r = s.outcomes(lambda: s.branch(f(y)), [])
                        if r == {True}: keep.append(y)
                        elif r != {False}: raise Unsupported("filter of a repetition")
                        continue
                    P, F = s.pred_kinds(n, (lambda c: f(c)) if y is n else (lambda c: f(s.subst(y, n, c))))
                    if not F: keep.append(y)
                    elif P:
                        c = s.clone(n, P)
                        s.filtered.append((x.m, n, P))
                        keep.append(c if y is n else s.subst(y, n, c))
                if keep: out.append(Many(x.m, keep))
            elif s.truth(f(x)): out.append(x)
        return out
    @property
    def filtered(s):
        if not hasattr(s, "_filtered"): s._filtered = []
        return s._filtered
    def node_in(s, y):
        if isinstance(y, Node): return y
        if isinstance(y, Tup):
            ns = [x for x in y.e if isinstance(x, Node)]
            if len(ns) == 1: return ns[0]
        return None
    def subst(s, y, n, c):
        if isinstance(y, Tup): return Tup(*[c if x is n else x for x in y.e])
        return c
    def finditem(s, items, f):
        """first item for which f holds, None if there is none"""
        for x in items:
            if isinstance(x, Many):
                for y in x.items:
                    n = s.node_in(y)
                    if n is None:
                        r = s.outcomes(lambda: s.branch(f(y)), [])
                        if r == {False}: continue
                        raise Unsupported("search in a repetition")
                    P, F = s.pred_kinds(n, (lambda c: f(c)) if y is n else (lambda c: f(s.subst(y, n, c))))
                    if not P: continue
                    if n.extra:
                        if s.choose(2, "a comment %s" % n.name) == 1: continue
                        return s.comment(y)
                    if s.choose(2, "found in %s" % x.m) == 1:
                        # none: every repetition has one of the kinds F
                        if F: s.tree.narrow(n, F)
                        else: s.assume(s.count(x.m) == 0)
                        continue
                    if y is not n: raise Unsupported("search in a repetition of tuples")
                    return s.tree.split_many(n.parent, x.m, n, F, P)
            elif s.truth(f(x)): return x
        return None
    # ------------------------------------------------------------ calls
    def e_Call(s, e, env, h):
        f = e["f"]
        if f["k"] == "Path":
            p = f["path"]
            if not (len(p) == 1 and env.has(p[0])):
                args = e["args"]
                t = p[-2] if len(p) > 1 else None
                n = p[-1]
                if t == "Self": t = s.fnctx["selft"]
                if t is not None and t in s.P.aliases: t = s.P.aliases[t]["n"]
                if t in s.P.enums and t is not None:
                    for v in s.P.enums[t]["v"]:
                        if v["n"] == n: return En(t, n, *[s.ev(a, env) for a in args])
                if t is None and n in s.P.structs: return St(n, {str(i): s.ev(a, env) for i, a in enumerate(args)})
                return s.call_path(t, n, [s.ev(a, env) for a in args], f["tys"], h)
        fv = s.ev(f, env)
        return s.call_value(fv, [s.ev(a, env) for a in e["args"]])
    def call_path(s, t, n, args, tys=(), hint=None):
        if t is None:
            if n == "Some": return some(args[0])
            if n == "Ok": return ok(args[0])
            if n == "Err": return err(args[0])
            if n in s.intrinsics: return s.intrinsics[n](*args)
            fn = s.P.fns.get(n)
            if fn is not None: return s.call_fn(fn, args)
            raise Unsupported("function " + n)
        if t in s.P.enums:
            for v in s.P.enums[t]["v"]:
                if v["n"] == n: return En(t, n, *args)
        key = t + "::" + n
        if key in s.intrinsics:
            r = s.intrinsics[key](*args)
            if r is not NotImplemented: return r
        m = s.P.method(t, n)
        if m is not None:
            if s.is_contract(t, m) and isinstance(s.force(args[0]) if len(args) == 1 else None, Node):
                node = s.force(args[0])
                if not (node is s.rootnode and t == s.roott):
                    if "contract" in s.hooks and s.hooks["contract"](t, node) is False: pass
                    else: return Built(t, n, node)
            if m["self"] is not None: return s.call_fn(m, args[1:], args[0], t)
            return s.call_fn(m, args, None, t)
        if t[0].islower() and n in s.P.fns and s.P.fns[n]: return s.call_fn(s.P.fns[n], args)
        if t in ("Vec", "VecDeque") and n in ("new", "with_capacity"): return s.vec([])
        if t == "String" and n in ("new", "with_capacity"): return S()
        if t == "String" and n == "from": return s.tostr(args[0])
        if t in ("u8", "u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "i128", "isize") and n == "from" and len(args) == 1:
            v = s.force(args[0])
            if isinstance(v, bool): return int(v)
            if isinstance(v, (int, z3.ArithRef)): return v
            raise Unsupported("%s::from of %r" % (t, v))
        if t in ("Box", "Rc", "Arc") and n == "new": return args[0]
        if t == "Cell" and n == "new": return St("Cell", {"v": args[0]})
        if t == "RefCell" and n == "new": return args[0]
        if t == "Some": return some(args[0])
        if t in ("Option", "Result") and n in ("Some", "Ok", "Err"): return En(t, n, *args)
        if t in ("Option", "Result", "Iterator", "Vec", "str", "String", "Node", "ToString", "Clone", "Into", "From") or m is None:
            # method given as a path: first argument is the receiver
            if args: return s.method(args[0], n, args[1:], tys, hint)
        raise Unsupported("%s::%s" % (t, n))
    roott = None
    def is_contract(s, t, m):
        """constructor of a printable node type from one node"""
        return m["self"] is None and len(m["params"]) == 1 and m["params"][0]["ty"]["n"] == "Node" and "DocBuild" in s.P.implements.get(t, ()) \
            and m.get("ret") is not None and m["ret"]["n"] in ("Self", t)
    def e_Macro(s, e, env, h):
        n = e["n"]
        if n == "vec": return s.vec([s.ev(a, env) for a in e["args"]])
        if n in ("panic", "unreachable", "todo", "unimplemented"): raise PathPanic(n)
        if n in ("assert", "debug_assert"):
            if not s.truth(s.ev(e["args"][0], env)): raise PathPanic("assert")
            return UNIT
        if n in ("assert_eq", "debug_assert_eq", "assert_ne"):
            r = s.truth(s.eq(s.ev(e["args"][0], env), s.ev(e["args"][1], env)))
            if r != (n != "assert_ne"): raise PathPanic("assert_eq")
            return UNIT
        if n == "format": return s.fmt(e["args"], env)
        if n in ("println", "eprintln", "print", "eprint"):
            t = s.fmt(e["args"], env) if e["args"] else S()
            s.effects.append((n, t))
            return UNIT
        if n == "concat": return S(*[s.tostr(s.ev(a, env)) for a in e["args"]])
        raise Unsupported("macro %s!" % n)
    def fmt(s, args, env):
        f = args[0]
        if f["k"] != "Str": raise Unsupported("format string")
        t = f["v"]; out = []; i = 0; k = 1
        named = {}
        pos = []
        for a in args[1:]:
            if a["k"] == "Assign": named[a["l"]["path"][0]] = a["r"]
            else: pos.append(a)
        k = 0
        while i < len(t):
            c = t[i]
            if c == "{" and t[i+1:i+2] == "{": out.append("{"); i += 2; continue
            if c == "}" and t[i+1:i+2] == "}": out.append("}"); i += 2; continue
            if c == "{":
                j = t.index("}", i)
                spec = t[i+1:j]; i = j + 1
                name, _, fs = spec.partition(":")
                if name == "":
                    x = s.ev(pos[k], env); k += 1
                elif name.isdigit(): x = s.ev(pos[int(name)], env)
                elif name in named: x = s.ev(named[name], env)
                else: x = env.get(name)
                if fs in ("?", "#?"): out.append(("debug", s.tostr(x).parts)); continue
                if fs: raise Unsupported("format spec " + fs)
                out.append(s.tostr(x)); continue
            out.append(c); i += 1
        return S(*out)
    def e_MCall(s, e, env, h):
        r = s.ev(e["r"], env)
        args = [s.ev(a, env) for a in e["args"]]
        if e["r"]["k"] in ("Path", "Field", "Unary") and e["m"] in ("push_str", "push", "insert_str", "clear", "pop") and isinstance(s.deref(r), S):
            cur = s.deref(r)
            if e["m"] in ("push_str", "push"):
                new = S(cur, s.tostr(args[0]))
            elif e["m"] == "clear": new = S()
            else: raise Unsupported("String::" + e["m"])
            if isinstance(r, MutRef): r.set(new)
            else: s.assign(e["r"], new, env)
            return UNIT
        if e["m"] in ("take", "replace", "insert", "get_or_insert_with") and e["r"]["k"] in ("Path", "Field") and isinstance(s.deref(r), En) and s.deref(r).t == "Option":
            old = s.deref(r)
            new = NONE if e["m"] == "take" else some(args[0])
            if isinstance(r, MutRef): r.set(new)
            else: s.assign(e["r"], new, env)
            return old
        return s.method(r, e["m"], args, e.get("tf") or (), h)
    def method(s, r, n, args, tf=(), hint=None):
        r0 = r
        r = s.deref(r)
        if isinstance(r, Built):
            h = s.hooks.get("built_method")
            if h:
                x = h(r, n, args)
                if x is not None: return x
            if n in ("clone", "as_ref", "borrow", "to_owned", "as_mut", "as_deref"): return r
            r = s.force(r)
        if isinstance(r, (St, En)) and r.t not in ("Option", "Result"):
            key = r.t + "::" + n
            if key in s.intrinsics: return s.intrinsics[key](r, *args)
            m = s.P.method(r.t, n)
            if m is not None: return s.call_fn(m, args, r, r.t)
            if n in ("clone", "as_ref", "borrow", "to_owned", "as_mut", "unwrap_ref"): return s.copy(r)
            if r.t == "Cell":
                if n == "get": return r.f["v"]
                if n == "set": s.assign_field(r, "v", args[0]); return UNIT
            if n in ("to_string",): return s.tostr(r)
            if n in ("eq", "ne"):
                q = s.branch(s.eq(r, args[0])); return q if n == "eq" else not q
            raise Unsupported("%s.%s()" % (r.t, n))
        if isinstance(r, Node):
            m = s.P.method("Node", n)
            if m is not None:
                if "Node::" + n in s.intrinsics: return s.intrinsics["Node::" + n](r, *args)
                return s.call_fn(m, args, r, "Node")
            return s.node_method(r, n, args)
        for tn in s.type_names(r):
            m = s.P.method(tn, n)
            if m is not None: return s.call_fn(m, args, r, tn)
        from . import builtins as B
        return B.call(s, r, r0, n, args, tf, hint)
    def type_names(s, r):
        if isinstance(r, S): return ("str", "String", "&")
        if isinstance(r, VecV): return ("Vec", "[]")
        if isinstance(r, En): return (r.t,)
        return ()
    def copy(s, r):
        return r
    # ------------------------------------------------------------ nodes
    def node_method(s, n, m, args):
        T = s.tree
        if m == "kind":
            k = n.kind()
            return S(k) if k is not None and not k.startswith(("\0", "\1")) else S(("kind", n))
        if m == "id": return IdV(n)
        if m == "is_named": return n.named
        if m == "is_extra": return n.extra
        if m in ("is_error", "is_missing", "has_error"): return False
        if m == "walk": return Opaque("cursor", n)
        if m == "utf8_text": return ok(S(("text", n)))
        if m in ("children", "named_children"): return It(T.seq(n, m == "named_children"))
        if m in ("child_by_field_name", "children_by_field_name"):
            f = s.force(args[0]).const()
            if f is None: raise Unsupported("field name")
            its = T.seq(n, False, False)
            if m == "child_by_field_name":
                for x in its:
                    if isinstance(x, Many):
                        for y in x.items:
                            if f in y.fields:
                                if s.choose(2, "field in %s" % x.m) == 1: s.assume(s.count(x.m) == 0); continue
                                return some(T.split_many(n, x.m, y, None, y.kinds))
                    elif f in x.fields: return some(x)
                return NONE
            out = []
            for x in its:
                if isinstance(x, Many):
                    k = [y for y in x.items if f in y.fields]
                    if k: out.append(Many(x.m, k))
                elif f in x.fields: out.append(x)
            return It(out)
        if m in ("named_child", "child"):
            i = s.force(args[0])
            if isinstance(i, int): return s.child_at(n, i, m == "named_child")
            raise Unsupported("child(%r)" % (i,))
        if m in ("next_sibling", "next_named_sibling"):
            c = T.following(n)
            if m == "next_named_sibling":
                while c is not None and not c.named: c = T.following(c)
            return NONE if c is None else some(c)
        if m in ("prev_sibling", "prev_named_sibling"):
            h = s.hooks.get("prev")
            if h: return h(n, m)
            raise Unsupported(m)
        if m == "parent":
            return some(T.parent_of(n))
        if m in ("start_position", "end_position"): return St("Point", {"row": s.row(n, m[0]), "column": s.nint("col_%s_%s" % (m[0], n.name))})
        if m in ("start_byte", "end_byte"): return s.row(n, m[0], "byte")
        if m in ("child_count", "named_child_count"):
            k = 0
            for x in T.seq(n, m != "child_count"):
                if isinstance(x, Many): k = k + s.count(x.m) * len(x.items)
                else: k = k + 1
            return k
        if m in ("clone", "to_owned", "borrow"): return n
        if m == "eq": return s.eq(n, args[0])
        raise Unsupported("Node::" + m)
    def nint(s, nm):
        if nm not in s.ints:
            s.ints[nm] = z3.Int(nm); s.assume(s.ints[nm] >= 0)
        return s.ints[nm]
    def okey(s, n):
        """position of a node among its siblings"""
        p = n.parent
        if p is None or p.children is None: return None
        for i, c in enumerate(p.children):
            if c is n or c is n.orig: return (id(p), i + .5, 0)
            if isinstance(c, Many):
                for j, x in enumerate(c.items):
                    if x is n or x is n.orig: return (id(p), i + .5, j)
        if n.extra:
            key = n.name.split(".#", 1)[1]
            if key == "end": return (id(p), len(p.children), 0)
            for i, c in enumerate(p.children):
                if isinstance(c, Many):
                    if c.m == key: return (id(p), i, 0)
                elif c.name == key: return (id(p), i, 0)
        return None
    def row(s, n, w, what="row"):
        """row or byte offset of the start or end of a node; siblings do not overlap, and tokens are not empty"""
        nm = "%s_%s_%s" % (what, w, n.name)
        if nm in s.ints: return s.ints[nm]
        v = s.nint(nm)
        if not hasattr(s, "rowed"): s.rowed = {}
        if (what, n.name) not in s.rowed:
            a, b = s.nint("%s_s_%s" % (what, n.name)), s.nint("%s_e_%s" % (what, n.name))
            s.assume(a <= b if what == "row" else a < b)
            k = s.okey(n)
            for (w2, nm2), (k2, a2, b2) in s.rowed.items():
                if w2 != what or k is None or k2 is None or k[0] != k2[0]: continue
                if k[1:] < k2[1:]: s.assume(b <= a2)
                elif k[1:] > k2[1:]: s.assume(b2 <= a)
            s.rowed[(what, n.name)] = (k, a, b)
        return s.ints[nm]
    def child_at(s, n, i, named):
        items = s.tree.seq(n, named)
        key = ("childat", n.name, named)
        # walk: comments may stand anywhere; their number is decided once per position
        pos = s.env_extra.setdefault(key, [])
        # pos: resolved prefix of children; items not resolved yet follow
        if not pos: pos.append(([], list(items)))
        got, rest = pos[0]
        while len(got) <= i:
            if not rest: return NONE
            x = rest[0]
            if isinstance(x, Many):
                if x.items[0].extra:
                    if got and got[-1] is x.items[0]:
                        # another comment in the same place: same state again
                        if s.choose(2, "more comments %s" % x.m) == 0: rest.pop(0); continue
                        raise Subsumed()
                    if s.choose(2, "comment %s" % x.m) == 0: rest.pop(0); continue
                    got.append(s.comment(x.items[0])); continue
                if s.choose(2, "any of %s" % x.m) == 0: rest.pop(0); continue
                raise Unsupported("child index into a repetition")
            got.append(rest.pop(0))
        return some(got[i])
