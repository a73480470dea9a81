"""Values of the symbolic executor (see sym.py)."""
import itertools

class Unsupported(Exception): pass          # construct outside the executor's reach: nothing is concluded
class PathPanic(Exception): pass            # the Rust code panics on this path
class Infeasible(Exception): pass           # the path cannot happen
class Subsumed(Exception): pass             # a loop came back to a state already covered
class Exit(Exception):                      # process::exit
    def __init__(s, code): s.code = code

class Unit:
    def __repr__(s): return "()"
UNIT = Unit()

class S:
    """a string: concatenation of literal parts and atoms.  atom: ("text", node) text of a node,
    ("lower", atom), ("f", name, ...) anything opaque"""
    __slots__ = ("parts",)
    def __init__(s, *parts):
        out = []
        for p in parts:
            if isinstance(p, S): ps = p.parts
            else: ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q: continue
                    if out and isinstance(out[-1], str): out[-1] += q; continue
                out.append(q)
        s.parts = tuple(out)
    def const(s):
        if not s.parts: return ""
        if len(s.parts) == 1 and isinstance(s.parts[0], str): return s.parts[0]
        return None
    def atom(s): return s.parts[0] if len(s.parts) == 1 and not isinstance(s.parts[0], str) else None
    def __repr__(s): return "S" + repr(s.parts)

class Char:
    __slots__ = ("c",)
    def __init__(s, c): s.c = c

class St:
    """struct value"""
    __slots__ = ("t", "f")
    def __init__(s, t, f): s.t, s.f = t, f
    def __repr__(s): return "%s{%s}" % (s.t, ",".join(s.f))
class En:
    """enum value (also Option, Result)"""
    __slots__ = ("t", "v", "a")
    def __init__(s, t, v, *a): s.t, s.v, s.a = t, v, list(a)
    def __repr__(s): return "%s%s" % (s.v, tuple(s.a) if s.a else "")
def some(x): return En("Option", "Some", x)
NONE = En("Option", "None")
def ok(x): return En("Result", "Ok", x)
def err(x): return En("Result", "Err", x)

class Tup:
    __slots__ = ("e",)
    def __init__(s, *e): s.e = list(e)
    def __repr__(s): return repr(tuple(s.e))

class Many:
    """any number of repetitions of `items`; m identifies the repetition (Rep object of the node)"""
    __slots__ = ("m", "items", "parts", "idx")
    # parts: {first, last, one: items} when these repetitions differ from the others; idx: index variable
    def __init__(s, m, items, parts=None): s.m, s.items, s.parts, s.idx = m, list(items), parts, None
    def __repr__(s): return "Many%s%r" % (s.m, s.items)

class VecV:
    __slots__ = ("items", "depth")
    def __init__(s, items=(), depth=0): s.items = list(items); s.depth = depth
    def __repr__(s): return "Vec%r" % (s.items,)
class It:
    """iterator: the remaining items, evaluated eagerly"""
    __slots__ = ("items", "depth", "state")
    def __init__(s, items, depth=0): s.items = list(items); s.depth = depth; s.state = None
    def __repr__(s): return "It%r" % (s.items,)
class LazyIt:
    """map/filter over another iterator, closures applied when consumed"""
    __slots__ = ("src", "op", "fn")
    def __init__(s, src, op, fn): s.src, s.op, s.fn = src, op, fn

class Closure:
    __slots__ = ("params", "body", "env", "fnctx")
    def __init__(s, params, body, env, fnctx): s.params, s.body, s.env, s.fnctx = params, body, env, fnctx
class FnRef:
    """function item, optionally a method of a type"""
    __slots__ = ("t", "n", "tys")
    def __init__(s, t, n, tys=()): s.t, s.n, s.tys = t, n, tys
    def __repr__(s): return "fn %s::%s" % (s.t, s.n)
class Py:
    """built-in function value"""
    __slots__ = ("f",)
    def __init__(s, f): s.f = f
class Opaque:
    """a value nothing is known about except where it came from"""
    __slots__ = ("n", "x")
    def __init__(s, n, *x): s.n, s.x = n, x
    def __repr__(s): return "<%s>" % s.n
class Built:
    """result of a constructor X::new(node): its contract stands for it until something looks inside"""
    __slots__ = ("t", "fn", "node", "val")
    def __init__(s, t, fn, node): s.t, s.fn, s.node, s.val = t, fn, node, None
    def __repr__(s): return "%s(%r)" % (s.t, s.node)
class MutRef:
    __slots__ = ("get", "set")
    def __init__(s, get, set): s.get, s.set = get, set
class IdV:
    __slots__ = ("node",)
    def __init__(s, node): s.node = node
    def __repr__(s): return "id(%r)" % s.node
class OptPunc:
    """result of Punctuation::from(root node) while nobody looked: Some for a following , or ;"""
    __slots__ = ("resolve", "sub", "val")
    def __init__(s, resolve, sub): s.resolve, s.sub, s.val = resolve, sub, None
