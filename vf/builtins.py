"""Standard-library methods used by afmt, on symbolic values."""
import z3
from .values import *
from .tree import Node

def call(s, r, r0, n, a, tf, hint):
    if n in ("iter", "into_iter", "iter_mut", "drain") and isinstance(r, (VecV, It)) or n == "into_iter" and isinstance(r, En):
        return It(s.iter(r) if isinstance(r, It) else list(s.iter(r)), s.depth)
    if n in ("borrow", "as_ref", "as_mut", "by_ref", "deref", "to_owned", "borrow_mut", "as_slice", "as_str", "as_deref", "into", "as_bytes", "as_deref_mut", "into_boxed_str", "as_path", "to_path_buf", "unwrap_or_clone"):
        return r
    if n == "clone":
        if isinstance(r, VecV): return s.vec(list(r.items))
        return r
    if isinstance(r, VecV): return vec(s, r, n, a, tf, hint)
    if isinstance(r, It): return it(s, r, n, a, tf, hint)
    if isinstance(r, En): return opt(s, r, n, a, tf, hint)
    if isinstance(r, S): return string(s, r, n, a, tf, hint)
    if isinstance(r, Char):
        if n in ("to_string",): return S(r.c)
        if n in ("is_whitespace",): return r.c.isspace()
        if n == "is_alphabetic": return r.c.isalpha()
    if isinstance(r, bool) or isinstance(r, z3.BoolRef):
        if n == "then": return some(s.call_value(a[0], [])) if s.truth(r) else NONE
        if n == "then_some": return some(a[0]) if s.truth(r) else NONE
        if n == "to_string": return s.tostr(r)
        if n == "not": return not s.truth(r)
    if isinstance(r, (int, z3.ArithRef)):
        if n == "to_string": return s.tostr(r)
        if n == "saturating_sub":
            d = r - s.num(a[0])
            if isinstance(d, int): return max(d, 0)
            return z3.If(d >= 0, d, 0)
        if n in ("min", "max"):
            b = s.num(a[0])
            if isinstance(r, int) and isinstance(b, int): return min(r, b) if n == "min" else max(r, b)
            return z3.If(r <= b, r, b) if n == "min" else z3.If(r >= b, r, b)
        if n in ("wrapping_sub", "wrapping_add", "checked_sub", "pow"): raise Unsupported("int." + n)
        if n == "abs_diff":
            d = r - s.num(a[0])
            return abs(d) if isinstance(d, int) else z3.If(d >= 0, d, -d)
        if n in ("eq", "ne", "lt", "gt", "le", "ge"):
            b = s.num(a[0])
            return {"eq": r == b, "ne": r != b, "lt": r < b, "gt": r > b, "le": r <= b, "ge": r >= b}[n]
    if isinstance(r, Node): return s.node_method(r, n, a)
    if isinstance(r, Tup) and r.e and r.e[0] == "range":
        return it(s, It(s.iter(r), s.depth), n, a, tf, hint)
    from .values import Opaque as _O
    if isinstance(r, _O) and r.n == "chars" and n == "count":
        return chars(s, r.x[0])
    h = s.hooks.get("opaque")
    if h:
        x = h(r, n, a)
        if x is not None: return x
    raise Unsupported("%s on %r" % (n, r))

def chars(s, x):
    """number of characters of a string"""
    n = 0
    for p in x.parts: n = n + (len(p) if isinstance(p, str) else s.nint("chars_" + str(p)))
    return n

def appendable(s, v):
    return v.items

def vec(s, v, n, a, tf, hint):
    if n == "push": v.items.append(a[0]); return UNIT
    if n == "extend":
        v.items.extend(s.iter(a[0])); return UNIT
    if n == "append":
        o = s.force(a[0]); s.frame(o)
        v.items.extend(o.items); o.items = []
        return UNIT
    if n == "len": return s.length(v.items)
    if n == "is_empty": return s.is_empty(v.items)
    if n == "insert":
        s.frame(v)
        i = s.force(a[0])
        if isinstance(i, int) and not any(isinstance(x, Many) for x in v.items[:i]): v.items.insert(i, a[1]); return UNIT
        raise Unsupported("insert")
    if n in ("pop", "remove", "truncate", "clear", "swap_remove", "dedup", "reverse", "retain", "sort", "sort_by_key", "sort_by", "swap"):
        s.frame(v)
        if n == "pop":
            if not v.items: return NONE
            if isinstance(v.items[-1], Many): raise Unsupported("pop from a repetition")
            return some(v.items.pop())
        if n == "clear": v.items = []; return UNIT
        if n == "remove":
            i = s.force(a[0])
            if isinstance(i, int) and not any(isinstance(x, Many) for x in v.items[:i+1]):
                if i >= len(v.items): raise PathPanic("remove")
                return v.items.pop(i)
        if n == "reverse" and not any(isinstance(x, Many) for x in v.items): v.items.reverse(); return UNIT
        if n == "dedup" and len(v.items) <= 1 and not any(isinstance(x, Many) for x in v.items): return UNIT
        if n == "truncate":
            i = s.force(a[0])
            if isinstance(i, int) and not any(isinstance(x, Many) for x in v.items): del v.items[i:]; return UNIT
        if n == "retain":
            v.items = s.filteritems(v.items, lambda x: s.call_value(a[0], [x])); return UNIT
        h = s.hooks.get("vec")
        if h:
            x = h(v, n, a)
            if x is not None: return x
        raise Unsupported("Vec::" + n)
    if n in ("first", "last", "get", "split_first", "split_last"):
        if n == "first":
            x = s.nth(v.items, 0); return NONE if x is None else some(x)
        if n == "get":
            i = s.force(a[0])
            if isinstance(i, int):
                x = s.nth(v.items, i); return NONE if x is None else some(x)
            raise Unsupported("get")
        if n == "last":
            if not v.items: return NONE
            return last(s, v.items)
        if any(isinstance(x, Many) for x in v.items):
            if n == "split_first" and not isinstance(v.items[0], Many): return some(Tup(v.items[0], s.vec(v.items[1:])))
            if n == "split_last" and not isinstance(v.items[-1], Many): return some(Tup(v.items[-1], s.vec(v.items[:-1])))
            raise Unsupported(n)
        if not v.items: return NONE
        return some(Tup(v.items[0], s.vec(v.items[1:]))) if n == "split_first" else some(Tup(v.items[-1], s.vec(v.items[:-1])))
    if n == "join" or n == "concat":
        sep = s.tostr(a[0]) if a else S()
        if any(isinstance(x, Many) for x in v.items): raise Unsupported("join of a repetition")
        out = S()
        for i, x in enumerate(v.items): out = S(out, sep if i else S(), s.tostr(x))
        return out
    if n == "contains":
        x = s.force(a[0])
        if isinstance(x, S) and all(isinstance(y, S) and y.const() is not None for y in v.items):
            return s.str_in(x, [y.const() for y in v.items])
        return it(s, It(list(v.items), s.depth), "any", [Py(lambda y: s.eq(y, x))], tf, hint)
    if n in ("capacity",): return 0
    if n in ("reserve",): return UNIT
    return it(s, It(list(v.items), s.depth), n, a, tf, hint)

def last(s, items):
    if not items: return NONE
    x = items[-1]
    if not isinstance(x, Many): return some(x)
    if s.choose(2, "any of %s" % x.m) == 1:
        s.assume(s.count(x.m) == 0)
        return last(s, items[:-1])
    raise Unsupported("last of a repetition")

def it(s, v, n, a, tf, hint):
    f = lambda x: s.call_value(a[0], [x])
    if n == "next":
        if v.depth < s.depth: raise Unsupported("iterator advanced inside a repetition")
        if not v.items: return NONE
        x = v.items[0]
        if isinstance(x, Many):
            if s.choose(2, "any of %s" % x.m) == 1:
                v.items = v.items[1:]; s.assume(s.count(x.m) == 0); return it(s, v, n, a, tf, hint)
            raise Unsupported("next in a repetition")
        v.items = v.items[1:]
        return some(x)
    items = v.items
    if n in ("peekable", "by_ref", "fuse", "iter", "into_iter", "copied", "cloned"):
        return v
    if n == "peek":
        x = s.nth(items, 0); return NONE if x is None else some(x)
    v.items = []
    if n == "map": return It(s.mapitems(items, f), s.depth)
    if n == "filter": return It(s.filteritems(items, f), s.depth)
    if n in ("filter_map", "flat_map", "flatten"):
        out = []
        def one(x):
            y = f(x) if n != "flatten" else x
            return s.iter(y)
        for x in items:
            if isinstance(x, Many):
                r = []
                s.many_body(x, lambda: [r.extend(one(y)) for y in x.items])
                if r: out.append(Many(x.m, r))
            else: out.extend(one(x))
        return It(out, s.depth)
    if n == "enumerate":
        out = []; i = 0
        for x in items:
            if isinstance(x, Many):
                if len(x.items) != 1: raise Unsupported("enumerate")
                j = s.nint("j_" + x.m)
                s.assume(j < s.count(x.m)); 
                out.append(Many(x.m, [Tup(i + j, y) for y in x.items]))
                out[-1].idx = j
                i = i + s.count(x.m)
            else: out.append(Tup(i, x)); i = i + 1
        return It(out, s.depth)
    if n == "collect":
        t = (tf[0] if tf else hint)
        tn = t["n"] if t else None
        if tn == "String":
            out = S()
            for x in items:
                if isinstance(x, Many): raise Unsupported("collect::<String> of a repetition")
                out = S(out, s.tostr(x))
            return out
        if tn in ("Option", "Result"):
            out = []
            for x in items:
                if isinstance(x, Many): raise Unsupported("collect into " + tn)
                x = s.force(x)
                if x.v in ("None", "Err"): return x
                out.append(x.a[0])
            return En(tn, "Some" if tn == "Option" else "Ok", s.vec(out))
        if tn in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"): raise Unsupported("collect into " + tn)
        return s.vec(items)
    if n == "for_each":
        s.each(items, f); return UNIT
    if n == "find":
        x = s.finditem(items, f); return NONE if x is None else some(x)
    if n == "find_map":
        for x in items:
            if isinstance(x, Many): raise Unsupported("find_map in a repetition")
            y = s.force(f(x))
            if y.v == "Some": return y
        return NONE
    if n in ("any", "all"):
        want = n == "any"
        for x in items:
            if isinstance(x, Many):
                for y in x.items:
                    nd = s.node_in(y)
                    if nd is not None:
                        P, F = s.pred_kinds(nd, (lambda c: f(c)) if y is nd else (lambda c: f(s.subst(y, nd, c))))
                        H = P if want else F
                        if not H: continue
                        if nd.extra:
                            if s.fact(("some", x.m, n, str(sorted(H)))): return want
                            continue
                        if s.choose(2, "%s in %s" % (n, x.m)) == 1:
                            R = F if want else P
                            if R: s.tree.narrow(nd, R)
                            else: s.assume(s.count(x.m) == 0)
                            continue
                        return want
                    try: r = s.outcomes(lambda: s.branch(f(y)), [])
                    except Unsupported: r = {True, False}      # either may happen: nothing is concluded from the answer
                    if r == {not want}: continue
                    if s.choose(2, "%s in %s" % (n, x.m)) == 0: return want
            elif s.truth(f(x)) == want: return want
        return not want
    if n == "count": return s.length(items)
    if n == "len": return s.length(items)
    if n == "is_empty": return s.is_empty(items)
    if n in ("position",):
        i = 0
        for x in items:
            if isinstance(x, Many): raise Unsupported("position in a repetition")
            if s.truth(f(x)): return some(i)
            i += 1
        return NONE
    if n == "chain": return It(items + s.iter(a[0]), s.depth)
    if n == "zip":
        b = s.iter(a[0])
        out = []
        i = j = 0
        while i < len(items) and j < len(b):
            x, y = items[i], b[j]
            if isinstance(x, Many) != isinstance(y, Many): raise Unsupported("zip")
            if isinstance(x, Many):
                if x.m != y.m or len(x.items) != len(y.items): raise Unsupported("zip of different repetitions")
                out.append(Many(x.m, [Tup(p, q) for p, q in zip(x.items, y.items)]))
            else: out.append(Tup(x, y))
            i += 1; j += 1
        if any(isinstance(x, Many) for x in items[i:] + b[j:]): raise Unsupported("zip")
        return It(out, s.depth)
    if n == "rev":
        if any(isinstance(x, Many) for x in items): raise Unsupported("rev of a repetition")
        return It(items[::-1], s.depth)
    if n == "take":
        k = s.force(a[0])
        if isinstance(k, int):
            out = []
            for x in items:
                if not k: break
                if isinstance(x, Many): raise Unsupported("take")
                out.append(x); k -= 1
            return It(out, s.depth)
        if isinstance(k, z3.ArithRef):
            # all but the last?
            L = s.length(items)
            if items and not isinstance(items[-1], Many):
                z = s.z(); z.push(); z.add(k != L - 1); q = z.check(); z.pop()
                if q == z3.unsat: return It(items[:-1], s.depth)
        raise Unsupported("take")
    if n == "skip":
        k = s.force(a[0])
        if isinstance(k, int): return It(s.drop(items, k), s.depth)
        raise Unsupported("skip")
    if n == "last":
        return last(s, items)
    if n == "nth":
        k = s.force(a[0])
        if isinstance(k, int):
            x = s.nth(items, k); return NONE if x is None else some(x)
    if n == "fold":
        acc = a[0]
        for x in items:
            if isinstance(x, Many): raise Unsupported("fold over a repetition")
            acc = s.call_value(a[1], [acc, x])
        return acc
    if n in ("partition", "unzip"):
        if n == "unzip": raise Unsupported("unzip")
        A, B = [], []
        for x in items:
            if isinstance(x, Many):
                h = s.hooks.get("partition")
                if h:
                    r = h(x, f)
                    if r is not None: A += r[0]; B += r[1]; continue
                p = []
                t = s.many_body(x, lambda: [s.truth(f(y)) for y in x.items])
                raise Unsupported("partition of a repetition")
            elif s.truth(f(x)): A.append(x)
            else: B.append(x)
        return Tup(s.vec(A), s.vec(B))
    if n in ("min", "max", "sum"):
        if not any(isinstance(x, Many) for x in items):
            if n == "sum": return sum(items)
    if n in ("take_while", "skip_while"):
        out = list(items)
        if n == "skip_while":
            while out:
                if isinstance(out[0], Many): raise Unsupported(n)
                if not s.truth(f(out[0])): break
                out.pop(0)
            return It(out, s.depth)
        res = []
        for x in out:
            if isinstance(x, Many): raise Unsupported(n)
            if not s.truth(f(x)): break
            res.append(x)
        return It(res, s.depth)
    h = s.hooks.get("it")
    if h:
        x = h(It(items, s.depth), n, a)
        if x is not None: return x
    raise Unsupported("Iterator::" + n)

def opt(s, r, n, a, tf, hint):
    yes = r.v in ("Some", "Ok")
    x = r.a[0] if r.a else None
    if n in ("is_some", "is_ok"): return yes
    if n in ("is_none", "is_err"): return not yes
    if n in ("is_some_and", "is_ok_and"): return yes and s.truth(s.call_value(a[0], [x]))
    if n == "is_none_or": return (not yes) or s.truth(s.call_value(a[0], [x]))
    if n in ("unwrap", "expect"):
        if yes: return x
        raise PathPanic(n)
    if n in ("unwrap_err", "expect_err"):
        if not yes: return x
        raise PathPanic(n)
    if n == "unwrap_or": return x if yes else a[0]
    if n == "unwrap_or_else":
        return x if yes else s.call_value(a[0], [] if r.t == "Option" else [x])
    if n == "unwrap_or_default":
        if yes: return x
        t = hint["n"] if hint else None
        if t == "Vec": return s.vec([])
        if t == "String": return S()
        if t == "bool": return False
        raise Unsupported("unwrap_or_default")
    if n == "map": return En(r.t, r.v, s.call_value(a[0], [x])) if yes else r
    if n == "map_err": return r if yes else err(s.call_value(a[0], [x]))
    if n == "map_or": return s.call_value(a[1], [x]) if yes else a[0]
    if n == "map_or_else": return s.call_value(a[1], [x]) if yes else s.call_value(a[0], [] if r.t == "Option" else [x])
    if n == "and_then": return s.call_value(a[0], [x]) if yes else r
    if n == "or_else": return r if yes else s.call_value(a[0], [] if r.t == "Option" else [x])
    if n == "or": return r if yes else a[0]
    if n == "and": return a[0] if yes else r
    if n == "filter": return r if yes and s.truth(s.call_value(a[0], [x])) else NONE
    if n == "ok": return some(x) if yes else NONE
    if n == "err": return some(x) if not yes else NONE
    if n in ("ok_or",): return ok(x) if yes else err(a[0])
    if n in ("ok_or_else",): return ok(x) if yes else err(s.call_value(a[0], []))
    if n in ("iter", "into_iter"): return It(list(r.a) if yes else [], s.depth)
    if n in ("cloned", "copied"): return r
    if n == "take": raise Unsupported("Option::take")
    if n in ("eq", "ne"):
        q = s.branch(s.eq(r, a[0])); return q if n == "eq" else not q
    if n == "zip":
        o = s.force(a[0])
        return some(Tup(x, o.a[0])) if yes and o.v == "Some" else NONE
    if n == "flatten": return x if yes else r
    raise Unsupported("%s::%s" % (r.t, n))

def string(s, r, n, a, tf, hint):
    c = r.const()
    if n in ("to_string", "to_owned", "into_string", "into", "as_str", "clone", "to_str", "display", "to_string_lossy"): return r
    if n == "len" and c is not None: return len(c.encode())
    if n == "is_empty":
        if c is not None: return c == ""
        if any(isinstance(p, str) for p in r.parts): return False
        return s.fact(("empty", r.parts))
    if n in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
        if c is not None: return S(c.lower() if "lower" in n else c.upper())
        at = r.atom()
        if at and at[0] == "text": return S(("lower" if "lower" in n else "upper", at[1]))
        return S(("case", r.parts))
    if n in ("eq", "ne"):
        q = s.branch(s.eq(r, a[0])); return q if n == "eq" else not q
    if n == "eq_ignore_ascii_case":
        o = s.force(a[0])
        return s.branch(s.eq(string(s, r, "to_lowercase", [], None, None), string(s, o, "to_lowercase", [], None, None)))
    if n == "repeat":
        k = s.force(a[0])
        if c is not None and isinstance(k, int): return S(c * k)
        if c is not None and isinstance(k, z3.ArithRef): return S(("repeat", c, k))
    h = s.hooks.get("string")
    if h:
        x = h(r, n, a)
        if x is not None: return x
    if n in ("trim", "trim_end", "trim_start"):
        if c is not None: return S({"trim": c.strip, "trim_end": c.rstrip, "trim_start": c.lstrip}[n]())
        at = r.atom()
        if at and at[0] in ("text", "lower", "upper"): return r
        return S(("trim", n, r.parts))
    if n in ("starts_with", "ends_with", "contains"):
        o = s.force(a[0])
        if isinstance(o, Char): o = S(o.c)
        if isinstance(o, S):
            d = o.const()
            if c is not None and d is not None: return c.startswith(d) if n == "starts_with" else c.endswith(d) if n == "ends_with" else d in c
            at, to = r.atom(), o.atom()
            if n == "starts_with" and at and at[0] in ("text", "lower", "upper"):
                if d is None and to and to[0] in ("text", "lower", "upper"):
                    # the texts the other one can have, one after the other
                    ts = s.tree.textset(to[1])
                    if ts is not None and len(ts) <= 16 and not any(ch.isalpha() for t in ts for ch in t):
                        if len(ts) > 1:
                            l = sorted(ts)
                            s.touched(to[1]); to[1].texts = frozenset([l[s.choose(len(l), "text(%s)" % to[1].name)]])
                        d = next(iter(to[1].texts or ts))
                if d is not None and not any(ch.isalnum() for ch in d):
                    x = s.starts(at[1], d)
                    if x is not None: return x
            return s.fact((n, r.parts, o.parts))
    if n in ("strip_prefix", "strip_suffix"):
        o = s.force(a[0])
        d = o.c if isinstance(o, Char) else o.const()
        if c is not None and d is not None:
            if n == "strip_prefix": return some(S(c[len(d):])) if c.startswith(d) else NONE
            return some(S(c[:len(c) - len(d)])) if c.endswith(d) else NONE
    if n == "replace" and c is not None:
        return S(c.replace(s.tostr(a[0]).const(), s.tostr(a[1]).const()))
    if n in ("chars", "char_indices") and c is None: return Opaque("chars", r)
    if n in ("chars", "split", "lines", "split_whitespace") and c is not None:
        if n == "chars": return It([Char(x) for x in c], s.depth)
        if n == "split":
            o = s.force(a[0])
            d = o.c if isinstance(o, Char) else o.const()
            return It([S(x) for x in c.split(d)], s.depth)
        if n == "lines": return It([S(x) for x in c.splitlines()], s.depth)
        return It([S(x) for x in c.split()], s.depth)
    raise Unsupported("str::%s of %r" % (n, r))
