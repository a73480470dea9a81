#!/usr/bin/env python3
"""For every grammar rule: programs that put the rule in its shortest context and run
through all pairs of decisions (alternative taken / optional present / repeat count)."""
import sys, json, itertools, random
from .gen import Gen, layout
def cover(seed=0, pairs=True, rules=None, mode="canon"):
    g = Gen(seed)
    ctx = g.contexts()
    seen = set()
    for n in g.R:
        if rules and n not in rules: continue
        if n not in ctx: continue
        pts = g.points(n)
        forces = [{}]
        for p, ks in pts:
            for k in ks: forces.append({p: k})
        if pairs:
            for (p, ks), (q, js) in itertools.combinations(pts, 2):
                if len(ks) * len(js) > 40: continue
                for k in ks:
                    for j in js: forces.append({p: k, q: j})
        alt = g.all_contexts(n)
        jobs = [(f, minimal, None, "") for f in forces for minimal in (True, False)]
        # the other places the rule occurs in, in turn
        jobs += [(f, bool(i % 2), alt[i % len(alt)], "~") for i, f in enumerate(forces) if alt]
        jobs += [({}, bool(i % 2), a, "~%d" % i) for i, a in enumerate(alt)]
        for f, minimal, chain, tag in jobs:
                g.minimal = minimal
                def make(out):
                    g.sym(n, 5 if not minimal else 0, out, f)
                try:
                    t = g.in_context(n, make, chain)
                except RecursionError:
                    continue
                src = layout(t, g.rnd, mode)
                if src in seen: continue
                seen.add(src)
                yield {"id": "%s|%s|%d%s" % (n, json.dumps(f), minimal, tag), "src": src}
def literals(src=None):
    """string, character and number literals of the code under test"""
    import glob, re
    t = ""
    for f in sorted(glob.glob((src or "/repo/src") + "/*.rs")):
        t += re.sub(r"(?m)^\s*//.*$", "", open(f, errors="replace").read())
    words = {m[1:-1] for m in re.findall(r'"(?:[^"\\\n]|\\.)*"', t)} | {m[1:-1] for m in re.findall(r"'(?:[^'\\\n]|\\.)'", t)}
    nums = {int(m.replace("_", "")) for m in re.findall(r"(?<![\w.])\d[\d_]*(?![\w.]*\w)", t)}
    return {w for w in words if 0 < len(w) < 60 and "{" not in w}, {n for n in nums if n < 1 << 64}
def dictionary():
    """words and numbers to try: those of the code, first of all those which the tree this machinery was built on does not have"""
    import os
    known = json.load(open(os.path.join(os.path.dirname(__file__), "literals.json")))
    w, n = literals()
    new, newn = w - set(known["words"]), n - set(known["numbers"])
    W = []
    for x in sorted(new): W += [x, x.upper(), x.lower(), x + "a", "a" + x, x.strip("_")] * 3
    for x in sorted(newn): W += [str(x), str(x + 1)] + (["x" * x, "x" * (x + 1), "y" * max(1, x - 1)] * 3 if x < 500 else [])
    return sorted(w) + [str(x) for x in sorted(n)] + W * (1 + len(w) // (len(W) + 1)), sorted(newn)
def words(seed=0, mode="rand", extra=(), rounds=2):
    """every rule with every single decision; some names, strings and numbers have an unusual text"""
    from .gen import UNUSUAL
    g = Gen(seed)
    ctx = g.contexts()
    seen = set()
    for rnd in range(rounds):
        sp = dict(UNUSUAL)
        if rnd % 2 and extra:
            sp = {"ident": [x for x in extra if not x[:1].isdigit() and x.replace("_", "a").replace("$", "a").isalnum()], "string": ["'%s'" % x for x in extra], "int": [x for x in extra if x.isdigit()]}
        for n in g.R:
            if n not in ctx: continue
            alt = g.all_contexts(n)
            fs = [{}] + [{p: k} for p, ks in g.points(n) for k in ks]
            for i, f in enumerate(fs * max(1, -(-8 // len(fs)))):
                g.minimal = i % 4 != 1
                g.plain = i % 4 != 2
                g.special, g.rate = sp, (.12, .3, .6)[i % 3]
                try: t = g.in_context(n, lambda out: g.sym(n, 0 if g.minimal else 4, out, f), alt[(i // 3 + rnd) % len(alt)] if alt and i % 3 == 1 else None)
                except RecursionError: continue
                src = layout(t, g.rnd, mode)
                if len(t) > 200 or src in seen: continue
                seen.add(src)
                yield {"id": "%s|%s|words%d" % (n, json.dumps(f), rnd), "src": src}
LONG = (4, 5, 6, 7, 8, 9, 11, 17, 33, 65, 101)
def long(seed=0, mode="canon", counts=LONG, few=()):
    """every repetition of every rule many times over"""
    g = Gen(seed)
    ctx = g.contexts()
    seen = set()
    for n in g.R:
        if n not in ctx: continue
        pts = g.points(n)
        def kind(p):
            r = g.R[n]
            for x in p.split(".")[1:]: r = r["members"][int(x)] if "members" in r else r["content"]
            return r["type"]
        for p, ks in pts:
            if kind(p) == "CHOICE": continue
            f = {}
            for q, _ in pts:
                if q != p and p.startswith(q + "."): f[q] = int(p[len(q) + 1:].split(".")[0]) if kind(q) == "CHOICE" else 1
            inner = [q for q, _ in pts if q.startswith(p + ".") and kind(q) == "CHOICE"]
            for k in sorted(set(counts) | set(few)):
                for how in (0, 1, 2):
                    if how and k > 40: continue
                    g.minimal = how != 2
                    h = dict(f); h[p] = k
                    if how == 1:
                        if not inner: continue
                        h[inner[0]] = 0
                    try: t = g.in_context(n, lambda out: g.sym(n, 2 if how == 2 else 0, out, h))
                    except RecursionError: continue
                    if len(t) > 1200: continue
                    src = layout(t, g.rnd, mode)
                    if src in seen: continue
                    seen.add(src)
                    yield {"id": "%s|%s*%d|%d" % (n, p, k, how), "src": src}
def towers(seed=0, mode="canon", heights=(6, 9, 14, 25)):
    """kinds that can hold themselves, many levels deep"""
    g = Gen(seed)
    seen = set()
    for l, o, ch in g.loops():
        for k in heights:
            g.minimal = True
            try: t = g.in_context(l, lambda out: g.sym(l, 0, out), ch + o * k)
            except RecursionError: continue
            if len(t) > 1500: continue
            src = layout(t, g.rnd, mode)
            if src in seen: continue
            seen.add(src)
            yield {"id": "%s|%s^%d|tower" % (l, "/".join(x[0] for x in o), k), "src": src}
def slots(seed=0, mode="canon", flip=False):
    """every kind in every place of every rule; kinds that can hold themselves, several levels deep"""
    g = Gen(seed)
    seen = set()
    for n, chain, tag in g.slots():
        for minimal in (True, False):
            if isinstance(tag[3], tuple) and not minimal: continue
            g.minimal = minimal
            try: t = g.in_context(n, lambda out: g.sym(n, 0 if minimal else 4, out), chain)
            except RecursionError: continue
            if len(t) > 300: continue
            src = layout(t, g.rnd, mode)
            if src in seen: continue
            seen.add(src)
            yield {"id": "%s|%s|slot" % (tag[0], json.dumps(tag[1:])), "src": src}
if __name__ == "__main__":
    for x in cover(int(sys.argv[1]) if len(sys.argv) > 1 else 0): print(json.dumps(x))
