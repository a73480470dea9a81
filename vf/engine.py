"""Deductive verification of the printing rules: executes every rule (X, k) reachable from the root on an
arbitrary node of its kind and checks its contract on every path; callees stand for their contracts.
Run with python3-vt:  engine.py AST.json OUT.json [options]"""
import sys, os, json, time, signal, collections, traceback, multiprocessing as mp, argparse
if __name__ == "__main__": sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
from vf import emit, contracts
from vf.grammar import Grammar
from vf.sym import Program, STATS
from vf.values import Unsupported, Many

MAXPATHS = 60000

def calls(us, out):
    for u in us:
        if u[0] == "call":
            for k in u[2].kinds: out.add((u[1], W.g.key(k, u[2].via)))
        elif u[0] == "many": calls(u[2], out)

class World:
    def __init__(s, astfile):
        ast = json.load(open(astfile))
        s.prog = Program({k: v for k, v in ast.items() if not k.endswith("/lib.rs")})
        s.g = Grammar()
        s.fuse = contracts.Fuse(s.g)
        s.holders = contracts.Holders(s.g)
W = None

def script_of(d): return list(d.script[:d.pos])

UNROLL = (3, 6)
def rule(args):
    """all paths of one rule.  Where the executor cannot treat a repetition as a whole, its first repetitions are
    split off as cases of their own: an exhaustive split, whose cases are decided like any other path"""
    r = once(args, 0)
    (X, k), inline, limit, budget = args
    if not r["unsupported"] or inline or not W.g.has_rep(W.g.unkey(k)[0]): return r
    for K in UNROLL:
        left = budget - r["t"] if budget else 0
        if budget and left < 5: break
        q = once(((X, k), inline, limit, min(left, 60) if budget else 0), K)
        r["t"] += q["t"]; r["queries"] += q["queries"]; r["zt"] += q["zt"]
        r["unrolled"] = K
        if not q["unsupported"]:
            q["t"], q["queries"], q["zt"], q["unrolled"] = r["t"], r["queries"], r["zt"], K
            return q
        for f, v in q["fails"].items(): r["fails"].setdefault(f, v)
        if q["fails"]: break
    return r

def once(args, unroll):
    (X, k), inline, limit, budget = args
    w = W
    r = {"rule": (X, k), "n": collections.Counter(), "unsupported": collections.Counter(), "fails": {}, "req": set(), "calls": set(),
         "pp": {",": set(), ";": set()}, "own": set(), "own_to": set(), "used": set(), "sep": {}, "rep": {}, "edge": (set(), set()), "clean": (set(), set()), "brk": set(), "panics": {}, "stable": set(), "live": set(), "self": set(), "effects": 0, "queries": 0, "t": 0.0}
    t0 = time.time()
    q0 = STATS["queries"], STATS["time"], STATS["unknown"]
    cmpaths = []
    kk, reduced, shown = w.g.unkey(k)[0], set(), set()
    def fail(ob, key, detail, p):
        f = r["fails"].setdefault((ob, str(key)[:160]), {"n": 0, "detail": str(detail)[:900], "doc": emit.show(p.units)[:700]})
        f["n"] += 1
    def late(*a): raise TimeoutError("time budget")
    if budget:
        signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, budget + 10)
    try:
        if X not in w.prog.methods or "new" not in w.prog.methods[X]: raise Unsupported("%s::new not found" % X)
        for p in emit.paths(w.prog, w.g, X, k, limit, inline, unroll):
            r["n"][p.status] += 1
            if budget and time.time() - t0 > budget: r["unsupported"]["time budget"] += 1; break
            if p.status == "unsupported":
                r["unsupported"][p.why] += 1; continue
            if p.I is not None: r["used"] |= p.I.used
            if p.status == "panic":
                d = contracts.total(p)
                if d: r["panics"].setdefault(d, p.why)
            if p.status != "ok": continue
            contracts.live(p, w.g, r["live"], r["self"])
            calls(p.units, r["calls"])
            r["stable"] |= contracts.stable(p)
            try:
                sh = kk in contracts.DROPS and (p.node.shape, contracts.nocm(p.units), tuple(sorted(p.I.facts.items(), key=str)), contracts.kindsof(p.node.children or ()))
                if sh and sh not in shown:
                    shown.add(sh)
                    reduced.update(contracts.instances(p) if kk == "modifiers" else contracts.reduced(p))
            except (Unsupported, KeyError) as e: r["stable"].add("not compared: " + str(e))
            check_path(w, p, r, fail, cmpaths)
        if kk == "modifiers": d = contracts.reorder(reduced)
        else: d = contracts.erasure(reduced)
        if d: r["stable"].add(d)
        for (_, m), (ends, begins) in sorted(r["rep"].items()):
            for c, n1, lc in ends:
                for d, n2, rc in begins:
                    if not w.fuse(c, d): continue
                    det = "%s directly followed by %s (%s%s) in two neighbouring repetitions" % (n1, n2, c, d)
                    if lc or rc: r["sep"].setdefault(("sep", lc, rc, c, d), (det, ""))
                    else: r["fails"].setdefault(("separation", "repetition %s %s%s" % (m, c, d)), {"n": 1, "doc": "", "detail": det})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r["unsupported"]["%s: %s (%s:%d)" % (type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno)] += 1
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    r["t"] = time.time() - t0
    r["queries"] = STATS["queries"] - q0[0]; r["zt"] = STATS["time"] - q0[1]; r["unknown"] = STATS["unknown"] - q0[2]
    return r

def check_path(w, p, r, fail, cmpaths):
    I = p.I
    ok = False
    try:
        ok, d, req = contracts.check_tokens(p)
        if not ok: fail("tokens", d.split("[contract")[0], d, p)
    except Unsupported as e: r["unsupported"]["tokens: " + str(e)] += 1
    if ok:
        starts = set()
        for q in req:
            if q[0] == "start": starts |= q[1]
        bad, rq, ends, begins = contracts.separation(p, starts, w.fuse)
        for i, d in enumerate((ends, begins)):
            for m, l in d.items(): r["rep"].setdefault((str(p.node.shape), m), (set(), set()))[i].update(l)
        for b in bad: fail("separation", b[2:], "%s directly followed by %s (%s%s)" % b, p)
        for q in rq: r["sep"].setdefault(q[:3] + q[4:], (q[3], emit.show(p.units)[:700]))
        a, b = contracts.edges(p)
        r["edge"][0].add(a); r["edge"][1].add(b)
        nx = I.rootnext
        printed = {q[1] for q in req if q[0] == "prints-next"}
        dele = {q[1] for q in req if q[0] == "pp-root"}
        for tok in (",", ";"):
            if nx is not None and not (nx[1] is not None and nx[1].kinds == {tok}): continue
            if dele: r["pp"][tok] |= {("call", X, k) for X, ks in dele for k in ks}
            else: r["pp"][tok].add(tok in printed or "?" in printed)
        for q in req:
            if q[0] == "pp": r["req"].add(("pp", q[1][0], tuple(sorted(q[1][1])), q[2], q[3]))
    o, to = contracts.own_comments(p)
    r["own"] |= o; r["own_to"] |= to
    try:
        asked = set()
        def own(X, ks):
            asked.add((X, ks)); return set()
        ok2, d = contracts.check_comments(p, own)
        if not ok2: fail("comments", d, d, p)
        # a rule called on a node whose comments are printed here may not print them too
        for q in contracts.twice(p): r["req"].add(q)
    except Unsupported as e: r["unsupported"]["comments: " + str(e)] += 1
    try:
        bad, rq = contracts.layout(p, w.holders)
        for ob, key, det in bad: fail(ob, key, det, p)
        r["req"] |= rq
    except Unsupported as e: r["unsupported"]["layout: " + str(e)] += 1
    for x in p.I.widths: fail("width", x, x, p)
    for x in p.I.choices: r["unsupported"]["width: " + x] += 1
    try:
        bad, facts = contracts.breaks(p)
        for ob, det in bad: fail("breaks", ob + det, det, p)
        r["brk"] |= facts
    except Unsupported as e: r["unsupported"]["breaks: " + str(e)] += 1
    a, b = contracts.clean_edges(p)
    r["clean"][0].update(a); r["clean"][1].update(b)

def init(astfile):
    global W
    W = World(astfile)

def run(astfile, roots=(("Root", "parser_output"),), procs=8, limit=MAXPATHS, budget=240, only=None, inline_until=200):
    """executes everything reachable; rules that do not meet their contract alone are inlined into their callers"""
    init(astfile)
    res = {}
    t0 = time.time()
    with mp.Pool(procs, initializer=init, initargs=(astfile,)) as pool:
        def go(todo):
            pend = []
            for x, inl in todo: pend.append(pool.apply_async(rule, ((x, inl, limit, budget),)))
            while pend:
                done = [p for p in pend if p.ready()]
                pend = [p for p in pend if p not in done]
                for p in done:
                    q = p.get(); q["inline"] = None; res[q["rule"]] = q
                    for o in sorted(q["calls"]):
                        if o not in seen: seen.add(o); pend.append(pool.apply_async(rule, ((o, frozenset(), limit, budget),)))
                time.sleep(.005)
        if only: seen = set(only); go([(x, frozenset()) for x in only])
        else: seen = set(roots); go([(x, frozenset()) for x in roots])
        def partial(): return {x for x in alive(res, roots) if x in res and res[x]["panics"]}
        bad = {x for x, q in res.items() if q["fails"] or q["unsupported"]} | partial()
        if os.environ.get("TRACE"): print("first", round(time.time()-t0,1), sorted(bad), file=sys.stderr, flush=True)
        # second chance: a rule that does not keep its contract alone is executed inside its callers
        inlined, sure, late = {}, set(), set()
        for rnd in range(3):
            cand = {x for x in bad if x not in inlined and x not in roots and x not in res[x]["calls"]}
            if not cand: break
            callers = collections.defaultdict(set)
            for y, q in res.items():
                for x in q["calls"] & cand: callers[x].add(y)
            # whether a rule may fail where only rules call it that are to be settled themselves shows afterwards
            wait = {x for x, ys in callers.items() if ys <= bad and not (res[x]["fails"] or res[x]["unsupported"])}
            cand -= wait
            for x in wait: del callers[x]
            jobs = {}
            for x, ys in callers.items():
                for y in ys: jobs.setdefault(y, set()).add(x[0])
            new = {}
            left = inline_until - (time.time() - t0)
            late = cand - sure
            if left < 10: break
            pend = [(y, frozenset(ts) | (res[y]["inline"] or frozenset()), pool.apply_async(rule, ((y, frozenset(ts) | (res[y]["inline"] or frozenset()), limit, min(budget, left, 90)),))) for y, ts in sorted(jobs.items())]
            for y, ts, p in pend:
                q = p.get(); q["inline"] = ts; new[y] = q
                if os.environ.get("TRACE"): print("inl", rnd, y, sorted(ts), round(q["t"],1), round(time.time()-t0,1), len(q["fails"]), dict(q["unsupported"]), file=sys.stderr, flush=True)
            todo = set()
            prog = False
            for x, ys in callers.items():
                if ys and all(not new[y]["fails"] and not new[y]["unsupported"] and not new[y]["panics"] for y in ys):
                    inlined[x] = sorted(ys); prog = True
                # it fails inside a caller too, which is the verdict; a caller that is undecided is none
                if any(new[y]["fails"] or new[y]["panics"] and not res[x]["fails"] for y in ys): sure.add(x)
            late = cand - sure - set(inlined)
            for y, q in new.items():
                if not q["fails"] and not q["unsupported"]: res[y] = q; todo |= {o for o in q["calls"] if o not in seen}
            seen |= todo
            go([(o, frozenset()) for o in sorted(todo)])
            bad = {x for x in {x for x, q in res.items() if q["fails"] or q["unsupported"]} | partial() if x not in inlined}
            if not prog: break
        for x in inlined: res.pop(x, None)
        for x in late - set(inlined):
            q = res[x]
            if q["fails"] or q["panics"]: q["unsupported"]["fails alone, undecided inside its callers"] += 1; q["alone"] = q["fails"]; q["fails"] = {}; q["panics"] = {}
    # unreachable rules (only called by inlined ones) stay: they are correct anyway
    cross(res, roots)
    return res, inlined, time.time() - t0

def alive(res, roots):
    """the rules that are called for a source without an unsupported construct"""
    out, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in out: continue
        out.add(x)
        if x in res: todo += list(res[x]["live"]) + list(res[x]["self"])
    return out

def cross(res, roots=()):
    """requirements of callers against what the callees do"""
    memo = {}
    if roots:
        # totality: no live rule has a path that fails, none leaves its own node to itself again
        for x in sorted(alive(res, roots)):
            if x not in res: continue
            for d, why in sorted(res[x]["panics"].items()): res[x]["fails"].setdefault(("total", d), {"n": 1, "doc": "", "detail": "fails (%s) on %s" % (why, d)})
            done, todo = set(), list(res[x]["self"])
            while todo:
                y = todo.pop()
                if y in done: continue
                done.add(y); todo += list(res[y]["self"]) if y in res else []
            if x in done: res[x]["fails"].setdefault(("total", "endless"), {"n": 1, "doc": "", "detail": "leaves its node to itself again without end"})
    ways = collections.defaultdict(list)
    for X, k in res:
        if "@" in k: ways[X, W.g.unkey(k)[0]].append((X, k))
    def closure(key, start, direct):
        """union of direct(X, k) over every rule the given one leaves the matter to"""
        if (key, start) in memo: return memo[key, start]
        out, done, todo = set(), set(), [start]
        while todo:
            x = todo.pop()
            if x in done: continue
            done.add(x)
            if x not in res and x in ways: todo += ways[x]; continue
            if x not in res:
                if key[0] == "edge": out.add(None)
                continue
            for v in direct(res[x]):
                if isinstance(v, tuple) and v[0] == "to": todo += v[1]
                else: out.add(v)
        memo[key, start] = out
        return out
    def own(X, k): return closure("own", (X, k), lambda q: list(q["own"]) + [("to", [x]) for x in q["own_to"]])
    def pp(X, k, tok): return closure("pp" + tok, (X, k), lambda q: [("to", [(b[1], b[2])]) if isinstance(b, tuple) else b for b in q["pp"][tok]])
    def ends(X, k, what, e):
        d = lambda q: [a if isinstance(a, bool) else ("to", [(a[0], kk) for kk in a[1]]) for a in q[what][e]]
        return closure((what, e), (X, k), d)
    def edge(X, k, e):
        """does everything the rule prints start / end with white space"""
        return ((X, k) in res or (X, k) in ways) and ends(X, k, "edge", e) == {True}
    def unclean(X, k, e): return True in ends(X, k, "clean", e)
    def chars(g, k, last): return g.edge(k, last)
    def loose(X, k, P):
        """the way to a break point outside any group that the rule prints below a node of kind P, or None"""
        todo, done = [((X, k, P), ())], set()
        while todo:
            (X, k, P), way = todo.pop()
            if (X, k, P) in done: continue
            done.add((X, k, P)); way = way + ("%s(%s)" % (X, k),)
            for f in sorted({f for x in ([(X, k)] if (X, k) in res else ways.get((X, k), ())) for f in res[x]["brk"]}, key=str):
                if f[-1] is not None and P is not None and P not in f[-1]: continue
                if f[0] == "loose": return way
                if f[0] == "flow": todo += [((f[1], f[2], p), way) for p in ((P,) if f[3] is None else f[3])]
        return None
    for x, q in res.items():
        for f in sorted(q["brk"], key=str):
            if f[0] != "need": continue
            for p in f[3]:
                way = loose(f[1], f[2], p)
                if way: q["fails"].setdefault(("breaks", "loose %s" % way[-1]), {"n": 1, "doc": "", "detail": "a break point of %s is in no group of its own: it is broken whatever its width below %s" % (" > ".join(way), x[1])})
        for (_, lc, rc, c, d), (det, doc) in sorted(q["sep"].items(), key=str):
            if lc and all(edge(lc[0], k, 1) for k in lc[1] if c in chars(W.g, k, 1)): continue
            if rc and all(edge(rc[0], k, 0) for k in rc[1] if d in chars(W.g, k, 0)): continue
            q["fails"].setdefault(("separation", "%s%s" % (c, d)), {"n": 1, "doc": doc, "detail": det})
        for r in sorted(q["req"], key=str):
            if r[0] == "pp":
                for k in r[2]:
                    have = pp(r[1], k, r[3])
                    if have - {r[4]}:
                        q["fails"].setdefault(("tokens", "punctuation %r behind %s of %s" % (r[3], r[1], k)), {"n": 1, "doc": "", "detail": "the rule %s for %s prints the %r that follows: %s, but here it is %s" % (r[1], k, r[3], sorted(have), "left to it" if r[4] else "printed by the caller")})
            if r[0] == "clean":
                for k in r[2]:
                    if unclean(r[1], k, r[3]):
                        q["fails"].setdefault(("indent" if r[3] == 0 else "blank", "edge of %s" % k), {"n": 1, "doc": "", "detail": "the rule %s for %s prints white space of its own at its %s" % (r[1], k, ("start", "end")[r[3]])})
            if r[0] == "nocm":
                for k in r[2]:
                    if r[3] in own(r[1], k):
                        q["fails"].setdefault(("comments", "%s comments of %s" % (r[3], k)), {"n": 1, "doc": "", "detail": "the %s comments of a %s are printed here and again by %s" % (r[3], k, r[1])})

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("ast"); a.add_argument("out"); a.add_argument("--limit", type=int, default=MAXPATHS); a.add_argument("--budget", type=float, default=240); a.add_argument("--only", nargs="*"); a.add_argument("--procs", type=int, default=8); a.add_argument("--inline-until", type=float, default=200)
    a = a.parse_args()
    res, inl, t = run(a.ast, limit=a.limit, budget=a.budget, procs=a.procs, inline_until=a.inline_until, only=[tuple(x.split(":")) for x in a.only] if a.only else None)
    out = {"time": t, "inlined": ["%s:%s" % x for x in inl], "rules": []}
    for x, q in sorted(res.items()):
        out["rules"].append({"rule": "%s:%s" % x, "paths": dict(q["n"]), "unsupported": dict(q["unsupported"]), "t": round(q["t"], 2), "inline": sorted(q["inline"] or ()),
            "fails": [{"ob": o, "key": kk, **f} for (o, kk), f in q["fails"].items()], "stable": sorted(q["stable"]), "used": sorted(q["used"]), "queries": q["queries"], "zt": round(q["zt"], 3), "unknown": q["unknown"], "unclean": [e for e in (0, 1) if True in q["clean"][e]], "req": len(q["req"])})
    json.dump(out, open(a.out, "w"), indent=1)
