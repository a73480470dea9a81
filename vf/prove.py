"""Collects the obligations of one property: the contracts of the functions of /repo it depends on, discharged
on /repo's current source by the back ends below.  A failed obligation is a violation; an obligation that a back
end cannot express or decide on changed source is undecided and reported as such (the bounded stand-in decides)."""
import json, os, re, subprocess, glob, hashlib, signal, threading, time
from . import build
from .bounded import group

VERIF = build.VERIF
WORK = os.path.join(VERIF, "work")

class Ob:
    def __init__(s, id, status, backend, n=1, detail=None, more=None):
        s.id, s.status, s.backend, s.n, s.detail, s.more = id, status, backend, n, detail, more
    def brief(s): return {"obligation": s.id, "detail": s.detail}
    def full(s): return {"obligation": s.id, "back_end": s.backend, "detail": s.detail, "verifier_output": s.more}

class Part:
    """what one back end did for a property"""
    def __init__(s, name, obs=(), functions=(), assumptions=(), trusted=(), stats=None, error=None, cmd=""):
        s.name, s.obs, s.functions, s.assumptions, s.trusted, s.stats, s.error, s.cmd = name, list(obs), sorted(functions), list(assumptions), list(trusted), stats or {}, error, cmd

def sources():
    return sorted(glob.glob(os.path.join(build.REPO, "src", "*.rs")))

def py_vt(): return "/opt/veriftools/pyvenv/bin/python" if os.path.exists("/opt/veriftools/pyvenv/bin/python") else "python3-vt"

def ast():
    """syntax trees of /repo/src/*.rs, printed by rsdump (syn)"""
    exe = build.rsdump()
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "ast.json")
    r = subprocess.run([exe, *sources()], capture_output=True, text=True)
    if r.returncode: raise build.BuildError("rsdump: " + r.stderr[-500:])
    tmp = "%s.%d" % (out, threading.get_ident())
    with open(tmp, "w") as f: f.write(r.stdout)
    os.replace(tmp, out)
    return out

def tool(script, args, out, timeout):
    """runs one of the verifier scripts under python3-vt; -> (result, None) or (None, why)"""
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    cmd = [py_vt(), os.path.join(VERIF, "vf", script), *args]
    key = None
    if os.environ.get("VERIF_CACHE"):        # development only; the registered commands do not set it
        h = hashlib.sha256()
        for f in sources() + sorted(glob.glob(os.path.join(VERIF, "vf", "*.py"))): h.update(open(f, "rb").read())
        h.update(" ".join(args).encode())
        key = os.path.join(WORK, "cache-%s-%s.json" % (script[:-3], h.hexdigest()[:16]))
        if os.path.exists(key): return json.load(open(key)), None
    if os.path.exists(out): os.remove(out)
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=VERIF, start_new_session=True)
    try: _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return None, "%s: no answer within %d s" % (script, timeout)
    if p.returncode or not os.path.exists(out): return None, "%s: exit %d: %s" % (script, p.returncode, err[-400:])
    o = json.load(open(out))
    if key: json.dump(o, open(key, "w"))
    return o, None

# ---------------------------------------------------------------- printing rules
CLASSES = ("total", "tokens", "separation", "comments", "indent", "blank", "width", "breaks")
COND = {"and_expression", "or_expression", "not_expression", "where_clause", "having_clause", "comparison_expression"}
WANT = {"P01": ("tokens", "separation"), "P02": ("tokens", "separation"), "P03": ("tokens", "separation"), "P04": ("tokens", "separation"),
        "P05": ("comments",), "P07": ("tokens",), "P08": ("width", "breaks"), "P09": ("indent",), "P10": ("blank",), "P15": ("stable",), "P18": ("total",)}
DROPS = COND - {"comparison_expression"} | {"class_body", "interface_body", "enum_body", "block", "trigger_body", "constructor_body", "parser_output", "storage_alias", "annotation", "annotation_argument_list", "modifiers"}
P15_ASSUMES = ["the output parses to the reduced tree of the source with the same texts and blank lines: the obligations tokens, separation (P01-P04) and blank (P10) of the same tree, decided by their own checks",
 "for the kinds with tokens that may be dropped or moved, that the document does not depend on them is compared for repetitions up to 2 (modifiers up to 4): bounded, not counted as discharged"]
RULE_TRUST = [
 "tree-sitter and the grammar (src/grammar.json, node-types.json of tree-sitter-sfapex): a tree without error and missing nodes derives from the grammar, children in the order of the rule, extras anywhere between them; the Node API (children, named_child, child_by_field_name, kind, sibling, byte range, position) behaves as documented",
 "the executor vf/sym.py + vf/builtins.py: its reading of Rust expressions and of the std methods it executes (Vec, Option, iterators, str); it is exercised, not proved",
 "vf/emit.py uses the contracts of get_comment_bucket (what collect_comments stores: verified by Verus in P05), Punctuation::*, handle_pre/post/dangling_comments, Comment::mark_as_printed, BodyMember::* (verified by vf/helpers.py in P05 and P10)",
 "the lexical rule that two tokens may stand next to each other (vf/contracts.py Fuse) and the list of admitted normalisations (vf/contracts.py Spec.special)",
]
def rules_part(prop, tier):
    a = ast()
    out = os.path.join(WORK, "engine.json")
    o, why = tool("engine.py", [a, out, "--limit", "60000", "--inline-until", "200"], out, 560)
    cmd = "python3-vt vf/engine.py (z3 %s) on rsdump's syntax trees of /repo/src/*.rs" % "4.x"
    if why: return Part("rules", error=why, cmd=cmd)
    obs, fns, rejects = [], set(), set()
    z = zt = unk = paths = 0
    erased = []
    for r in o["rules"]:
        X, k = r["rule"].split(":", 1)
        k, _, way = k.partition("@")
        take = [c for c in WANT[prop]]
        if prop in ("P01", "P02", "P03", "P04") and group(k) != prop: continue
        if prop == "P07" and k not in COND: continue
        fns |= set(r["used"])
        z += r["queries"]; zt += r["zt"]; unk += r["unknown"]
        n = sum(r["paths"].values()); ok = r["paths"].get("ok", 0); paths += n
        for c in take:
            bad = [f for f in r["fails"] if f["ob"] == c]
            uns = {k: v for k, v in r["unsupported"].items() if k.split(":")[0] not in ("tokens", "comments", "layout", "width", "breaks") or k.split(":")[0] == {"tokens": "tokens", "separation": "tokens", "comments": "comments", "width": "width", "breaks": "breaks", "total": "total"}.get(c, "layout")}
            if c == "stable":
                uns.update({x: 1 for x in r["stable"]})
                if k in DROPS and not uns: erased.append(r["rule"])
            id = "%s: %s(%s)" % (c, X, k + (_ and " as " + way))
            if bad: obs.append(Ob(id, "failed", "engine+z3", ok, "; ".join(f["detail"] for f in bad[:3]), bad))
            elif uns: obs.append(Ob(id, "undecided", "engine+z3", ok, json.dumps(uns)))
            elif not ok and r["paths"].get("panic"): obs.append(Ob(id, "discharged", "engine+z3 (the rule rejects the node: afmt fails)", r["paths"]["panic"])); rejects.add(r["rule"])
            elif not ok: obs.append(Ob(id, "undecided", "engine+z3", 0, "no path reaches the end (vacuous)"))
            else: obs.append(Ob(id, "discharged", "engine+z3", ok))
    st = {"bounded_not_counted": "dropping or moving the permitted tokens changes nothing, repetitions up to 2 (modifiers up to 4): " + ", ".join(erased)} if erased else {}
    return Part("printing rules", obs, fns, P15_ASSUMES if prop == "P15" else [], RULE_TRUST, {**st, "rules": len({ob.id.split(": ")[1] for ob in obs}), "paths": paths, "rules_inlined_into_callers": len(o["inlined"]),
        "rules_that_reject_every_node": sorted(rejects), "z3_queries": z, "z3_s": round(zt, 2), "z3_unknown": unk, "wall_s": round(o["time"], 1)}, cmd=cmd)


# ---------------------------------------------------------------- the printer (doc.rs), Verus
def verus_obs(part, text, path, contracts, lemmas, log, file, trust):
    from . import verus_run
    st, n, bad, stats = verus_run.run(text, path)
    stats["extraction"] = log
    cmd = "verus %s (extracted from /repo/src/%s on every run)" % (os.path.relpath(path, VERIF), file)
    names = ["%s" % f for f in contracts] + ["lemma %s" % l for l in lemmas]
    obs = []
    for f in names:
        k = f.replace("lemma ", "")
        if st == "undecided": obs.append(Ob("%s: %s" % (file, f), "undecided", "verus", 0, stats.get("why")))
        elif k in bad: obs.append(Ob("%s: %s" % (file, f), "failed", "verus", 1, "; ".join(e.split("\n")[0] for e in bad[k][:3]), bad[k][:5]))
        else: obs.append(Ob("%s: %s" % (file, f), "discharged", "verus (z3)"))
    if st == "failed" and not any(o.status == "failed" for o in obs):
        obs.append(Ob("%s: verification" % file, "failed", "verus", 1, "; ".join(bad), [e for l in bad.values() for e in l][:5]))
    return Part(part, obs, contracts, [], trust, stats, cmd=cmd, error=stats.get("why") if st == "undecided" else None)

def printer_part(prop, tier):
    from . import verus_doc, verus_run
    from .extract import Misfit
    src = open(os.path.join(build.REPO, "src", "doc.rs")).read()
    path = os.path.join(WORK, "verus_doc", "doc.rs")
    try: text, log, extra = verus_doc.build(src)
    except Misfit as e: return Part("printer", error="the contracts of doc.rs do not fit its text: %s" % e, cmd="verus")
    if extra: return Part("printer", error="doc.rs has functions without a contract: " + ", ".join(extra), cmd="verus")
    lem = [f[0] for f in verus_run.functions(text) if f[3] == "proof"]
    p = verus_obs("printer", text, path, verus_doc.CONTRACTS, lem, log, "doc.rs", verus_doc.TRUST)
    return p

def attach_part(prop, tier):
    """collect_comments: which comments end up in which bucket"""
    from . import verus_cm, verus_run
    from .extract import Misfit
    src = open(os.path.join(build.REPO, "src", "utility.rs")).read()
    path = os.path.join(WORK, "verus_cm", "comments.rs")
    try: text, log, con = verus_cm.build(src)
    except Misfit as e: return Part("attachment of comments", error="the contract of collect_comments does not fit its text: %s" % e, cmd="verus")
    lem = [f[0] for f in verus_run.functions(text) if f[3] == "proof"]
    return verus_obs("attachment of comments", text, path, con, lem, log, "utility.rs", verus_cm.TRUST)

# ---------------------------------------------------------------- the driver: main.rs, args.rs, formatter.rs, thread-locals
DRIVER_TRUST = [
 "std::fs (read_to_string returns the content or an error, write stores exactly the given bytes or fails), no other process changes the files meanwhile; process::exit, println!/print! and the exit status of a main that returns Err or panics",
 "toml/serde (a key that is there has its value, one that is not the declared default, an unparsable text is an error), clap (a switch is set exactly if given, the definitions of get_args decide what is accepted)",
 "std::thread, mpsc and catch_unwind: a receiver yields every value sent before the last sender is dropped, in any order; the values of a thread are those of running its closure alone; a panic becomes an Err",
 "the executor vf/sym.py with the effects of vf/effects.py; sort_by_key and the iterator methods it executes",
]
def contract_part(prop, name, script, args, backend, trust):
    """the obligations of one property among those of a script that checks contracts one by one"""
    a = ast()
    out = os.path.join(WORK, "%s-%s.json" % (script[:-3], prop))
    o, why = tool(script, [a, out] + args, out, 400)
    cmd = "python3-vt vf/%s (z3) on rsdump's syntax trees of /repo/src/*.rs" % script
    if why: return Part(name, error=why, cmd=cmd)
    obs, fns, paths, n = [], set(), 0, 0
    for c in o["contracts"]:
        mine = []
        for b in c["obs"]:
            ids = re.findall(r"\bP\d\d\b", b["name"])
            if prop in (ids or c["props"]): mine.append(b)
        if not mine and not (c["unsupported"] and prop in c["props"]): continue
        fns |= set(c["used"]); paths += c["paths"]; n += 1
        for b in mine:
            id = "%s: %s" % (c["fn"], re.sub(r"^(P\d\d )+", "", b["name"]))
            if b["fail"]: obs.append(Ob(id, "failed", backend, b["n"], str(b["fail"])[:300], b["fail"]))
            elif c["unsupported"]: obs.append(Ob(id, "undecided", backend, b["n"], json.dumps(c["unsupported"])[:300]))
            else: obs.append(Ob(id, "discharged", backend, b["n"]))
        if c["unsupported"] and not mine: obs.append(Ob(c["fn"], "undecided", backend, 0, json.dumps(c["unsupported"])[:300]))
    return Part(name, obs, fns, [], trust, {"contracts": n, "paths": paths, "z3_queries": o["queries"], "z3_s": o["zt"], "wall_s": o["time"]}, cmd=cmd)
def driver_part(prop, tier): return contract_part(prop, "driver", "effects.py", [], "effects+z3", DRIVER_TRUST)

# ---------------------------------------------------------------- functions the rules rely on by contract
HELPER_TRUST = ["the executor vf/sym.py; in vf/helpers.py: std::cell::Cell, str::trim/strip_prefix/strip_suffix/split on texts made of blanks, words and literals, HashMap::values (every bucket once), tree_sitter::Node (siblings, positions, kinds)"]
def helper_part(prop, tier): return contract_part(prop, "helpers", "helpers.py", [prop], "helpers+z3", HELPER_TRUST)

PARTS = {p: [rules_part, printer_part] for p in WANT}
PARTS["P06"] = [printer_part]
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P10", "P18"): PARTS[_p].append(helper_part)
PARTS["P05"] += [driver_part, attach_part]
PARTS["P18"] += [driver_part, attach_part]
for _p in ("P11", "P12", "P13", "P14", "P16"): PARTS[_p] = [driver_part]

class Proof:
    def __init__(s, prop, parts): s.prop, s.parts = prop, parts
    def obs(s): return [o for p in s.parts for o in p.obs]
    def failed(s): return [o for o in s.obs() if o.status == "failed"]
    def undecided(s): return [o for o in s.obs() if o.status == "undecided"]
    @property
    def level(s): return LEVEL.get(s.prop, "other") if s.parts and not any(p.error for p in s.parts) and not s.undecided() else "other"
    @property
    def assumptions(s):
        l = []
        for p in s.parts: l += [a for a in p.assumptions if a not in l]
        return l + ["bounded stand-ins (the replayed programs below) are not part of the proof"]
    def coverage(s):
        obs = s.obs()
        by = {}
        for o in obs:
            if o.status == "discharged": by[o.backend] = by.get(o.backend, 0) + 1
        return {"obligations": len(obs), "discharged": sum(o.status == "discharged" for o in obs), "verification_conditions": sum(o.n for o in obs), "discharged_by": by,
            "undecided": [o.brief() for o in s.undecided()][:40], "failed": [o.brief() for o in s.failed()][:40],
            "checker_cmd": "; ".join(p.cmd for p in s.parts) or "none", "trusted_base": [t for p in s.parts for t in p.trusted],
            "functions_under_contract": {p.name: p.functions for p in s.parts}, "parts": {p.name: dict(p.stats, error=p.error) if p.error else p.stats for p in s.parts},
            "explanation": "deductive verification of the real functions of /repo: every obligation is generated from the current source and must be accepted; bounded replays (evaluations) are labelled bounded and never counted as proved" if s.parts else "no function under contract yet: bounded only"}
    def summary(s):
        obs = s.obs()
        e = [p.error for p in s.parts if p.error]
        return "%d of %d obligations discharged, %d failed, %d undecided%s" % (sum(o.status == "discharged" for o in obs), len(obs), len(s.failed()), len(s.undecided()), "; " + "; ".join(e) if e else "")
LEVEL = {p: "proof" for p in PARTS}
PARTS["P15"] = [rules_part]
LEVEL["P15"] = "other"          # rests on a bounded comparison and on the obligations of other properties

def prove(prop, tier, seed):
    from concurrent.futures import ThreadPoolExecutor
    ast()
    def one(f):
        try: return f(prop, tier)
        except build.BuildError: raise
        except Exception as e: return Part(f.__name__, error="%s: %s" % (type(e).__name__, str(e)[:300]))
    with ThreadPoolExecutor(5) as ex: return Proof(prop, list(ex.map(one, PARTS.get(prop, []))))
