"""Deductive verification of the driver: main.rs, args.rs, formatter.rs, lib.rs and the thread-locals of utility.rs.
Every function is executed symbolically on arbitrary arguments (vf/sym.py) with a trace of its effects; callees stand
for their contracts, and the contract of the function is checked on every path.
Run with python3-vt:  effects.py AST.json OUT.json"""
import sys, os, json, time, itertools, collections, traceback
if __name__ == "__main__": sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
import z3
from vf.sym import Interp, Driver, Program, STATS
from vf.values import *

class Bad(Exception): pass
def opq(n, *x): return Opaque(n, *x)

class World(Interp):
    """an executor whose input and output is recorded"""
    def __init__(s, prog, driver):
        Interp.__init__(s, prog, None, driver)
        s.vecs = []
        s.writes, s.reads, s.out, s.errout = [], 0, [], []
        s.log = []                      # calls that stand for their contract, in order
        s.tls = {}
        s.hooks["opaque"] = s.opaque
        s.hooks["iter"] = s.iter_hook
        s.hooks["vec"] = s.vec_hook
        s.hooks["string"] = lambda r, n, a: s.string_hook(r, n, a)
        msg = lambda *a: S(("msg",))
        s.intrinsics.update({"red": msg, "yellow": msg, "process::exit": s.exit, "fs::read_to_string": s.read, "fs::write": s.write,
            "Instant::now": lambda: opq("instant"), "Path::new": lambda p: p, "PathBuf::from": lambda p: p, "drop": s.drop_, "HashMap::new": lambda: opq("map"), "CommentMap::new": lambda: opq("map"),
            "channel": lambda: s.channel(), "mpsc::channel": lambda: s.channel(), "thread::spawn": s.spawn, "panic::catch_unwind": s.catch, "AssertUnwindSafe": lambda c: c, "panic::AssertUnwindSafe": lambda c: c,
            "File::create": lambda p: s.open_(p, True, False), "OpenOptions::new": lambda: opq("openopts", {}), "stdout": lambda: opq("stdout"), "io::stdout": lambda: opq("stdout"),
            "fs::rename": s.nope, "fs::remove_file": s.nope, "fs::copy": s.nope, "toml::from_str": s.toml, "Arena::new": lambda: opq("arena"), "panic::set_hook": lambda *a: UNIT, "thread::scope": s.scope_})
        s.chan = None
    # ---- files and streams
    def exit(s, c): raise Exit(s.force(c))
    def path(s, p):
        p = s.force(p)
        if not isinstance(p, S): raise Unsupported("path %r" % (p,))
        return p.parts
    def read(s, p):
        p = s.path(p); s.reads += 1
        s.log.append(("read", p))
        if s.fact(("readable", p, s.reads)): return ok(S(("file", p)))
        return err(S(("ioerr", p)))
    def write(s, p, c):
        p = s.path(p); c = s.force(c)
        if not isinstance(c, S): raise Unsupported("content %r" % (c,))
        good = s.fact(("writable", p, len(s.writes)))
        s.writes.append((p, c.parts, good))
        return ok(UNIT) if good else err(S(("ioerr", p)))
    def nope(s, *a): raise Unsupported("file operation")
    def open_(s, p, truncate, append):
        """a file opened for writing: its content from here on is the last entry of writes for this path"""
        p = s.path(p)
        if not s.fact(("openable", p, len(s.writes))): return err(S(("ioerr", p)))
        old = (("file", p),)
        s.writes.append((p, () if truncate else old, True))
        return ok(opq("fileh", {"i": len(s.writes) - 1, "mode": "truncate" if truncate else "append" if append else "over", "text": ()}))
    def put_(s, f, t):
        f = f.x[0]; i = f["i"]
        p, c, g = s.writes[i]
        f["text"] = S(S(*f["text"]), t).parts
        good = s.fact(("written", p, i, len(f["text"])))
        base = () if f["mode"] == "truncate" else (("file", p),)
        new = f["text"] if f["mode"] == "truncate" else base + f["text"] if f["mode"] == "append" else f["text"] + (("rest of", p),)
        s.writes[i] = (p, new, g and good)
        return ok(UNIT) if good else err(S(("ioerr", p)))
    def e_Macro(s, e, env, h):
        n = e["n"]
        if n in ("write", "writeln"):
            o = s.force(s.ev(e["args"][0], env))
            t = S(s.fmt(e["args"][1:], env) if e["args"][1:] else S(), "\n" if n == "writeln" else "")
            if isinstance(o, Opaque) and o.n == "stdout": s.out.append(t); return ok(UNIT)
            if isinstance(o, Opaque) and o.n == "fileh": return s.put_(o, t)
            raise Unsupported("write!")
        if n in ("println", "print", "eprintln", "eprint"):
            t = s.fmt(e["args"], env) if e["args"] else S()
            (s.out if n in ("println", "print") else s.errout).append(S(t, "\n" if n.endswith("ln") else ""))
            return UNIT
        if n == "env": return S(("env",))
        if n == "panic":
            if e["args"]: s.fmt(e["args"], env)
            raise PathPanic("panic")
        return Interp.e_Macro(s, e, env, h)
    def e_Try(s, e, env, h):
        v = s.force(s.ev(e["e"], env))
        if isinstance(v, En) and v.v in ("Some", "Ok"): return v.a[0]
        if isinstance(v, En): raise RetErr(v)
        raise Unsupported("? on %r" % (v,))
    def toml(s, c):
        """serde: a key that is there has its value, one that is not the declared default"""
        c = s.force(c)
        s.log.append(("toml", c.parts))
        if not s.fact(("parses", c.parts)): return err(S(("tomlerr",)))
        d = s.P.structs.get("Config")
        if d is None: raise Unsupported("no struct Config")
        if any(a.startswith("serde") for a in d["attrs"]): raise Unsupported("serde attributes of Config")
        f = {}
        for x in d["fields"]["f"]:
            n = x["n"]
            if x["ty"]["n"] != "u32": raise Unsupported("type of " + n)
            at = [a for a in x["attrs"] if a.startswith("serde")]
            df = None
            for a in at:
                import re
                m = re.fullmatch(r'serde \(default = "(\w+)"\)', a)
                if not m: raise Unsupported("attribute " + a)
                df = m.group(1)
            if s.fact(("given", n)): f[n] = s.u32("toml_" + n)
            elif df: f[n] = s.call_fn(s.P.fns[df], [])
            else: return err(S(("tomlerr",)))
        return ok(St("Config", f))
    def u32(s, n):
        v = s.nint(n); s.assume(v <= 4294967295)
        return v
    # ---- threads
    def channel(s):
        s.chan = {"msgs": s.vec([]), "tx": 1}
        return Tup(opq("tx", s.chan), opq("rx", s.chan))
    def drop_(s, v):
        v = s.force(v)
        if isinstance(v, Opaque) and v.n == "tx":
            if s.depth: raise Unsupported("drop inside a repetition")
            v.x[0]["tx"] -= 1
        return UNIT
    def catch(s, c):
        try: return ok(s.call_value(s.force(c), []))
        except PathPanic: return err(opq("panic"))
    def scope_(s, c): return s.call_value(c, [opq("scope")])
    def spawn(s, c):
        """the thread runs at some time; what it sends is recorded; a panic ends this thread only"""
        n = len(s.log)
        try: r = ok(s.call_value(s.force(c), []))
        except PathPanic: r = err(opq("panic")); s.lost = True
        return opq("handle", r)
    lost = False
    def opaque(s, o, n, a):
        if o.n == "tx":
            if n == "clone": return opq("tx", o.x[0], "clone")
            if n == "send":
                o.x[0]["msgs"].items.append(a[0]); return ok(UNIT)
        if o.n == "rx" and n in ("into_iter", "iter", "try_iter"):
            if n == "try_iter": raise Unsupported("try_iter")
            return o
        if o.n == "rx" and n == "collect":
            # every sender is dropped: the iteration ends, with every message, in any order
            if o.x[0]["tx"] != 0: raise Bad("the receiver waits for ever: a sender is still alive")
            return s.vec([Many(SHUFFLED + x.m, x.items, x.parts) if isinstance(x, Many) else x for x in o.x[0]["msgs"].items])
        if o.n == "scope" and n == "spawn": return s.spawn(a[0])
        if o.n == "index" and n in ("cmp", "partial_cmp") and isinstance(s.force(a[0]), Opaque) and s.force(a[0]).n == "index":
            r = opq("cmp", (o.x or ("?",))[0], (s.force(a[0]).x or ("?",))[0])
            return r if n == "cmp" else some(r)
        if o.n == "handle" and n == "join": return o.x[0]
        if o.n == "openopts":
            if n in ("write", "append", "truncate", "create", "read", "create_new"): o.x[0][n] = a[0]; return o
            if n == "open":
                m = o.x[0]
                if m.get("create_new") or any(not isinstance(v, bool) for v in m.values()) or not (m.get("write") or m.get("append")): raise Unsupported("OpenOptions")
                return s.open_(a[0], bool(m.get("truncate")), bool(m.get("append")))
        if o.n == "fileh":
            if n == "write_all": return s.put_(o, s.force(a[0]))
            if n in ("flush", "sync_all", "sync_data"): return ok(UNIT)
            raise Unsupported("File::" + n)
        if o.n == "stdout":
            if n == "lock": return o
            if n == "flush": return ok(UNIT)
            if n == "write_all": s.out.append(s.force(a[0])); return ok(UNIT)
        if n in ("clone", "as_ref"): return o
        if o.n == "tls" and n == "with": return s.call_value(a[0], [o.x[0]])
        if o.n in ("instant",) and n == "elapsed": return opq("duration")
        x = s.more(o, n, a)
        if x is not None: return x
        return None
    def more(s, o, n, a): return None
    def iter_hook(s, v):
        if isinstance(v, Opaque) and v.n == "rx": return s.iter(s.opaque(v, "collect", []))
        return None
    def vec_hook(s, v, n, a):
        if n in ("sort_by_key", "sort_unstable_by_key", "sort_by", "sort_unstable_by", "sort", "sort_unstable", "sort_by_cached_key"):
            # sorting by the position of the file restores the order of the files
            x = v.items[0] if len(v.items) == 1 else None
            if not (isinstance(x, Many) and x.m.startswith(SHUFFLED) and len(x.items) == 1): raise Unsupported(n)
            y = s.force(x.items[0])
            def sorted_(): v.items[:] = [Many(x.m[len(SHUFFLED):], x.items, x.parts)]; return UNIT
            if n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                k = s.force(s.call_value(a[0], [y]))
                if isinstance(k, Opaque) and k.n == "index": return sorted_()
                raise Bad("sorted by something that is not the position of the file") if not isinstance(k, Opaque) else Unsupported(n)
            if n in ("sort_by", "sort_unstable_by") and isinstance(y, Tup):
                p = [Tup(*[opq("index", t) if isinstance(s.force(q), Opaque) and s.force(q).n == "index" else q for q in y.items]) for t in "ab"]
                k = s.force(s.call_value(a[0], p))
                if isinstance(k, Opaque) and k.n == "cmp" and k.x == ("a", "b"): return sorted_()
            raise Unsupported(n)
        if n in ("dedup", "dedup_by_key", "dedup_by", "retain", "truncate", "reverse", "rotate_left", "rotate_right", "swap_remove", "drain") and any(isinstance(x, Many) and x.m == "files" for x in v.items):
            # another list than that of all the files in their order
            if n == "retain": raise Unsupported(n)
            v.items[:] = [Many(n + " of files", x.items, x.parts) if isinstance(x, Many) else x for x in v.items]
            return UNIT
        return None
    def string_hook(s, r, n, a):
        if n in ("as_bytes", "into_bytes"): return r
        if n in ("trim", "trim_end", "trim_start", "lines", "replace", "to_lowercase", "trim_end_matches", "trim_start_matches", "trim_matches", "strip_suffix", "strip_prefix") and r.const() is None:
            if n in ("strip_suffix", "strip_prefix"): raise Unsupported(n)
            return S(("fn", n, r.parts, tuple(str(x) for x in a)))
        return None
    def eq(s, a, b):
        a, b = s.force(a), s.force(b)
        if isinstance(a, S) and isinstance(b, S):
            if a.parts == b.parts: return True
            x, y = a.const(), b.const()
            if x is not None and y is not None: return x == y
            p, q = sorted((a.parts, b.parts), key=str)
            return s.fact(("eq", p, q))
        return Interp.eq(s, a, b)

class RetErr(Exception): pass
from vf.sym import Ret
class RetErr(Ret): pass

OBS = []
class Check:
    """one contract: run on every path, obligations collected by name"""
    def __init__(s, fn, props): s.fn, s.props, s.obs, s.used, s.paths = fn, props, collections.OrderedDict(), set(), 0; s.unsupported = collections.Counter()
    def need(s, name, cond, detail=""):
        o = s.obs.setdefault(name, [0, None])
        o[0] += 1
        if not cond and o[1] is None: o[1] = detail() if callable(detail) else detail
def every(prog, chk, setup, cls=None):
    d = Driver()
    n = 0
    while True:
        n += 1
        w = (cls or World)(prog, d)
        try:
            setup(w, chk)
            chk.paths += 1
        except (Infeasible, Subsumed): pass
        except Unsupported as e: chk.unsupported[str(e)[:200]] += 1
        except Bad as e: chk.paths += 1; chk.need("P16 progress and order", False, str(e))
        chk.used |= w.used
        if not d.next(): break
        if n > 20000: chk.unsupported["too many paths"] += 1; break

def outcome(w, f):
    """("ret", value) / ("panic", why) / ("exit", code)"""
    try: return ("ret", f())
    except PathPanic as e: return ("panic", str(e))
    except Exit as e: return ("exit", e.code)

def has(parts, what):
    """does a string contain an atom of this sort"""
    return any(not isinstance(p, str) and (p[0] == what or any(isinstance(q, tuple) and has(q if isinstance(q, tuple) and q and not isinstance(q[0], str) else (q,), what) for q in p[1:])) for p in parts if not isinstance(p, str))

FMT = "fmt"
SHUFFLED = "in the order in which the threads end: "
def cfgkey(w, c):
    c = w.force(c)
    return (str(z3.simplify(w.num(c.f["max_width"]) + 0)) if not isinstance(c.f["max_width"], int) else str(c.f["max_width"]),
            str(z3.simplify(w.num(c.f["indent_size"]) + 0)) if not isinstance(c.f["indent_size"], int) else str(c.f["indent_size"]))

# ------------------------------------------------------------------ contracts
def result_of(w, path, key):
    """contract of Formatter::format for one file: Ok(text) or Err"""
    if w.fact(("formats", path, key)): return ok(S((FMT, path, key)))
    return err(S(("fmterr", path)))

def main_contract(prog):
    c = Check("main", ("P11", "P12", "P13", "P14"))
    def go(w, c):
        B = {n: z3.Bool("args_" + n) for n in ("write", "check", "time")}
        w.assume(z3.Not(z3.And(B["write"], B["check"])))        # contract of get_args
        PATH = (("arg", "path"),)
        cfg = some(S(("arg", "config"))) if w.choose(2, "--config") == 0 else NONE
        args = St("Args", {"path": S(*PATH), "config": cfg, **B})
        w.intrinsics["get_args"] = lambda: args
        called = []
        def fmt(f):
            f = w.force(f)
            fs = w.force(f.f["source_files"]).items
            key = cfgkey(w, f.f["config"])
            rs = []
            for x in fs:
                if isinstance(x, Many): raise Unsupported("files")
                rs.append(result_of(w, w.path(x), key))
            called.append(([w.path(x) for x in fs], key))
            return w.vec(rs)
        w.intrinsics["format"] = fmt
        w.intrinsics["Formatter::format"] = lambda f: fmt(f)
        w.conf = {}
        kind, v = outcome(w, lambda: w.call_fn(prog.fns["main"], []))
        if kind == "ret": code = 0
        elif kind == "panic": code = 101
        else: code = v
        if not isinstance(code, int): raise Unsupported("exit code")
        facts = w.facts
        out = tuple(p for t in w.out for p in t.parts)
        outS = S(*[t for t in w.out])
        errS = S(*[t for t in w.errout])
        # what configuration has to be used
        cfgpath = (("arg", "config"),)
        cfgok = True; want = ("80", "2")
        if cfg is not NONE:
            rd = [facts[k] for k in facts if k[0] == "readable" and k[1] == cfgpath]
            cfgok = bool(rd) and rd[0] and facts.get(("parses", (("file", cfgpath),)), False)
            want = tuple("toml_" + n if facts.get(("given", n)) else d for n, d in (("max_width", "80"), ("indent_size", "2")))
        fk = ("formats", PATH, want)
        fok = facts.get(fk)
        d = lambda: "exit %s, stdout %s, written %s, facts %s" % (code, outS, w.writes, {str(k): v for k, v in facts.items()})
        if cfgok and code == 0 or called: c.need("P14 the configuration in effect is the one given, 80 and 2 being the defaults", cfgok and called == [([PATH], want)], d)
        if not cfgok:
            c.need("P14 a configuration that cannot be read or parsed is an error without output", code != 0 and not w.writes and not has(out, FMT), d)
            return
        if fok is None:
            rd0 = any(k[0] == "readable" and k[1] == PATH and not v for k, v in facts.items())
            c.need("P11 P12 main formats the file, or fails because it cannot be read", code != 0 and rd0 and not w.writes and not has(out, "file"), d); return
        text = (FMT, PATH, want)
        eqk = [v for k, v in facts.items() if k[0] == "eq" and set((k[1], k[2])) == {(text,), (("file", PATH),)}]
        same = True if eqk == [True] else False if eqk == [False] else None
        rdfail = any(k[0] == "readable" and k[1] == PATH and not v for k, v in facts.items())
        wrfail = any(not g for _, _, g in w.writes) or any(k[0] in ("openable", "writable") and not v for k, v in facts.items())
        if not fok: c.need("P13 a file that cannot be formatted: exit status not 0, nothing written, no formatted text", code != 0 and not w.writes and not has(out, FMT) and not has(out, "file"), d)
        for chk, wr, tm in itertools.product((True, False), repeat=3):
            z = w.z(); z.push(); z.add(B["check"] == chk, B["write"] == wr, B["time"] == tm)
            sat = z.check() == z3.sat; z.pop()
            if not sat: continue
            if chk:
                c.need("P11 --check writes nothing", not w.writes, d)
                c.need("P11 --check exits 0 exactly if the content is the formatted text", (fok and same is True) if code == 0 else (not fok or same is False or rdfail), d)
            elif wr:
                c.need("P12 --write exits 0 exactly if the formatted text is stored", (fok and (w.writes == [(PATH, (text,), True)] or same is True and not w.writes)) if code == 0 else (not fok or wrfail), d)
                c.need("P12 --write stores the formatted text or nothing", all(x[:2] == (PATH, (text,)) for x in w.writes) and len(w.writes) <= 1 and (fok or not w.writes), d)
            else:
                c.need("P12 without --write no file is written", not w.writes, d)
                c.need("P12 P18 without --write the formatted text goes to the standard output", (fok and outS.parts[:2] == (text, "\n") if not tm else fok and outS.parts[:1] == (text,) and isinstance(outS.parts[1], str) and outS.parts[1].startswith("\n")) if code == 0 else not fok and not has(out, FMT), d)
                if code == 0 and not tm: c.need("P12 the standard output is the formatted text and nothing else", outS.parts == (text, "\n"), d)
    every(prog, c, go)
    return c

def args_contract(prog):
    """get_args: what the command line defines, and where it goes"""
    c = Check("get_args", ("P11", "P12", "P14"))
    def go(w, c):
        defs = {}
        def more(o, n, a):
            if o.n == "clap::Arg":
                q = o.x[0]
                v = w.force(a[0]) if a else True
                q[n] = v.const() if isinstance(v, S) else v.c if isinstance(v, Char) else getattr(v, "n", v)
                return o
            if o.n == "clap::Command":
                if n == "arg": defs[w.force(a[0]).x[0]["id"]] = w.force(a[0]).x[0]
                elif n == "get_matches": return opq("matches")
                elif n not in ("version", "about", "after_help", "arg_required_else_help", "author", "long_about", "before_help"): raise Unsupported("Command::" + n)
                return o
            if o.n == "matches":
                i = w.force(a[0]).const()
                if n == "get_one": return some(S(("cli", i))) if w.fact(("given", i)) else NONE
                if n == "get_flag": return z3.Bool("flag_" + i)
        w.more = more
        w.hooks["opaque"] = w.opaque
        mk = lambda i: opq("clap::Arg", {"id": w.force(i).const()})
        w.intrinsics.update({"ClapArg::new": mk, "Arg::new": mk, "clap::Arg::new": mk, "Command::new": lambda n: opq("clap::Command")})
        f = prog.fns["get_args"]
        kind, v = outcome(w, lambda: w.call_fn(f, []))
        G = w.facts
        if kind == "panic":
            c.need("get_args fails only without a file", G.get(("given", "file")) is False, str(G)); return
        v = w.force(v)
        fld = {k: w.force(x) for k, x in v.f.items()}
        want = {"path": S(("cli", "file"))}
        c.need("the file given is the file used", isinstance(fld["path"], S) and fld["path"].parts == (("cli", "file"),), str(fld["path"]))
        cf = fld["config"]
        c.need("the configuration file given is the one used", (cf.v == "Some" and w.force(cf.a[0]).parts == (("cli", "config"),)) if G.get(("given", "config")) else cf.v == "None", str(cf))
        for n in ("write", "check"): c.need("--%s sets %s" % (n, n), isinstance(fld[n], z3.BoolRef) and str(fld[n]) == "flag_" + n, str(fld[n]))
        D = defs
        flag = lambda n, sh: n in D and D[n].get("long") == n and D[n].get("short") == sh and (str(D[n].get("action")).find("SetTrue") >= 0)
        for n, sh in (("write", "w"), ("check", "C")): c.need("the option --%s / -%s is a switch" % (n, sh), flag(n, sh), str(D.get(n)))
        c.need("the option --config / -c takes a value", "config" in D and D["config"].get("long") == "config" and D["config"].get("short") == "c" and "action" not in D["config"] and not set(D["config"]) & {"default_value", "num_args", "env", "value_parser"}, str(D.get("config")))
        c.need("the file is the first argument and required", "file" in D and D["file"].get("index") == 1 and D["file"].get("required") is True, str(D.get("file")))
        ex = lambda a, b: a in D and D[a].get("conflicts_with") == b
        c.need("P11 P12 --check and --write exclude each other", ex("check", "write") or ex("write", "check"), str(D))
    every(prog, c, go)
    return c

def format_contract(prog):
    """Formatter::format: for every list of files the list of their results, in order"""
    c = Check("Formatter::new, Formatter::format", ("P13", "P14", "P16"))
    def go(w, c):
        FILE = S(("path", "i"))
        files = w.vec([Many("files", [FILE])])
        cfg = St("Config", {"max_width": w.u32("mw"), "indent_size": w.u32("is")})
        key = cfgkey(w, cfg)
        kind, F = outcome(w, lambda: w.call_fn(prog.methods["Formatter"]["new"], [cfg, files], None, "Formatter"))
        c.need("P16 Formatter::new returns", kind == "ret", str(F))
        if kind != "ret": return
        def one(src, conf):
            src = w.force(src)
            k = cfgkey(w, conf)
            w.log.append(("format_one", src.parts, k))
            if w.fact(("one", src.parts, k)): return S((FMT, src.parts, k))
            raise PathPanic("format_one")
        w.intrinsics["Formatter::format_one"] = one
        # the position of a file
        from vf import builtins as B
        idx = opq("index")
        def enum(v, n, a):
            return None
        fn = prog.methods["Formatter"]["format"]
        old = B.it
        def it(s, v, n, a, tf, hint):
            if n == "enumerate" and any(isinstance(x, Many) and x.m == "files" for x in v.items):
                items = v.items; v.items = []
                if len(items) != 1 or not (items[0].items and items[0].items[0] is FILE): raise Unsupported("positions of something else")
                return It([Many("files", [Tup(idx, FILE)])], s.depth)
            return old(s, v, n, a, tf, hint)
        B.it = it
        try:
            kind, v = outcome(w, lambda: w.call_fn(fn, [], F))
        finally: B.it = old
        G = w.facts
        d = lambda: "%s %s, facts %s" % (kind, v, {str(k): x for k, x in G.items()})
        c.need("P16 format returns", kind == "ret", d)
        if kind != "ret": return
        v = w.force(v)
        one_ = v.items[0] if len(v.items) == 1 else None
        good = isinstance(one_, Many) and one_.m == "files" and one_.parts is None and len(one_.items) == 1
        c.need("P16 one result per file, in the order of the files", good, d)
        if not good: return
        r = w.force(one_.items[0])
        c.need("a result is Ok or Err", isinstance(r, En) and r.t == "Result", d)
        src = (("file", FILE.parts),)
        rd = [x for k, x in G.items() if k[0] == "readable" and k[1] == FILE.parts]
        fo = G.get(("one", src, key))
        okk = bool(rd) and all(rd) and fo is True
        c.need("P13 P16 P18 the result is Ok exactly if the file can be read and formatted", (r.v == "Ok") == okk, d)
        if r.v == "Ok": c.need("P12 P14 P16 the text is what format_one returns for the content and the configuration", w.force(r.a[0]).parts == ((FMT, src, key),), d)
        c.need("P11 P12 no file is written and nothing printed", not w.writes and not w.out, d)
    every(prog, c, go)
    return c

def format_one_contract(prog):
    c = Check("Formatter::format_one", ("P05", "P13", "P14"))
    def go(w, c):
        SRC = (("src",),)
        cfg = St("Config", {"max_width": w.u32("mw"), "indent_size": w.u32("is")})
        L = w.log
        tree = opq("tree", SRC)
        def parse(x):
            L.append(("parse", w.force(x).parts))
            if not w.fact("parses"): raise PathPanic("syntax error")
            return tree
        cur, cmap, root, doc = opq("cursor"), opq("map"), opq("root"), opq("doc")
        def more(o, n, a):
            if o is tree and n == "walk": return cur
            if o is tree and n == "root_node": return opq("rootnode")
            if o is root and n == "build":
                b = w.force(a[0])
                L.append(("build", w.force(b.f["config"]).f["indent_size"]))
                if not w.fact("builds"): raise PathPanic("build")
                return doc
            if o is root and n == "build_inner": raise Unsupported("build_inner")
        w.more = more; w.hooks["opaque"] = w.opaque
        def new_root(n):
            L.append(("enrich", w.force(n).n))
            if not w.fact("enriches"): raise PathPanic("enrich")
            return root
        def pretty(d, mw):
            L.append(("print", w.force(d) is doc, mw)); return S(("printed",))
        def missing():
            L.append(("assert",))
            if w.fact("erased"): raise PathPanic("erased comments")
            return UNIT
        w.intrinsics.update({"Formatter::parse": parse, "set_thread_source_code": lambda x: L.append(("setsrc", w.force(x).parts)) or UNIT,
            "set_thread_comment_map": lambda x: L.append(("setmap", w.force(x) is cmap)) or UNIT, "CommentMap::new": lambda: cmap, "HashMap::new": lambda: cmap,
            "collect_comments": lambda a, b: L.append(("collect", w.force(a) is cur, w.force(b) is cmap)) or UNIT, "Root::new": new_root, "pretty_print": pretty, "assert_no_missing_comments": missing})
        fn = prog.methods["Formatter"]["format_one"]
        kind, v = outcome(w, lambda: w.call_fn(fn, [S(*SRC), cfg]))
        G = w.facts
        names = [x[0] for x in L]
        d = lambda: "%s %s, trace %s" % (kind, v, L)
        c.need("P11 P12 P13 no file is written, nothing printed, the process not ended", not w.writes and not w.out and kind != "exit", d)
        if kind == "panic":
            z = w.z(); z.push(); z.add(cfg.f["indent_size"] != 0); s0 = z.check() == z3.unsat; z.pop()
            c.need("P05 P13 P14 P18 format_one fails only if the source does not parse, a rule rejects it, a comment is left over or indent_size is 0", G.get("parses") is False or G.get("enriches") is False or G.get("builds") is False or G.get("erased") is True or s0, d)
            return
        if kind != "ret": return
        z = w.z(); z.push(); z.add(cfg.f["indent_size"] == 0); s0 = z.check() == z3.sat; z.pop()
        c.need("P14 an indent_size of 0 is rejected", not s0, d)
        c.need("P13 the text is the printed document", isinstance(w.force(v), S) and w.force(v).parts == (("printed",),), d)
        pos = lambda n: names.index(n) if names.count(n) == 1 else None
        order = [pos(n) for n in ("parse", "enrich", "build", "print")]
        c.need("P13 the source given is parsed, the tree enriched, built and printed, once each and in this order", None not in order and order == sorted(order) and ("parse", SRC) in L and ("enrich", "rootnode") in L, d)
        c.need("P05 comments are collected from the tree into the map the rules look at, before they look", None not in (pos("collect"), pos("setmap"), pos("enrich")) and ("collect", True, True) in L and ("setmap", True) in L and pos("collect") < pos("setmap") < pos("enrich"), d)
        c.need("P13 the rules look at the source given", pos("setsrc") is not None and ("setsrc", SRC) in L and pos("enrich") is not None and pos("setsrc") < pos("enrich"), d)
        c.need("P05 a text is returned only after the check that every comment is printed", pos("assert") is not None and pos("build") is not None and pos("assert") > pos("build") and G.get("erased") is False, d)
        pr = [x for x in L if x[0] == "print"]
        c.need("P14 max_width of the configuration is the width used", len(pr) == 1 and pr[0][1] and isinstance(pr[0][2], z3.ExprRef) and pr[0][2].eq(cfg.f["max_width"]), d)
        bu = [x for x in L if x[0] == "build"]
        c.need("P14 indent_size of the configuration is the one used", len(bu) == 1 and isinstance(bu[0][1], z3.ExprRef) and bu[0][1].eq(cfg.f["indent_size"]), d)
    every(prog, c, go)
    return c

def parse_contract(prog):
    c = Check("Formatter::parse", ("P13",))
    def go(w, c):
        SRC = (("src",),)
        L = w.log
        parser, tree, root = opq("parser"), opq("tree"), opq("node", "root")
        def more(o, n, a):
            if o is parser:
                if n == "set_language":
                    L.append("lang"); return ok(UNIT) if w.fact("language") else err(S(("langerr",)))
                if n == "parse":
                    L.append(("parse", w.force(a[0]).parts, w.force(a[1]).v))
                    return some(tree) if w.fact("tree") else NONE
            if o is tree and n == "root_node": return root
            if o.n == "node":
                if n == "has_error": return w.fact(("error", o.x))
                if n in ("is_missing", "is_error", "is_extra", "is_named"): return w.fact((n, o.x))
                if n in ("start_byte", "end_byte"): return w.nint("%s_%s" % (n, o.x[0]))
                if n == "kind": return S(("kind", o.x))
                if n == "parent": return some(opq("node", "parent", *o.x)) if w.fact(("parent", o.x)) else NONE
        w.more = more; w.hooks["opaque"] = w.opaque
        w.hooks["str_slice"] = lambda v, a, b: S(("snippet",))
        w.intrinsics.update({"Parser::new": lambda: parser, "apex::LANGUAGE": opq("language"), "truncate_snippet": lambda x: S(("snippet",)),
            "Formatter::find_last_error_node": lambda n: some(opq("node", "bad")) if w.fact("found") else NONE})
        fn = prog.methods["Formatter"]["parse"]
        kind, v = outcome(w, lambda: w.call_fn(fn, [S(*SRC)]))
        G = w.facts
        d = lambda: "%s %s, %s" % (kind, v, {str(k): x for k, x in G.items()})
        bad = G.get(("error", ("root",)))
        c.need("P13 parse writes nothing and does not end the process", not w.writes and kind != "exit", d)
        if kind == "ret":
            c.need("P13 parse returns only a tree in which no node has an error", w.force(v) is tree and bad is False, d)
            c.need("P13 the tree is that of the whole source", ("parse", SRC, "None") in L and len([x for x in L if x[0] == "parse"]) == 1, d)
        elif kind == "panic":
            c.need("P13 P18 parse fails only on an error of the parser", bad is True or G.get("tree") is False or G.get("language") is False, d)
    every(prog, c, go)
    return c

def tls_contract(prog):
    """set_thread_source_code / get_source_code and the comment map: one value per thread, never replaced"""
    c = Check("set_thread_source_code, get_source_code, set_thread_comment_map, get_comment_map, get_comment_bucket", ("P05", "P13", "P16"))
    def go(w, c):
        def cell(): return opq("tls", St("Cell", {"v": NONE}))
        w.env_extra = {"THREAD_SOURCE_CODE": cell(), "THREAD_COMMENT_MAP": cell()}
        ep = w.e_Path
        def e_Path(e, env, h):
            if len(e["path"]) == 1 and e["path"][0] in w.env_extra: return w.env_extra[e["path"][0]]
            return ep(e, env, h)
        w.e_Path = e_Path
        w.intrinsics.update({"Box::leak": lambda x: x})
        def more(o, n, a):
            if o.n == "map" and n == "get":
                k = w.force(a[0])
                return some(opq("bucket", o, k)) if w.fact(("bucket",)) else NONE
        w.more = more; w.hooks["opaque"] = w.opaque
        F = prog.fns
        r = outcome(w, lambda: w.call_fn(F["set_thread_source_code"], [S(("src",))]))
        c.need("P13 P18 the source code can be set", r[0] == "ret", str(r))
        r = outcome(w, lambda: w.call_fn(F["get_source_code"], []))
        c.need("P13 the source code is the one that was set", r[0] == "ret" and isinstance(w.force(r[1]), S) and w.force(r[1]).parts == (("src",),), str(r))
        m = opq("map")
        r = outcome(w, lambda: w.call_fn(F["set_thread_comment_map"], [m]))
        r = outcome(w, lambda: w.call_fn(F["get_comment_map"], []))
        c.need("P05 the comment map is the one that was set", r[0] == "ret" and w.force(r[1]) is m, str(r))
        k = opq("id")
        r = outcome(w, lambda: w.call_fn(F["get_comment_bucket"], [k]))
        if w.facts.get(("bucket",)): c.need("P05 P18 the bucket is that of the node", r[0] == "ret" and isinstance(w.force(r[1]), Opaque) and w.force(r[1]).n == "bucket" and w.force(r[1]).x == (m, k), str(r))
        else: c.need("P05 a node without a bucket is a failure", r[0] == "panic", str(r))
    every(prog, c, go)
    return c

def create_contract(prog):
    """Formatter::create_from_config: every file given, in order, with the configuration of the file given"""
    c = Check("Formatter::create_from_config", ("P14", "P16"))
    def go(w, c):
        FILE = S(("path", "i"))
        files = w.vec([Many("files", [FILE])])
        given = w.choose(2, "config") == 0
        cp = (("conf",),)
        kind, v = outcome(w, lambda: w.call_fn(prog.methods["Formatter"]["create_from_config"], [some(S(*cp)) if given else NONE, files], None, "Formatter"))
        d = lambda: "%s %s %s" % (kind, v, {str(k): x for k, x in w.facts.items()})
        c.need("P14 P16 create_from_config returns, writes nothing and prints nothing", kind == "ret" and not w.writes and not w.out, d)
        if kind != "ret": return
        v = w.force(v)
        rd = [x for k, x in w.facts.items() if k[0] == "readable" and k[1] == cp]
        good = not given or (bool(rd) and all(rd) and w.facts.get(("parses", (("file", cp),))) is True)
        c.need("P14 P18 it fails exactly if the configuration cannot be read or parsed", (v.v == "Ok") == good, d)
        if v.v != "Ok": return
        f = w.force(v.a[0]).f
        fs = w.force(f["source_files"]).items
        c.need("P16 the files are those given, in their order", len(fs) == 1 and isinstance(fs[0], Many) and fs[0].m == "files" and fs[0].parts is None and len(fs[0].items) == 1 and fs[0].items[0] is FILE, d)
        want = tuple("toml_" + n if given and w.facts.get(("given", n)) else x for n, x in (("max_width", "80"), ("indent_size", "2")))
        c.need("P14 the configuration is the one given, 80 and 2 being the defaults", cfgkey(w, f["config"]) == want, d)
    every(prog, c, go)
    return c

def config_contract(prog):
    c = Check("Config::default, Formatter::new, PrettyConfig::new, DocBuilder::new", ("P14",))
    def go(w, c):
        M = prog.methods
        r = outcome(w, lambda: w.call_fn(M["Config"]["default"], [], None, "Config"))
        f = w.force(r[1]).f if r[0] == "ret" else {}
        c.need("P14 the defaults are 80 and 2", f.get("max_width") == 80 and f.get("indent_size") == 2, str(f))
        n = w.u32("n")
        r = outcome(w, lambda: w.call_fn(M["PrettyConfig"]["new"], [n], None, "PrettyConfig"))
        z = w.z(); z.push(); z.add(n == 0); zero = z.check() == z3.sat; z.pop()
        if r[0] == "ret":
            c.need("P14 PrettyConfig::new rejects 0", not zero, str(r))
            c.need("P14 PrettyConfig::new keeps the value", w.force(w.force(r[1]).f["indent_size"]).eq(n), str(r))
        else:
            z.push(); z.add(n > 0); pos = z.check() == z3.sat; z.pop()
            c.need("P14 P18 PrettyConfig::new rejects only 0", not pos, str(r))
    every(prog, c, go)
    return c

def calls_in(x, out):
    if isinstance(x, dict):
        if x.get("k") == "Macro": out.add(x["n"] + "!")
        if x.get("k") == "MCall": out.add("." + x["m"])
        if x.get("k") == "Call" and x["f"].get("k") == "Path": out.add("::".join(x["f"]["path"][-2:]))
        for v in x.values(): calls_in(v, out)
    elif isinstance(x, list):
        for v in x: calls_in(v, out)
def frame_contract(prog):
    """find_last_error_node has no effect; nothing is shared between threads"""
    c = Check("find_last_error_node (frame)", ("P13",))
    s = set(); calls_in(prog.methods["Formatter"]["find_last_error_node"]["body"], s)
    extra = s - {".has_error", ".child_count", ".child", ".named_child", ".named_child_count", "Self::find_last_error_node", "Some", "Formatter::find_last_error_node", ".is_error", ".is_missing", ".children", ".walk", ".kind", ".rev", ".or"}
    c.paths = 1
    if extra: c.unsupported["calls " + ", ".join(sorted(extra))] += 1
    else: c.need("find_last_error_node reads the tree and does nothing else", True)
    return c
def shared_contract(prog, ast):
    c = Check("items of the crate (frame)", ("P16",))
    c.paths = 1
    bad = []
    for f, its in ast.items():
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "Static": bad.append("static %s in %s" % (x.get("n"), f))
                if x.get("k") == "ItemMacro" and x.get("n") != "thread_local": bad.append("macro %s in %s" % (x.get("n"), f))
                if x.get("k") == "Macro" and x.get("n") in ("lazy_static", "static"): bad.append("macro in %s" % f)
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(its)
    if bad: c.unsupported["; ".join(bad)] += 1
    else: c.need("P16 threads share nothing: no static items outside thread_local!", True)
    return c

def main():
    ast = json.load(open(sys.argv[1]))
    prog = Program(ast)
    t0 = time.time()
    out = []
    for f in (main_contract, args_contract, format_contract, format_one_contract, parse_contract, create_contract, tls_contract, config_contract, frame_contract, lambda p: shared_contract(p, ast)):
        name = getattr(f, "__name__", "shared")
        try: c = f(prog)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c = Check(name, ("P05", "P11", "P12", "P13", "P14", "P16", "P18")); c.unsupported["%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)] += 1
        out.append({"contract": name, "fn": c.fn, "props": c.props, "paths": c.paths, "unsupported": dict(c.unsupported), "used": sorted(c.used),
                    "obs": [{"name": n, "n": k, "fail": b} for n, (k, b) in c.obs.items()]})
    json.dump({"time": round(time.time() - t0, 2), "queries": STATS["queries"], "zt": round(STATS["time"], 3), "contracts": out}, open(sys.argv[2], "w"), indent=1)
if __name__ == "__main__": main()
