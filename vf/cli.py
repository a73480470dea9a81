import re
"""Bounded checks of the afmt binary (P11..P14, P16): run in scratch directories, compared
with what the library returns for the same text and configuration."""
import os, random, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
from . import build
from .bounded import Res, run_items, cover, okonly, lst, random_programs, layout

SCRATCH = None
def sh(args, cwd, uid=None):
    kw = dict(user=uid, group=uid, extra_groups=[]) if uid else {}
    return subprocess.run([build.afmt(), *args], cwd=cwd, capture_output=True, timeout=120, **kw)

def programs(seed, n):
    rnd = random.Random(seed)
    items = [x for x in lst(random_programs(seed, n * 4, 6, .02))][:n * 3]
    items += rnd.sample(lst(cover(seed)), min(n, 300))
    return items

BROKEN = ["class A { void m( { } }", "class A { int x }", "class A {", "class A { void m() { x( ; } }", "}", "class A { void m() { if (a { b(); } } }",
          "class A { void m() { x = [SELECT FROM A]; } }", "class A {} class", "trigger T on A (before) { }", "class A { void m() { return 1 + ; } }",
          "class A { String s = 'abc; }", "class A { /* open }", "@", "class A { void m() { for (;;) } }", "\x00", "class A { Integer x = 1 2; }"]

def mutate(src, rnd):
    """drop, duplicate or insert a token"""
    t = [i for i, c in enumerate(src) if not c.isspace()]
    k = rnd.randrange(3); i = rnd.choice(t)
    if k == 0: return src[:i] + src[i + 1:]
    if k == 1: return src[:i] + src[i] + src[i:]
    return src[:i] + rnd.choice([";", "(", ")", "{", "}", "=", "'", "]", "@", "#", ","]) + src[i:]

CONFIGS = [("max_width = 40\nindent_size = 4\n", 40, 4), ("max_width = 120\n", 120, 2), ("indent_size = 3\n", 80, 3), ("", 80, 2),
           ("indent_size = 1\nmax_width = 1\n", 1, 1), ("max_width = 0\n", 0, 2), ("max_width = 4294967295\nindent_size = 8\n", 4294967295, 8),
           ("# c\nindent_size=5 # x\n", 80, 5), ("max_width = 20\nindent_size = 13\n", 20, 13), ("max_width = 79\n", 79, 2), ("max_width = 81\n", 81, 2)]
BADCONFIGS = ["max_width = 'a'\n", "max_width = -1\n", "indent_size = -2\n", "max_width = 80.5\n", "max_width =\n", "[[", "indent_size = 0\n", "max_width = 4294967296\n", "max_width = 40\nindent_size = 0\n", "indent_size = true\n"]

class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="afmt-verif-")
        os.chmod(self.d, 0o755)
        return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def put(self, name, data):
        p = os.path.join(self.d, name)
        with open(p, "wb") as f: f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        return p
    def get(self, p):
        with open(p, "rb") as f: return f.read()
    def listing(self): return sorted((n, self.get(os.path.join(self.d, n)) if os.path.isfile(os.path.join(self.d, n)) else None) for n in os.listdir(self.d))

def expected(srcs, w=80, ind=2):
    """what the library does with each source: text, or None if it fails"""
    rows = run_items([{"id": str(i), "src": s, "w": w, "ind": ind} for i, s in enumerate(srcs)])
    return [(r["out"] if r["st"] in ("ok", "accepted", "skip") and "out" in r else None, r["st"]) for r in rows]

def run(prop, tier, seed):
    build.afmt()
    res = Res()
    rnd = random.Random(seed)
    q = tier == "quick"
    n = 60 if q else 600
    progs = [p["src"] for p in programs(seed, n)]
    rnd.shuffle(progs)
    progs = progs[:n * 2] + ["", "\n", "// only a comment\n", "class A {\r\n  Integer x;\r\n}\r\n", "class A {\n}", "class A {\n}\n", "class A {\n}\n\n", "class A {}\n", "\ufeffclass A {\n}\n"]
    # `X<>` is no Apex: the replay tool skips it and tells nothing about the outcome
    progs = [p for p in progs if not re.search(r"<\s*>", p)]
    exp = expected(progs)
    # texts that are fixed points of the formatter
    outs = [o for o, s in exp if o]
    exp2 = expected(outs)
    fixed = [o for o, (o2, s) in zip(outs, exp2) if o == o2]
    nearly = []
    for o in fixed[:40]:
        nearly += [o.rstrip("\n"), o + "\n", o.replace("\n", "\r\n", 1), " " + o, o.replace("  ", "   ", 1), o.replace(" ", "\t", 1)]
    nearly = [x for x in nearly if x not in fixed]
    invalid = list(BROKEN)
    for s in rnd.sample(progs[:n], min(n, len(progs))): 
        if s.strip(): invalid.append(mutate(s, rnd))
    iexp = expected(invalid)
    def note(item, detail): res.add_viol(item, detail)
    def case(item):
        res.evaluations += 1; res.distinct.add(json.dumps(item, sort_keys=True, default=str))
        if len(res.samples) < 3 and res.evaluations % 37 == 1: res.samples.append(item)

    pool = ThreadPoolExecutor(8); futs = []
    def one(*a, **k): futs.append(pool.submit(one_, *a, **k))
    def one_(src, want, opts, cfg=None, cfgname="c.toml", silent=False):
        """run the binary once on a file with content src; want = formatted text or None (must fail)"""
        with Dir() as d:
            p = d.put("f.cls", src)
            args = list(opts)
            if cfg is not None: d.put(cfgname, cfg); args += ["--config", cfgname]
            args += ["f.cls"]
            before = d.listing()
            r = sh(args, d.d)
            after = d.listing()
            data = src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape")
            item = {"id": "cli", "src": src if isinstance(src, str) else repr(src), "args": args, "cfg": cfg}
            case(item)
            info = {"exit": r.returncode, "stdout": r.stdout[-300:].decode("utf-8", "replace"), "stderr": r.stderr[-300:].decode("utf-8", "replace")}
            changed = [a for a, b in zip(after, before) if a != b] or ([1] if len(after) != len(before) else [])
            if "--check" in opts or "-C" in opts:
                ok = want is not None and want.encode() == data
                if (r.returncode == 0) != ok: note(item, dict(info, k="check-exit", want_zero=ok))
                if changed: note(item, dict(info, k="check-wrote"))
            elif "--write" in opts or "-w" in opts:
                if want is None:
                    if r.returncode == 0: note(item, dict(info, k="write-exit-zero-on-failure"))
                    if changed: note(item, dict(info, k="write-touched-on-failure"))
                else:
                    if r.returncode != 0: note(item, dict(info, k="write-exit"))
                    exp_after = [(nm, want.encode() if nm == "f.cls" else c) for nm, c in before]
                    if after != exp_after: note(item, dict(info, k="write-content", file=d.get(p)[-300:].decode("utf-8", "replace"), want=want[-300:]))
            else:
                if changed: note(item, dict(info, k="wrote-without-write"))
                if want is None:
                    if r.returncode == 0: note(item, dict(info, k="exit-zero-on-failure"))
                else:
                    if r.returncode != 0: note(item, dict(info, k="exit"))
                    got = r.stdout.decode("utf-8", "replace")
                    if "-t" not in opts and "--time" not in opts:
                        if got != want + "\n": note(item, dict(info, k="stdout", want=want[-300:]))
                    elif not got.startswith(want + "\n"): note(item, dict(info, k="stdout", want=want[-300:]))
            if silent and (r.returncode == 0 or (opts in ([], ["-t"]) and (b"class" in r.stdout.split(b"Error in node")[0]))):
                note({"id": "cli", "src": src, "args": opts}, {"k": "printed-on-failure", "stdout": r.stdout.decode("utf-8", "replace")[-300:]})

    def failing_files(opts):
        for setup in ("missing", "directory", "latin1"):
            with Dir() as d:
                if setup == "directory": os.mkdir(os.path.join(d.d, "f.cls"))
                if setup == "latin1": d.put("f.cls", b"class A { String s = '\xe9\xff'; }\n")
                before = d.listing(); r = sh([*opts, "f.cls"], d.d)
                item = {"id": "cli-" + setup, "src": setup, "args": list(opts)}; case(item)
                if r.returncode == 0: note(item, {"k": "exit-zero-on-failure", "stdout": r.stdout.decode("utf-8", "replace")[-200:]})
                if d.listing() != before: note(item, {"k": "touched-on-failure"})

    if prop == "P11":
        allof = fixed + nearly + progs
        want_of = {s: w for s, (w, st) in zip(allof, expected(allof))}
        for opts in (["--check"], ["-C"], ["--check", "-t"]):
            k = 0
            for s in fixed + nearly + progs:
                k += 1
                if opts != ["--check"] and k % 10: continue
                one(s, want_of[s], opts)
            for s, (w, st) in zip(invalid, iexp): one(s, w, opts)
            failing_files(opts)
        # --check never writes, whatever else is asked for
        for opts in (["--check", "--write"], ["-w", "-C"], ["-w", "--check", "-t"]):
            for src in nearly[:6] + progs[:12]:
                with Dir() as d:
                    d.put("f.cls", src); before = d.listing()
                    r = sh(opts + ["f.cls"], d.d)
                    item = {"id": "cli-both", "src": src, "args": opts}; case(item)
                    if d.listing() != before: note(item, {"k": "check-wrote", "exit": r.returncode})
                    if r.returncode == 0 and want_of[src] != src: note(item, {"k": "check-exit", "want_zero": False})
        # the configuration takes part in the verdict
        for cfg, w, ind in CONFIGS[:8]:
            sub = progs[:8]; e = expected(sub, w, ind)
            for s, (o, st) in zip(sub, e):
                one(s, o, ["--check"], cfg)
                if o:
                    o2 = expected([o], w, ind)[0][0]; one(o, o2, ["--check"], cfg)
        for cfg in BADCONFIGS: one(fixed[0], None, ["--check"], cfg)
    if prop == "P12":
        for opts in (["--write"], ["-w"], ["-w", "-t"], [], ["-t"]):
            for k, (s, (w, st)) in enumerate(zip(progs, exp)):
                if opts not in (["--write"], []) and k % 10: continue
                one(s, w, opts)
            for s in fixed[:20]: one(s, s, opts)
            for k, (s, (w, st)) in enumerate(zip(invalid, iexp)):
                if opts not in (["--write"], []) and k % 10: continue
                one(s, w, opts)
            failing_files(opts)
        for cfg, w, ind in CONFIGS[:8]:
            sub = progs[:6]; e = expected(sub, w, ind)
            for s, (o, st) in zip(sub, e): one(s, o, ["-w"], cfg)
        for cfg in BADCONFIGS:
            one(fixed[0], None, ["-w"], cfg)
            one("class  A{}", None, ["-w"], cfg)
        # a target that cannot be written
        with Dir() as d:
            p = d.put("f.cls", "class  A{ }"); os.chmod(p, 0o444); before = d.listing()
            try:
                r = sh(["-w", "f.cls"], d.d, uid=65534)
                item = {"id": "cli-readonly", "src": "class  A{ }", "args": ["-w"]}; case(item)
                if r.returncode == 0: note(item, {"k": "exit-zero-on-failure"})
                if d.listing() != before: note(item, {"k": "touched-on-failure"})
            except (PermissionError, OSError, subprocess.SubprocessError): pass
    if prop == "P13":
        bad = [(s, w, st) for s, (w, st) in zip(invalid, iexp)]
        # a mutant per covering program, judged by the library in bulk
        muts = [{"id": "mut%d" % i, "src": mutate(x["src"], rnd)} for i, x in enumerate(lst(cover(seed)) * (1 if q else 8)) if x["src"].strip()]
        rows = run_items(muts)
        for it, r in zip(muts, rows):
            res.evaluations += 1; res.distinct.add(it["src"]); res.status[r["st"]] = res.status.get(r["st"], 0) + 1
            if r["st"] == "accepted": note(it, {"k": "accepted-with-syntax-error", "out": r["out"][:300]})
        for opts in ([], ["-w"], ["--check"], ["-t"]):
            for k, (s, w, st) in enumerate(bad):
                if st == "accepted": note({"id": "accepted", "src": s}, {"k": "accepted-with-syntax-error"})
                want_fail = st in ("noparse", "accepted", "panic")
                if not want_fail: continue
                one(s, None, opts, silent=True)
    if prop == "P14":
        for cfg, w, ind in CONFIGS + ([("max_width = %d\nindent_size = %d\n" % (a, b), a, b) for a in range(5, 130, 3) for b in (1, 2, 3, 4, 6)] if not q else
                                      [("max_width = %d\nindent_size = %d\n" % (rnd.randrange(5, 140), rnd.randrange(1, 9)), None, None) for _ in range(40)]):
            if w is None:
                w = int(cfg.split("max_width = ")[1].split("\n")[0]); ind = int(cfg.split("indent_size = ")[1].split("\n")[0])
            sub = rnd.sample(progs, 4) + [LONG]; e = expected(sub, w, ind)
            for s, (o, st) in zip(sub, e): one(s, o, rnd.choice([[], [], ["-w"], ["--check"]]), cfg)
        # widths and indents beyond small integer types; one call of 3 k characters, blocks four levels deep
        flat = "foo(%s);" % ", ".join("a%d" % i for i in range(500))
        wide = "class A { void m() { %s if (a) { if (b) { c(); } } } }\n" % flat
        for w in (255, 256, 257, 1000, 3500, 32768, 65535, 65536, 65540, 100000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
            for ind in (1, 2, 127, 128, 255, 256, 300):
                with Dir() as d:
                    d.put("f.cls", wide); d.put("c.toml", "max_width = %d\nindent_size = %d\n" % (w, ind))
                    r = sh(["-c", "c.toml", "f.cls"], d.d)
                    item = {"id": "cli-wide", "src": wide[:60] + "...", "args": [], "cfg": "max_width = %d, indent_size = %d" % (w, ind)}; case(item)
                    out = r.stdout.decode()
                    lines = out.split("\n")
                    if r.returncode: note(item, {"k": "exit", "stderr": r.stderr[-200:].decode("utf-8", "replace")})
                    elif ((" " * (2 * ind) + flat) in lines) != (len(flat) + 2 * ind <= w): note(item, {"k": "max_width not used", "lines": len(lines)})
                    elif (" " * (4 * ind) + "c();") not in lines: note(item, {"k": "indent_size not used", "line": [len(l) - len(l.lstrip(" ")) for l in lines if "c();" in l]})
        for cfg in BADCONFIGS:
            for o in ([], ["-w"], ["--check"]): one(LONG, None, o, cfg)
        for miss in ("nosuch.toml", "."):
            with Dir() as d:
                d.put("f.cls", LONG); before = d.listing()
                r = sh(["--config", miss, "f.cls"], d.d); item = {"id": "cli-config-" + miss, "src": LONG, "args": ["--config", miss]}; case(item)
                if r.returncode == 0: note(item, {"k": "exit-zero-on-bad-config"})
                if b"class" in r.stdout: note(item, {"k": "output-on-bad-config"})
        e = expected([LONG])[0][0]; one(LONG, e, [])
        # a .afmt.toml in the working directory is not the one asked for
        with Dir() as d:
            d.put("f.cls", LONG); d.put("a.toml", "indent_size = 7\n")
            r = sh(["-c", "a.toml", "f.cls"], d.d); w = expected([LONG], 80, 7)[0][0]
            if r.stdout.decode() != w + "\n": note({"id": "cli-c", "src": LONG, "args": ["-c"]}, {"k": "stdout"})
    if prop == "P16":
        rounds = 12 if q else 120
        with Dir() as d:
            big = "class A { void m() { %s } }" % " ".join("foo(aaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbbbbbbb, %d + 2);" % i for i in range(400))
            names = []
            files = [d.put("p%d.cls" % i, s) for i, s in enumerate(progs[:60])]
            bigs = [d.put("b%d.cls" % i, big.replace("A", "A%d" % i)) for i in range(4)]
            files += [os.path.join(d.d, "missing.cls"), d.put("bad.cls", "class {")]
            items = []
            for r in range(rounds):
                fs = [rnd.choice(bigs)] + [rnd.choice(files) for _ in range(rnd.randrange(1, 12))]
                if r % 3 == 0: k = rnd.randrange(len(fs)); fs[k:k] = [fs[k]] * rnd.randrange(1, 3)
                if r % 3 == 1: fs.append(fs[0])
                if r % 2: rnd.shuffle(fs)
                items.append({"id": "multi%d" % r, "mode": "multi", "files": fs, "src": ""})
            from .cover import dictionary
            for n in [17, 40, 100, 300] + [m for x in dictionary()[1] if x < 1000 for m in (x, x + 1, 2 * x + 3)] + ([] if q else [2000]):
                fs = [rnd.choice(files) for _ in range(n)]
                fs[n // 3] = bigs[0]
                items.append({"id": "many%d" % n, "mode": "multi", "files": fs, "src": ""})
            for it in items:
                row = run_items([it])[0]; case({"id": it["id"], "files": len(it["files"])})
                for b in row["bad"]: note(dict(it, texts=[open(f, errors="replace").read()[:2000] if os.path.exists(f) else None for f in it["files"]]), b)
    for f in futs: f.result()
    pool.shutdown()
    res.viol.sort(key=lambda v: len(v["item"].get("src", "")))
    return res

LONG = "class A { void m() { if (a) { foo(aaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbb, cccccccccccccccccc, ddddddddddddddddd); } Integer x = aaaaaaaaaaaaaaa + bbbbbbbbbbbbbbb + ccccccccccccccc; } }\n"
