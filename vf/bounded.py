"""Bounded stand-ins and replay: run the real formatter (rebuilt from /repo) on generated
programs and evaluate the executable form of the contracts.  What this module explores is
labelled bounded everywhere; it never counts as proved."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, itertools
from . import build, families
from .gen import Gen, layout
from .cover import cover, slots, words, long, towers, dictionary

COMMENTS = ['/* c%d */', '// c%d\n', '\n/* c%d */\n', '\n// c%d\n', '/** c%d\n * d */']

# ---------------------------------------------------------------- rule -> property
DECL = {"class_declaration", "interface_declaration", "enum_declaration", "trigger_declaration", "method_declaration",
 "constructor_declaration", "field_declaration", "modifiers", "modifier", "annotation", "annotation_argument_list", "annotation_key_value", "_annotation",
 "formal_parameters", "formal_parameter", "_formal_parameter_declaration", "class_body", "interface_body", "enum_body", "enum_constant", "_enum_constant",
 "superclass", "interfaces", "extends_interfaces", "type_list", "type_parameters", "type_parameter", "type_bound", "accessor_list",
 "accessor_declaration", "static_initializer", "constructor_body", "explicit_constructor_invocation", "trigger_event", "trigger_body", "class_header",
 "_class_body_declaration", "_method_header", "_method_declarator", "_constructor_declarator", "declaration", "parser_output", "constant_declaration",
 "variable_declarator", "_variable_declarator_id", "_variable_declarator_list", "variable_declarator_id", "element_value_array_initializer", "element_value_pair",
 "_element_value", "dimensions", "dimensions_expr", "generic_type", "array_type", "type_arguments", "scoped_type_identifier", "java_type", "annotated_type", "receiver_parameter"}
STMT = {"block", "statement", "if_statement", "for_statement", "enhanced_for_statement", "while_statement", "do_statement", "switch_expression",
 "switch_block", "switch_rule", "switch_label", "when_sobject_type", "try_statement", "catch_clause", "finally_clause", "catch_formal_parameter", "catch_type",
 "return_statement", "throw_statement", "break_statement", "continue_statement", "run_as_statement", "local_variable_declaration",
 "expression_statement", "parenthesized_expression", "labeled_statement", "yield_statement", "dml_expression", "dml_type"}
EXPR_HINT = {"expression", "primary_expression", "binary_expression", "assignment_expression", "unary_expression", "update_expression", "cast_expression",
 "instanceof_expression", "ternary_expression", "method_invocation", "argument_list", "field_access", "array_access", "object_creation_expression",
 "array_creation_expression", "array_initializer", "map_creation_expression", "map_initializer", "map_key_initializer", "class_literal", "this", "super",
 "_literal", "string_literal", "int", "decimal_floating_point_literal", "boolean", "null_literal", "java_field_access", "version_expression", "query_expression", "_unqualified_object_creation_expression",
 "unannotated_type", "dml_expression", "dml_security_mode", "dml_type", "identifier"}
def group(rule):
    if rule in DECL: return "P01"
    if rule in STMT: return "P02"
    if rule in EXPR_HINT: return "P03"
    return "P04"

class Res:
    def __init__(self):
        self.evaluations = 0; self.distinct = set(); self.samples = []; self.viol = []; self.rules = []; self.status = {}
    def add_viol(self, item, detail, key=None):
        self.viol.append({"item": item, "detail": detail, "key": key or item.get("id")})

def run_items(items, flags=()):
    exe = build.replay()
    if not items: return []
    def go(items):
        data = "".join(json.dumps(x) + "\n" for x in items)
        r = subprocess.run([exe, *flags], input=data, capture_output=True, text=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
        rows = []
        for l in r.stdout.split("\n"):
            if l.startswith('{"'):
                try: rows.append(json.loads(l))
                except ValueError: pass
        if len(rows) == len(items): return rows
        if r.returncode >= 0: raise RuntimeError("replay produced %d rows for %d items (exit %s): %s" % (len(rows), len(items), r.returncode, r.stderr[-500:]))
        return None
    crashed = [0]
    def split(items):
        """the formatter ended the whole process on one of them (stack overflow): which?"""
        if crashed[0] > 3: return [{"st": "notrun", "id": x.get("id")} for x in items]
        rows = go(items)
        if rows is not None: return rows
        if len(items) == 1: crashed[0] += 1; return [{"st": "crash", "id": items[0].get("id"), "msg": "the process was killed", "excuse": None}]
        h = len(items) // 2
        return split(items[:h]) + split(items[h:])
    return split(items)

# ---------------------------------------------------------------- generators
def gaps(programs, rnd, per=None, double=False):
    n = 0
    for it in programs:
        src = it["src"]
        g = [i for i, c in enumerate(src) if c in " \n"]
        if per and len(g) > per: g = rnd.sample(g, per)
        for p in g:
            n += 1
            c = COMMENTS[(n + rnd.randrange(2)) % 5]
            c = c % 1
            if double == "same": c = c + rnd.choice([" ", "", "\n"]) + c
            elif double: c = c + " " + COMMENTS[rnd.randrange(5)] % 2
            yield {"id": "%s@%d" % (it["id"], p), "src": src[:p] + " " + c + " " + src[p:], "base": it["id"]}

SHORT = ["/**/", "/* a */", "//", "//b", "// some more words", "/** d */", "/*\n*/", "/*x*/"]
def empties(programs, rnd, n):
    """two or three comments between a bracket and the one that closes it, every short form, every layout"""
    at = []
    for it in programs:
        src = it["src"]
        for i, c in enumerate(src):
            if c in "([{":
                j = i + 1
                while j < len(src) and src[j] in " \n": j += 1
                if j < len(src) and src[j] in ")]}": at.append((it, i + 1))
    if not at: return
    for k in range(n):
        it, p = at[k] if k < len(at) else rnd.choice(at)
        t = rnd.choice(["", " ", "\n", "\n\n"])
        for j in range(rnd.choice([1, 2, 2, 2, 3])):
            c = rnd.choice(SHORT)
            t += c + (rnd.choice(["\n", "\n", "\n\n"]) if c.startswith("//") else rnd.choice(["", " ", " ", "\n", "\n\n"]))
        yield {"id": "%s@%d#%d" % (it["id"], p, k), "src": it["src"][:p] + t + it["src"][p:], "base": it["id"]}

def several(programs, rnd, reps):
    """two or three comments in different gaps of one program"""
    for it in programs:
        g = [i for i, c in enumerate(it["src"]) if c in " \n"]
        for rep in range(reps):
            src = it["src"]
            ps = sorted(rnd.sample(g, min(len(g), rnd.choice([2, 3]))))
            for n, p in reversed(list(enumerate(ps))):
                src = src[:p] + " " + COMMENTS[rnd.randrange(5)] % n + " " + src[p:]
            yield {"id": "%s%%%d" % (it["id"], rep), "src": src, "base": it["id"]}

def random_programs(seed, n, depth, cm, mode=None):
    g = Gen(seed)
    for i in range(n):
        g.kwcase = g.rnd.choice([0, 0, 1, 2])
        t = g.program(depth)
        if len(t) > 400: continue
        yield {"id": "rand%d-%d-%d-%s" % (seed, i, depth, cm), "src": layout(t, g.rnd, mode or g.rnd.choice(["canon", "rand"]), cm)}

def conditions(seed, n):
    """P07: random condition trees, redundant parentheses, NOT"""
    rnd = random.Random(seed)
    def cmp(d): return rnd.choice(["A%d = %d" % (rnd.randrange(9), rnd.randrange(9)), "B%d LIKE 'x%%'" % rnd.randrange(9), "C%d IN (1, 2)" % rnd.randrange(9),
                                 "D%d NOT IN :foo" % rnd.randrange(9), "E%d >= :x.y" % rnd.randrange(9)])
    def cond(d, ctx):
        k = rnd.random()
        if d == 0 or k < .25: s = cmp(d); top = "cmp"
        elif k < .5: s = " AND ".join(cond(d - 1, "and") for _ in range(rnd.choice(wide))); top = "and"
        elif k < .75: s = " OR ".join(cond(d - 1, "or") for _ in range(rnd.choice(wide))); top = "or"
        else: s = "NOT " + cond(d - 1, "not"); top = "not"
        need = (ctx != "top" and top in ("and", "or")) or (ctx == "not" and top == "not")
        if need or rnd.random() < .2: s = "(" + s + ")"
        return s
    for i in range(n):
        kw = rnd.choice(["WHERE %s", "WHERE %s LIMIT 1", "GROUP BY X HAVING %s", "WHERE %s ORDER BY X"])
        wide, d = ([2, 2, 3], rnd.randrange(1, 5)) if i % 10 else rnd.choice([([2, 12], 2), ([5, 2, 2], 3), ([40], 1), ([2], 7)])
        q = "SELECT Id FROM A " + kw % cond(d, "top")
        yield {"id": "cond%d-%d" % (seed, i), "src": "class A { void m() { x = [%s]; } }\n" % q, "w": rnd.choice([20, 40, 80, 200])}

_PIECES = ["a", "b c", "*", "**", " * x", "*x", "/", "//", "/ *", "@param a", "  indented", "'", '"', "{", "}", "x;", "é", "->", "***", "* *", "\t", "  ", "", "", "<p>", "a*b", "0", "**bold**", "*/*"[:2]+"x" if False else "* /"]
def comment_texts(seed, n):
    rnd = random.Random(seed)
    words, nums = dictionary()
    PIECES = _PIECES + rnd.sample(words, min(8, len(words))) + [x * k for k in nums if k < 500 for x in ("x", " ", "*")] + ["x" * 90, "数量 é", "a\u00a0b", " " * 30 + "y"]
    for i in range(n):
        kind = rnd.choice(["line", "block", "block", "doc", "doc", "doc"])
        if kind == "line":
            t = "//" + "".join(rnd.choice(PIECES) for _ in range(rnd.randrange(4))).replace("\n", " ")
            t = t + "\n"
        else:
            nl = rnd.choice([0, 0, 1, 1, 2, 3, 5])
            body = "\n".join(rnd.choice(["", "  ", "   * ", " *", "*", "\t"]) + rnd.choice(PIECES) + rnd.choice(["", " ", rnd.choice(PIECES)]) + rnd.choice(["", "", "  "]) for _ in range(nl + 1))
            t = ("/*" if kind == "block" else "/**") + rnd.choice(["", " ", "\n"]) + body + rnd.choice(["", " ", "\n", "\n "]) + "*/"
            inner = t[2:-2]
            if "*/" in inner or inner.endswith("*") and False: continue
            if kind == "block" and t.startswith("/**"): pass
        where = rnd.choice(["class A {\n  %s\n  void m() { x(); }\n}\n", "%s\nclass A { }\n", "class A { void m() {\n    %s\n    x(); } }\n",
                            "class A { void m() { x(); %s\n } }\n", "class A { void m() { foo(a, %s b); } }\n", "class A { %s\n }\n",
                            "class A {\n  Integer x; %s\n  Integer y;\n}\n", "enum E { A, %s\n B }\n"])
        yield {"id": "text%d-%d" % (seed, i), "src": where % t}

def deep(seed, n):
    """deeply nested bodies: columns far beyond any usual line"""
    rnd = random.Random(seed)
    WRAP = ["if (a) { %s }", "while (b) { %s }", "for (A a : b) { %s }", "try { %s } catch (E e) { x(); }", "{ %s }", "do { %s } while (c);", "for (;;) { %s }",
            "if (a) { x(); } else { %s }", "switch on a { when 1 { %s } }", "System.runAs(u) { %s }", "if (a) %s"]
    for i in range(n):
        s = "foo(); bar();"
        for j in range(rnd.choice([3, 12, 25, 40, 60])):
            w = rnd.choice(WRAP)
            if w == "if (a) %s": s = "if (a) { %s }" % s if ";" in s[:-1] else w % s
            else: s = w % s
        s = "void m() { %s }" % s
        for j in range(rnd.choice([0, 1, 2, 5])): s = "class C%d { %s }" % (j, s)
        yield {"id": "deep%d-%d" % (seed, i), "src": "class A { %s }\n" % s, "ind": rnd.choice([1, 2, 3, 4, 8, 9]), "w": rnd.choice([1, 20, 80, 120, 1000])}

def blank_members(seed, n):
    rnd = random.Random(seed)
    MEM = ["Integer x;", "void m() { x(); }", "String s = 'a';", "A() { super();%sx();%sy(); }", "static { a(); }", "class B { Integer i;%sInteger j; }", "Integer p { get; set; }",
           "{ a(); }", "enum E { A, B }", "interface I { void f();%svoid g(); }", "@Test void t() { }", "void n() { a();%sif (b) { c();%sd(); }%sreturn; }", "void k() { for (A a : b) { c(); } }"]
    TOP = ["class A { %s }", "trigger T on Acc (before insert) { a();%sb();%sif (x) { c();%sd(); } }", "interface I { void f();%svoid g(); }", "enum E { A, B }"]
    def gap():
        g = lambda: rnd.choice([" ", "\n", "\n", "\n\n", "\n\n", "\n \n", "\n\n\n", "\n\n\n\n", " \n\t\n "])
        return g() if rnd.random() < .85 else rnd.choice(["", g()]) + ";" + g() if rnd.random() < .8 else g() + ";" + rnd.choice(["", g()]) + ";" + g()
    def fill(s):
        while "%s" in s: s = s.replace("%s", gap(), 1)
        return s
    for i in range(n):
        body = gap().join(fill(rnd.choice(MEM)) for _ in range(rnd.randrange(1, 6) if i % 40 else rnd.choice([10, 20, 40, 80, 120])))
        src = rnd.choice([gap(), ""]) + "class A {" + gap() + body + gap() + "}"
        if rnd.random() < .4:
            t = rnd.choice(TOP)
            if t.startswith("class"): t = t.replace("%s", body)
            src += gap() + fill(t)
        yield {"id": "blank%d-%d" % (seed, i), "src": src + rnd.choice(["", "\n", "\n\n"]), "ind": rnd.choice([1, 2, 3, 4, 8]), "w": rnd.choice([10, 40, 80, 120])}

# ---------------------------------------------------------------- program checks
KINDS = {"P05": {"comment-text", "comment-order"}, "P06": {"comment-text"}, "P07": {"structure", "token", "reparse"},
         "P09": {"indent", "own-line"}, "P10": {"blank-line"}}

def relevant(prop, item, row):
    """which of the row's verdicts are violations of prop"""
    out = []
    for b in row.get("bad", []):
        k = b["k"]
        if prop in ("P01", "P02", "P03", "P04"):
            if k not in ("token", "structure", "reparse"): continue
            rule = item["id"].split("|")[0]
            if "|" in item["id"] and group(rule) == prop: out.append(b); continue
            near = [x for x in b.get("kinds", []) if not x.isupper()][:4]
            if any(group(x) == prop for x in near) or not near: out.append(b)
        elif prop in KINDS and k in KINDS[prop]: out.append(b)
    return out

def lst(x): return list(x)

def unusual(seed, tier, mode=None):
    """[(description, items)]: unusual texts, many repetitions, many levels"""
    q = tier == "quick"
    extra, nums = dictionary()
    few = sorted({m for n in nums if n <= 500 for m in (n - 1, n, n + 1) if m > 0})
    return [("every rule with every single decision, names, strings and numbers with unusual texts and with the literals of the code", lst(words(seed, mode or "rand", extra, 10 if q else 100))),
            ("every repetition of every rule 4 to 101 times", lst(long(seed, mode or "canon", few=few))),
            ("kinds that hold themselves, directly or through another kind, up to 25 levels deep", lst(towers(seed, mode or "canon")))]

def corpus(prop, tier, seed):
    res = corpus_(prop, tier, seed)
    if prop in ("P01", "P02", "P03", "P04", "P18"): res += unusual(seed, tier)
    if prop == "P05":
        rnd = random.Random(seed)
        for d, items in unusual(seed, tier):
            ok = okonly(items)
            res.append((d + ", with comments", lst(several(ok, rnd, 1 if tier == "quick" else 10))))
    if prop in ("P09", "P10"):
        for d, items in unusual(seed, tier): res.append((d, [dict(x, ind=i % 9 + 1, w=(80, 20, 120, 1)[i % 4]) for i, x in enumerate(items)]))
    if prop == "P15":
        for d, items in unusual(seed, tier): res.append((d, [dict(x, ind=i % 4 + 1, w=(80, 30)[i % 2]) for i, x in enumerate(items)]))
    if prop == "P08":
        for d, items in unusual(seed, tier, "flat"): res.append((d, [dict(x, mode="width") for x in items if len(x["src"]) < 600]))
    return res
def corpus_(prop, tier, seed):
    """[(description, items)]"""
    q = tier == "quick"
    rnd = random.Random(seed)
    res = []
    cov = lst(cover(seed, mode="canon"))
    if prop in ("P01", "P02", "P03", "P04"):
        res.append(("every grammar rule in its shortest context, all single and pairwise decisions (alternative, optional part, repeat count 0..3)", cov))
        if q:
            res.append(("the same programs at width 24", [dict(x, id=x["id"], w=24) for x in cov]))
            res.append(("random programs", lst(random_programs(seed, 6000, 7, 0)) + lst(random_programs(seed + 1, 1500, 7, .05))))
        else:
            for s in range(3):
                res.append(("other identifiers and layouts, seed %d" % s, lst(cover(seed + 10 + s, mode="rand"))))
            for w in (12, 24, 50): res.append(("width %d" % w, [dict(x, w=w) for x in cov]))
            for s in range(6): res.append(("random programs", lst(random_programs(seed + s, 8000, 6 + s, [0, 0, .02, .1, 0, .3][s]))))
    if prop in ("P01", "P02", "P03", "P04"):
        res.append(("every kind in every place of every rule, kinds that can hold themselves up to four levels deep", lst(slots(seed))))
        if prop == "P02": res.append(("the operands of merge", [{"id": "dml_expression|merge", "src": "class A { void m() { merge a\n= b c; } }\n"}]))
        if not q: res += [("the same with other layouts", lst(slots(seed + 1, "rand"))), ("the same at width 30", [dict(x, w=30) for x in slots(seed + 2)])]
    if prop in ("P01", "P02", "P03", "P04", "P05"):
        mine = cov if prop == "P05" else [x for x in cov if group(x["id"].split("|")[0]) == prop]
        if prop != "P05" and len(mine) > 900: mine = rnd.sample(mine, 900) if q else mine
        ok = okonly(mine)
        res.append(("one comment in every gap between two tokens of every covering program", lst(gaps(ok, rnd))))
        if prop == "P05":
            res.append(("two neighbouring comments", lst(gaps(ok if not q else rnd.sample(ok, 700), rnd, double=True))))
            res.append(("two neighbouring comments with the same text", lst(gaps(ok if not q else rnd.sample(ok, 400), rnd, per=None if not q else 6, double="same"))))
            res.append(("one to three short comments inside empty brackets", lst(empties(ok, rnd, 12000 if q else 100000))))
            res.append(("two or three comments in different gaps", lst(several(ok, rnd, 5 if q else 60))))
            for s in range(1 if q else 6):
                res.append(("random programs with random comments", lst(random_programs(seed + s, 2500, 6, .03)) + lst(random_programs(seed + 100 + s, 2000, 5, .2))))
            res.append(("comment texts", lst(comment_texts(seed, 2000))))
    if prop == "P18":
        res.append(("every grammar rule in its shortest context, all single and pairwise decisions", cov))
        res.append(("the same programs with other identifiers and layouts", lst(cover(seed + 11, mode="rand"))))
        res.append(("every kind in every place of every rule, kinds that can hold themselves up to four levels deep", lst(slots(seed))))
        for s in range(1 if q else 8):
            res.append(("random programs", lst(random_programs(seed + s, 4000 if q else 20000, 7, 0)) + lst(random_programs(seed + 50 + s, 1000, 9, 0))))
        res.append(("bodies nested up to 60 deep", lst(deep(seed, 100 if q else 2000))))
        if not q:
            for w in (1, 12, 40): res.append(("width %d" % w, [dict(x, w=w) for x in cov]))
    if prop == "P04":
        res.append(("random conditions", lst(conditions(seed, 1500))))
    if prop == "P06":
        for s in range(1 if q else 8):
            res.append(("random comment texts at eight positions", lst(comment_texts(seed + s, 12000))))
    if prop == "P07":
        res.append(("where/having covering programs", [x for x in cov if x["id"].split("|")[0] in ("where_clause", "having_clause", "and_expression", "or_expression", "not_expression", "_boolean_expression", "boolean_expression", "_condition_expression", "comparison_expression", "soql_query_body")]))
        for s in range(1 if q else 8):
            res.append(("random condition trees of depth 1..4", lst(conditions(seed + s, 8000))))
    if prop == "P09":
        res.append(("covering programs, indent_size 2", cov))
        for ind, w in ((1, 80), (3, 30), (4, 100)) if q else ((1, 80), (3, 30), (4, 100), (5, 10), (8, 40), (2, 1), (13, 200)):
            res.append(("covering programs, indent_size %d, max_width %d" % (ind, w), [dict(x, ind=ind, w=w) for x in cov]))
        res.append(("random programs", [dict(x, ind=i % 5 + 1) for i, x in enumerate(random_programs(seed, 2500 if q else 20000, 8, 0))]))
        res.append(("bodies nested up to 60 deep", lst(deep(seed, 300 if q else 4000))))
        res.append(("random members with blank lines", lst(blank_members(seed, 3000 if q else 20000))))
    if prop == "P10":
        res.append(("random members and statements with random blank lines", lst(blank_members(seed, 8000 if q else 60000))))
        res.append(("covering programs with random layout", lst(cover(seed + 5, mode="rand"))))
        res.append(("random programs with random layout", lst(random_programs(seed, 2500 if q else 20000, 8, 0))))
    if prop == "P15":
        for w, ind in ((80, 2), (24, 4)) if q else ((80, 2), (1, 1), (24, 4), (40, 3), (1000, 8)):
            res.append(("covering programs, max_width %d, indent_size %d" % (w, ind), [dict(x, w=w, ind=ind) for x in cov]))
        res.append(("covering programs with other identifiers and layouts", lst(cover(seed + 21, mode="rand"))))
        for w in (80, 30) if q else (120, 80, 30, 10): res.append(("every kind in every place of every rule, width %d" % w, [dict(x, w=w) for x in slots(seed, mode="rand" if w == 30 else "canon")]))
        res.append(("random programs", [dict(x, w=(80, 40, 10, 120)[i % 4], ind=i % 5 + 1) for i, x in enumerate(lst(random_programs(seed, 6000 if q else 60000, 7, 0)))]))
        res.append(("random condition trees", lst(conditions(seed, 3000 if q else 30000))))
        res.append(("members and statements with blank lines and stray semicolons", lst(blank_members(seed, 5000 if q else 50000))))
        res.append(("bodies nested up to 60 deep", lst(deep(seed, 100 if q else 1500))))
        res.append(("families of breakable constructs at random widths", [dict(x, mode=None, w=rnd.randrange(1, 130)) for x in families.items() for _ in range(2 if q else 20)]))
        res.append(("the operands of merge", [{"id": "dml_expression|merge", "src": "class A { void m() { merge a\n= b c; } }\n"}]))
    if prop == "P08":
        fam = families.items()
        res.append(("families of breakable constructs: every width from unlimited down through each layout's longest line, exactly at the limit and one below", fam))
        res.append(("covering programs: every layout's longest line is stable at exactly that width", [dict(x, mode="width") for x in cover(seed, mode="flat")]))
        res.append(("random programs", [dict(x, mode="width", ind=i % 4 + 1) for i, x in enumerate(random_programs(seed, 1500 if q else 20000, 7, 0, "flat"))]))
    return res

_ok = {}
def okonly(items):
    key = tuple(x["id"] for x in items)
    if key not in _ok:
        rows = run_items(items)
        _ok[key] = [i for i, r in zip(items, rows) if r["st"] == "ok" and not r["bad"]]
    return _ok[key]

def run_program_check(prop, tier, seed):
    res = Res()
    for desc, items in corpus(prop, tier, seed):
        rows = run_items(items, ["--idem"] if prop == "P15" else ())
        n = 0
        for it, r in zip(items, rows):
            res.evaluations += 1
            res.status[r["st"]] = res.status.get(r["st"], 0) + 1
            if prop == "P18":
                if r["st"] == "ok": res.distinct.add(hash((it["src"], it.get("w"), it.get("ind"))))
                elif r["st"] in ("panic", "hang", "crash") and not r.get("excuse"): res.add_viol(it, {"k": r["st"], "msg": r.get("msg")}); n += 1
                continue
            if prop == "P15":
                if r["st"] != "ok": continue
                res.distinct.add(hash((it["src"], it.get("w"), it.get("ind"))))
                d = {"site": r.get("idem_site"), "first": r["out"][-1500:]}
                if "idem" in r: res.add_viol(it, dict(d, k="second-pass-differs", second=r["idem"][-1500:])); n += not r.get("idem_site")
                elif "idem_err" in r: res.add_viol(it, dict(d, k="second-pass-fails", msg=r["idem_err"])); n += not r.get("idem_site")
                continue
            if r["st"] == "ok":
                h = hash((it["src"], it.get("w"), it.get("ind")))
                res.distinct.add(h)
                if prop == "P08": bad = r["bad"]
                else: bad = relevant(prop, it, r)
                for b in bad: res.add_viol(it, b); n += 1
            elif r["st"] == "accepted" and prop == "P13": res.add_viol(it, {"k": "accepted"})
        res.rules.append("%s: %d inputs" % (desc, len(items)))
        if items and len(res.samples) < 3: res.samples.append({"id": items[len(items) // 2]["id"], "src": items[len(items) // 2]["src"][:300]})
        if n > 20: break
    # shortest first
    res.viol.sort(key=lambda v: len(v["item"].get("src", "")))
    return res
