#!/usr/bin/env python3
"""Grammar-driven generator of Apex programs.

Reads the grammar.json of the tree-sitter-sfapex version the code under test is
locked to, and produces token lists (then laid out with random or canonical
whitespace and optional comments).  Everything produced is *filtered* by the real
parser in the replay crate, so the generator may over-approximate the grammar."""
import json, glob, os, random, re, sys

def grammar_path():
    pats = [os.path.expanduser("~/.cargo/registry/src/*/tree-sitter-sfapex-*/apex/src/grammar.json"),
            "/root/.cargo/registry/src/*/tree-sitter-sfapex-*/apex/src/grammar.json"]
    if os.environ.get("CARGO_HOME"):
        pats.insert(0, os.path.join(os.environ["CARGO_HOME"], "registry/src/*/tree-sitter-sfapex-*/apex/src/grammar.json"))
    # the version named in Cargo.lock wins
    ver = None
    try:
        t = open("/repo/Cargo.lock").read()
        m = re.search(r'name = "tree-sitter-sfapex"\nversion = "([^"]+)"', t)
        ver = m.group(1) if m else None
    except OSError:
        pass
    c = []
    for p in pats:
        c += glob.glob(p)
    if ver:
        v = [x for x in c if "tree-sitter-sfapex-%s/" % ver in x]
        c = v or c
    if not c:
        raise SystemExit("grammar.json of tree-sitter-sfapex not found")
    return sorted(c)[-1]

INF = 10**6

IDENTS = ["a", "b", "foo", "Bar", "acc", "Account", "my_Var", "x1", "List", "Foo__c", "doIt"]
STRINGS = ["'s'", "''", "'a b'", "'it\\'s'", "'// no'", "'/* x */'", "'  two  sp '"]

CLASSES = {r"[\p{L}_$][\p{L}\p{Nd}_$]*": "ident", r"-?\d+(\.\d+)?": "dec", r"\d+": "int", "[0-9]+": "int"}
# texts on which a decision about the text of a token (its length, characters, value) could turn
UNUSUAL = {
 "ident": ["é", "Größe", "数量", "_", "_a", "a_", "$x", "a$", "x" * 30, "aLong" * 13, "Long_Name_" * 20 + "c", "get", "set", "Id", "ID", "id", "Name", "System", "String", "Map", "Test", "UserInfo", "Trigger",
           "x__c", "ns__X__c", "X__r", "X__mdt", "Object", "Integer", "superX", "newX", "returnX", "nullX", "trueX", "isTest", "AND1", "ORx", "NOTx", "value", "Z9", "l", "L", "e", "E1", "d", "f", "A1B2",
           "toString", "size", "put", "add", "assertEquals", "debug", "thisX", "ifx", "elsewhere", "inner", "likely", "likeX", "ASx", "byte1", "SObject", "Decimal", "Exception", "CustomException", "Database"],
 "string": ["'é'", "'数量'", "'\\\\'", "'\\n'", "'\"'", "'{'", "'}'", "';'", "' '", "'a  b   c'", "'\t'", "'%'", "':x'", "'" + "long text " * 15 + "'", "'" + "x" * 200 + "'", "'0'", "'null'", "'\\u00e9'", "'-- '", "'/*'", "'*/'", "'\\''",
            "'SELECT Id FROM A'", "'  '", "'a,b'", "'(a)'", "'[b]'", "'@c'", "'=>'", "'a.b'", "'_%'", "'é' "[:3]],
 "int": ["0", "00", "007", "9", "10", "99", "100", "255", "256", "1000", "65536", "1000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "9" * 30, "1" * 120],
 "dec": ["0", "0.0", "-0.5", "1.0", "100", "-1", "123456789012.5", "3.14159265358979323846", "-2147483649"],
}
class Gen:
    def __init__(self, seed=0, g=None):
        self.g = g or json.load(open(grammar_path()))
        self.R = self.g["rules"]
        self.rnd = random.Random(seed)
        self.mind = {}
        self._mins()
        self.exclude = set()      # (rule, description) alternatives never taken
        self.hits = {}

    # ---- minimal expansion depth
    def _d(self, r):
        t = r["type"]
        if t == "SYMBOL": return 1 + self.mind.get(r["name"], INF)
        if t in ("STRING", "PATTERN"): return 1
        if t == "BLANK": return 0
        if t == "SEQ": return max([self._d(x) for x in r["members"]] or [0])
        if t == "CHOICE": return min(self._d(x) for x in r["members"])
        if t == "REPEAT": return 0
        if t in ("TOKEN", "IMMEDIATE_TOKEN"): return 1
        return self._d(r["content"])
    def _mins(self):
        for n in self.R: self.mind[n] = INF
        ch = True
        while ch:
            ch = False
            for n, r in self.R.items():
                d = self._d(r)
                if d < self.mind[n]:
                    self.mind[n] = d; ch = True

    # ---- terminals
    special, rate = None, .25     # {class of token: unusual texts}; this share of the tokens is one of them
    def pat(self, p):
        if self.special and self.rnd.random() < self.rate:
            c = CLASSES.get(p) or ("string" if p.startswith("'(\\\\[") else None)
            if c and self.special.get(c): return self.rnd.choice(self.special[c])
        if p == r"[\p{L}_$][\p{L}\p{Nd}_$]*": return self.rnd.choice(IDENTS)
        if p.startswith("'(\\\\["): return self.rnd.choice(STRINGS)
        if p.startswith("(\\\\\\'|[^'])"): return self.rnd.choice(["test", "a*"])
        if p == r"-?\d+(\.\d+)?": return self.rnd.choice(["1.5", "20.25", "-3.5"])
        if p == r"\d+": return self.rnd.choice(["1", "58"])
        if p == "[0-9]+": return self.rnd.choice(["0", "1", "42", "200"])
        if p == "_+": return "_"
        if p.startswith("[1-4][0-9]{3}-"):
            return "2024-01-31T10:20:30Z" if "T" in p else "2024-01-31"
        if p == r"\w{3}\d+(\.\d+)?": return self.rnd.choice(["USD500", "EUR100.5"])
        if p == r"[\s\n]*": return ""
        if p == r"[\s\n]+": return " "
        if p == r"\s": return " "
        # case-insensitive keyword written as [aA][bB]... or literal regexp
        out = ""; i = 0
        up = self.kwcase
        while i < len(p):
            c = p[i]
            if c == "[":
                j = p.index("]", i); cl = p[i+1:j]; i = j + 1
                c = cl[0]
                if cl.isalpha() and len(set(cl.lower())) > 1: c = self.rnd.choice(cl)
                if cl == "__": c = "_"
                if cl == "..": c = "."
                if p[i:i+1] == "?":
                    i += 1
                    if self.rnd.random() < .7: continue
                if p[i:i+1] == "*": i += 1; continue
                out += c
            elif c == "\\":
                out += p[i+1]; i += 2
            else:
                out += c; i += 1
        if up == 1: out = out.upper()
        elif up == 2: out = out[:1].upper() + out[1:]
        return out
    kwcase = 0

    def tokstr(self, r):
        """text of a TOKEN rule (one token)"""
        t = r["type"]
        if t == "STRING": return r["value"]
        if t == "PATTERN": return self.pat(r["value"])
        if t == "BLANK": return ""
        if t == "SEQ": return "".join(self.tokstr(x) for x in r["members"])
        if t == "CHOICE": return self.tokstr(self.rnd.choice(r["members"]))
        if t == "REPEAT": return "".join(self.tokstr(r["content"]) for _ in range(self.rnd.choice([0, 0, 1])))
        if t == "SYMBOL": return self.tokstr(self.R[r["name"]])
        return self.tokstr(r["content"])

    # ---- expansion
    def gen(self, r, depth, out, rule=None, force=None, path=""):
        """append tokens for rule body r. force: dict path->decision for the *current* rule."""
        t = r["type"]
        if t == "SYMBOL":
            n = r["name"]
            self.at = (rule, path)
            self.sym(n, depth - 1, out); return
        if t == "STRING": out.append(r["value"]); return
        if t == "PATTERN": out.append(self.pat(r["value"])); return
        if t == "BLANK": return
        if t in ("TOKEN", "IMMEDIATE_TOKEN"):
            s = self.tokstr(r["content"])
            out.append(s); return
        if t == "SEQ":
            for i, x in enumerate(r["members"]):
                self.gen(x, depth, out, rule, force, path + "." + str(i))
            return
        if t == "CHOICE":
            if force is not None and path in force:
                k = force[path]
            else:
                ms = r["members"]
                ok = [i for i, x in enumerate(ms) if self._d(x) <= max(depth, 0)]
                if not ok:
                    m = min(self._d(x) for x in ms)
                    ok = [i for i, x in enumerate(ms) if self._d(x) == m]
                if self.minimal: 
                    m = min(self._d(ms[i]) for i in ok); ok = [i for i in ok if self._d(ms[i]) == m]; k = ok[-1] if ms[ok[-1]]["type"]=="BLANK" else ok[0]
                else: k = self.rnd.choice(ok)
            self.hits[(rule, path, k)] = self.hits.get((rule, path, k), 0) + 1
            self.gen(r["members"][k], depth, out, rule, force, path + "." + str(k)); return
        if t in ("REPEAT", "REPEAT1"):
            if force is not None and path in force:
                k = force[path]
            else:
                k = 1 if t == "REPEAT1" else 0
                if not self.minimal:
                    if self._d(r["content"]) <= depth:
                        k += self.rnd.choice([0, 0, 1, 1, 2, 3])
            self.hits[(rule, path, min(k, 2))] = self.hits.get((rule, path, min(k, 2)), 0) + 1
            for i in range(k): self.gen(r["content"], depth, out, rule, force, path + ".0")
            return
        self.gen(r["content"], depth, out, rule, force, path + ".0")
    minimal = False

    def sym(self, n, depth, out, force=None):
        if n == "comment": return
        h = self.hook
        if h and h(n, depth, out): return
        if self.plain and self.minimal and n in ("expression", "primary_expression"):
            k = self.rnd.random()
            out.append(self.pat(r"[\p{L}_$][\p{L}\p{Nd}_$]*") if k < .6 else self.pat("[0-9]+") if k < .75 else self.pat("'(\\\\["))
            return
        self.gen(self.R[n], depth, out, n, force)
    hook = None
    plain = False       # shortest expressions are names, numbers and strings, not `this`

    # ---- decision points of one rule
    def points(self, n):
        res = []
        def go(r, path):
            t = r["type"]
            if t == "SEQ":
                for i, x in enumerate(r["members"]): go(x, path + "." + str(i))
            elif t == "CHOICE":
                res.append((path, list(range(len(r["members"])))))
                for i, x in enumerate(r["members"]): go(x, path + "." + str(i))
            elif t in ("REPEAT", "REPEAT1"):
                res.append((path, [0, 1, 2, 3] if t == "REPEAT" else [1, 2, 3]))
                go(r["content"], path + ".0")
            elif t in ("SYMBOL", "STRING", "PATTERN", "BLANK", "TOKEN", "IMMEDIATE_TOKEN"): pass
            else: go(r["content"], path + ".0")
        go(self.R[n], "")
        return res

    # ---- shortest context to reach a symbol from another
    def contexts(self, root="parser_output"):
        """for each symbol: chain [(rule, force)] leading from root to it"""
        if hasattr(self, "_ctx"): return self._ctx
        # programs are rooted in a type/trigger declaration; the chains avoid constructs that
        # exist in the grammar only because it was derived from the Java one
        ctx = {root: []}
        queue = []
        for d in ("class_declaration", "trigger_declaration", "interface_declaration", "enum_declaration"):
            f = {}
            for s, f in self._occ(self.R["parser_output"], ""): break
            i = [m.get("name") for m in self.R["declaration"]["members"]].index(d)
            j = [m.get("name") for m in self.R["statement"]["members"]].index("declaration")
            ctx.setdefault("statement_root", [])
            ctx[d] = [("parser_output", {"": 1}, "statement"), ("statement", {"": j}, "declaration"), ("declaration", {"": i}, d)]
            queue.append(d)
        late = False
        while queue or not late:
            if not queue:
                late = True
                queue = list(k for k in ctx if k in self.R)
            n = queue.pop(0)
            for s, f in self._occ(self.R[n], ""):
                if s in ("annotation", "type_parameters", "java_type", "java_field_access", "annotated_type", "explicit_constructor_invocation", "enhanced_for_statement", "using_clause") and not late:
                    continue
                if s not in ctx and s in self.R:
                    ctx[s] = ctx[n] + [(n, f, s)]
                    queue.append(s)
        self._ctx = ctx
        return ctx
    def all_contexts(self, n):
        """one chain per place the rule occurs in"""
        if not hasattr(self, "_allctx"):
            a = self._allctx = {}
            c = self.contexts()
            for p in self.R:
                if p not in c: continue
                for s, f in self._occ(self.R[p], ""):
                    if s in c and s != p: a.setdefault(s, []).append(c[p] + [(p, f, s)])
        return self._allctx.get(n, [])
    def _occ(self, r, path):
        t = r["type"]
        if t == "SYMBOL": yield r["name"], {}
        elif t == "SEQ":
            for i, x in enumerate(r["members"]): yield from self._occ(x, path + "." + str(i))
        elif t == "CHOICE":
            for i, x in enumerate(r["members"]):
                for s, f in self._occ(x, path + "." + str(i)): yield s, {**f, path: i}
        elif t in ("REPEAT", "REPEAT1"):
            for s, f in self._occ(r["content"], path + ".0"): yield s, {**f, path: 1}
        elif t in ("STRING", "PATTERN", "BLANK", "TOKEN", "IMMEDIATE_TOKEN"): return
        else: yield from self._occ(r["content"], path + ".0")

    at = None
    def _slots(self, r, path):
        """like _occ, with the place of the symbol"""
        t = r["type"]
        if t == "SYMBOL": yield r["name"], {}, path
        elif t == "SEQ":
            for i, x in enumerate(r["members"]): yield from self._slots(x, path + "." + str(i))
        elif t == "CHOICE":
            for i, x in enumerate(r["members"]):
                for s, f, p in self._slots(x, path + "." + str(i)): yield s, {**f, path: i}, p
        elif t in ("REPEAT", "REPEAT1"):
            for s, f, p in self._slots(r["content"], path + ".0"): yield s, {**f, path: 1}, p
        elif t in ("STRING", "PATTERN", "BLANK", "TOKEN", "IMMEDIATE_TOKEN"): return
        else: yield from self._slots(r["content"], path + ".0")
    def kinds_in(self, s, seen=()):
        """the ways from a symbol through pure alternatives to a rule of its own: [(chain, rule)]"""
        r = self.R[s]
        while r["type"].startswith("PREC"): r = r["content"]
        if s in seen: return
        if r["type"] in ("CHOICE", "SYMBOL") and (s.startswith("_") or s in self.g.get("supertypes", ()) or all(m["type"] == "SYMBOL" for m in r.get("members", [r]))):
            for n, f, p in self._slots(self.R[s], ""):
                if n in self.R:
                    for c, l in self.kinds_in(n, seen + (s,)): yield [(s, f, n, p)] + c, l
        else: yield [], s
    def slots(self):
        """chains that put every kind into every place of every rule, and every kind that can hold itself there 3 and 4 times"""
        ctx = self.contexts()
        own = {}
        for n in self.R:
            own[n] = [[(n, f, s, p)] + c for s, f, p in self._slots(self.R[n], "") if s in self.R for c, l in self.kinds_in(s) if l == n]
        for n in self.R:
            if n not in ctx: continue
            for s, f, p in self._slots(self.R[n], ""):
                if s not in self.R: continue
                for c, l in self.kinds_in(s):
                    ch = ctx[n] + [(n, f, s, p)] + c
                    yield l, ch, (n, p, l, 0)
                    for i, o in enumerate(own[l]):
                        for k in (2, 3): yield l, ch + o * k, (n, p, l, (i, k))

    def loops(self):
        """kinds that can hold themselves: [(kind, the way round, a way there)], directly or through one other kind"""
        ctx = self.contexts()
        hold = {n: [(l, [(n, f, s, p)] + c) for s, f, p in self._slots(self.R[n], "") if s in self.R for c, l in self.kinds_in(s)] for n in self.R}
        for n in self.R:
            if n not in ctx: continue
            for l, c in hold[n]:
                if l == n: yield n, c, ctx[n]
                elif l > n:
                    for m, d in hold[l]:
                        if m == n: yield n, c + d, ctx[n]

    def in_context(self, target, make, chain=None):
        """tokens of a program that contains `target`, whose own tokens come from make()"""
        chain = self.contexts()[target] if chain is None else chain
        save = self.minimal
        def go(i, out):
            if i == len(chain):
                self.minimal = save; make(out); self.minimal = True; return
            n, f, s = chain[i][:3]
            place = (n, chain[i][3]) if len(chain[i]) > 3 else None
            used = [False]
            old = self.hook
            def hook(name, depth, o):
                if name == s and not used[0] and (place is None or self.at == place):
                    used[0] = True
                    self.hook = None
                    go(i + 1, o)
                    self.hook = old2
                    return True
                return False
            old2 = hook
            self.hook = hook
            self.gen(self.R[n], 0, out, n, f)
            self.hook = old
        out = []
        self.minimal = True
        go(0, out)
        self.minimal = save
        self.hook = None
        return out

    def program(self, depth=12):
        out = []
        n = self.rnd.choice([1, 1, 1, 2])
        for _ in range(n):
            k = self.rnd.choice(["class_declaration", "class_declaration", "class_declaration", "interface_declaration", "enum_declaration",
                                 "trigger_declaration", "statement", "method_declaration"])
            self.sym(k, depth, out)
        return out

NOSPACE_BEFORE = {"=": 0}
def layout(tokens, rnd, mode="canon", comments=0.0, cidx=None):
    """join tokens. canon: single spaces; rand: random blanks/newlines; optional comments between tokens"""
    out = []
    cnt = 0
    for i, t in enumerate(tokens):
        if t == "": continue
        out.append(t)
        if t.strip() == "": continue
        # java: / version numbers need immediate neighbours only when lexed as tokens, kept simple
        if mode == "flat": out.append(" ")
        elif mode == "canon": out.append("\n" if t in ("{", ";", "}") else " ")
        else: out.append(rnd.choice([" ", " ", "\n", "  ", "\n\n", " \n ", "\n\n\n"]))
        if comments and rnd.random() < comments or (cidx is not None and i in cidx):
            cnt += 1
            k = rnd.choice(["line", "block", "block", "javadoc", "multi", "line_own"])
            c = {"line": "// c%d\n", "line_own": "\n// c%d\n", "block": "/* c%d */", "javadoc": "/** c%d */",
                 "multi": "/*\n * c%d\n   more\n */"}[k] % cnt
            out.append(c)
            out.append(rnd.choice([" ", "\n", "\n\n"]))
    return "".join(out).strip() + "\n"

if __name__ == "__main__":
    seed = int(sys.argv[1]); n = int(sys.argv[2]); depth = int(sys.argv[3]) if len(sys.argv) > 3 else 12
    cm = float(sys.argv[4]) if len(sys.argv) > 4 else 0
    g = Gen(seed)
    for i in range(n):
        g.kwcase = g.rnd.choice([0, 0, 1, 2])
        t = g.program(depth)
        if len(t) > 400: continue
        print(json.dumps({"id": "g%d-%d" % (seed, i), "src": layout(t, g.rnd, g.rnd.choice(["canon", "rand"]), cm)}))
