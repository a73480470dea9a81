"""Runs Verus on an extracted file and turns its answer into obligations, one per function."""
import json, os, re, subprocess, time
from .extract import lex, items, match, Misfit

def functions(text):
    """(name, first line, last line, kind) of every function of the generated file"""
    t = lex(text)
    # inside verus! { ... }
    i = next(k for k in range(len(t)) if t[k][0] == "verus" and t[k + 1][0] == "!")
    a, b = i + 3, match(t, i + 2)
    line = lambda p: text.count("\n", 0, p) + 1
    out = []
    def at(k, pre):
        # t[k] is "fn"
        m = k
        while t[m - 1][0] in ("spec", "proof", "open", "pub", "closed", "exec", "assume_specification"): m -= 1
        words = {t[q][0] for q in range(m, k)}
        j = k
        while t[j][0] not in ("{", ";"):
            if t[j][0] in ("(", "["): j = match(t, j)
            j += 1
        return words
    k, stack = a, []
    while k < b:
        x = t[k][0]
        if x == "impl":
            j = k
            while t[j][0] != "{": j += 1
            hd = [y[0] for y in t[k + 1:j]]
            if hd[0] == "<":
                d = 0
                for q, y in enumerate(hd):
                    d += (y == "<") - (y == ">")
                    if d == 0: break
                hd = hd[q + 1:]
            stack.append(((hd[hd.index("for") + 1] if "for" in hd else hd[0]) + "::", match(t, j)))
            k = j + 1; continue
        if stack and k >= stack[-1][1]: stack.pop()
        if x == "fn" and t[k + 1][0] not in ("(",):
            words = at(k, "")
            nx = k + 1
            # up to the next function or item: good enough to find the function an error is in
            out.append([(stack[-1][0] if stack else "") + t[nx][0], line(t[k][1]), None, "spec" if "spec" in words else "proof" if "proof" in words else "exec"])
        k += 1
    end = line(t[b][1])
    for q, o in enumerate(out): o[2] = out[q + 1][1] - 1 if q + 1 < len(out) else end
    return out

NOTSUPPORTED = re.compile(r"not (yet )?support|unsupported|cannot find|mismatched types|expected|unresolved|E0\d\d\d", re.I)
def run(text, path, timeout=400, args=()):
    """-> (status, verified, {function: [error]}, stats)   status: ok / failed / undecided (with the reason in stats)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)
    t0 = time.time()
    try: r = subprocess.run(["verus", os.path.basename(path), "--output-json", *args], cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout, start_new_session=True)
    except subprocess.TimeoutExpired: return "undecided", 0, {}, {"why": "verus: no answer within %d s" % timeout}
    st = {"wall_s": round(time.time() - t0, 1)}
    try: o = json.loads(r.stdout)
    except Exception: st["why"] = "verus gave no answer: " + r.stderr[-300:]; return "undecided", 0, {}, st
    vr = o.get("verification-results", {})
    st["smt_s"] = round(o.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000, 2)
    st["verified"], st["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    if vr.get("success") and not vr.get("errors"): return "ok", vr["verified"], {}, st
    if vr.get("encountered-vir-error") or not vr.get("errors") or re.search(r"^error\[E\d+\]", r.stderr, re.M):
        st["why"] = "verus does not accept the text: " + " / ".join(re.findall(r"^error.*", r.stderr, re.M)[:4])[:400]
        return "undecided", 0, {}, st
    fs = functions(text)
    bad = {}
    for m in re.finditer(r"^error: (.*)\n\s+--> \S+?:(\d+):", r.stderr, re.M):
        l = int(m.group(2))
        if m.group(1).startswith("aborting"): continue
        # an error can point at the contract of the callee; the function with the error is named by the last span
        blk = r.stderr[m.end():]
        blk = blk[:re.search(r"^(error|note|warning)", blk, re.M).start()] if re.search(r"^(error|note|warning)", blk, re.M) else blk
        ls = [l] + [int(x) for x in re.findall(r"^\s*(\d+) [|/]", blk, re.M)]
        own = [next((f for f in fs if f[1] <= x <= f[2] and f[3] != "spec"), None) for x in ls]
        n = next((f[0] for f in own if f), "?")
        bad.setdefault(n, []).append((m.group(1) + "\n" + m.group(0) + blk)[:1500])
    if any(re.search("rlimit|timed? ?out", e[0].split("\n")[0], re.I) for e in bad.values()) and all(re.search("rlimit|timed? ?out", x.split("\n")[0], re.I) for e in bad.values() for x in e):
        st["why"] = "resource limit"; return "undecided", vr["verified"], bad, st
    return "failed", vr["verified"], bad, st
