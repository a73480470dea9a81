"""known_findings.txt: lines `finding: property=<id> src="<the failing source>" <what fails>` or `finding: property=<id> site=<tag the replay
puts on what fails at that site> <what fails>`
and `fixed: property=<id> <commit> <what failed>` (the latter suppress nothing)."""
import os, re
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
def findings(prop):
    out = []
    for l in open(PATH):
        m = re.match(r"finding: property=(\S+) src=(\"(?:[^\"\\]|\\.)*\") (.*)", l)
        if m and m.group(1) == prop:
            import json
            out.append({"src": json.loads(m.group(2)), "what": m.group(3).strip()})
        m = re.match(r"finding: property=(\S+) site=(\S+) (.*)", l)
        if m and m.group(1) == prop: out.append({"site": m.group(2), "what": m.group(3).strip()})
    return out
def match(fs, v):
    for f in fs:
        if "src" in f and v["item"].get("src") == f["src"]: return f
        if "site" in f and isinstance(v["detail"], dict) and v["detail"].get("site") == f["site"]: return f
    return None
