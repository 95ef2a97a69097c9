"""writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
import checks
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["q"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p.get("state"):
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
cl = []
for pid in ids:
    c = checks.CHECKS.get(pid)
    if not c:
        continue
    level = c.get("level", "proof")
    note = c.get("note") or ("All obligations of the contracts in contracts/%s are generated from the clang AST of /repo's current "
        "sources and discharged by SMT solvers, for all inputs and iterations." % c["spec"])
    if c.get("bounded"):
        note += " Bounded only (contracts executed on the real code, not counted as proved): " + "; ".join(c["bounded"]) + "."
    if c.get("assumptions"):
        note += " Assumes: " + "; ".join(c["assumptions"]) + "."
    note += " Trusted: the VC generator, clang's AST, the solvers, the C library contracts in contracts/libc.spec."
    cl.append(dict(property=pid, quick_cmd="VERIF_TIER=quick python3-vt engine/run.py %s" % pid,
                   thorough_cmd="VERIF_TIER=thorough python3-vt engine/run.py %s" % pid,
                   evidence_file="evidence/%s.json" % pid,
                   technique="contract-based deductive verification (own VC generator on the C AST, SMT back ends)",
                   level=level, level_note=note))
na = [dict(property=p, reason=NA.get(p, "contracts for it are not built yet")) for p in ids if p not in checks.CHECKS]
m = dict(version=1, setup_cmd="mkdir -p build evidence replay && python3-vt -m compileall -q engine tools >/dev/null; true",
         checks=cl, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cl), "claimed", len(na), "n/a")
