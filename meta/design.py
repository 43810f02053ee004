import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harness_info(m):
    """(assumptions, [(name, quick, thorough, bounds)]) read from the harness without running it"""
    p = os.path.join(HERE, "harness", m + ".py")
    tree = ast.parse(open(p).read())
    ass, hs = [], []
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == "ASSUMPTIONS":
                ass = ast.literal_eval(n.value)
            elif n.targets[0].id == "HARNESSES" and isinstance(n.value, ast.List):
                for c in n.value.elts:
                    if isinstance(c, ast.Starred):
                        continue
                    a = [ast.unparse(x) for x in c.args]
                    kw = {k.arg: ast.unparse(k.value) for k in c.keywords}
                    name = a[0].strip("'\"")
                    quick = a[1] if len(a) > 1 else kw.get("quick", "")
                    thorough = a[2] if len(a) > 2 else kw.get("thorough", quick)
                    b = a[3] if len(a) > 3 else kw.get("bounds", "''")
                    try:
                        b = ast.literal_eval(b)
                    except ValueError:
                        pass
                    hs.append((name, quick.replace("dict", "", 1), thorough.replace("dict", "", 1), b))
    return ass, hs


def write(P):
    from decide import D
    out = [open(os.path.join(HERE, "meta", "design_head.md")).read()]
    known = [l.strip() for l in open(os.path.join(HERE, "known_findings.txt")) if l.strip() and not l.startswith("#")]
    seeds = {}
    caught = json.load(open(os.path.join(HERE, "meta", "caught.json")))
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    out.append("## Properties\n\nQuick and thorough are the two commands of MANIFEST.json; the parameters are lengths and sizes used by the harness functions.\n")
    for p in P:
        out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
        if p["na"] or not p["module"] or not os.path.exists(os.path.join(HERE, "harness", p["module"] + ".py")):
            out.append("Not claimed: %s\n" % (p["na"] or "no check built yet"))
            continue
        out.append("Decided by `harness/%s.py`. %s %s\n" % (p["module"], D[p["id"]], "Why tests cannot: " + p["why"]))
        ass, hs = harness_info(p["module"])
        for name, q, t, b in hs:
            out.append("* `%s`: %s%s" % (name, b.strip() or "all combinations written in the harness",
                                         (" [quick %s%s]" % (q, "" if t == q else ", thorough " + t)) if q and q != "{}" else ""))
        if ass:
            out.append("\nAssumptions: " + "; ".join(ass) + ".")
        ks = [k for k in known if "property=%s " % p["id"] in k]
        for k in ks:
            out.append("* " + k)
        for s, m in seeds.get(p["id"], []):
            out.append("* planted `%s`: %s (needs: %s); %s" % (s, m["what_it_breaks"], m["needs"], caught.get(s, "not run yet")))
        out.append("")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out).rstrip() + "\n")
