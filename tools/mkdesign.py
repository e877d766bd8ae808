#!/usr/bin/env python3
"""Assemble DESIGN.md."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


def subs(path):
    out = []
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Sub" and n.args \
                and isinstance(n.args[0], ast.Constant):
            out.append(n.args[0].value)
    return out


def main():
    out = [open(os.path.join(H, "design", "head.md")).read()]
    out.append("## 2. The properties, and how each is decided\n")
    for l in open(os.path.join(H, "properties.jsonl")):
        p = json.loads(l)
        f = os.path.join(H, "checks", p["id"].lower() + ".py")
        c = consts(f)
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* **Specified**: %s" % p["statement"])
        out.append("* **Anchored** in %s" % ", ".join("`%s`" % a for a in p["anchors"]["files"]))
        out.append("* **Technique**: %s. Sub-checks: %s.%s" % (
            c.get("TECHNIQUE", "property-based testing of generated index lists against a sequential reference"),
            ", ".join(subs(f)) or "see the module",
            " Run plain and again under AddressSanitizer." if "asan" in c.get("VARIANTS", []) else ""))
        out.append("* **Generated, oracle, non-trivial**: %s." % c["RULE"].rstrip("."))
        if c.get("ASSUMPTIONS"):
            out.append("* **Assumes**: %s." % "; ".join(c["ASSUMPTIONS"]))
        out.append("* **Beyond the tests**: quantified over %s. %s\n" % (p["quantifier"]["text"].rstrip("."), p["why_tests_cant"]))
    out.append(open(os.path.join(H, "design", "notes.md")).read())
    out.append("## 6. Planted changes\n")
    out.append("Written from the properties and the code, kept whether or not they are caught (`seeded/<id>`). The last column is the "
               "result of the quick tier of the property's own check (and others that were run).\n")
    out.append("| id | property | what it breaks | needs | caught by |")
    out.append("|---|---|---|---|---|")
    caught = json.load(open(os.path.join(H, "design", "caught.json")))
    for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        pid = os.path.basename(os.path.dirname(m))
        cb = sorted(k for k, v in caught[pid].items() if v) if pid in caught else None
        out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/"),
                                               d["needs"].replace("|", "/"), ", ".join(cb) if cb else ("missed" if cb is not None else "?")))
    out.append("\n" + open(os.path.join(H, "design", "plants.md")).read())
    open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))


main()
