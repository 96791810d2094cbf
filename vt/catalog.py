"""The properties: writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYX = "intvalpy/kernel/interval_arithmetics.pyx"
RI = "intvalpy/kernel/real_intervals.py"
AB = "intvalpy/kernel/abstract.py"
NEW = "intvalpy/kernel/new_objects.py"
UT = "intvalpy/kernel/utils.py"
EL = "intvalpy/kernel/elementary_functions.py"
PRE = "intvalpy/kernel/preprocessing.py"
VIS = "intvalpy/kernel/visualization.py"
RALG = "intvalpy/kernel/ralgb5.py"
LIN = "intvalpy/linear/"
NON = "intvalpy/nonlinear/"
MOD = "intvalpy/models/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, oracle, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
              "mechanism": mechanism, "oracle": oracle, "technique": technique, "note": note})


exec(open(os.path.join(HERE, "catalog_entries.py")).read())


def module(id):
    import ast
    with open(os.path.join(HERE, "props", id.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    out = {"RULE": "", "ASSUMPTIONS": [], "PARTS": []}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            name = n.targets[0].id
            if name in ("RULE", "ASSUMPTIONS"):
                out[name] = ast.literal_eval(n.value)
            elif name == "PARTS":
                for c in ast.walk(n.value):
                    if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "Part":
                        kw = {k.arg: k.value for k in c.keywords}
                        name_ = ast.unparse(c.args[0]).strip("'\"")
                        rule = ast.literal_eval(kw["rule"]) if "rule" in kw and isinstance(kw["rule"], ast.Constant) else ""
                        out["PARTS"].append((name_, ast.unparse(c.args[3]) if len(c.args) > 3 else "?",
                                             ast.unparse(kw["thorough"]) if "thorough" in kw else "", rule))
    return out


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./check --setup", "checks": [], "not_applicable": [],
           "notes": "Property-based testing with Hypothesis; see DESIGN.md. A replay file is run with ./check --replay FILE."}
    for p in P:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(HERE, "design_head.md")) as f:
        text = f.read()
    text += "\n## Properties and how each is decided\n"
    for p in P:
        m = module(p["id"])
        text += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        text += "*Quantified over* %s: %s\n\n" % (", ".join(p["over"]), p["text"])
        text += "*Oracle.* %s\n\n" % p["oracle"]
        text += "*Generated.* %s\n\n" % m["RULE"]
        if m["ASSUMPTIONS"]:
            text += "*Bounds and assumptions.* %s.\n\n" % "; ".join(m["ASSUMPTIONS"])
        text += "*Parts (cases in the quick tier).* %s.\n\n" % "; ".join(
            "`%s` (%s)%s" % (n, q, ": " + r if r else "") for n, q, t, r in m["PARTS"])
        text += "*Why tests cannot.* %s\n" % p["why"]
    tail = os.path.join(HERE, "design_tail.md")
    if os.path.exists(tail):
        with open(tail) as f:
            text += "\n" + f.read()
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
