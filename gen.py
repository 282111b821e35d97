#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (a property without a rule in rules/ must give a reason in NA)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], {}


def P(id, title, statement, over, text, why, files, mech, tech="path-summary contract analysis over the type-checked MIR", note=None, na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    NA[id] = na
    META[id] = (tech, note)


META = {}
exec(open(os.path.join(HERE, "props_def.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if NA[i]: na.append(dict(property=i, reason=NA[i])); continue
    assert os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")), i
    tech, note = META[i]
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --thorough" % i, technique=tech, level="other",
                       level_note=note or "Static: decided for every path of the analysed functions from the compiler's MIR of the current tree, under the library models listed in DESIGN.md; nothing is executed and no solver is used."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")


def section(text, name, body):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


def rules():
    import importlib.util, sys
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(HERE, "sa"), os.path.join(HERE, "rules")]
    for p in PROPS:
        if NA[p["id"]]:
            yield "- **%s** %s: not applicable." % (p["id"], p["title"]); continue
        spec = importlib.util.spec_from_file_location(p["id"], os.path.join(HERE, "rules", p["id"].lower() + ".py"))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        yield "- **%s** %s. *Where*: %s. *Rule*: %s" % (p["id"], p["title"], "; ".join(x["where"] for x in p["anchors"]["mechanism"]), m.META["rule"])


def seeds():
    yield "| id | property | what it breaks | needs |\n|---|---|---|---|"
    d = os.path.join(HERE, "seeded")
    for s in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, s, "meta.json")))
        yield "| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))


d = os.path.join(HERE, "DESIGN.md")
text = open(d).read()
for name, lines in (("properties", rules()), ("seeds", seeds())): text = section(text, name, "\n".join(lines) + "\n")
open(d, "w").write(text)
