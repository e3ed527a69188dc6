#!/opt/venv/bin/python
"""Write properties.jsonl, MANIFEST.json and props/meta.json."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.spec import P  # noqa: E402

TECH = ("symbolic execution of the package's Python code over exact reals "
        "(values as terms, paths forked on symbolic conditions), assertions "
        "decided by Z3, counterexamples replayed on the unpatched code")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=a, where=b) for a, b in p["mech"]]),
            )) + "\n")
    checks, na, meta = [], [], {}
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        assert os.path.exists(
            os.path.join(HERE, "props", p["id"].lower() + ".py")), p["id"]
        cmd = f"/opt/venv/bin/python check.py {p['id']} --tier "
        checks.append(dict(
            property=p["id"], quick_cmd=cmd + "quick",
            thorough_cmd=cmd + "thorough", technique=TECH,
            level="model_checking",
            level_note="Holds for every real-valued input within the bounds: "
            + p["bounds"] + "." + (" " + p["note"] if p["note"] else ""),
        ))
        meta[p["id"]] = dict(bounds=p["bounds"], assumptions=p["assumptions"])
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py",
                   checks=checks, not_applicable=na),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(meta, open(os.path.join(HERE, "props", "meta.json"), "w"),
              indent=1)


main()


def design():
    import glob

    from props.how import HOW

    out = []
    for p in P:
        out.append(f"### {p['id']} {p['title']}\n")
        if p["na"]:
            out.append(f"Not applicable: {p['na']}\n")
            continue
        out.append(p["statement"] + "\n")
        out.append("*How.*  " + HOW[p["id"]] + "\n")
        out.append("*Bounds.*  " + p["bounds"] + "." + (
            " " + p["note"] + "." if p["note"] else "") + "\n")
        if p["assumptions"]:
            out.append("*Assumptions.*  " + "; ".join(p["assumptions"])
                       + ".\n")
        out.append("*Beyond the tests.*  " + p["why"] + "\n")
    rows = ["| change | needs | caught by |", "|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        name = os.path.basename(os.path.dirname(f))
        rows.append(f"| {name} | {m['needs']} | "
                    f"{m.get('caught_by', m['property'])} |")
    t = open(os.path.join(HERE, "tools", "design.in.md")).read()
    t = t.replace("PER_PROPERTY", "## Properties\n\n" + "\n".join(out))
    t = t.replace("CATCHES", "\n".join(rows))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


design()
