#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 vk/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PROPS, NA = [], []
SAN = "runtime monitoring: ASan+UBSan build, "


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, technique=technique, note=note, rec=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API calls and their results"], hook_needed=None))))


exec(open(os.path.join(HERE, "props_text.py")).read())


def design(CHECKS):
    """DESIGN.md = vk/DESIGN.tpl + one paragraph per property + the planted-bug table."""
    import glob
    out = []
    for p in PROPS:
        r, c = p["rec"], CHECKS[p["id"]]
        out.append("### %s %s\n" % (p["id"], r["title"]))
        out.append("* Decided by: %s. Harnesses: %s.\n* Workload: %s.\n* Ranges over: %s.\n* Why not tests: %s\n* Bounds and trust: %s\n"
                   % (p["technique"], ", ".join(sorted({"`h/%s`" % CHECKS_H[h[0] if isinstance(h, (list, tuple)) else h]["src"] for h in c["harnesses"]})),
                      c.get("rule", ""), r["quantifier"]["text"], r["why_tests_cant"], p["note"]))
    res = {}
    rf = os.path.join(VERIF, "tools", "seed_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    seeds = ["| planted bug | property | needs | caught by its quick check |", "|---|---|---|---|"]
    for d in sorted(res):
        seeds.append("| %s | %s | %s | %s |" % (d, res[d]["property"], res[d]["needs"], res[d]["caught"]))
    t = open(os.path.join(HERE, "DESIGN.tpl")).read()
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(
        t.replace("PROPS_TABLE", "\n".join(out)).replace("SEED_TABLE", "## Planted bugs\n\n" + "\n".join(seeds) + "\n"))


def main():
    from checks import CHECKS, HARNESSES
    global CHECKS_H
    CHECKS_H = HARNESSES
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in CHECKS:
            checks.append(dict(property=p["id"], quick_cmd="python3 vk/run.py %s quick" % p["id"],
                               thorough_cmd="python3 vk/run.py %s thorough" % p["id"],
                               technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            assert any(n["property"] == p["id"] for n in NA), p["id"]
    extra = set(CHECKS) - {p["id"] for p in PROPS}
    if extra:
        print("checks without a property:", sorted(extra))
    man = dict(version=1, setup_cmd="python3 vk/build.py --setup", checks=checks, not_applicable=NA,
               notes="No hooks were needed in /repo: every monitor observes the public API of an instrumented out-of-tree build of /repo's working tree. Replay a violation with: python3 vk/run.py --replay <path>.")
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    design(CHECKS)
    print(len(PROPS), "properties", len(checks), "checks")


main()
