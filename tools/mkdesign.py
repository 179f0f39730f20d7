#!/usr/bin/env python3
"""Writes DESIGN.md: the text in tools/design_text.md, with the per property section and the tables of
findings and planted bugs generated from props.py, drivers/plans.json, the specs and seeded/."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
plans = json.load(open(os.path.join(HERE, "drivers", "plans.json")))


def cfg_names(cfg):
    inv, pr = [], []
    for line in open(os.path.join(HERE, "spec", cfg)):
        w = line.split()
        if w and w[0].startswith("INVARIANT"):
            inv += w[1:]
        if w and w[0].startswith("PROPERT"):
            pr += w[1:]
    return [x for x in inv if x != "Emit"], pr


def header(mod):
    t = open(os.path.join(HERE, "spec", mod + ".tla")).read()
    m = re.search(r"\(\*{10,}\)\n(.*?)\(\*{10,}\)", t, re.S)
    if not m:
        return ""
    s = " ".join(l.strip()[2:-2].strip() for l in m.group(1).splitlines())
    return re.sub(r"\s+", " ", s).strip()


def section(p):
    pid, title, st, over, qt, why, files, mech = p
    pl = plans[pid]
    out = [f"### {pid} {title}", ""]
    out.append(f"*Specified* (`spec/{pid}.tla`): {header(pid)}")
    seen = {}
    for tier in ("quick", "thorough"):
        for m in pl[tier]["models"]:
            inv, pr = cfg_names(m["cfg"])
            seen.setdefault(m["module"], [set(), set()])
            seen[m["module"]][0].update(inv)
            seen[m["module"]][1].update(pr)
    for mod, (inv, pr) in seen.items():
        out.append(f"*Model checked* (`{mod}`): invariants {', '.join(sorted(inv))}" +
                   (f"; action/temporal properties {', '.join(sorted(pr))}" if pr else "") + ".")
    rec = ", ".join(f"{r['n']}" + (" compiled" if r.get("jit") else "") for r in pl["quick"]["record"])
    rect = ", ".join(f"{r['n']}" + (" compiled" if r.get("jit") else "") for r in pl["thorough"]["record"])
    out.append(f"*Bound to the code* (`drivers/{pid.lower()}.py`): emitted behaviours replayed; "
               f"{rec} (thorough: {rect}) recorded executions validated by `T_{pid}`.")
    out.append(f"*Ranges over*: {qt}.")
    out.append(f"*Bounds and oracle*: {pl['note'].replace(' TLC and the drivers in drivers/ are trusted.', '')}")
    out.append(f"*Beyond the tests*: {why}")
    return "  \n".join(out[:1]) + "\n\n" + "\n".join("- " + l for l in out[2:]) + "\n"


def seeds():
    rows = ["| id | what it breaks | needs |", "|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        rows.append(f"| {os.path.basename(d)} | {m['what_it_breaks']} | {m['needs']} |")
    return "\n".join(rows)


def findings():
    rows = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith(("known:", "fixed:")):
            rows.append("- " + l.strip())
    return "\n".join(rows)


t = open(os.path.join(HERE, "tools", "design_text.md")).read()
t = t.replace("@@PROPERTIES@@", "\n".join(section(p) for p in PROPS if p[0] in plans))
t = t.replace("@@SEEDS@@", seeds()).replace("@@FINDINGS@@", findings())
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
print(len(t), "bytes")
