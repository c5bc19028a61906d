#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (per property: harnesses and bounds; planted bugs)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import spec as S
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}


def table1():
    o = []
    for p in sorted(props):
        o.append(f"### {p} {props[p]['title']}\n")
        if p in S.NOT_APPLICABLE:
            o.append("Not applicable: " + S.NOT_APPLICABLE[p] + "\n")
            continue
        for e in S.PROPS[p]["entries"]:
            o.append(f"- `{e['entry']}`: {e['bounds']}")
        for a in S.PROPS[p]["assumptions"]:
            o.append(f"- assumed: {a}")
        o.append("")
    return "\n".join(o)


def table2():
    o = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    res = json.load(open(V + "/seed_results.json"))
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        o.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, 'not run')} |")
    return "\n".join(o)


def table3():
    return "\n".join("- " + k["what"] for k in json.load(open(V + "/known_findings.json")))


t = open(V + "/DESIGN.md").read()
for n, f in (("bounds", table1), ("bugs", table2), ("defects", table3)):
    t = re.sub(rf"(<!-- {n} -->\n).*?(<!-- /{n} -->)", lambda m: m.group(1) + f() + "\n" + m.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
