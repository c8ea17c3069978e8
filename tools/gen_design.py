#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, properties.jsonl, mc/src/props/text.rs, MANIFEST.json and tools/design_tail.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
txt = rd("mc/src/props/text.rs")
consts = {m.group(1): re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2)) for m in re.finditer(r'const (\w+): &\[&str\] = &\[(.*?)\];', txt, re.S)}
about = {}
for m in re.finditer(r'"(C\d+)" => a\((.*?)\n        \),', txt, re.S):
    body = m.group(2)
    tail_const = re.search(r'\n\s*([A-Z]+),?\s*$', body)
    st = [s.replace('\\"', '"') for s in re.findall(r'"((?:[^"\\]|\\.)*)"', body)]
    about[m.group(1)] = (st[0], st[1], st[2], consts[tail_const.group(1)] if tail_const else st[3:])
times = json.loads(rd("tools/times.json")) if os.path.exists(os.path.join(R, "tools/times.json")) else {}
o = [rd("tools/design_head.md"), "\n## The properties, one by one\n"]
for p in props:
    i = p["id"]; rule, q, t, asm = about[i]; c = man[i]
    tm = times.get(i, {})
    o.append(f"### {i} {p['title']}\n")
    o.append(f"{p['statement']}\n")
    o.append(f"- Decided by: {c['technique'].replace('model checking: ','')} (level `{c['level']}`).")
    o.append(f"- Enumerated, and what is compared: {rule}.")
    o.append(f"- Quick bounds: {q}.")
    o.append(f"- Thorough bounds: {t}.")
    if asm: o.append("- Assumes / leaves out: " + "; ".join(asm) + ".")
    if tm: o.append(f"- Cost: quick {tm.get('quick','?')} s, thorough {tm.get('thorough','?')} s on 8 cores (after a build of about 16 s from nothing).")
    o.append(f"- Why tests cannot: {p['why_tests_cant']}\n")
o.append(rd("tools/design_tail.md"))
res = os.path.join(R, "tools/seed_results.txt")
if os.path.exists(res):
    o.append("| planted bug | property | what it breaks | quick check |\n|---|---|---|---|")
    got = {}
    for l in open(res):
        f = l.split()
        if len(f) >= 3: got[f[0]] = f[1] + " " + f[2]
    sd = os.path.join(R, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        o.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {got.get(d, 'not tried')} |")
    o.append("")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(o))
