#!/usr/bin/env python3
"""DESIGN.md from properties.jsonl, known_findings.txt, tools/design/ and, when present, seeded/"""
import glob, json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props={json.loads(l)['id']:json.loads(l) for l in open(V+'/properties.jsonl')}
D=json.load(open(V+'/tools/design/text.json'))
out=[open(V+'/tools/design/head.md').read().rstrip(),"\n\n## Properties\n"]
kf=[l.strip() for l in open(V+'/known_findings.txt') if l.startswith('finding:')]
fx=[l.strip() for l in open(V+'/known_findings.txt') if l.startswith('fixed:')]
for i in sorted(props):
    p=props[i]; d=D[i]
    out.append("### %s  %s\n\n%s\n"%(i,p['title'],p['statement']))
    for k in ('Enumerated','Oracle','Bounds','Cost','Beyond the tests','Notes'):
        if d.get(k): out.append("* **%s.** %s"%(k,d[k]))
    mine=[l for l in kf if 'property=%s '%i in l]
    if mine:
        out.append("* **Known findings** (real defects not repaired; the check prints KNOWN-FINDING for exactly these keys):")
        for l in mine:
            m=re.match(r'finding: property=\S+ key=(.*?) :: (.*)',l)
            out.append("  * `%s`: %s"%(m.group(1),m.group(2)))
    n=len([l for l in fx if 'property=%s '%i in l])
    if n: out.append("* **Repaired while building this check:** %d defect(s), listed with their commits in known_findings.txt."%n)
    out.append("")
out.append("## Planted bugs\n\nEach was written from the text of a property, passes the stable tests and is caught by the check of its property.\n\n| bug | property | needs |\n|---|---|---|")
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f))
    out.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),m['property'],' '.join(str(m['needs']).split()).replace('|','/')))
out.append("")
out.append(open(V+'/tools/design/tail.md').read())
open(V+'/DESIGN.md','w').write("\n".join(out).rstrip()+"\n")
