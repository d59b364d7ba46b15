#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, gen_manifest.py and evidence/) + tools/design_tail.md.
Run after all checks: python3 tools/gen_design.py [EVIDENCE_DIR] > DESIGN.md"""
import json, os, re, sys, glob, io, contextlib
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
os.chdir(root)
sys.path.insert(0, here)
with contextlib.redirect_stdout(io.StringIO()):
    import gen_manifest as M
ev = sys.argv[1] if len(sys.argv) > 1 else 'evidence'
props = [json.loads(l) for l in open('properties.jsonl')]

muts, okm = {}, {}
for f in sorted(glob.glob('mutants/*.txt')):
    for l in open(f):
        if l.startswith('== '):
            _, i, p, _ = l.split()
            for q in p.split(','):
                muts.setdefault(q, []).append(i)
seeds = {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))

out = [open('tools/design_head.md').read().rstrip(), '', '## Properties, one by one', '']
for p in props:
    i = p['id']
    if i in M.CLAIMS:
        tech, note = M.CLAIMS[i]
        out += [f'### {i} {p["title"]}', '']
        e = json.load(open(f'{ev}/{i}.json'))
        c = e['coverage']
        out += [f'Method: {re.sub("^[Ss]tatic analysis: ", "", tech)}.', '', 'Rules:', '']
        for r, x in sorted(c['rules'].items()):
            out += [f'- `{r}` ({x["obligations"]} obligations): {x["rule"]}']
        out += ['']
        fa = c.get('functions_analysed') or []
        out += [f'Analysed on the current tree: {c["obligations"]} obligations in {len(fa)} functions' +
                (f', {c["counts"]["abstract_steps"]} abstract steps' if 'abstract_steps' in c['counts'] else '') + '.']
        out += [f'Bounds and limits: {note}']
        for a in e.get('assumptions') or []:
            out += [f'Assumes: {a}']
        if i in seeds:
            out += ['Seeded changes: ' + '; '.join(f'`{n}` ({m["what_it_breaks"]})' for n, m in seeds[i]) + '.']
        if i in muts:
            out += [f'Mutants that must be reported: {len(muts[i])}.']
        out += ['']
out += ['## Properties not decided', '']
for p in props:
    if p['id'] not in M.CLAIMS:
        out += [f'- {p["id"]} {p["title"]}: {M.NA.get(p["id"], "")}']
out += ['', f'Behaviour-preserving edits on which every check must stay quiet: {len(muts.get("-", []))} (records with property `-` in mutants/).', '']
out += [open('tools/design_tail.md').read().rstrip()]
print('\n'.join(out))
