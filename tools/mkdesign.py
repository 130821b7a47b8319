#!/usr/bin/env python3
"""writes the generated parts of DESIGN.md: one section per property, the findings, the planted bugs"""
import json, os, re, glob, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]; man = json.load(open(H + '/MANIFEST.json')); na = {x['property']: x['reason'] for x in man['not_applicable']}; chk = {x['property']: x for x in man['checks']}
def mod(i):
    t = ast.parse(open(f'{H}/contracts/{i}.py').read()); d = ' '.join((ast.get_docstring(t) or '').split()); g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('SRC', 'ASSUMPTIONS') if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            try: g[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    return d, g
out = []
for p in props:
    i = p['id']; out.append(f"### {i} {p['title']}\n")
    if i in na: out.append(f"Not applicable: {na[i]}.\n"); continue
    d, g = mod(i); e = f'{H}/tools/stats.json'; s = json.load(open(e)).get(i) if os.path.exists(e) else None
    out.append(f"Code: {', '.join(p['anchors']['files'])}; contracts `contracts/{i}.py`, harness `harness/{g.get('SRC', '?')}`, replay `replay/{i}.cpp`.")
    out.append('Specified: ' + re.sub(r'^C\d\d: ', '', d)); out.append('Quantified over: ' + p['quantifier']['text'] + '.')
    out.append('What tests cannot settle: ' + p['why_tests_cant'] + '.'); out.append('Level: ' + chk[i]['level'] + '. ' + chk[i]['level_note'])
    if g.get('ASSUMPTIONS'): out.append('Assumed: ' + '; '.join(g['ASSUMPTIONS']) + '.')
    if s: out.append(f"On the current tree: {s['contracts']} contracts, {s['obligations']} obligations discharged ({s['functions']} functions of the code executed), {s['wall']:.0f} s.")
    out.append('')
S = dict(PERPROP='\n'.join(out), FINDINGS='\n'.join('- ' + l.strip() for l in open(H + '/known_findings.txt') if l.startswith(('fixed:', 'finding:'))))
rows = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')): m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
S['SEEDS'] = '\n'.join(rows)
t = open(H + '/DESIGN.md').read()
for k, v in S.items(): t = re.sub(rf'(<!-- {k} .*?-->\n).*?(<!-- END {k} -->)', lambda m: m.group(1) + v + '\n' + m.group(2), t, flags=re.S)
open(H + '/DESIGN.md', 'w').write(t)
