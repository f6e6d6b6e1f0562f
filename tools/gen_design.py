"""Fill the two tables of DESIGN.md from DESIGN.in.md, checks/*.py and seeded/*."""
import ast, json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, 'tools', 'design_notes.py')).read())
props = [json.loads(l) for l in open(f'{ROOT}/properties.jsonl')]
m = json.load(open(f'{ROOT}/MANIFEST.json'))
na = {n['property']: n['reason'] for n in m['not_applicable']}
out = []
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f'Not applicable: {na[i]}.\n')
        continue
    mod = ast.parse(open(f'{ROOT}/checks/{i.lower()}.py').read())
    assume, hs = [], []
    for n in ast.walk(mod):
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            assume = ast.literal_eval(n.value)
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Harness' and len(n.args) > 2:
            try:
                thor = any(k.arg == 'quick' and isinstance(k.value, ast.Constant) for k in n.keywords)
                hs.append((ast.literal_eval(n.args[0]), ast.literal_eval(n.args[2]), thor))
            except ValueError:
                pass
    out.append(NOTES.get(i, '') + '\n')
    out.append('Harnesses: ' + '; '.join(f'`{a}` ({b}{", thorough only" if t else ""})' for a, b, t in hs) + '.')
    if assume:
        out.append('Assumptions: ' + '; '.join(assume) + '.')
    out.append('')
seeds = ['| change | property | needs | caught |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
    d = json.load(open(f)); n = f.split('/')[-2]
    seeds.append(f"| {n} | {d['property']} | {d['needs']} | {CAUGHT.get(n, 'yes')} |")
s = open(f'{ROOT}/tools/DESIGN.in.md').read()
open(f'{ROOT}/DESIGN.md', 'w').write(s.replace('@@TABLE@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(seeds)))
