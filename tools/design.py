"""Development only: renders the findings and seeded-bug tables of DESIGN.md (between the markers) from known_findings.txt and seeded/."""
import json, os, re
p = '/verif/DESIGN.md'
s = open(p).read()
by = {}
for l in open('/verif/known_findings.txt'):
    m = re.match(r'(fixed|known): property=(\S+) (\S+) (.*)', l)
    if m:
        by.setdefault(m.group(2), []).append((m.group(3), m.group(4), m.group(1)))
fx = '\n'.join(f'* **{k}** ' + '; '.join(f'{w} (`{c}`)' if t == 'fixed' else f'KNOWN {w}' for c, w, t in v) for k, v in sorted(by.items()))
rows = ['| bug | property | what is changed | needs | noticed by |', '|---|---|---|---|---|']
caught = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for b in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{b}/meta.json'))
    f = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', open(f'/verif/seeded/{b}/patch.diff').read(), re.M)))
    clean = lambda x: str(x).replace('|', '/').replace('\n', ' ')
    rows.append(f"| {b} | {m['property']} | {', '.join(os.path.basename(x) for x in f)}: {clean(m['what_it_breaks'])} | {clean(m['needs'])} | {caught.get(b, m['property'])} |")
for name, txt in (('findings', fx), ('seeded', '\n'.join(rows))):
    s = re.sub(rf'(<!-- {name} -->\n).*?(\n<!-- /{name} -->)', lambda m: m.group(1) + txt + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
