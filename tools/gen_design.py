"""Assembles DESIGN.md from tools/design_head.md, the table below, the checks' own descriptions, known_findings.json and seeded/*/meta.json."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')

# property -> (oracle, why it reaches what tests cannot)
T = json.load(open(V + '/tools/design_table.json'))


def main():
    import main as m
    m.bootstrap()
    import warnings
    warnings.simplefilter('ignore')
    titles = {}
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        titles[d['id']] = d
    caught = {}
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        x = json.load(open(f))
        caught.setdefault(x['property'], []).append((f.split('/')[-2], x))
    fixed = {}
    for l in json.load(open(V + '/known_findings.json'))['fixed']:
        g = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
        fixed.setdefault(g.group(1), []).append((g.group(2), g.group(3)))
    out = [open(V + '/tools/design_head.md').read()]
    out.append('## The properties and how each is decided\n')
    for p in sorted(titles):
        P = importlib.import_module('props.' + p.lower()).PROP
        t = T[p]
        out.append('### {} {}\n'.format(p, titles[p]['title']))
        out.append('* **Generated.** ' + P.rule)
        out.append('* **Oracle.** ' + t['oracle'])
        out.append('* **Bounds and cost.** ' + ' / '.join('{}: {} cases (thorough {})'.format(s.name, s.quick, s.thorough) for s in P.subs) + '. ' + t.get('cost', 'Quick run 10-25 s on 8 cores.'))
        if P.assumptions:
            out.append('* **Assumes.** ' + '; '.join(P.assumptions) + '.')
        out.append('* **Beyond the tests.** ' + t['why'])
        if p in fixed:
            out.append('* **Repaired defects it found.** ' + '; '.join('`{}` {}'.format(c, w.split(' -- before')[0]) for c, w in fixed[p]) + '.')
        if p in caught:
            out.append('* **Planted bugs it catches.** ' + '; '.join('`{}` ({})'.format(n, x['what_it_breaks'] or x['needs']) for n, x in caught[p]) + '.')
        out.append('')
    open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')


main()
