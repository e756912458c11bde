"""Writes DESIGN.md: the text below plus, per property, the bounds that its check states."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
HOW = {}
cur = None
for l in open(V + '/tools/design_how.md'):
    if l.startswith('## '): cur = l[3:].strip(); HOW[cur] = ''
    elif cur: HOW[cur] += l
def kwargs(p):
    r = {}
    def val(n):
        try: return ast.literal_eval(n)
        except ValueError: return None
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ('bounds', 'outside', 'stubs', 'functions'): r[k.arg] = val(k.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('bounds', 'outside', 'stubs'): r[n.targets[0].id] = val(n.value)
    return r
bugs = {}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    bugs.setdefault(m['property'], []).append((b, m['what_it_breaks']))
out = HEAD
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    f = '%s/checks/%s.py' % (V, p['id'])
    if not os.path.exists(f): continue
    k = kwargs(f)
    out += '\n### %s %s\n\n%s\n' % (p['id'], p['title'], HOW[p['id']].strip())
    if k.get('bounds'): out += '\n* Bounds: %s.\n' % k['bounds'].rstrip('.')
    if k.get('outside'): out += '* Outside: %s.\n' % k['outside'].rstrip('.')
    if k.get('stubs'): out += '* Stand-ins: %s.\n' % '; '.join(k['stubs'])
    if p['id'] in bugs: out += '* Planted bugs, all caught by this check: %s.\n' % '; '.join('`%s` (%s)' % x for x in bugs[p['id']])
out += TAIL
kf = json.load(open(V + '/known_findings.json'))
out += '\n## Findings recorded, not repaired\n\n' + ''.join('* **%s** (%s): %s\n' % (x['property'], x['key'].split(':')[0], x['what']) for x in kf['findings'])
out += '\n## Defects repaired in /repo\n\n' + ''.join('* %s\n' % x[len('fixed: property='):] for x in kf['fixed'])
open(V + '/DESIGN.md', 'w').write(out)
