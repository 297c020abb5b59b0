"""DESIGN.md = tools/design_head.md with the table of seeded changes"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    cut = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], cut(m['needs']), m.get('caught_by', 'check %s' % m['property'])))
s = open(os.path.join(V, 'tools', 'design_head.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(s.replace('@@SEEDS@@', '\n'.join(rows)))
