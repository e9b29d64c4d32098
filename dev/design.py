"""Writes DESIGN.md: the text below, and per property what dev/props.py, the
seeds and the evidence of the last run say."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
import importlib.util, sys
sys.path.insert(0, here)
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
man = json.load(open(root + '/MANIFEST.json'))
seeds = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
claims = {c['property']: c for c in man.get('checks', man.get('properties', [])) if isinstance(c, dict) and 'property' in c} if isinstance(man, dict) else {}
intro = open(here + '/design_head.md').read()
how = {}
cur = None
for line in open(here + '/design_how.md'):
    if line.startswith('# '):
        cur = line[2:].strip()
        how[cur] = ''
    elif cur:
        how[cur] += line
out = [intro.rstrip(), '']
out.append('## The properties one by one\n')
groups = [('Wire protocols (encoding/thriftbinary, thriftcompact, thriftwire)', 'BCW'), ('Package thrift', 'T'), ('Package thriftfile', 'P'), ('Other packages', 'MS')]
for title, letters in groups:
    ps = [p for p in props if p['id'][0] in letters]
    if not ps:
        continue
    out.append('### %s\n' % title)
    for p in ps:
        i = p['id']
        out.append('**%s — %s.** %s' % (i, p['title'], how.get(i, '').strip()))
        s = seeds.get(i, [])
        if s:
            out.append('Planted bugs it catches: ' + '; '.join('`%s` (%s)' % (a, b[0].lower() + b[1:] if not b.split()[0].isupper() else b) for a, b in s) + '.')
        out.append('')
missing = [p['id'] for p in props if not how.get(p['id'], '').strip()]
if missing:
    print('no text for', missing)
tail = open(here + '/design_tail.md').read()
out.append(tail.rstrip())
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
