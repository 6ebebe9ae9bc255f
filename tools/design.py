#!/usr/bin/env python3
"""Writes DESIGN.md: DESIGN.head.md, what decides each property (properties.jsonl, engine/specs.go), DESIGN.tail.md,
and which checks catch which seeded changes (tools/catch.json, written by tools/seedrun.py)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(root, f)).read()
spec = rd('engine/specs.go')
entry = re.compile(r'\{H: "(\w+)", Fn: "(\w+)",(.*?)Bounds: "((?:[^"\\]|\\.)*)"')
groups = {}
for m in re.finditer(r'^var (\w+) = (\[\]Entry|Entry)\{(.*?)^\}?$|^var (\w+) = Entry\{(.*)\}$', spec, re.M | re.S):
    pass
def entries(txt):
    return [(a, b, d) for a, b, _, d in entry.findall(txt)]
for m in re.finditer(r'^var (\w+) = Entry(\{.*\})$', spec, re.M):
    groups[m.group(1)] = entries(m.group(2).replace('{H', '{H', 1))
for m in re.finditer(r'^var (\w+) = \[\]Entry\{\n(.*?)^\}', spec, re.M | re.S):
    groups[m.group(1)] = entries(m.group(2))
checks = {}
body = spec[spec.index('var checks'):]
parts = re.split(r'^\t"(C\d\d)": ', body, flags=re.M)
for i in range(1, len(parts), 2):
    txt = parts[i + 1]
    pos = []
    for m in entry.finditer(txt):
        pos.append((m.start(), [(m.group(1), m.group(2), m.group(4))]))
    bare = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', txt)
    for g, es in groups.items():
        for m in re.finditer(r'\b%s(\[\d+\])?(\.\.\.)?' % g, bare):
            es2 = [es[int(m.group(1)[1:-1])]] if m.group(1) else es
            pos.append((m.start(), es2))
    seen, out = set(), []
    for _, es in sorted(pos, key=lambda x: x[0]):
        for e in es:
            if e[:2] not in seen:
                seen.add(e[:2])
                out.append(e)
    checks[parts[i]] = out
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
out = [rd('tools/DESIGN.head.md').rstrip(), '', '## Per property: what decides it, within which bounds', '',
       'Harness `cNN.Name` is function `Name` in `harness/cNN`. "(thorough ...)" is the bound of the thorough tier. A harness',
       'shared by several properties is described once.', '']
done = set()
for p in props:
    es = checks.get(p['id'])
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('')
    if not es:
        out += ['Not applicable, see below.', '']
        continue
    for h, f, b in es:
        if (h, f) in done:
            out.append('- `%s.%s` (above)' % (h, f))
        else:
            out.append('- `%s.%s`: %s' % (h, f, b.replace('\\"', '"')))
            done.add((h, f))
    out.append('')
out.append(rd('tools/DESIGN.tail.md').rstrip())
out.append('')
c = os.path.join(root, 'tools/catch.json')
if os.path.exists(c):
    catch = json.load(open(c))
    out += ['| change | property | caught by its check | needs |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
        m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
        r = catch.get(d)
        t = 'not run' if r is None else ('yes, %s (%d s)' % (r['by'], r['seconds']) if r['rc'] == 1 else 'NO')
        out.append('| %s | %s | %s | %s |' % (d, m['property'], t, m['needs'].replace('|', '\\|')))
    out.append('')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
