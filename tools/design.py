#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design/*.md, and for every property what its
harnesses say of themselves, the numbers of the last quick run and the planted bugs."""
import json, re, os, glob
V = '/verif'
D = V + '/tools/design/'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
rule, assume = {}, {}
for f in sorted(glob.glob(V + '/mc/props/c*.go')):
    s = open(f).read()
    m = re.search(r'engine\.Register\(&engine\.Property\{(.*)', s, re.S)
    if not m: continue
    t = m.group(1)
    i = re.search(r'ID:\s*"(C\d\d)"', t).group(1)
    rule[i] = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', t).group(1).replace('\\"', '"')
    a = re.search(r'Assumptions:\s*\[\]string\{(.*?)\},?\s*\n\s*Harnesses', t, re.S)
    assume[i] = [x.replace('\\"', '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1))] if a else []
extra = {}
for part in re.split(r'^## ', open(D + 'properties.md').read(), flags=re.M)[1:]:
    h, b = part.split('\n', 1)
    extra[h.strip()] = b.strip()
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
out = [open(D + 'head.md').read().rstrip(), '', '# Properties', '']
for p in props:
    i = p['id']
    out += ['## %s: %s' % (i, p['title']), '', '*Explored:* ' + rule.get(i, '?'), '']
    if extra.get(i): out += [extra[i], '']
    if assume.get(i): out += ['*Bounds and assumptions:* ' + '; '.join(assume[i]) + '.', '']
    out += ['*Beyond the tests:* ' + p.get('why_tests_cant', '') + '.', '']
    try:
        e = json.load(open(V + '/tools/design/quick/%s.json' % i))
        out += ['*Quick run:* ' + '; '.join('%s %s executions%s' % (h['harness'], f"{h['executions']:,}", ' (bound %d)' % h['wanted_deviation_bound'] if h['wanted_deviation_bound'] else '') for h in e['harnesses']) + '; %d s.' % round(e['wall_s']), '']
    except FileNotFoundError: pass
    bugs = sorted(b for b in os.listdir(V + '/seeded') if json.load(open(V + '/seeded/' + b + '/meta.json'))['property'] == i)
    if bugs: out += ['*Planted bugs:* ' + '; '.join('`%s` (%s)' % (b, res.get(b, '?')) for b in bugs) + '.', '']
out += [open(D + 'tail.md').read().rstrip(), '']
k = json.load(open(V + '/known_findings.json'))
out += ['## Defects repaired', '', 'Each was found by a check (or while modelling for it), shown on the real code, and repaired by a `fix:` commit;', 'the check of the property reports it again if it returns.', '']
by = {}
for l in k['fixed']:
    m = re.match(r'fixed: property=(C\d\d) (\w+) (.*)', l)
    by.setdefault(m.group(1), []).append('%s (%s)' % (m.group(3), m.group(2)))
for i in sorted(by): out += ['- **%s**: ' % i + '; '.join(by[i]) + '.']
out += ['', '## Defects recorded', '']
for f in k['findings']: out += ['- **%s** (harness %s, case %s): %s.' % (f['property'], f['harness'], f['case'], f['what'])]
out += ['', open(D + 'findings.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'paragraphs')
