#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the checks, design_notes.txt and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p): return open(os.path.join(V, p)).read()
def table(p):
    t = {}
    for l in rd(p).splitlines():
        if l and not l.startswith('#'):
            a = [x.strip() for x in l.split('|')]
            t[a[0]] = a[1:]
    return t
notes, tech = table('tools/design_notes.txt'), table('tools/techniques.txt')
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
out = [rd('tools/design_head.md').rstrip(), '', '## Per property', '']
known = rd('known_findings.txt').splitlines()
for p in props:
    i = p['id']
    src = glob.glob(f'{V}/props/{i}_*.cc')[0]
    s = open(src).read()
    args, cur, q, depth, k = [], '', False, 1, s.index('PROPERTY(') + 9
    while depth:
        c = s[k]
        if q:
            if c == '\\': cur += s[k + 1]; k += 1
            elif c == '"': q = False
            else: cur += c
        elif c == '"': q = True
        elif c == ',': args.append(cur); cur = ''
        elif c == '(': depth += 1
        elif c == ')': depth -= 1
        k += 1
    args.append(cur)
    facets = re.findall(r'^FACET\((\w+), (\d+), (\d+)', s, re.M)
    out += [f'### {i} {p["title"]}', '']
    out += [f'* Generated: {args[1]}.']
    if len(args) > 2: out += ['* Assumed: ' + '; '.join(args[2:]) + '.']
    out += [f'* Oracle and bounds: {notes[i][0]}']
    out += ['* Cases (quick / thorough): ' + ', '.join(f'`{n}` {int(a):,} / {int(b):,}' for n, a, b in facets)
            + ('; coverage-guided fuzzing in the thorough tier' if '// FUZZ: yes' in s else '')
            + f'. In `props/{os.path.basename(src)}`.']
    fx = [l for l in known if l.startswith(('fixed: ', 'finding: ')) and f'property={i} ' in l]
    if fx: out += ['* Found: ' + '; '.join(re.sub(r'^\w+: property=\w+ ', ('' if l.startswith('fixed') else 'open: '), l) for l in fx) + '.']
    out += ['']
out += ['## Planted bugs', '',
        'Each was written from the text of a property and the code, and confirmed to build, to pass the stable tests and to',
        'fail its demonstration. "first missed" marks those the checks did not see when they were planted; the last column',
        'says what was strengthened. All are caught by the quick check of their property now, unless said otherwise.', '',
        '| bug | needs | caught by | remark |', '|---|---|---|---|']
res = table('tools/seeded_remarks.txt') if os.path.exists(V + '/tools/seeded_remarks.txt') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    r = res.get(n, [m['property'], ''])
    out += [f'| {n} | {m["needs"]} | {r[0] or m["property"]} | {r[1] if len(r) > 1 else ""} |']
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
