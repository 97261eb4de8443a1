"""writes MANIFEST.json from engine/jobs.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs, meta
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(VERIF + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in jobs.PROPS:
        na.append(dict(property=i, reason=jobs.NA.get(i, 'check under construction')))
        continue
    P = jobs.PROPS[i]
    eng = sorted(set(j.get('engine', 'symir') for j in P['jobs']))
    tech = {'symir': 'path-wise symbolic execution of the LLVM IR of the real code, Z3 deciding branches and assertions',
            'cbmc': 'bounded model checking of the C sources with CBMC (bit-precise floats, SAT)'}
    checks.append(dict(property=i, quick_cmd='python3-vt engine/driver.py %s quick' % i, thorough_cmd='python3-vt engine/driver.py %s thorough' % i,
                       technique='; '.join(tech[e] for e in eng), level='model_checking',
                       level_note='Bounds: ' + meta.M[i]['bounds'] + ' Outside: ' + meta.M[i]['outside'] + '. Decided for every value of the symbolic inputs within the stated bounds; violations are replayed on the compiled code before being reported. Trusted: clang/CBMC front ends, the executor (sampled paths are re-run natively and compared), Z3/SAT; outside the bounds nothing is claimed.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(VERIF + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))

# per-property section of DESIGN.md
d = open(VERIF + '/DESIGN.md').read()
A, B = '<!-- properties: generated by engine/mkmanifest.py from engine/meta.py -->', '<!-- end of properties -->'
if A in d:
    out = [A, '']
    for p in props:
        m = meta.M[p['id']]
        P = jobs.PROPS[p['id']]
        eng = sorted(set(j.get('engine', 'symir') for j in P['jobs']))
        out += ['### %s %s' % (p['id'], p['title']), '',
                '* Decided by (%s, %d jobs): %s' % ('+'.join(eng), len(P['jobs']), m['method']), '* Oracle: %s.' % m['oracle'].rstrip('.'),
                '* Bounds: %s' % m['bounds'], '* Outside the bounds: %s' % m['outside'], '* Beyond tests because: %s.' % m['why'], '']
    open(VERIF + '/DESIGN.md', 'w').write(d[:d.index(A)] + '\n'.join(out) + d[d.index(B):])
