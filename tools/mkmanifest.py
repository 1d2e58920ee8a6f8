#!/usr/bin/env python3
"""writes MANIFEST.json: one check per rule module; the rest is listed as not applicable"""
import json, os, ast
H = '/verif/'
NA = {
 'C35': 'numerical accuracy of sin and of accumulated phase over arbitrarily long signals is a statement about floating-point rounding of runtime values; no sound static bound is in reach here (C16, C30 and C31 decide the structural parts: every frame is written, from phase that advances once per frame by 2*pi*f/fs)',
 'C36': 'round-trip numerical error of pow/log10 and of the wav encoder is a statement about runtime values inside libm and dr_wav; the structural parts (conversion formulas, clamp, full-scale factors, channel order) are decided under C14, C22 and C30',
}
TECH = json.load(open(H + 'tools/technique.json'))
checks = []; na = []
for l in open(H + 'properties.jsonl'):
    p = json.loads(l); i = p['id']
    f = H + 'rules/%s.py' % i.lower()
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read())) or ''
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i, 'technique': TECH.get(i, 'static analysis: guarded value numbering over the type-checked AST'), 'level': 'other',
                       'level_note': ' '.join(doc.split()) + ' Trusts clang\'s front end, the exporter, the value-flow engine and its models of the standard library; obligations the engine cannot decide are listed as undetermined in the evidence and raise no alarm.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check yet (work in progress)')})
m = {'version': 1, 'setup_cmd': 'bash exporter/build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(H + 'MANIFEST.json', 'w'), indent=1); open(H + 'MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
