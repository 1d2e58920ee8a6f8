#!/usr/bin/env python3
"""seed.py [ID...]: makes /verif/seeded/<ID> from tools/seeds.py and confirms each in a scratch copy: the patch applies, changes original lines only,
   the tests build and pass, the demonstration passes without and fails with it. -k: keep going without running the checks; -c: also run the property's check."""
import sys, os, subprocess, shutil, json, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
H = os.path.dirname(os.path.abspath(__file__)); OUT = '/verif/seeded'; W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it in a scratch folder
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); r=$PWD
g++ -std=c++11 %s -I"$r/include" -I"$r/dependencies/CLI11" -I"$r/dependencies/dr_libs" "$d"/*.cpp -o "$t/demo" || { find "$t" -delete; exit 3; }
cd "$t"; timeout 120 ./demo > out.txt 2>&1; rc=$?; tail -n 5 out.txt; cd /; find "$t" -delete; exit $rc
'''
def sh(c, cwd=W, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    subprocess.run(['find', W, '-delete'], stderr=subprocess.DEVNULL); subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
def demo(d): return sh('bash %s/demo.sh' % d)
def baseline(): return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    w = '/tmp/seedtest'; subprocess.run(['find', w, '-delete'], stderr=subprocess.DEVNULL); os.makedirs(w + '/run')
    objs = []; ps = []
    for f in sorted(os.listdir(W + '/tests')):
        if f.endswith('.cpp'): o = w + '/' + f + '.o'; objs.append(o); ps.append(subprocess.Popen('g++ -std=c++11 -O1 -Iinclude -Idependencies/CLI11 -Idependencies/dr_libs -c tests/%s -o %s' % (f, o), shell=True, cwd=W, stderr=subprocess.PIPE, text=True))
    for p in ps:
        e = p.communicate()[1]
        if p.returncode: return 'does not build: ' + e[:300]
    if sh('g++ %s -o %s/t' % (' '.join(objs), w)).returncode: return 'link'
    sh('python3 /opt/vp/run_hart.py %s/t %s/tests/data %s/run' % (w, W, w))
    res = open(w + '/run/results.txt').read().splitlines()
    got = {l[5:] for l in res if l.startswith('PASS ')}
    return None if baseline() <= got else 'tests fail: %s' % sorted(baseline() - got)
def blame(patch):
    bad = 0; good = 0; f = None; ln = 0
    for l in open(patch, newline='').read().split('\n'):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)) - 1; continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-') or l.startswith(' '): ln += 1
        if l.startswith('-'):
            c = subprocess.run(['git', 'log', '-1', '--format=%s', subprocess.run(['git', 'blame', '-s', '-L%d,%d' % (ln, ln), '--', f], cwd='/repo', capture_output=True, text=True).stdout.split()[0].lstrip('^')], cwd='/repo', capture_output=True, text=True).stdout
            if c.startswith('fix:'): bad += 1
            else: good += 1
    return good, bad
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]; flags = [x for x in sys.argv[1:] if x.startswith('-')]
    fresh()
    for s in SEEDS:
        if a and s['id'] not in a and s['property'] not in a: continue
        d = OUT + '/' + s['id']; os.makedirs(d, exist_ok=True)
        sh('git checkout -q -- .')
        msg = []
        for (f, old, new, *n) in s['edits']:
            fn = W + '/include/' + f; t = open(fn, newline='').read(); e = '\r\n' if '\r\n' in t else '\n'; o = old.replace('\n', e); nw = new.replace('\n', e); n = n[0] if n else 0
            parts = t.split(o)
            if len(parts) < n + 2: msg.append('edit does not apply: ' + f); continue
            open(fn, 'w', newline='').write(o.join(parts[:n + 1]) + nw + o.join(parts[n + 1:]))
        if msg: print(s['id'], msg); continue
        p = sh('git diff'); raw = subprocess.run(['git', 'diff'], cwd=W, capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(raw)
        shutil.copy(H + '/seedlib/probe.hpp', d + '/probe.hpp')
        open(d + '/demo.cpp', 'w').write('#include "probe.hpp"\nint main()\n{\n    %s\n    return ok ? 0 : 1;\n}\n' % s['demo'].strip() if 'main (' not in s['demo'] else '#include "probe.hpp"\n' + s['demo'])
        for n, t in s.get('extra', {}).items(): open(d + '/' + n, 'w').write(t)
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '-O1'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh('git checkout -q -- .')
        c = demo(d)
        if c.returncode: print(s['id'], 'DEMO FAILS ON CLEAN', c.returncode, (c.stdout + c.stderr)[-600:]); continue
        ap = sh('git apply %s/patch.diff' % d)
        if ap.returncode: print(s['id'], 'PATCH', ap.stderr); continue
        c = demo(d)
        if c.returncode in ((0,) if s.get('compile') else (0, 3)): print(s['id'], 'DEMO DOES NOT FAIL', c.returncode, (c.stdout + c.stderr)[-600:]); continue
        t = tests()
        if t: print(s['id'], t); continue
        g, b = blame(d + '/patch.diff')
        line = '%s %s confirmed (demo rc %d; %d original, %d fix lines removed)' % (s['id'], s['property'], c.returncode, g, b)
        if not g or b: line += '  <-- LINES'
        if '-c' in flags:
            r = subprocess.run(['python3', '/verif/check.py', s['property']], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
            line += '  check rc %d %s' % (r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1])
        print(line, flush=True)
    sh('git checkout -q -- .')
main()
