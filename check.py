#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's current tree by static analysis."""
import sys, os, json, time, hashlib, subprocess, importlib, glob, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
TITLE = {}
FLAGS = ['-std=c++11', '-I%s/include' % REPO, '-I%s/dependencies/CLI11' % REPO, '-I%s/dependencies/dr_libs' % REPO]

def sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'build', 'docs', 'out') and not x.startswith('.'))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.hpp', '.h', '.cpp', '.inl', '.hxx'))]
    return out

def export(cfg, extra):
    """AST of the library with every template instantiated, from the current tree; cached by content"""
    exe = HERE + '/build/exporter'
    os.makedirs(HERE + '/build/cache', exist_ok=True)
    with open(HERE + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            r = subprocess.run(['bash', HERE + '/exporter/build.sh'], cwd=HERE, capture_output=True, text=True)
            if r.returncode: print(r.stdout, r.stderr); sys.exit(2)
        h = hashlib.sha256()
        for f in sources() + [exe] + sorted(glob.glob(HERE + '/driver/*')):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        h.update(repr((cfg, extra, FLAGS)).encode())
        key = HERE + '/build/cache/%s-%s.json' % (cfg, h.hexdigest()[:24])
        if not os.path.exists(key):
            old = sorted(glob.glob(HERE + '/build/cache/*.json'), key=os.path.getmtime)
            for f in old[:-8]: os.unlink(f)
            tmp = key + '.tmp%d' % os.getpid()
            subprocess.run([exe, '%s/include,%s/src,%s/driver' % (REPO, REPO, HERE), tmp, '--'] + FLAGS + extra + [HERE + '/driver/driver.cpp'], capture_output=True, text=True, cwd=HERE)
            if not os.path.exists(tmp): print('exporter produced nothing'); sys.exit(2)
            os.rename(tmp, key)
    from engine.prog import Prog
    return Prog(key)

class Progs(dict):
    def __missing__(self, k):
        v = self[k] = export(k, {'default': [], 'nothrow': ['-DHART_DO_NOT_THROW_EXCEPTIONS=1']}[k])
        return v

def known(pid):
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    except OSError: pass
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    from engine.ctx import Ctx
    mod = importlib.import_module('rules.' + pid.lower())
    ctx = Ctx(pid, Progs(), tier, seed, REPO)
    errs = ctx.prog.errors
    mod.check(ctx)
    kf = known(pid)
    def dedup(l):
        seen = {}
        for x in l: seen.setdefault(x, 0); seen[x] += 1
        return list(seen)
    bad = dedup(ctx.bad_); ok = dedup(ctx.ok_); unk = dedup(ctx.unk_)
    viol = []; found = []
    for b in bad:
        t = '%s | %s | %s' % b
        m = [k for k in kf if all(part in t for part in k.split(' && '))]
        (found if m else viol).append(b)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    n = len(bad) + len(ok) + len(unk)
    cov = {'explanation': mod.__doc__.strip() if mod.__doc__ else pid,
           'functions_analysed': sorted(ctx.fns), 'obligations': n, 'discharged': len(ok), 'violated': len(viol), 'undetermined': len(unk), 'known_findings': len(found),
           'rules': {r: sum(1 for x in ok if x[0] == r) for r in sorted({x[0] for x in ok + bad + unk})},
           'samples': ['%s @ %s: %s' % x for x in ok[:40]],
           'undetermined_list': ['%s @ %s: %s' % x for x in unk[:60]],
           'violations': ['%s @ %s: %s' % x for x in viol[:60]],
           'compile_errors_in_unit': errs if isinstance(errs, int) else len(errs or [])}
    if ctx.notes: cov['notes'] = ctx.notes
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    for b in found: print('KNOWN-FINDING: property=%s %s at %s: %s' % ((pid,) + b))
    print('%s: %d obligations, %d discharged, %d violated, %d undetermined (%.1f s)' % (pid, n, len(ok), len(viol), len(unk), time.time() - t0))
    if os.environ.get('VERBOSE'):
        for x in ok: print('  ok   %s @ %s: %s' % x)
    if os.environ.get('VERBOSE') or sys.stdout.isatty() or True:
        for x in unk: print('  undetermined %s @ %s: %s' % (x[0], x[1], x[2][:400]))
    if viol:
        rp = 'evidence/%s.violation.txt' % pid
        with open(HERE + '/' + rp, 'w') as f:
            for b in viol: f.write('rule %s\n  at %s\n  %s\n\n' % b)
        for b in viol[:12]: print('  violated %s @ %s: %s' % (b[0], b[1], b[2][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if not ok and not errs:
        print('no obligation could be decided: the analysis found none of its anchors'); sys.exit(2)
    sys.exit(0)

if __name__ == '__main__': main()
