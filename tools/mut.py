#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [n]: applies a textual change to a scratch copy of /repo and runs checks on it.
   mut.py -p PROPS patchfile : the same with a patch"""
import sys, os, subprocess, shutil, tempfile
def run(props, edit, verbose=True):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/include', '/repo/dependencies', '/repo/src', d], stderr=subprocess.DEVNULL)
        if not edit(d): return print('edit does not apply')
        for p in props:
            r = subprocess.run(['python3', '/verif/check.py', p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            print('%s -> %s' % (p, r.returncode))
            for l in (r.stdout + r.stderr).splitlines():
                if verbose: print('   ', l.replace(d, '')[:500])
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '-p':
        props = a[1].split(','); pf = os.path.abspath(a[2])
        run(props, lambda d: subprocess.run(['git', 'apply', '--whitespace=nowarn', pf], cwd=d).returncode == 0)
    else:
        props = a[0].split(','); f, old, new = a[1:4]; n = int(a[4]) if len(a) > 4 else 0
        def edit(d):
            fn = d + '/include/' + f; s = open(fn, newline='').read()
            e = '\r\n' if '\r\n' in s else '\n'; o = old.replace('\\n', e); nw = new.replace('\\n', e)
            parts = s.split(o)
            if len(parts) < n + 2: return False
            s = o.join(parts[:n + 1]) + nw + o.join(parts[n + 1:])
            open(fn, 'w', newline='').write(s); return True
        run(props, edit)
