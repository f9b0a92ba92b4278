#!/usr/bin/env python3
"""Development helper: plant.py verify ID...   confirms seeded changes in scratch copies of /repo.
plant.py check ID [tier]   runs the property's check against a scratch copy with the change."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')


def copy(patch=None):
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    w = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    if patch:
        subprocess.run(['git', '-C', w, 'apply', patch], check=True)
    return d, w


def sh(script, w, out=None):
    t = open(script).read().replace('/repo', w).replace('-n 4', '-n 2')
    return subprocess.run(['bash', '-c', t, 'x'] + ([out] if out else []), env=ENV, capture_output=True, text=True, cwd=w)


def demo(sid, w):
    d = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
    try:
        src = os.path.join(V, 'seeded', sid)
        for f in os.listdir(src):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(src, f), d)
        try:
            r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, env=ENV, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(d)


def verify(sid, tests=True):
    patch = os.path.join(V, 'seeded', sid, 'patch.diff')
    out = []
    d0, w0 = copy()
    try:
        d, w = copy(patch)
    except subprocess.CalledProcessError:
        shutil.rmtree(d0)
        return sid + ': PATCH DOES NOT APPLY'
    try:
        a, b = demo(sid, w0), demo(sid, w)
        out.append('demo unchanged=%s patched=%s' % (a[0], b[0]))
        if a[0] != 0:
            out.append('BAD unchanged: ' + a[1])
        if b[0] in (0, 'timeout'):
            out.append('BAD patched: ' + b[1])
        else:
            out.append(b[1].strip().splitlines()[-1] if b[1].strip() else '')
        r = subprocess.run([PY, '-c', 'import compileall,sys;sys.exit(not compileall.compile_dir("pdfmajor",quiet=1))'], cwd=w,
                           env=dict(ENV, PYTHONPYCACHEPREFIX=d))
        out.append('build %s' % r.returncode)
        if tests:
            rep = os.path.join(d, 'out.json')
            sh('/opt/vp/test.sh', w, rep)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            try:
                got = json.load(open(rep))
                ok = set(got.get('passed', [])) if isinstance(got, dict) else set()
                out.append('tests: missing %s' % sorted(base - ok) if base - ok else 'tests ok')
            except Exception as e:
                out.append('tests: no report %r' % e)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(d0)
    return sid + ': ' + '; '.join(out)


def check(sid, tier='quick'):
    m = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))
    d, w = copy(os.path.join(V, 'seeded', sid, 'patch.diff'))
    try:
        r = subprocess.run(['./run.sh', m['property']], cwd=V, env=dict(ENV, VERIF_REPO=w, VERIF_TIER=tier), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return '%s %s: exit %d, %s\n%s' % (sid, m['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED',
                                       '\n'.join(r.stdout.splitlines()[:3])[:700] if v else (r.stdout + r.stderr)[-800:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    allids = sorted(os.listdir(os.path.join(V, 'seeded')))
    if cmd == 'verify':
        with ThreadPoolExecutor(4) as ex:
            for s in ex.map(verify, ids or allids):
                print(s, flush=True)
    elif cmd == 'demo':
        with ThreadPoolExecutor(4) as ex:
            for s in ex.map(lambda i: verify(i, False), ids or allids):
                print(s, flush=True)
    elif cmd == 'check':
        for i in ids or allids:
            print(check(i), flush=True)
