"""Development helper: from seed import seed; writes /verif/seeded/<id>/ from an edit of /repo's HEAD."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd at the repository root
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 120 /opt/venv/bin/python "$D/demo.py"
'''
PRE = '''import os, sys, tempfile, shutil
sys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]
from pdfgen import *
from io import BytesIO
from pdfmajor.interpreter import PDFInterpreter, LTTextBlock, LTCurve, LTImage, LTXObject
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
T = tempfile.mkdtemp()


def check(got, want, what=''):
    if got != want:
        shutil.rmtree(T, ignore_errors=True)
        sys.exit('WRONG %s: %r instead of %r' % (what, got, want))


def path(data, name='in.pdf'):
    p = os.path.join(T, name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def pages(data, **kw):
    return [list(p) for p in PDFInterpreter(path(data), **kw)]


def chars(items):
    out = []
    for i in items:
        if isinstance(i, LTTextBlock):
            out += [c for b in i for c in b]
        elif isinstance(i, LTXObject):
            out += chars(list(i))
    return out


def text(items):
    return ''.join(c.get_text() for c in chars(items))


def bx(o):
    b = o.bbox
    return tuple(round(float(v), 4) for v in (b.x0, b.y0, b.x1, b.y1))


FONT = {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Demo'), 'FirstChar': 32, 'LastChar': 126,
        'Widths': [500] * 95, 'Encoding': N('WinAnsiEncoding'),
        'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Demo'), 'Flags': 32, 'Ascent': 700, 'Descent': -200,
                           'FontBBox': [0, 0, 0, 0], 'ItalicAngle': 0, 'MissingWidth': 0}}
RES = {'Font': {'F1': FONT}}

'''
POST = '''
shutil.rmtree(T, ignore_errors=True)
print('ok')
'''


def seed(sid, prop, edits, demo, needs, breaks):
    """edits: [(file under pdfmajor/, old, new)]"""
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, 'pdfmajor', f)
        s = open(p, newline='').read()
        assert s.count(a) == 1, (sid, f, a, s.count(a))
        open(p, 'w', newline='').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + demo.strip('\n') + '\n' + POST)
    shutil.copy(os.path.join(V, 'mc', 'pdfgen.py'), d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
