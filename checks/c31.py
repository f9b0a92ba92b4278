"""C31: the options of a conversion. Every combination of output, codec, password, selection of pages, limit, caching, check for permission and handling of undefined characters, for documents of all kinds; every form of the names of files; every combination of the
options of the converter script. The model decides what is converted; what an output says is read by the parsers of C16-C20."""
import importlib.util
import io
import itertools
import os
import shutil
import subprocess
import sys
from mc import conv, pdfcrypt
from mc.engine import REPO
from mc.pdfgen import N, R, S, Doc
from checks.c27 import part

ID = 'C31'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the items delivered by the interpreter for the same content without encryption and selection are the reference', 'what text output does with characters the codec lacks is left open (an error of encoding, or all of the text)']
CODECS = ['utf-8', 'utf-16', 'ascii', 'utf-8-sig', 'utf-16-le', 'utf-16-be', 'utf-32', 'latin-1', 'cp1252', 'shift_jis', 'gb18030', 'iso2022_jp', 'koi8-r', 'cp500', 'UTF8']
TYPES = ['html', 'xml', 'json', 'yaml', 'yml', 'text']
DOCS = ['plain', 'allowed', 'forbidden', 'aes', 'bad', 'empty']
SELECT = [None, [], [0], [1], [2], [0, 2], (1, 2), {2, 0}, [2, 0], [7], range(1, 3)]
LIMITS = [0, 1, 2, 3, 9]
PWS = [None, '', 'user', 'owner', 'wrong']
NAMES = ['in.pdf', 'a.b.pdf', 'sub.d/in.PDF', 'sub.d/a.html.pdf', 'x.html', 'x.json', 'x.text', 'sub.d/x.xml', 'noext', 'sub.d/noext', 'html', '\xfc \xf1 (1).pdf', "q'.p_1", 'in.pdf~', 'two..pdf', './in.pdf', '@/in.pdf', '-t.pdf']
OUTS = [None, 'out.%s', 'sub.d/o.%s', '@/o.%s', 'in.pdf.%s', '\u6f22 %s.%s', 'out.bin', 'out', '%s', '=', '=./', '=@', '=link', '=hard']
OPTS = dict(t=[None, 'html', 'xml', 'json', 'yaml', 'text'], o=[None, '-', 'o.html', 'o.htm', 'o.xml', 'o.json', 'o.txt', 'o.out', 'sub.d/o'], p=[None, '1', '2,3', '3,1', '9'], m=[None, 1, 2], c=[None, 'utf-16', 'latin-1'], C=[False, True], d=[0, 1, 2])


def BOUNDS(tier):
    return ('%d outputs x %d documents x %d passwords x %d selections x %d limits x 2 x 2 x 2 switches x %d codecs; %d names of documents x %d names of outputs x %d outputs; every combination of %s' %
            (len(TYPES), len(DOCS), len(PWS), len(SELECT), len(LIMITS), 3 if tier == 'quick' else len(CODECS), len(NAMES), len(OUTS), len(TYPES), ', '.join('%d values of -%s' % (len(v), k) for k, v in OPTS.items() if k != 'd') + ' of the script x 3 documents'))


def document(kind):
    chars = {1: 'a', 2: '\xe9', 3: '\u20ac', 4: '\u6f22', 5: '\U0001f600', 6: '<', 7: 'z'}
    res, ex = conv.resources(chars=chars)
    res = {'Font': {k: res['Font'][k] for k in ('F1', 'FU')}}
    prog = [b'BT /F1 5 Tf (page %d) Tj ET BT /FU 5 Tf <%s> Tj ET 0 0 m 5 %d l S' % (i, c, i) for i, c in enumerate((b'00010002', b'0003000600040005', b'0007'))]
    if kind == 'bad':
        prog[1] += b' BT /FU 5 Tf <0063> Tj ET'
    if kind == 'empty':
        prog = []
    objs = dict(ex)
    objs[1] = {'Type': N('Catalog'), 'Pages': R(2)}
    objs[2] = {'Type': N('Pages'), 'Kids': [R(10 + 2 * i) for i in range(len(prog))], 'Count': len(prog), 'MediaBox': [0, 0, 300, 200], 'Resources': res}
    for i, p in enumerate(prog):
        objs[10 + 2 * i] = {'Type': N('Page'), 'Parent': R(2), 'Contents': R(11 + 2 * i)}
        objs[11 + 2 * i] = S({}, p)
    if kind not in ('allowed', 'forbidden', 'aes'):
        d = Doc()
        d.rev(objs, root=R(1))
        return bytes(d)
    c = pdfcrypt.Crypt('v4aes' if kind == 'aes' else 'r3', '' if kind == 'forbidden' else 'user', 'owner', -64 if kind == 'forbidden' else -44, 128)
    d = Doc(crypt=c)
    objs[5] = c.dict
    d.rev(objs, root=R(1), trailer={'Encrypt': R(5), 'ID': [c.docid, c.docid]}, plain=(5,))
    return bytes(d)


_made = {}


def made(kind):
    if kind not in _made:
        _made[kind] = document(kind)
        twin = {'bad': 'bad', 'empty': 'empty'}.get(kind, 'plain')
        with open('twin.pdf', 'wb') as f:
            f.write(document(twin))
        _made[kind, 'exp'] = conv.expected('twin.pdf', ignore_bad_chars=True) if kind != 'empty' else []
    return _made[kind], _made[kind, 'exp']


def chosen(exp, sel, limit):
    """What the model selects of the pages."""
    out = []
    for i, p in enumerate(exp):
        if (not sel or i in sel) and not (limit and i >= limit):
            out.append(dict(p, id=len(out)))
    return out


def jobs(tier):
    return [('opt', t, d) for t in range(len(TYPES)) for d in range(len(DOCS))] + [('codec', t, d) for t in range(len(TYPES)) for d in (0, 1)] + [('name', t) for t in range(len(TYPES))] + [('script', i, 8) for i in range(8)] + [('run', i) for i in range(3)]


def explore(job, ctx):
    k = job[0]
    q = ctx.tier == 'quick'

    def go(gen):
        gen = iter(gen)
        while True:
            c = list(itertools.islice(gen, 16))
            if not c:
                return
            ctx.run({'k': k, 's': c})
    if k == 'opt':
        go([job[1], job[2], *x, c] for x in itertools.product(range(len(PWS)), range(len(SELECT)), range(len(LIMITS)), (0, 1), (0, 1), (0, 1)) for c in (((sum(x)) % 3,) if q else range(len(CODECS))))
    elif k == 'codec':
        go([job[1], job[2], 2, s, 0, 1, 1, 1, c] for c in range(len(CODECS)) for s in range(len(SELECT)))
    elif k == 'name':
        go([job[1], n, o] for n in range(len(NAMES)) for o in range(len(OUTS)))
    elif k == 'script':
        go(part((list(x) for x in itertools.product(*[range(len(OPTS[o])) for o in 'topmcCd'])), job[1], job[2]))
    else:
        ctx.run({'k': 'run', 's': [job[1]]})


def plain(data, codec, fmt):
    """The output in UTF-8, as C16-C20 expect it."""
    text = data.decode(codec)
    if fmt == 'xml':
        head, rest = text.split('?>', 1)
        if ('encoding="%s"' % codec).lower() not in head.lower():
            raise conv.Bad('declaration %r' % head)
        text = head.replace(codec, 'utf-8') + '?>' + rest
    if fmt == 'html':
        if 'charset="%s"' % codec not in text.split('</head>')[0]:
            raise conv.Bad('no charset %r' % codec)
        text = text.replace('charset="%s"' % codec, 'charset="utf-8"', 1)
    return text.encode('utf-8')


def holds(fmt, data, codec, exp):
    try:
        return conv.verify({'yml': 'yaml'}.get(fmt, fmt), plain(data, codec, fmt), 'utf-8', exp)
    except conv.Bad as e:
        return str(e)
    except UnicodeDecodeError as e:
        return 'not %s: %s' % (codec, e)


def lacks(exp, codec):
    try:
        conv.texts(exp).encode(codec)
    except UnicodeEncodeError:
        return True
    return False


def run_opt(x, obs):
    from pdfmajor.converters import convert_file
    from pdfmajor.execptions import PDFPasswordIncorrect, PDFTextExtractionNotAllowed, EmptyDocumentError, UnicodeNotDefined
    t, d, pw, sel, lim, ext, ign, cach, c = x
    fmt, kind, pw, sel, lim, codec = TYPES[t], DOCS[d], PWS[pw], SELECT[sel], LIMITS[lim], CODECS[c]
    data, exp = made(kind)
    with open('in.pdf', 'wb') as f:
        f.write(data)
    out = 'out.' + fmt
    if os.path.exists(out):
        os.remove(out)
    # what must become of it
    want = None
    if kind in ('allowed', 'aes') and pw not in ('user', 'owner') or kind == 'forbidden' and pw not in (None, '', 'owner'):
        want = PDFPasswordIncorrect
    elif kind == 'forbidden' and ext:
        want = PDFTextExtractionNotAllowed
    elif not chosen(exp, sel, lim):
        want = EmptyDocumentError
    elif kind == 'bad' and not ign and any(p['id'] == 1 for p in chosen([dict(p) for p in exp], None, 0) if (not sel or 1 in sel) and not (lim and 1 >= lim)):
        want = UnicodeNotDefined
    got = None
    try:
        convert_file('in.pdf', out, out_type=fmt, codec=codec, password=pw, pagenos=sel, maxpages=lim, check_extractable=bool(ext), ignore_bad_chars=bool(ign), caching=bool(cach))
    except (PDFPasswordIncorrect, PDFTextExtractionNotAllowed, EmptyDocumentError, UnicodeNotDefined) as e:
        got = type(e)
    except UnicodeEncodeError:
        if fmt == 'text' and lacks(chosen(exp, sel, lim), codec):
            obs.outcome('lacks')
            return None
        return 'cannot encode'
    obs.outcome((got and got.__name__, fmt, codec))
    if kind == 'forbidden' and pw == 'owner' and ext and got is not want:
        want = got if got is None else want       # whether the owner password lifts restrictions is left to C09
        if not chosen(exp, sel, lim):
            want = EmptyDocumentError
    if got is not want:
        return '%s %s: %s instead of %s' % (fmt, kind, got and got.__name__, want and want.__name__)
    if want:
        return None
    with open(out, 'rb') as f:
        res = f.read()
    exp = chosen(exp, sel, lim)
    if fmt == 'text' and lacks(exp, codec):
        return None if res.decode(codec, 'ignore').count('[ page ') == len(exp) else 'pages are missing'
    obs.trans(len(exp))
    return holds(fmt, res, codec, exp)


def snapshot():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def run_name(x, obs):
    """In a folder of its own."""
    from pdfmajor.converters import convert_file
    from pdfmajor.execptions import PDFMajorException
    fmt, name, out = TYPES[x[0]], NAMES[x[1]], OUTS[x[2]]
    data, exp = made('plain')
    here = os.getcwd()
    shutil.rmtree('n', ignore_errors=True)
    os.makedirs('n/sub.d')
    os.chdir('n')
    try:
        root = os.path.realpath('.')
        name = name.replace('@', root)
        with open(name, 'wb') as f:
            f.write(data)
        same = False
        if out is not None:
            if out[0] == '=':
                same = True
                if out == '=':
                    out = name
                elif out == '=./':
                    out = os.path.join('.', name)
                elif out == '=@':
                    out = os.path.join(root, name)
                else:
                    out = 'link.' + fmt
                    (os.symlink if out == '=link' else os.link)(name, out)
            else:
                out = out.replace('%s', fmt).replace('@', root)
        before = snapshot()
        # the file that must be made, if any
        if out is None:
            base, dot, ext = os.path.basename(name).rpartition('.')
            to = os.path.normpath(os.path.join(os.path.dirname(name), base + '.' + fmt)) if dot and all(c.isalnum() or c == '_' for c in ext) else None
        else:
            to = os.path.normpath(out) if out.endswith(fmt) else None
        if to is not None:
            to = os.path.normpath(os.path.relpath(os.path.realpath(to), root))
        if same or to == os.path.normpath(os.path.relpath(os.path.realpath(name), root)):
            to = None
        err = None
        try:
            convert_file(name, out, out_type=fmt) if out is not None else convert_file(name, out_type=fmt)
        except PDFMajorException as e:
            err = e
        after = snapshot()
        for p in before:
            if after.get(p) != before[p]:
                return '%r: changes %r' % ((name, out, fmt), p)
        obs.outcome((to is None, err is None))
        if to is None:
            return None if err is not None and len(after) == len(before) else '%r: writes %r' % ((name, out, fmt), sorted(set(after) - set(before)))
        if err is not None or set(after) - set(before) != {to}:
            return '%r: %r and %r instead of %r' % ((name, out, fmt), err, sorted(set(after) - set(before)), to)
        return holds(fmt, after[to], 'utf-8', exp)
    finally:
        os.chdir(here)


def script():
    spec = importlib.util.spec_from_file_location('pdfconvert_script', os.path.join(REPO, 'tools', 'pdfconvert.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run_script(x, obs):
    from pdfmajor.execptions import EmptyDocumentError, PDFPasswordIncorrect
    t, o, p, m, c, C, d = [OPTS[k][v] for k, v in zip('topmcCd', x)]
    kind = ('plain', 'allowed', 'allowed')[d]
    data, exp = made(kind)
    with open('in.pdf', 'wb') as f:
        f.write(data)
    os.makedirs('sub.d', exist_ok=True)
    args = []
    for k, v in (('t', t), ('o', o), ('p', p), ('m', m), ('c', c)):
        if v is not None:
            args += (['-' + k, str(v)] if x[1] % 2 else [{'t': '--output-type', 'o': '--output-file', 'p': '--pagenos', 'm': '--maxpages', 'c': '--codec'}[k], str(v)])
    args += ['-C'] if C else []
    args += ['-P', 'owner'] if d == 1 else []
    args.insert(0 if sum(x) % 2 else len(args), 'in.pdf')
    if t == 'text' and o and o.rpartition('.')[2] in ('html', 'htm', 'xml', 'json'):
        return None         # which of the two decides is left open
    fmt = t or {'html': 'html', 'htm': 'html', 'xml': 'xml', 'json': 'json'}.get((o or '').rpartition('.')[2], 'text')
    codec = c or 'utf-8'
    sel = {int(v) - 1 for v in p.split(',')} if p else None
    exp = chosen(exp, sel, m or 0)
    want = PDFPasswordIncorrect if d == 2 else None if exp else EmptyDocumentError
    old, err, rc = sys.stdout, None, None
    sys.stdout = io.TextIOWrapper(io.BytesIO(), 'utf-8')
    before = set(snapshot())
    if o and o != '-' and os.path.exists(o):
        os.remove(o)
    try:
        try:
            rc = script().main(args)
        except (EmptyDocumentError, PDFPasswordIncorrect) as e:
            err = type(e)
        except UnicodeEncodeError:
            return None if fmt == 'text' and lacks(exp, codec) else 'cannot encode'
        except SystemExit as e:
            return '%r: exit %r' % (args, e.code)
        sys.stdout.flush()
        said = sys.stdout.buffer.getvalue()
    finally:
        sys.stdout = old
    obs.outcome((fmt, codec, err and err.__name__))
    obs.trans(len(exp))
    if err is not want:
        return '%r: %s instead of %s' % (args, err and err.__name__, want and want.__name__)
    new = set(snapshot()) - before - ({os.path.normpath(o)} if o and o != '-' else set())
    if new:
        return '%r: leaves %r' % (args, sorted(new))
    if want:
        return None
    if rc:
        return '%r: %r' % (args, rc)
    if o and o != '-':
        if said.strip():
            return '%r: says %r' % (args, said[:100])
        with open(o, 'rb') as f:
            said = f.read()
    if fmt == 'text' and lacks(exp, codec):
        return None
    r = holds(fmt, said, codec, exp)
    return r and '%r: %s' % (args, r)


def run_run(x, obs):
    """As a process."""
    data, exp = made('plain')
    with open('in.pdf', 'wb') as f:
        f.write(data)
    args = [[], ['-t', 'xml'], ['-o', 'o.json', '-p', '2']][x]
    r = subprocess.run([sys.executable, os.path.join(REPO, 'tools', 'pdfconvert.py'), 'in.pdf'] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'))
    if r.returncode:
        return '%r: exit %d: %r' % (args, r.returncode, r.stderr[-300:])
    out = r.stdout
    if x == 2:
        with open('o.json', 'rb') as f:
            out = f.read()
        exp = chosen(exp, {1}, 0)
    return holds(('text', 'xml', 'json')[x], out, 'utf-8', exp)


def run_case(case, obs):
    run = {'opt': run_opt, 'codec': run_opt, 'name': run_name, 'script': run_script, 'run': run_run}[case['k']]
    for x in case['s']:
        obs.state((case['k'], x))
        obs.count('traces')
        r = run(x, obs)
        if r:
            return r
    return None
