"""C26: stream data is exactly the bytes of the stream. All short data over a marker alphabet, every form
of Length, every line end."""
import itertools
from io import BytesIO
from mc.pdfgen import Doc, N, R, S, Raw

ID = 'C26'
LEVEL = 'model_checking'
ASSUMPTIONS = ['with a missing or wrong Length, the line end in front of endstream may or may not be counted as data, and data of white space alone is not claimed']
SYM = [b'a', b'\n', b'\r', b' ', b'endstream', b'endobj', b'\x00', b'stream', b'5 0 obj', b'>>']
EOLS = [b'\n', b'\r\n']
ENDS = [b'\n', b'', b'\r\n', b'\r', b' \n']
FORMS = ['direct', 'before', 'after', 'objstm', 'chain']
WRONG = ['missing', 'zero', 'short', 'long', 'huge', 'negative', 'name', 'dangling', 'null', 'self', 'real']


def BOUNDS(tier):
    return ('data: every sequence of <=%d of %d symbols x %d line ends behind stream x %d in front of endstream x %d forms of '
            'a right Length; sequences of <=3 without the end word x %d wrong Lengths; table and stream files, cached and '
            'not' % (3 if tier == 'quick' else 4, len(SYM), len(EOLS), len(ENDS), len(FORMS), len(WRONG)))


def jobs(tier):
    n = 3 if tier == 'quick' else 4
    return [('right', n, f, e, x) for f in FORMS for e in range(len(EOLS)) for x in range(len(ENDS))] + \
           [('wrong', 3 if tier != 'quick' else 2, w, e, 0) for w in WRONG for e in range(len(EOLS))] + [('plain', 0, 0, 0, 0)]


def explore(job, ctx):
    kind, n, f, e, x = job
    if kind == 'plain':
        ctx.run({'k': 'bytes'})
        return
    datas = []
    for k in range(n + 1):
        for t in itertools.product(SYM if kind == 'right' else [s for s in SYM if s != b'endstream'], repeat=k):
            d = b''.join(t)
            if kind == 'wrong' and not acceptable(f, d):
                continue
            datas.append(d.hex())
    for i in range(0, len(datas), 60):
        ctx.run({'k': kind, 'f': f, 'e': e, 'x': x, 'd': datas[i:i + 60], 'cache': (i // 60) % 2 == 0})


def acceptable(f, d):
    """Is the Length really wrong, so that the end word decides?"""
    if f in ('missing', 'zero', 'negative', 'name', 'null', 'dangling', 'self', 'real'):
        return bool(d.strip(b'\x00 \r\n\t\x0c'))
    if f == 'short':
        return bool(d[len(d) // 2:].strip(b'\x00 \r\n\t\x0c')) and d[len(d) // 2:] != b''
    return True


def length_of(f, d, num):
    """(value of Length, extra objects)"""
    n = len(d)
    if f == 'direct':
        return n, {}
    if f in ('before', 'after', 'objstm'):
        return R(num), {num: n}
    if f == 'chain':
        return R(num), {num: R(num + 1), num + 1: n}
    return {'missing': None, 'zero': 0, 'short': n // 2, 'long': n + 3, 'huge': 10 ** 7, 'negative': -1, 'name': N('L'),
            'dangling': R(9999), 'null': Raw(b'null'), 'self': R(num), 'real': float(n)}[f], {}


def run_case(case, obs):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    if case['k'] == 'bytes':
        # every byte value, long data, data longer than the read buffer
        datas = [bytes([i]) for i in range(256)] + [bytes(range(256)) * k for k in (1, 15, 16, 17, 33)]
        form, eol, end = 'direct', b'\n', b'\n'
    else:
        datas = [bytes.fromhex(x) for x in case['d']]
        form, eol, end = case['f'], EOLS[case['e']], ENDS[case['x']]
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}
    late = []
    for i, d in enumerate(datas):
        num = 10 + 3 * i
        ln = {'before': num - 1, 'chain': num + 1, 'self': num}.get(form, num + 1)
        L, extra = length_of(form, d, ln)
        objs[num] = S({'K': i, 'Length': L}, d, eol=eol, before_end=end)
        objs.update(extra)
        late += list(extra)
    doc = Doc()
    if form == 'objstm':
        doc.rev(objs, root=R(1), mode='stream', xref_num=900, objstm=late + [1, 2], objstm_num=901)
    else:
        doc.rev(objs, root=R(1))
    pdf = PDFDocument(PDFParser(BytesIO(bytes(doc))), caching=case.get('cache', True))
    for i, d in enumerate(datas):
        obs.count('traces')
        obs.trans()
        obs.state((form, eol, end, d))
        st = pdf.getobj(10 + 3 * i)
        got = st.get_data()
        ok = got == d
        if case['k'] == 'wrong':
            ok = got in (d, d + end)
        obs.outcome(got)
        if not ok or st.get('K') != i:
            return 'Length %s, line ends %r %r: data %r is read as %r' % (form, eol, end, d, got)
        nxt = pdf.getobj(1)
        if nxt.get('Pages') is None:
            return 'catalog lost behind stream %r' % d
    return None
