"""C08: Group 4 fax images. The model is a T.6 encoder with a free choice among the modes it may use at every step: every
encoding of every small image, and of run lengths up to several make-up codes, is decoded by the implementation."""
import itertools
from mc import t6
from mc.pdfgen import N, R, S, Doc

ID = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the data ends with an end-of-block code or with its last row', 'an end-of-block code behind byte-aligned rows is '
               'aligned, too', 'no uncompressed mode']
SHAPES = {'quick': [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1), (5, 2), (6, 1), (6, 2),
                    (7, 1), (8, 1), (9, 1)],
          'thorough': [(3, 4), (4, 3), (5, 3), (6, 2), (7, 2), (8, 2), (10, 1), (11, 1), (12, 1), (9, 2), (2, 5), (1, 6), (2, 6)]}


def BOUNDS(tier):
    return ('every image of every shape %s with every T.6 encoding of each row (over 10 pixels: the first 40 in depth-first order); every run length from 0 to %d of either colour at the '
            'start, in the middle and at the end of a row, in horizontal and vertical modes; byte alignment, BlackIs1, end-of-block '
            'code and defaults in all combinations' % (shapes(tier), 2700 if tier == 'quick' else 5400))


def shapes(tier):
    return SHAPES['quick'] + (SHAPES['thorough'] if tier != 'quick' else [])


def jobs(tier):
    out = []
    for w, h in shapes(tier):
        n = w * h
        parts = 1 if n <= 9 else 8 if n <= 12 else 32
        out += [('small', w, h, i, parts) for i in range(parts)]
    top = 2700 if tier == 'quick' else 5400
    out += [('run', c, a, min(a + 150, top)) for c in (0, 1) for a in range(0, top, 150)]
    out += [('ref', w) for w in (8, 13, 16, 17)] + [('params',), ('doc',)]
    return out


def images(w, h):
    for bits in itertools.product((0, 1), repeat=w * h):
        yield [list(bits[i * w:i * w + w]) for i in range(h)]


def explore(job, ctx):
    for part in batches(gen(job, ctx.tier)):
        ctx.run({'s': part})


def batches(it):
    buf, n = [], 0
    for x in it:
        buf.append(x)
        n += len(x[0]) * len(x[0][0]) + 20
        if n > 20000:
            yield buf
            buf, n = [], 0
    if buf:
        yield buf


def gen(job, tier):
    """[rows, encoding as bit string or None (standard one), options]"""
    if job[0] == 'small':
        _, w, h, i, parts = job
        for k, rows in enumerate(images(w, h)):
            if k % parts != i:
                continue
            for n, e in enumerate(t6.encodings(rows)):
                if w * h > 10 and n >= 40:
                    break           # (larger images: the first 40 encodings in depth-first order)
                yield [rows, e, 0 if n else n_opt(k)]
    elif job[0] == 'run':
        _, c, a, b = job
        for n in range(a, b):
            d = 1 - c
            for row in ([c] * n + [d] * 3 + [c] * 2, [d] * 2 + [c] * n + [d] * 5, [d] * 4 + [c] * n, [c] * n):
                if row:
                    yield [[row], None, 0]
            if n:
                row = [d] * 2 + [c] * n + [d] * 5
                yield [[row, [d] * 4 + [c] * n + [d] * 3, [c] * (n + 7)], None, n & 7]
    elif job[0] == 'ref':
        w = job[1]
        # every distance between the transitions of two rows, and every pair of transitions above
        for i in range(w + 1):
            for j in range(w + 1):
                up = [0] * i + [1] * (w - i)
                yield [[up, [0] * j + [1] * (w - j)], None, 0]
                yield [[up, [1] * j + [0] * (w - j)], None, 1]
                for k in range(j + 1, min(w + 1, j + 5)):
                    row = [0] * j + [1] * (k - j) + [0] * (w - k)
                    yield [[up, row, up], None, 0]
                    yield [[row, up, row], None, 3]
    elif job[0] == 'params':
        for rows in ([[0, 1, 1, 0, 1, 0, 0, 1]], [[1, 0, 1], [1, 1, 1], [0, 0, 0], [1, 0, 1]], [[0] * 1728, [1] * 1728],
                     [[0, 1] * 864, [1] * 1728, [0] * 1728]):
            for o in range(8):
                for full in (0, 8, 16, 24):
                    yield [rows, None, o | full]
    elif job[0] == 'doc':
        for rows in ([[1, 0, 1, 1, 0, 1, 0, 0, 1]] * 3, [[0] * 1728]):
            for o in range(8):
                yield [rows, None, o | 32]
                yield [rows, None, o | 96]


def n_opt(k):
    return k % 8


def finding_key(case, err):
    return err[:60]


def run_case(case, obs):
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PSStackParser import LIT
    for rows, bits, o in case['s']:
        w = len(rows[0])
        align, black1, eofb = bool(o & 1), bool(o & 2), not o & 4
        if bits is None:
            enc = t6.encode(rows, align, eofb)
        elif align:
            enc = t6.encode(rows, True, eofb)
        else:
            enc = t6.pack(bits + (t6.EOFB if eofb else ''))
        p = {'K': -2 if o & 16 else -1}
        if w != 1728 or o & 8:
            p['Columns'] = w
        if align or o & 8:
            p['EncodedByteAlign'] = align
        if black1 or o & 8:
            p['BlackIs1'] = black1
        if not eofb:
            p['EndOfBlock'] = False
            p['Rows'] = len(rows)
        elif o & 8:
            p['EndOfBlock'] = True
            p['Rows'] = len(rows)
        if o & 32:
            got = through_doc(p, enc, o & 64)
        else:
            got = PDFStream({'Filter': LIT('CCF' if o & 16 else 'CCITTFaxDecode'), 'DecodeParms': p}, enc).get_data()
        obs.state((enc, sorted(p.items())))
        obs.trans(len(rows))
        obs.count('traces')
        want = t6.pixels(rows, black1)
        obs.outcome(want)
        if got != want:
            return '%dx%d %s with %r gives %s instead of %s' % (w, len(rows), brief(bits or enc.hex()), p, brief(got.hex()), brief(want.hex()))
    return None


def brief(s):
    return s if len(s) < 200 else s[:100] + '...' + s[-100:]


def through_doc(p, enc, chained):
    """The same through a document, with every parameter indirect; chained: behind ASCIIHex."""
    from io import BytesIO
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}
    q = {}
    for i, (k, v) in enumerate(sorted(p.items())):
        objs[20 + i] = v
        q[k] = R(20 + i)
    objs[10] = q
    if chained:
        at = {'Filter': [N('ASCIIHexDecode'), N('CCITTFaxDecode')], 'DecodeParms': [None, R(10)]}
        enc = enc.hex().encode() + b'>'
    else:
        at = {'Filter': N('CCITTFaxDecode'), 'DecodeParms': R(10)}
    objs[5] = S(at, enc)
    return PDFDocument(PDFParser(BytesIO(bytes(Doc().rev(objs, root=R(1)))))).getobj(5).get_data()
