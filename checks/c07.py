"""C07: predictors. The model is a PNG/TIFF encoder with a free choice of filter for every row: every choice for every
small image is decoded by the implementation."""
import itertools
from mc import filters as F
from mc.pdfgen import N

ID = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = ['TIFF predictor for 8-bit components only']
COLORS, BITS = (1, 2, 3, 4, 5), (1, 2, 4, 8, 16)
ALPHA = (0, 1, 0x7f, 0x80, 0xff)


def BOUNDS(tier):
    return ('PNG: every sequence of row filters for %d rows, %d columns, 1-5 colours, 1-16 bits, %d contents; every content of two '
            'rows over 5 boundary values (rows of 1 and 2 bytes) under every pair of filters%s; TIFF: 1-4 colours, 1-5 columns, '
            '1-3 rows; all standard defaults left out' %
            ((3, 4, 6, '') if tier == 'quick' else (4, 6, 6, ', every pair of bytes under every single filter')))


def jobs(tier):
    out = [('png', c, b) for c in COLORS for b in BITS] + [('content', bpp, ft) for bpp in (1, 2) for ft in range(5)]
    out += [('pred', p) for p in (1, 10, 11, 12, 13, 14, 15)] + [('tiff', c) for c in (1, 2, 3, 4)] + [('big',)]
    if tier != 'quick':
        out += [('bytes', ft, i) for ft in range(5) for i in range(8)]
    return out


def contents(n):
    """Six fillings of n bytes."""
    yield bytes(n)
    yield b'\xff' * n
    yield bytes((i * 37 + 11) & 255 for i in range(n))
    yield bytes((255 - i * i * 3) & 255 for i in range(n))
    yield bytes((0x80 if i % 3 else 0x7f) for i in range(n))
    yield bytes((i * 101 ^ i >> 1) & 255 for i in range(n))


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c


def png(data, nbytes, bpp, fts):
    out, prev = bytearray(), bytes(nbytes)
    for r, ft in enumerate(fts):
        row = data[r * nbytes:(r + 1) * nbytes]
        out.append(ft)
        for i, x in enumerate(row):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            out.append((x - (0, a, b, (a + b) // 2, paeth(a, b, c))[ft]) & 255)
        prev = row
    return bytes(out)


def tiff(data, colors, columns):
    out = bytearray()
    n = colors * columns
    for r in range(0, len(data), n):
        row = data[r:r + n]
        out += bytes((x - (row[i - colors] if i >= colors else 0)) & 255 for i, x in enumerate(row))
    return bytes(out)


def gen(job, big):
    k = job[0]
    if k == 'png':
        _, c, b = job
        bpp = max(1, c * b // 8)
        for cols in range(1, 7 if big else 5):
            nb = (c * b * cols + 7) // 8
            for rows in range(1, 5 if big else 4):
                for s in contents(nb * rows):
                    for fts in itertools.product(range(5), repeat=rows):
                        yield ['F' if cols % 2 else 'L', 15, c, b, cols, png(s, nb, bpp, fts).hex(), s.hex()]
    elif k == 'content':
        _, nb, f1 = job
        for bpp in range(1, nb + 1):
            for s in itertools.product(ALPHA, repeat=2 * nb):
                s = bytes(s)
                for f2 in range(5):
                    yield ['F', 12, bpp, 8, nb // bpp, png(s, nb, bpp, (f1, f2)).hex(), s.hex()]
    elif k == 'bytes':
        _, ft, i = job
        for a in range(i * 32, i * 32 + 32):
            for b in range(256):
                s = bytes((b, a, a, b, a, b))
                yield ['F', 12, 1, 8, 3, png(s, 3, 1, (ft, ft)).hex(), s.hex()]
    elif k == 'pred':
        # the predictor number only announces the use of PNG prediction; the rows say which
        for fil in 'FL':
            for cols in (1, 2, 3, 8):
                for rows in (0, 1, 3, 5):
                    for s in contents(cols * rows):
                        if job[1] == 1:
                            yield [fil, 1, 1, 8, cols, s.hex(), s.hex()]
                            continue
                        for ft in range(5):
                            yield [fil, job[1], 1, 8, cols, png(s, cols, 1, [ft] * rows).hex(), s.hex()]
    elif k == 'tiff':
        c = job[1]
        for cols in range(1, 6):
            for rows in range(0, 4):
                for s in contents(c * cols * rows):
                    for fil in 'FL':
                        yield [fil, 2, c, 8, cols, tiff(s, c, cols).hex(), s.hex()]
        for s in itertools.product(ALPHA, repeat=4):
            s = bytes(s)
            cols = 4 // c if c != 3 else 0
            if cols:
                yield ['F', 2, c, 8, cols, tiff(s, c, cols).hex(), s.hex()]
    elif k == 'big':
        for c, b, cols, rows in ((3, 8, 300, 20), (1, 1, 1729, 10), (4, 16, 50, 12), (1, 8, 256, 256)):
            nb = (c * b * cols + 7) // 8
            for s in contents(nb * rows):
                fts = [i % 5 for i in range(rows)]
                yield ['F', 15, c, b, cols, png(s, nb, max(1, c * b // 8), fts).hex(), s.hex()]


def explore(job, ctx):
    buf = []
    for it in gen(job, ctx.tier != 'quick'):
        buf.append(it)
        if len(buf) >= 500:
            ctx.run({'s': buf})
            buf = []
    if buf:
        ctx.run({'s': buf})


def run_case(case, obs):
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PSStackParser import LIT
    for fil, pred, c, b, cols, e, w in case['s']:
        raw, w = bytes.fromhex(e), bytes.fromhex(w)
        enc = F.flate(raw, 1) if fil == 'F' else F.lzw_bits(F.lzw_greedy(raw), 1)
        full = {'Predictor': pred, 'Colors': c, 'BitsPerComponent': b, 'Columns': cols}
        least = {k: v for k, v in full.items() if {'Colors': 1, 'BitsPerComponent': 8, 'Columns': 1}.get(k) != v}
        obs.state((fil, pred, c, b, cols, raw))
        obs.trans(len(w) // max(1, (c * b * cols + 7) // 8))
        for p in ([full] if least == full else [full, least]):
            obs.count('traces')
            got = PDFStream({'Filter': LIT('FlateDecode' if fil == 'F' else 'LZWDecode'), 'DecodeParms': dict(p)}, enc).get_data()
            if got != w:
                return '%r of rows %s gives %s instead of %s' % (p, raw.hex(), got.hex(), w.hex())
        obs.outcome(w)
    return None
