"""C02: reading is independent of how the data is delivered. The environment (how many bytes each read
returns) is enumerated completely for short inputs; for whole files every alignment of the interesting
bytes relative to the real buffer size is enumerated."""
import itertools
import re
from io import BytesIO
from mc import pdfref
from mc.pdfref import Bad
from mc.pdfgen import Doc, N, R, S, ser

ID = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a reader asks its file object for data with read(n) and continues where the last read ended']

ATOMS = [b'12', b'-3.5', b'.5', b'/Ab', b'/A#41b', b'/A#c3#a9', b'(a)', b'(a\\(b)', b'(\\101)', b'(\\7)', b'(a(b)c)',
         b'(\\\r\nx)', b'(\\\nx)', b'<4142>', b'<41 4>', b'<<', b'>>', b'[', b']', b'true', b'Tj', b'T*', b'null',
         b'%c\n', b'%\r', b"'"]


def BOUNDS(tier):
    return ('every way to cut every sequence of <=%d of %d atoms (with and without white space, up to %d bytes) into '
            'reads, tokens and positions compared; lines: every string over {a,CR,LF} of <=%d bytes with every cutting, '
            'forwards and backwards; files: every alignment of 4 file layouts and of content streams against the real '
            'buffer size' % ((2, len(ATOMS), 11, 6) if tier == 'quick' else (3, len(ATOMS), 13, 8)))


def jobs(tier):
    out = [('atoms', 2 if tier == 'quick' else 3, 11 if tier == 'quick' else 13, i) for i in range(len(ATOMS))]
    out += [('lines', n, r) for n in range(1, (7 if tier == 'quick' else 9)) for r in ((0,) if n < 6 else (0, 1, 2))]
    for kind in ('table', 'stream', 'objstm', 'cr', 'content', 'multi'):
        for part in range(3):
            out.append(('align', kind, part))
    return out


def explore(job, ctx):
    if job[0] == 'atoms':
        _, n, maxlen, i = job
        for k in range(n):
            for rest in itertools.product(ATOMS, repeat=k):
                seq = [ATOMS[i]] + list(rest)
                datas = {b' '.join(seq), b' '.join(seq) + b'\n'}
                if k <= 1:
                    datas.add(b''.join(seq))
                    datas.add(b''.join(seq) + b' ')
                for d in sorted(datas):
                    if len(d) <= maxlen and b'>>>' not in d:
                        try:
                            pdfref.lex(d)
                        except Bad:
                            continue
                        ctx.run({'k': 'tok', 'd': d.hex()})
    elif job[0] == 'lines':
        _, n, r = job
        for t in itertools.product(b'a\r\n', repeat=n):
            if n >= 6 and b'a\r\n'.index(t[0]) != r:
                continue
            ctx.run({'k': 'lines', 'd': bytes(t).hex()})
        if n < 6:
            # white space within lines
            for t in itertools.product(b'a\n \t', repeat=n):
                if b' ' in bytes(t) or b'\t' in bytes(t):
                    ctx.run({'k': 'lines', 'd': bytes(t).hex()})
    else:
        _, kind, part = job
        span = 3 * (70 if kind in ('content', 'multi') else 240)
        step = 1
        for s in range(part, span, 3 * step):
            ctx.run({'k': 'align', 'kind': kind, 'shift': s})


class Chunked(object):
    """A file whose reads stop at every cut position."""

    def __init__(self, data, mask):
        self.d, self.p, self.mask = data, 0, mask

    def read(self, n=-1):
        if self.p >= len(self.d):
            return b''
        e = self.p + 1
        while e < len(self.d) and not (self.mask >> (e - 1)) & 1 and (n < 0 or e - self.p < n):
            e += 1
        r = self.d[self.p:e]
        self.p = e
        return r

    def seek(self, pos, whence=0):
        self.p = pos if whence == 0 else (self.p if whence == 1 else len(self.d)) + pos

    def tell(self):
        return self.p


def split_lines(d):
    """[(pos, line)] with CR, LF and CRLF as terminators."""
    return [(m.start(), m.group(0)) for m in re.finditer(rb'[^\r\n]*(\r\n|\r|\n)|[^\r\n]+$', d)]


def run_case(case, obs):
    from pdfmajor.execptions import PSEOF
    from pdfmajor.parser.PSStackParser import PSStackParser
    from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
    if case['k'] == 'tok':
        d = bytes.fromhex(case['d'])
        want = pdfref.lex(d)
        obs.state(repr(want))
        for mask in range(1 << (len(d) - 1)):
            obs.count('traces')
            obs.trans(bin(mask).count('1') + 1)
            p = PSBaseParser(Chunked(d, mask))
            got = []
            try:
                while 1:
                    pos, tok = p.nexttoken()
                    got.append((pos, pdfref.canon(tok)))
            except PSEOF:
                pass
            if got != want:
                return 'data %r delivered as %r: tokens %r, not %r' % (d, cuts(d, mask), got, want)
        # reading again from the middle: a seek forgets everything that was read before
        for pos, _ in want:
            p = PSBaseParser(BytesIO(d))
            for _ in want[:1]:
                p.nexttoken()
            p.seek(pos)
            got = []
            try:
                while 1:
                    q, tok = p.nexttoken()
                    got.append((q, pdfref.canon(tok)))
            except PSEOF:
                pass
            if got != [w for w in want if w[0] >= pos]:
                return 'data %r read from %d: tokens %r' % (d, pos, got)
        return None
    if case['k'] == 'lines':
        d = bytes.fromhex(case['d'])
        want = split_lines(d)
        obs.state(d)
        for mask in range(1 << (len(d) - 1)):
            obs.count('traces')
            obs.trans(len(want))
            p = PSBaseParser(Chunked(d, mask))
            got = []
            try:
                while 1:
                    got.append(p.nextline())
            except PSEOF:
                pass
            if got != want:
                return 'lines of %r delivered as %r: %r, not %r' % (d, cuts(d, mask), got, want)
        # backwards, for every buffer size: the non-blank lines behind the first line end, last first
        rest = d[min([i for i in range(len(d)) if d[i] in b'\r\n'] or [len(d)]):]
        wantr = [x for x in re.split(rb'[\r\n]+', rest) if x][::-1]
        old = PSBaseParser.BUFSIZ
        try:
            for size in range(1, len(d) + 2):
                PSBaseParser.BUFSIZ = size
                got = [x.strip(b'\r\n') for x in PSBaseParser(BytesIO(d)).revreadlines()]
                got = [x for x in got if x]
                if got != wantr:
                    return 'backward lines of %r with buffer size %d: %r, not %r' % (d, size, got, wantr)
        finally:
            PSBaseParser.BUFSIZ = old
        return None
    return align(case['kind'], case['shift'], obs)


def cuts(d, mask):
    out, cur = [], b''
    for i in range(len(d)):
        cur += d[i:i + 1]
        if (mask >> i) & 1:
            out.append(cur)
            cur = b''
    return out + ([cur] if cur else [])


VALUES = [b'string (nested) \\ end', N('Na me'), [1, -2.5, True, None, N('X'), b'', R(1)],
          {'K': b'\x00\xff\r', 'L': {'M': [R(2), R(3)]}}, 65535, 0.125, b'x' * 40]


def align(kind, shift, obs):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    obs.count('traces')
    obs.trans()
    obs.state((kind, shift))
    if kind in ('content', 'multi'):
        return align_content(kind, shift)
    body = b'stream data \r\n endstream? no \r' + bytes(range(256))[::-1][:60].replace(b'e', b'f')
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}
    for i, v in enumerate(VALUES):
        objs[10 + i] = v
    objs[30] = S({'A': N('B')}, body.replace(b'endstream', b'end$tream'))
    # padding: a comment in front of everything, so that the file crosses a buffer border at every offset
    total = 4096 - 700 + shift
    d = Doc(header=b'%PDF-1.7\n%' + b'p' * total + b'\n')
    if kind == 'stream':
        d.rev(objs, root=R(1), mode='stream', xref_num=50, filt=False)
    elif kind == 'objstm':
        d.rev(objs, root=R(1), mode='stream', xref_num=50, filt=False,
              objstm=[n for n in objs if n != 30], objstm_num=51)
    elif kind == 'cr':
        d.rev(objs, root=R(1), eol=b'\r')
    else:
        d.rev(objs, root=R(1), eol=b'\r\n')
    data = bytes(d)
    doc = PDFDocument(PDFParser(BytesIO(data)), fallback=False)
    for i, v in enumerate(VALUES):
        got = pdfref.canon(doc.getobj(10 + i))
        want = pdfref.canon_gen(v)
        if got != want:
            return '%s file shifted by %d: object %d is %r, not %r' % (kind, shift, 10 + i, got, want)
    got = doc.getobj(30).get_data()
    if got != objs[30].data:
        return '%s file shifted by %d: stream data is %r, not %r' % (kind, shift, got, objs[30].data)
    return None


CONTENT = (b"q 1 0 0 1 10 20.5 cm /Na#6de gs (a\\(b\\051\\n\\101) Tj [(x) -120.25 <4142>] TJ T* % comment ( << \n"
           b"<</A[1 2]/B(c)>> DP (z) ' Q\n")


def align_content(kind, shift):
    from pdfmajor.parser.PDFContentParser import PDFContentParser
    from pdfmajor.parser.PDFStream import PDFStream
    want = pdfref.parse(CONTENT, refs=False)
    pad = 4096 - 150 + shift
    if kind == 'content':
        datas = [b' ' * pad + CONTENT + CONTENT]
        want = want + want
    else:
        # the stream border falls behind a token, at any place of the buffer
        datas = [b'%' + b' ' * pad + b'\n' + CONTENT, CONTENT]
        want = want + want
    got = [pdfref.canon(x) for x in PDFContentParser([PDFStream({}, x) for x in datas])]
    if got != want:
        return 'content shifted by %d: %r, not %r' % (pad, got, want)
    return None
