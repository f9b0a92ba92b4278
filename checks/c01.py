"""C01: object syntax. Every bounded byte string that is valid PDF object syntax is read as the value
the standard assigns to it, by the reader of object streams, of content streams and of file bodies."""
import itertools
from mc import pdfref
from mc.sizes import sizes
from mc.pdfref import Bad
from mc.pdfgen import Doc, Raw, N, R

ID = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['bytes outside the enumerated alphabets behave like a member of the same lexical class '
               '(every byte value is covered singly inside strings, names and comments)',
               'odd-length hexadecimal strings and bare CR inside literal strings are left out']

STR_A = [b'a', b'(', b')', b'\\', b'\n', b'0', b'3', b'7', b'8', b'n', b'r', b'\\\r', b'\\\r\n', b'%', b' ']
HEX_A = [b'0', b'9', b'a', b'F', b' ', b'\n', b'\x00']
NAME_A = [b'A', b'1', b'#41', b'#20', b'#2f', b'#23', b'#C3#a9', b'#ff', b'.', b'-', b'+', b'*', b"'", b'_']
NUM_A = [b'+', b'-', b'.', b'0', b'1', b'9', b'5']
TOKENS = [b'1', b'-20', b'.5', b'3.', b'/N', b'/', b'(s)', b'()', b'<4142>', b'<>', b'true', b'false', b'null',
          b'Tj', b'T*', b"'", b'7 0 R', b'[', b']', b'<<', b'>>']
SEPS = [b'', b' ', b'\n', b'\r\n', b'\r', b'\t', b'\x0c', b'\x00', b'%c\n', b'%)(<<\r', b' % /x 1\r\n']


def BOUNDS(tier):
    s, h, n, m, t = depth(tier)
    return ('literal strings: bodies of <=%d symbols over %d; hex strings <=%d over %d; names <=%d over %d; '
            'numbers <=%d over %d; every byte value singly in string/name/comment; token sequences <=%d over %d '
            'tokens, each with %d separators (uniform, and every separator at every gap); trees of arrays and '
            'dictionaries to depth 3 in 3 layouts and 3 readers; names, strings, numbers, white space, comments, arrays, dictionaries and nestings of all sizes '
            'around powers of 2 and 10' % (
                s, len(STR_A), h, len(HEX_A), n, len(NAME_A), m, len(NUM_A), t, len(TOKENS), len(SEPS)))


def depth(tier):
    return (4, 6, 4, 6, 3) if tier == 'quick' else (5, 7, 5, 7, 4)


def jobs(tier):
    s, h, n, m, t = depth(tier)
    out = [('bytes',)]
    out += [('num', m), ('hex', h)]
    out += [('str', s, i) for i in range(len(STR_A))]
    out += [('name', n, i) for i in range(len(NAME_A))]
    out += [('seq', t, i) for i in range(len(TOKENS))]
    out += [('tree', i) for i in range(6)]
    out += [('size', z, tier) for z in SIZED]
    return out


def joinable(a, b):
    """May the two tokens stand next to each other without white space?"""
    D = b'()<>[]/{}%'
    return a[-1] in D and a != b'/' or b[0] in D


def explore(job, ctx):
    k = job[0]

    def go(data):
        ctx.run({'k': 'b', 'd': data.hex()})
    if k == 'bytes':
        for c in range(256):
            b = bytes([c])
            if c != 13:
                go(b'(x' + (b'\\' + b if b in b'()\\' else b) + b'y) 7')
            go(b'(x\\' + b + b'y) 7')
            go(b'1 % x' + b + b'y\n 7')
            go(b'/A#%02xB 7' % c if c else b'7')
            if c not in b'\x00\t\n\x0b\x0c\r ()<>[]{}/%#':
                go(b'/A' + b + b'B 7')
        for o in range(512):
            go(b'(\\%03o) 7' % o)
            go(b'(\\%o) 7' % o)
            go(b'(\\%o\\%o) 7' % (o, o ^ 1))
            for follow in (b'0', b'7', b'8', b'a', b'00', b'\\\\', b'(', b')('):
                if follow != b'(' and follow != b')(':
                    go(b'(\\%03o' % o + follow + b') 7')
                    go(b'(\\%o' % o + follow + b') 7')
                else:
                    go(b'((\\%o' % o + follow + b'))) 7' if follow == b'(' else b'((\\%o' % o + follow + b')) 7')
    elif k == 'num':
        for n in range(1, job[1] + 1):
            for t in itertools.product(NUM_A, repeat=n):
                d = b''.join(t)
                go(d)
                go(d + b' ')
                go(b'[' + d + b']')
                if n < job[1]:
                    go(d + b'/N')
                    go(b'(x)' + d + b'(y)')
    elif k == 'hex':
        for n in range(0, job[1] + 1):
            for t in itertools.product(HEX_A, repeat=n):
                go(b'<' + b''.join(t) + b'>7')
    elif k == 'str':
        for n in range(0, job[1] + 1):
            if n == 0 and job[2]:
                continue
            for t in itertools.product(STR_A, repeat=max(0, n - 1)):
                d = (STR_A[job[2]] if n else b'') + b''.join(t)
                go(b'(' + d + b')7')
    elif k == 'name':
        for n in range(1, job[1] + 1):
            for t in itertools.product(NAME_A, repeat=n - 1):
                d = NAME_A[job[2]] + b''.join(t)
                go(b'/' + d + b' 7')
                if n < job[1]:
                    go(b'<</' + d + b'/' + d + b'>>')
    elif k == 'seq':
        for n in range(1, job[1] + 1):
            for t in itertools.product(TOKENS, repeat=n - 1):
                seq = [TOKENS[job[2]]] + list(t)
                try:
                    pdfref.parse(b' '.join(seq))
                except Bad:
                    continue
                if b'7 0 R' in seq:     # references stand inside arrays and dictionaries
                    seq = [b'['] + seq + [b']']
                    try:
                        pdfref.parse(b' '.join(seq))
                    except Bad:
                        continue
                for sep in SEPS:
                    if sep == b'' and not all(joinable(a, b) for a, b in zip(seq, seq[1:])):
                        continue
                    go(sep.join(seq) + sep)
                    if n > 1 and sep not in (b'', b' '):
                        for g in range(len(seq) - 1):
                            go(b' '.join(seq[:g + 1]) + sep + b' '.join(seq[g + 1:]))
    elif k == 'size':
        top = SIZED[job[1]][0]
        for n in sizes(top if job[2] == 'quick' else 2 * top) if top > 100 else range(1, top):
            ctx.run({'k': 'size', 'z': job[1], 'n': n})
    elif k == 'tree':
        batch = []
        for i, v in enumerate(trees()):
            if i % 6 == job[1]:
                batch.append(v)
                if len(batch) == 150:
                    ctx.run({'k': 'doc', 'v': batch})
                    batch = []
        if batch:
            ctx.run({'k': 'doc', 'v': batch})
        for i, v in enumerate(trees()):
            if i % 6 == job[1]:
                for style in range(3) if v != '5 0 R' else ():
                    go(write(v, style))


SIZED = {
    # kind: (largest size, text)
    'name': (5000, lambda n: b'/' + b'Nam9'[:n % 4] + b'Name' * (n // 4) + b' 7'),
    'hexname': (1000, lambda n: b'/' + b'#41' * n + b'#20x 7'),
    'string': (70000, lambda n: b'(' + b'a' * (n % 10) + b'bcdefghij ' * (n // 10) + b')7'),
    'escapes': (20000, lambda n: b'(' + b'\\)' * (n // 3) + b'\\101' * (n // 3) + b'\\\n' * (n - n // 3 * 2) + b'x)7'),
    'parens': (1030, lambda n: b'(' * n + b'x' + b')' * n + b'7'),
    'pairs': (5000, lambda n: b'(' + b'()' * n + b'x)7'),
    'hex': (70000, lambda n: b'<' + b'4' * (2 * (n % 5)) + b'4142434445' * (n // 5) + b'>7'),
    'spaces': (9000, lambda n: b'1' + b' ' * n + b'2' + b'\n' * n + b'/N'),
    'comment': (9000, lambda n: b'1%' + b'c' * n + b'\n2'),
    'comments': (1000, lambda n: b'1' + b'%c\n' * n + b'2'),
    'array': (20000, lambda n: b'[' + b'1 ' * (n - 1) + b'2] 7'),
    'dict': (5000, lambda n: b'<<' + b''.join(b'/K%d %d' % (i, i) for i in range(n)) + b'>>7'),
    'refs': (5000, lambda n: b'[' + b' '.join(b'%d 0 R' % (i + 1) for i in range(n)) + b']7'),
    'nest': (130, lambda n: b'[' * n + b'1' + b'] 2' * n),
    'nestd': (130, lambda n: b'<</A' * n + b' 1' + b'/B 2>>' * n),
    'nestm': (130, lambda n: b'<</A[' * n + b'1' + b']/B 2>>' * n),
    'objects': (20000, lambda n: b'1 /N (s) ' * (n // 3) + b'<41>[] ' * (n % 3)),
    'number': (38, lambda n: b'%d -%d %d.%d ' % (2 ** n, 2 ** n + 1, 2 ** n - 1, 2 ** n) + b'0' * n + b'12'),
    'digits': (15, lambda n: b'1' * n + b' -' + b'9' * n + b' .' + b'3' * n + b' ' + b'8' * n + b'.25'),
}


LEAVES = ['1', '-0.5', '/K', '(v)', '<00ff>', 'true', 'null', '5 0 R']


def trees():
    """Every tree: leaf | [t...] (<=2 items) | <</A t /B t>>, to depth 3 (inner trees over fewer leaves)."""
    d1 = [l for l in LEAVES]
    d2 = list(composites(d1))
    d2small = list(composites(['1', '/K', '(v)'])) + ['1', 'null']
    d3 = list(composites(d2small))
    return d1 + d2 + d3


def composites(items):
    yield ['a']
    yield ['d']
    for x in items:
        yield ['a', x]
        yield ['d', x]
    for x in items:
        for y in items:
            yield ['a', x, y]
            yield ['d', x, y]


def write(v, style):
    sp, ds = [(b' ', b' '), (b'', b'\n'), (b'\r\n', b'% c\r')][style]
    if isinstance(v, str):
        return v.encode()
    if v[0] == 'a':
        return b'[' + sp + b' '.join(write(x, style) for x in v[1:]) + sp + b']'
    out = b'<<' + sp
    for k, x in zip((b'/A', b'/B'), v[1:]):
        out += k + ds + write(x, style) + b' '
    return out + sp + b'>>'


def impl_objects(data, content=False):
    from pdfmajor.execptions import PSEOF
    if content:
        from pdfmajor.parser.PDFContentParser import PDFContentParser
        from pdfmajor.parser.PDFStream import PDFStream
        p = PDFContentParser([PDFStream({}, data)])
        return [pdfref.canon(x) for x in p]
    from pdfmajor.parser.PDFParser import PDFStreamParser
    p = PDFStreamParser(data)
    out = []
    try:
        while 1:
            (_, o) = p.nextobject()
            out.append(pdfref.canon(o))
    except PSEOF:
        pass
    return out


def run_case(case, obs):
    if case['k'] in ('b', 'size'):
        data = bytes.fromhex(case['d']) if case['k'] == 'b' else SIZED[case['z']][1](case['n'])
        try:
            want = pdfref.parse(data)
        except Bad:
            return None
        obs.count('traces')
        obs.state(repr(want))
        obs.trans(len(want))
        got = impl_objects(data)
        obs.outcome(repr(got))
        if got != want:
            return 'object reader: %.300r is read as %.300r, not %.300r' % (data, got, want)
        if b' R' not in data:
            try:
                want = pdfref.parse(data, refs=False)
            except Bad:
                return None
            got = impl_objects(data, content=True)
            if got != want:
                return 'content reader: %.300r is read as %.300r, not %.300r' % (data, got, want)
        return None
    # a file whose indirect objects are the given trees
    from io import BytesIO
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    vals = case['v']
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0},
            3: 3, 4: 4, 5: 5, 6: 6, 7: 7}
    for i, v in enumerate(vals):
        objs[10 + i] = Raw(write(v, i % 3))
    d = Doc()
    d.rev(objs, root=R(1))
    doc = PDFDocument(PDFParser(BytesIO(bytes(d))))
    for i, v in enumerate(vals):
        want = pdfref.parse(write(v, i % 3))[0]
        obs.count('traces')
        obs.state(repr(want))
        obs.trans()
        got = pdfref.canon(doc.getobj(10 + i))
        if got != want:
            return 'file body: object %r is read as %r, not %r' % (write(v, i % 3), got, want)
    return None
