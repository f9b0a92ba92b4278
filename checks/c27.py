"""C27: reading always ends. Every redirection of one and of two references (and every replacement of a number) of documents that use every kind of reference, every small graph of
page trees, cross-reference chains, forms, outlines, name trees, chains of references, object streams, character maps and filters, and deep nesting."""
import itertools
import os
import shutil
import zlib
from io import BytesIO
from mc import filters
from mc.pdfcrypt import Crypt
from mc.pdfgen import N, R, S, Doc, ser, Raw

ID = 'C27'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a limit on processor time (40 s for documents of at most some kilobytes) stands for not ending']
CASE_CPU_S = 40
MODES = ['plain', 'objstm', 'aes', 'noxref', 'nocache']
NUMBERS = [-1, 0, 1, 65536, 2 ** 31, 10 ** 12, -10 ** 12, 2.5, 1e20]


def BOUNDS(tier):
    return ('a document with %d references between %d objects: every reference redirected to every object (%s), two references of a document with %d redirected at once (%s), '
            'every number replaced by %d others; all graphs of page trees, cross-reference sections, forms, outlines and name trees over %s nodes; chains and nests of up to %d' %
            (len(REFS), len(TARGETS), 'in all forms of storage' if tier != 'quick' else 'in one form of storage, and a fifth of it in each of the others', len(SREFS), 'all pairs' if tier != 'quick' else 'a third of the pairs of targets', len(NUMBERS), '2-3' if tier == 'quick' else '3-4', 2000))


def rl(d):
    return b''.join(bytes([len(d[j:j + 128]) - 1]) + d[j:j + 128] for j in range(0, len(d), 128)) + b'\x80'


def full():
    """A document in which every kind of reference occurs."""
    form = S({'Type': N('XObject'), 'Subtype': N('Form'), 'Resources': R(5), 'BBox': R(52), 'Matrix': R(53), 'Length': R(43)}, b'/F 9 Tf BT (f) Tj ET /Im Do /Fm Do')
    tou = S({'Filter': R(44)}, zlib.compress(b'1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfrange <20> <7e> <0020> endbfrange'))
    content = b'/DeviceRGB cs 1 0 0 sc /C cs 1 0 1 sc BT /F 12 Tf (ab) Tj /T 12 Tf <00410042> Tj /Y 3 Tf (A) Tj ET /Fm Do /Im Do 0 0 m 5 5 l S'
    enc = S({'Type': N('CMap'), 'CMapName': N('Own'), 'UseCMap': R(65), 'CIDSystemInfo': R(50)}, b'1 begincodespacerange <0000> <ffff> endcodespacerange 1 begincidrange <0000> <00ff> 0 endcidrange')
    o = {1: {'Type': N('Catalog'), 'Pages': R(2), 'Outlines': R(20), 'Names': R(30), 'Dests': R(34)},
         2: {'Type': N('Pages'), 'Kids': R(63), 'Count': R(64), 'Resources': R(5), 'MediaBox': R(40)},
         63: [R(3), R(4)], 64: 2, 4: {'Type': N('Pages'), 'Parent': R(2), 'Kids': [R(7)], 'Count': 1, 'Rotate': R(41)},
         3: {'Type': N('Page'), 'Parent': R(2), 'Contents': R(66), 'Annots': R(67), 'CropBox': R(40)}, 66: [R(6), R(68)], 67: [R(58)],
         7: {'Type': N('Page'), 'Parent': R(4), 'Contents': R(68), 'Resources': {'Font': R(8), 'XObject': R(9)}},
         5: {'Font': R(8), 'XObject': R(9), 'ColorSpace': R(10), 'ProcSet': R(42)}, 42: [N('PDF'), R(69)], 69: N('Text'), 40: [R(41), 0, 100, R(70)], 41: 0, 70: 200,
         6: S({'Filter': R(44), 'DecodeParms': R(45)}, zlib.compress(content)), 44: N('FlateDecode'), 45: {'Predictor': R(71)}, 71: 1,
         68: S({'Filter': [R(44)], 'DecodeParms': [R(45)]}, zlib.compress(b'/F 4 Tf BT (x) Tj ET')), 43: 33,
         8: {'F': R(11), 'T': R(12), 'Y': R(72)}, 11: {'Type': N('Font'), 'Subtype': R(73), 'BaseFont': R(74), 'FontDescriptor': R(13), 'Widths': R(46), 'FirstChar': R(47), 'Encoding': R(48), 'ToUnicode': R(14)},
         73: N('Type1'), 74: N('Own'), 46: [R(75), 300], 75: 250, 47: 97, 48: {'BaseEncoding': R(76), 'Differences': R(77)}, 76: N('WinAnsiEncoding'), 77: [R(47), N('a'), R(78)], 78: N('b'), 14: tou,
         12: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Own2'), 'DescendantFonts': R(49), 'ToUnicode': R(14), 'Encoding': R(16)}, 49: [R(15)], 16: enc, 65: S({}, b'1 begincidchar <0041> 5 endcidchar'),
         15: {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': R(74), 'CIDSystemInfo': R(50), 'W': R(51), 'DW': R(75), 'FontDescriptor': R(13)},
         50: {'Registry': R(79), 'Ordering': R(80), 'Supplement': 0}, 79: b'Adobe', 80: b'Identity', 51: [1, R(46), 5, R(81), R(75)], 81: 9,
         13: {'Type': N('FontDescriptor'), 'FontName': R(74), 'Ascent': R(70), 'Descent': -20, 'FontBBox': R(40), 'FontFile': R(17), 'MissingWidth': R(75), 'Flags': R(81), 'FontWeight': R(75)},
         17: S({'Length1': R(82)}, b'/Encoding 256 array dup 97 /a put readonly def'), 82: 46,
         72: {'Type': N('Font'), 'Subtype': N('Type3'), 'FontBBox': R(40), 'FontMatrix': R(53), 'CharProcs': R(83), 'Encoding': R(48), 'FirstChar': R(47), 'Widths': R(46), 'Resources': R(5)}, 83: {'a': R(18)},
         9: {'Fm': R(18), 'Im': R(19)}, 18: form, 52: [0, 0, R(70), R(70)], 53: [R(84), 0, 0, R(84), 0, 0], 84: 1,
         19: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': R(84), 'Height': R(84), 'BitsPerComponent': R(85), 'ColorSpace': R(54), 'Filter': [R(86)], 'SMask': R(19), 'Length': R(87)}, b'616263>'),
         85: 8, 86: N('ASCIIHexDecode'), 87: 7, 10: {'C': R(54)}, 54: [N('ICCBased'), R(55)], 55: S({'N': R(88), 'Alternate': R(10)}, b'icc'), 88: 3,
         20: {'First': R(21), 'Last': R(22)}, 21: {'Title': R(56), 'Next': R(22), 'Parent': R(20), 'Dest': R(57)}, 22: {'Title': b'two', 'Prev': R(21), 'Parent': R(20), 'A': R(58), 'First': R(23), 'Last': R(23)},
         23: {'Title': b'three', 'Dest': b'n', 'Parent': R(22)}, 56: b'one', 57: [R(3), N('Fit')], 58: {'S': N('GoTo'), 'D': R(57)},
         30: {'Dests': R(31)}, 31: {'Kids': R(59)}, 59: [R(32), R(33)], 32: {'Limits': R(60), 'Names': R(61)}, 33: {'Limits': [b'p', b'q'], 'Names': [b'p', R(57)]}, 60: [R(80), b'n'], 61: [R(80), R(57), b'n', R(57)], 34: {'d': R(57)},
         62: {'Title': R(56)}}
    return o, {'Info': R(62)}


def small():
    """A document with few objects, for pairs."""
    o = {1: {'Type': N('Catalog'), 'Pages': R(2), 'Outlines': R(8)},
         2: {'Type': N('Pages'), 'Kids': [R(3), R(2)], 'Count': 1, 'MediaBox': [0, 0, 9, 9]},
         3: {'Type': N('Page'), 'Parent': R(2), 'Contents': [R(4), R(4)], 'Resources': R(5)},
         4: S({'Length': R(10), 'Filter': R(11)}, zlib.compress(b'BT /F 1 Tf (ab) Tj ET /X Do')),
         5: {'Font': {'F': R(6)}, 'XObject': {'X': R(7)}, 'ColorSpace': {'C': R(12)}},
         6: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('B'), 'Encoding': N('Identity-H'), 'DescendantFonts': [R(9)], 'ToUnicode': R(4)},
         9: {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('B'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'UCS'}, 'W': [0, [500]]},
         7: S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 5, 5], 'Resources': R(5)}, b'/X Do 0 0 m 1 1 l S'),
         8: {'Title': b't', 'Dest': b'd', 'First': R(8), 'Last': R(8), 'Next': R(8)}, 10: 35, 11: N('FlateDecode'), 12: [N('ICCBased'), R(7)]}
    return o, {}


def paths(v, pre=()):
    """All places below v: (path, value)."""
    if isinstance(v, S):
        v = v.attrs
    it = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()
    for k, x in it:
        yield pre + (k,), x
        for y in paths(x, pre + (k,)):
            yield y


def places(make, want):
    objs, tr = make()
    out = [((n,) + p, v) for n in sorted(objs) for p, v in paths(objs[n])] + [(('T',) + p, v) for p, v in paths(tr)]
    out += [((n,), v) for n, v in sorted(objs.items())]
    return [p for p, v in out if want(v)]


def isref(v):
    return isinstance(v, R)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


REFS = places(full, isref) + [('T', 'Root')]
NUMS = places(full, isnum)
TARGETS = sorted(full()[0]) + [999, 'null', 0]
SREFS = places(small, isref)
STARGETS = sorted(small()[0]) + [999]


def jobs(tier):
    out = [('one', m, i, 8) for m in MODES for i in range(8)] + [('num', m, i, 4) for m in MODES for i in range(4)] + [('obj', m, i, 4) for m in MODES for i in range(4)]
    out += [('two', i, 32) for i in range(32)]
    out += [('pages', i, 4) for i in range(4)] + [('prev', x, i, 4) for x in ('table', 'stream') for i in range(4)] + [('xstm', 0)]
    out += [('forms', i, 4) for i in range(4)] + [('outl', i, 8) for i in range(8)] + [('tree', i, 4) for i in range(4)]
    out += [('chain', m) for m in MODES] + [('objstm', i, 4) for i in range(4)] + [('cmap', 0), ('kids', 0), ('crypt', 0), ('filters', 0)]
    out += [('deep', x) for x in DEEP] + [('base', m) for m in MODES]
    return out


DEEP = ['array', 'dict', 'mixed', 'pages', 'forms', 'q', 'refs', 'contents', 'names', 'outl', 'length', 'kids', 'usecmap', 'strings', 'inline', 'prev', 'filters', 'proc']


def part(it, i, k):
    return (x for n, x in enumerate(it) if n % k == i)


def chunk(ctx, case, it, n=12):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            ctx.run(dict(case, s=buf))
            buf = []
    if buf:
        ctx.run(dict(case, s=buf))


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'

    def some(x):
        # of the other forms of storage, the quick tier takes every fifth
        return not quick or job[1] == 'plain' or x % 5 == MODES.index(job[1])
    if k == 'one':
        chunk(ctx, {'k': 'one', 'm': job[1]}, part(([[r, t]] for r in range(len(REFS)) for i, t in enumerate(TARGETS) if some(r + i)), job[2], job[3]))
    elif k == 'num':
        chunk(ctx, {'k': 'num', 'm': job[1]}, part(([n, v] for n in range(len(NUMS)) for v in range(len(NUMBERS))), job[2], job[3]))
    elif k == 'obj':
        # objects that hold what others do: every object a copy of every other
        chunk(ctx, {'k': 'obj', 'm': job[1]}, part(([a, b] for a in TARGETS[:-3] for b in TARGETS[:-3] if a != b and some(a + b)), job[2], job[3]))
    elif k == 'two':
        tg = STARGETS
        it = ([[a, t], [b, u]] for a, b in itertools.combinations(range(len(SREFS)), 2) for i, t in enumerate(tg) for j, u in enumerate(tg) if not quick or (i + j + a + b) % 3 == 0)
        chunk(ctx, {'k': 'two'}, part(it, job[1], job[2]))
    elif k == 'pages':
        n = 3 if quick else 4
        tg = list(range(n)) + ['p']
        lists = [[]] + [[a] for a in tg] + [[a, b] for a in tg for b in tg]
        chunk(ctx, {'k': 'pages'}, part((list(x) for x in itertools.product(lists, repeat=n)), job[1], job[2] * (1 if quick else 40)), 40)
        if not quick:
            lists = [[]] + [[a] for a in tg] + [[a, b] for a in tg for b in tg if a != b]
    elif k == 'prev':
        n = 3 if quick else 4
        tg = [None] + list(range(n)) + ['self-1', 'far', 'neg', 'junk', 'real']
        chunk(ctx, {'k': 'prev', 'x': job[1]}, part((list(x) for x in itertools.product(tg, repeat=n)), job[2], job[3]))
    elif k == 'xstm':
        tg = [None] + list(range(3))
        chunk(ctx, {'k': 'prev', 'x': 'xstm'}, (list(x) for x in itertools.product(tg, repeat=4)))
    elif k == 'forms':
        n = 3
        lists = [[]] + [[a] for a in range(n)] + [[a, b] for a in range(n) for b in range(n)]
        chunk(ctx, {'k': 'forms'}, part(([list(x), r] for x in itertools.product(lists, repeat=n) for r in range(3)), job[1], job[2]), 30)
    elif k == 'outl':
        n = 3
        tg = [None] + list(range(n))
        chunk(ctx, {'k': 'outl'}, part((list(x) for x in itertools.product(itertools.product(tg, repeat=2), repeat=n)), job[1], job[2]), 60)
    elif k == 'tree':
        n = 3
        lists = [[]] + [[a] for a in range(n)] + [[a, b] for a in range(n) for b in range(n)]
        chunk(ctx, {'k': 'tree'}, part(([list(x), y] for x in itertools.product(lists, repeat=n) for y in (0, 1)), job[1], job[2]), 30)
    elif k == 'chain':
        n = 3
        chunk(ctx, {'k': 'chain', 'm': job[1]}, ([list(x), s] for x in itertools.product(list(range(n)) + ['end'], repeat=n) for s in range(len(CHAINED))), 8)
    elif k == 'objstm':
        n = 3
        # where each of the streams is kept: itself, another stream, or the file; Length and N too
        chunk(ctx, {'k': 'objstm'}, part(([list(x), l] for x in itertools.product([None] + list(range(n)), repeat=n) for l in range(6)), job[1], job[2]), 12)
    elif k == 'cmap':
        chunk(ctx, {'k': 'cmap'}, ([list(x), y] for x in itertools.product([None] + list(range(3)), repeat=3) for y in (0, 1)))
    elif k == 'kids':
        chunk(ctx, {'k': 'kids'}, range(len(KIDS)), 1)
    elif k == 'crypt':
        chunk(ctx, {'k': 'crypt'}, ([a, b] for a in range(len(CRYPTS)) for b in range(3)), 1)
    elif k == 'filters':
        names = ['flate', 'lzw', 'a85', 'ahx', 'rl', 'ccitt', 'bad', 'self', 'null', 'num', 'dict', 'str']
        chunk(ctx, {'k': 'filters'}, (list(x) for n in (1, 2, 3) for x in itertools.product(names, repeat=n)), 30)
    elif k == 'base':
        ctx.run({'k': 'base', 'm': job[1], 's': ['full']})
        ctx.run({'k': 'base', 'm': job[1], 's': ['small']})
    else:
        for n in (10, 100, 1000, 2000):
            for m in MODES:
                ctx.run({'k': 'deep', 'x': job[1], 'n': n, 'm': m})


# places in which a chain of references is followed
CHAINED = [(1,), (2,), (3,), (1, 'Pages'), (2, 'Kids'), (2, 'Kids', 0), (3, 'Contents'), (3, 'Contents', 0), (3, 'Resources'), (4, 'Length'), (4, 'Filter'), (5, 'Font'), (5, 'XObject'), (5, 'ColorSpace'), (5, 'Font', 'F'),
           (5, 'XObject', 'X'), (6, 'DescendantFonts'), (6, 'DescendantFonts', 0), (6, 'ToUnicode'), (9, 'W'), (9, 'CIDSystemInfo'), (7, 'Resources'), (7, 'BBox'), (8, 'First'), (8, 'Next'), (1, 'Outlines'), (12, 1), (2, 'MediaBox'),
           (2, 'MediaBox', 1), (7, 'BBox', 1), ('T', 'Root'), (3, 'Rotate'), (2, 'Count'), (6, 'Encoding'), (6, 'Subtype'), (9, 'CIDSystemInfo', 'Registry'), (8, 'Title'), (8, 'Dest'), (9, 'W', 1), (9, 'W', 1, 0), (7, 'Matrix'),
           (2, 'Type'), (3, 'Type'), (7, 'Subtype'), (4, 'DecodeParms'), (5,)]
KIDS = [5, None, [5], [None], [[R(3)]], {}, R(2), [R(2), R(2)], [R(3), R(3), R(3)], b'x', [b'x', N('a')], [{'Type': N('Page'), 'MediaBox': [0, 0, 1, 1]}], [{'Type': N('Pages'), 'Kids': [R(3)]}], [{'Type': N('Pages'), 'Kids': [R(2)]}], True,
        [R(999), R(3)], [3], [R(1)], [R(0)], 2.5, N('Kids'), R(4), [R(4)], [R(10)]]
CRYPTS = ['self', 'catalog', 'page', 'null', 'miss', 'int', 'stream', 'O', 'U', 'P', 'V', 'R', 'CF', 'StdCF', 'StmF', 'ID', 'Filter', 'Length', 'CFM', 'OE']


def at(objs, tr, path):
    c = tr if path[0] == 'T' else objs if len(path) == 1 else objs[path[0]]
    p = path if len(path) == 1 else path[1:]
    for k in p[:-1]:
        if isinstance(c, S):
            c = c.attrs
        c = c[k]
    return (c.attrs if isinstance(c, S) else c), p[-1]


def put(objs, tr, path, v):
    c, k = at(objs, tr, path)
    c[k] = v


def get(objs, tr, path):
    c, k = at(objs, tr, path)
    return c[k]


def write(objs, tr, mode='plain'):
    tr = dict(tr)
    root = tr.pop('Root', R(1))
    crypt = Crypt('v4aes', '', '') if mode == 'aes' else None
    if crypt:
        tr.update({'Encrypt': crypt.dict, 'ID': [crypt.docid, crypt.docid]})
    d = Doc(crypt=crypt)
    top = max(objs) + 1
    if mode == 'objstm':
        inner = [n for n, v in objs.items() if not isinstance(v, S)]
        d.rev(objs, root=root, trailer=tr, mode='stream', objstm=inner, objstm_num=top, xref_num=top + 1)
    else:
        d.rev(objs, root=root, trailer=tr)
    data = bytes(d)
    if mode == 'noxref':
        data = data.replace(b'startxref', b'startnone')
    return data


def read(data, caching=True, save=False):
    """Reads everything; returns what kinds of ends there were."""
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.interpreter import PDFInterpreter, LTImage, LTXObject, LTTextBlock
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    ends = []
    if save:
        os.makedirs('img', exist_ok=True)
    with open('in.pdf', 'wb') as f:
        f.write(data)
    count = [0]

    def guard(f):
        try:
            f()
            ends.append('ok')
        except PDFMajorException as e:
            ends.append(type(e).__name__)

    def items():
        interpreter = PDFInterpreter('in.pdf', caching=caching, ignore_bad_chars=True)
        pages = iter(interpreter)
        while 1:
            page = next(pages, None)
            if page is None:
                return
            guard(lambda: [touch(x) for x in page])

    def touch(x):
        stack = [x]
        while stack:
            x = stack.pop()
            count[0] += 1
            if isinstance(x, LTImage):
                x.stream.get_data()
                if save:
                    guard(lambda: x.save_image('img'))
                    shutil.rmtree('img')
                    os.mkdir('img')
            elif isinstance(x, (LTXObject, LTTextBlock)):
                stack.extend(x)
    guard(items)
    docs = []
    guard(lambda: docs.append(PDFDocument(PDFParser(BytesIO(data)), caching=caching)))
    for doc in docs:
        guard(lambda: [count.append(0) for _ in doc.get_outlines()])
        for key in (b'n', b'Identity', b'zz', 'd'):
            guard(lambda: doc.get_dest(key))
    return ends, count[0], len(count)


def text(data):
    """The document as text."""
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.converters import convert_file
    try:
        if os.path.exists('out.text'):
            os.unlink('out.text')
        convert_file('in.pdf', 'out.text', out_type='text', ignore_bad_chars=True)
    except PDFMajorException:
        pass


def document(case, x):
    """The document of one case."""
    k = case['k']
    if k in ('one', 'num', 'obj'):
        objs, tr = full()
        if k == 'one':
            for r, t in x:
                put(objs, tr, REFS[r], None if t == 'null' else R(t))
        elif k == 'num':
            put(objs, tr, NUMS[x[0]], NUMBERS[x[1]])
        else:
            objs[x[0]] = objs[x[1]]
        return write(objs, tr, case['m'])
    if k == 'two':
        objs, tr = small()
        for r, t in x:
            put(objs, tr, SREFS[r], R(t))
        return write(objs, tr)
    if k == 'chain':
        objs, tr = small()
        g, s = x
        p = CHAINED[s]
        try:
            v = get(objs, tr, p)
        except (KeyError, IndexError):
            v = {'Rotate': 0, 'Matrix': [1, 0, 0, 1, 0, 0], 'DecodeParms': {}, 'Root': R(1)}[p[-1]]
        objs[90] = v
        for i, t in enumerate(g):
            objs[50 + i] = R(90 if t == 'end' else 50 + t)
        put(objs, tr, p, R(50))
        return write(objs, tr, case['m'])
    if k == 'kids':
        objs, tr = small()
        objs[2]['Kids'] = KIDS[x]
        return write(objs, tr)
    objs, tr = small()
    if k == 'pages':
        for i, l in enumerate(x):
            objs[20 + i] = {'Type': N('Pages'), 'Kids': [R(3) if t == 'p' else R(20 + t) for t in l], 'Count': 1, 'MediaBox': [0, 0, 9, 9]}
        objs[1]['Pages'] = R(20)
    elif k == 'forms':
        g, r = x
        for i, l in enumerate(g):
            at_ = {'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 5, 5]}
            if r == 0:
                at_['Resources'] = R(5)
            elif r == 1:
                at_['Resources'] = {'XObject': {'X%d' % j: R(20 + j) for j in range(3)}}
            objs[20 + i] = S(at_, b'0 0 m 1 1 l S ' + b' '.join(b'/X%d Do' % t for t in l))
        objs[5]['XObject'] = {'X%d' % j: R(20 + j) for j in range(3)}
        objs[4] = S({}, b'/X0 Do')
    elif k == 'outl':
        for i, (a, b) in enumerate(x):
            objs[20 + i] = {'Title': b'%d' % i, 'Dest': b'd'}
            if a is not None:
                objs[20 + i].update({'First': R(20 + a), 'Last': R(20 + a)})
            if b is not None:
                objs[20 + i]['Next'] = R(20 + b)
        objs[1]['Outlines'] = R(20)
    elif k == 'tree':
        g, y = x
        for i, l in enumerate(g):
            objs[20 + i] = {'Kids': [R(20 + t) for t in l]}
            if i == 2 and y:
                objs[20 + i]['Names'] = [b'n', 5]
        objs[1]['Names'] = {'Dests': R(20)}
    elif k == 'cmap':
        g, y = x
        for i, t in enumerate(g):
            at_ = {'Type': N('CMap'), 'CMapName': N('C%d' % i)}
            if t is not None:
                at_['UseCMap'] = R(20 + t)
            objs[20 + i] = S(at_, b'1 begincodespacerange <0000> <ffff> endcodespacerange 1 begincidchar <6162> 5 endcidchar /C0 usecmap')
        objs[6]['Encoding'] = R(20)
        objs[6]['ToUnicode'] = R(20 + y)
    elif k == 'filters':
        data, f = b'BT /F 1 Tf (ab) Tj ET', []
        enc = {'flate': ('FlateDecode', zlib.compress), 'a85': ('ASCII85Decode', filters.a85), 'ahx': ('ASCIIHexDecode', lambda d: d.hex().encode() + b'>'), 'rl': ('RunLengthDecode', rl),
               'lzw': ('LZWDecode', lambda d: filters.lzw_bits(filters.lzw_greedy(d))), 'ccitt': ('CCITTFaxDecode', bytes), 'bad': ('Nothing', bytes)}
        for i, n in reversed(list(enumerate(x))):
            if n in enc:
                data = enc[n][1](data)
        f = [N(enc[n][0]) if n in enc else {'self': R(11), 'null': None, 'num': 5, 'dict': {}, 'str': b'FlateDecode'}[n] for n in x]
        objs[11] = f
        objs[4] = S({'Filter': R(11), 'DecodeParms': [None, R(11), {'K': R(4)}]}, data)
    return write(objs, tr)


def run_case(case, obs):
    k = case['k']
    for x in case.get('s', [0]):
        if k == 'prev':
            data = prev(case['x'], x)
        elif k == 'objstm':
            data = nested(*x)
        elif k == 'crypt':
            data = crypted(*x)
        elif k == 'deep':
            data = deep(case['x'], case['n'], case['m'])
        elif k == 'base':
            data = write(*{'full': full, 'small': small}[x](), mode=case['m'])
        else:
            data = document(case, x)
        ends, n, m = read(data, case.get('m') != 'nocache')
        if k in ('one', 'deep', 'forms') and case.get('m', 'plain') == 'plain':
            text(data)
        if k == 'base':
            # without any damage, all there is
            want = {'full': (['ok'] * 7 + ['PDFDestinationNotFound', 'ok'], 14, 4), 'small': (['ok'] * 4 + ['PDFDestinationNotFound'] * 4, 8, 2)}[x]
            if (ends, n, m) != want:
                return 'undamaged document: %r instead of %r' % ((ends, n, m), want)
        obs.state((k, case.get('m'), case.get('x'), case.get('n'), x))
        obs.trans(len(ends))
        obs.count('traces')
        obs.outcome((ends, n, m))
    return None


def prev(kind, g):
    """Sections whose Prev (or XRefStm) entries lead anywhere."""
    objs, _ = small()
    buf = bytearray(b'%PDF-1.5\n')
    pos = {}
    for n, v in objs.items():
        pos[n] = len(buf)
        buf += b'%d 0 obj\n' % n
        if isinstance(v, S):
            at_ = dict(v.attrs)
            at_['Length'] = len(v.data)
            buf += ser(at_) + b'\nstream\n' + v.data + b'\nendstream'
        else:
            buf += ser(v)
        buf += b'\nendobj\n'
    starts = []
    holes = []
    kinds = ['stream'] * len(g) if kind == 'stream' else ['table'] * len(g)
    if kind == 'xstm':
        # two tables, with Prev and XRefStm each, and a stream as third section
        kinds = ['table', 'table', 'stream']
        links = [[('Prev', g[0]), ('XRefStm', g[1])], [('Prev', g[2]), ('XRefStm', g[3])], [('Prev', 0)]]
    else:
        links = [[('Prev', t)] if t is not None else [] for t in g]
    for i, kd in enumerate(kinds):
        starts.append(len(buf))
        tr = {'Size': 30, 'Root': R(1)}
        for name, t in links[i]:
            if t is not None:
                tr[name] = Raw(b'@%c%d@@@@@@@' % (65 + len(holes), len(holes) % 10))
                holes.append((tr[name], t))
        if kd == 'table':
            buf += b'xref\n1 12\n'
            for n in range(1, 13):
                buf += b'%010d 00000 n \n' % pos[n]
            buf += b'trailer\n' + ser(tr) + b'\n'
        else:
            data = b''.join(b'\x01' + pos[n].to_bytes(4, 'big') + b'\0' for n in range(1, 13))
            tr.update({'Type': N('XRef'), 'W': [1, 4, 1], 'Index': [1, 12], 'Length': len(data)})
            buf += b'%d 0 obj\n' % (40 + i) + ser(tr) + b'\nstream\n' + data + b'\nendstream\nendobj\n'
    buf += b'startxref\n%d\n%%%%EOF\n' % starts[-1]
    for i, (mark, t) in enumerate(holes):
        v = starts[t] if isinstance(t, int) else {'self-1': starts[0] - 1, 'far': 10 ** 9, 'neg': -5, 'junk': 12, 'real': 7.5}[t]
        buf = buf.replace(bytes(mark), (b'%.1f' % v if isinstance(v, float) else b'%d' % v).ljust(len(mark)), 1)
    return bytes(buf)


def nested(g, l):
    """Object streams 50.. kept as g says; Length or N may be objects inside of them."""
    objs, _ = small()
    n = len(g)
    buf = bytearray(b'%PDF-1.5\n')
    ent = {}
    inside = {60: 35, 61: 1, 62: R(61), 63: [R(60)], 64: N('ObjStm')}
    body = b''
    head = []
    for num, v in inside.items():
        head.append(b'%d %d' % (num, len(body)))
        body += ser(v) + b' '
    h = b' '.join(head) + b' '
    for i in range(n):
        at_ = {'Type': R(64) if l == 5 else N('ObjStm'), 'N': R(61) if l == 1 else len(inside), 'First': R(60) if l == 2 else len(h), 'Length': R(60) if l == 3 else len(h + body)}
        if l == 4:
            at_.update({'Filter': R(63), 'Extends': R(50)})
        if g[i] is not None:
            ent[50 + i] = (2, 50 + g[i], 0)
            continue
        ent[50 + i] = (1, len(buf), 0)
        buf += b'%d 0 obj\n' % (50 + i) + ser(at_) + b'\nstream\n' + h + body + b'\nendstream\nendobj\n'
    for j, num in enumerate(inside):
        ent[num] = (2, 50, j)
    objs[4].attrs['Length'] = R(60)
    objs[3]['Contents'] = [R(4), R(62), R(63)]
    for num, v in objs.items():
        ent[num] = (1, len(buf), 0)
        buf += b'%d 0 obj\n' % num
        if isinstance(v, S):
            at_ = dict(v.attrs)
            at_.setdefault('Length', len(v.data))
            buf += ser(at_) + b'\nstream\n' + v.data + b'\nendstream'
        else:
            buf += ser(v)
        buf += b'\nendobj\n'
    start = len(buf)
    nums = sorted(ent)
    data = b''.join(bytes([ent[i][0]]) + ent[i][1].to_bytes(4, 'big') + bytes([ent[i][2]]) for i in nums)
    tr = {'Type': N('XRef'), 'W': [1, 4, 1], 'Index': [v for i in nums for v in (i, 1)], 'Length': len(data), 'Size': 70, 'Root': R(1)}
    buf += b'80 0 obj\n' + ser(tr) + b'\nstream\n' + data + b'\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n' % start
    return bytes(buf)


def crypted(a, b):
    """The encryption dictionary refers to what it encrypts."""
    kind = CRYPTS[a]
    objs, tr = small()
    crypt = Crypt(['r3', 'v4aes', 'r5'][b], '', '')
    enc = dict(crypt.dict)
    objs[70] = enc
    tr = {'Encrypt': R(70), 'ID': [crypt.docid, crypt.docid]}
    bad = {'self': ('T', R(71)), 'catalog': ('T', R(1)), 'page': ('T', R(3)), 'null': ('T', None), 'miss': ('T', R(999)), 'int': ('T', 5), 'stream': ('T', R(4))}
    objs[71] = R(71)
    if kind in bad:
        tr['Encrypt'] = bad[kind][1]
    elif kind == 'ID':
        tr['ID'] = R(71)
    elif kind == 'StdCF':
        if 'CF' in enc:
            enc['CF'] = {'StdCF': R(70)}
    elif kind == 'CFM':
        if 'CF' in enc:
            enc['CF'] = {'StdCF': {'CFM': R(71)}}
    else:
        enc[kind] = R([71, 70, 4][b])
    d = Doc(crypt=crypt)
    d.rev(objs, root=R(1), trailer=tr, plain=(70,))
    return bytes(d)


def deep(kind, n, mode):
    objs, tr = small()
    if kind in ('array', 'dict', 'mixed', 'proc'):
        v = Raw({'array': b'[' * n + b']' * n, 'dict': b'<</A ' * n + b'1' + b'>>' * n, 'mixed': b'[<</A ' * n + b'(s)' + b'>>]' * n, 'proc': b'[{' * n + b'}]' * n}[kind])
        objs[3]['Extra'] = v
        objs[3]['Rotate'] = R(30)
        objs[30] = v
        objs[4] = S({}, bytes(v) + b' pop BT /F 1 Tf ' + bytes(v) + b' TJ (ab) Tj ET')
        objs[8]['Dest'] = v
        objs[9]['W'] = v
    elif kind == 'pages':
        for i in range(n):
            objs[100 + i] = {'Type': N('Pages'), 'Kids': [R(101 + i) if i + 1 < n else R(3)], 'Count': 1, 'MediaBox': [0, 0, 9, 9]}
        objs[1]['Pages'] = R(100)
    elif kind in ('forms',):
        for i in range(n):
            objs[100 + i] = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 5, 5], 'Resources': {'XObject': {'X': R(101 + i)}} if i + 1 < n else {}}, b'0 0 m 1 1 l S' + (b' /X Do' if i + 1 < n else b''))
        objs[5]['XObject'] = {'X': R(100)}
    elif kind == 'q':
        objs[4] = S({}, b'q ' * n + b'BT /F 1 Tf (ab) Tj ET ' + b'Q ' * n)
    elif kind == 'refs':
        for i in range(n):
            objs[100 + i] = R(101 + i)
        objs[100 + n] = [0, 0, 5, 5]
        objs[2]['MediaBox'] = R(100)
        objs[3]['Resources'] = R(101)
        objs[4].attrs['Length'] = R(102)
    elif kind == 'contents':
        for i in range(n):
            objs[100 + i] = [R(101 + i)]
        objs[100 + n] = S({}, b'0 0 m 1 1 l S')
        objs[3]['Contents'] = R(100)
    elif kind == 'names':
        for i in range(n):
            objs[100 + i] = {'Kids': [R(101 + i)]}
        objs[100 + n] = {'Names': [b'n', 5]}
        objs[1]['Names'] = {'Dests': R(100)}
    elif kind == 'outl':
        for i in range(n):
            objs[100 + i] = {'Title': b'x', 'Dest': b'd', 'First': R(101 + i), 'Last': R(101 + i)}
        objs[1]['Outlines'] = R(100)
    elif kind == 'length':
        # the length of every stream is that of the next
        for i in range(n):
            objs[100 + i] = S({'Length': R(101 + i)}, b'5')
        objs[3]['Contents'] = R(100)
    elif kind == 'kids':
        objs[2]['Kids'] = [R(3)] * n
    elif kind == 'usecmap':
        for i in range(n):
            objs[100 + i] = S({'Type': N('CMap'), 'CMapName': N('C'), 'UseCMap': R(101 + i)}, b'1 begincodespacerange <0000> <ffff> endcodespacerange')
        objs[6]['Encoding'] = R(100)
        objs[6]['ToUnicode'] = R(100)
    elif kind == 'strings':
        objs[4] = S({}, b'BT /F 1 Tf ' + b'(' * n + b')' * n + b' Tj ET')
        objs[8]['Title'] = Raw(b'(' * n + b')' * n)
    elif kind == 'inline':
        objs[4] = S({}, b'BI ' * n + b'/W 1 /H 1 ID x EI ')
    elif kind == 'prev':
        d = Doc()
        d.rev(objs, root=R(1))
        for i in range(n):
            d.rev({10: 35}, root=R(1))
        return bytes(d)
    elif kind == 'filters':
        data = b'0 0 m 1 1 l S'
        for i in range(min(n, 1000)):
            data = zlib.compress(data) if i % 2 else rl(data)
        objs[4] = S({'Filter': [N('FlateDecode' if i % 2 else 'RunLengthDecode') for i in reversed(range(min(n, 1000)))]}, data)
    return write(objs, tr, mode)
