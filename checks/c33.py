"""C33: how values are stored makes no difference. In documents that use all kinds of objects every value stands in its place or in an object of its own (alone, in pairs, all at once, in all forms of storage), every entry is missing, null,
a reference to null or to no object, and every dictionary has one more entry, null or of no meaning: all that can be read of the document is the same."""
import copy
import itertools
import os
import re
import shutil
from io import BytesIO
from mc.pdfgen import N, R, S
from checks.c27 import full, paths, at, write, chunk, part
from checks.c30 import full2, FORMATS

ID = 'C33'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the first rendering of a document, whose parts C01-C32 decide, is right: this check compares the others with it']
CASE_CPU_S = 60
MODES = ['plain', 'objstm', 'aes', 'noxref']
# values of these entries stand by reference in every document
INDIRECT = {'Parent', 'First', 'Last', 'Next', 'Prev', 'P'}


def inlined():
    """The document of C27 with all values in their places that may stand there."""
    objs, tr = full()
    nodes = {n for n, v in objs.items() if isinstance(v, dict) and v.get('Type') in ('Page', 'Pages')}

    def put(v, path, seen):
        if isinstance(v, R):
            n = num(v)
            if n in seen or n in nodes or path[-1] in INDIRECT or isinstance(objs[n], S):
                return R(n)
            return put(objs[n], path, seen | {n})
        if isinstance(v, dict):
            return {k: put(x, path + (k,), seen) for k, x in v.items()}
        if isinstance(v, list):
            return [put(x, path + (i,), seen) for i, x in enumerate(v)]
        return v
    out = {}
    for n, v in objs.items():
        v = objs[n]
        out[n] = S(put(v.attrs, (n,), {n}), v.data) if isinstance(v, S) else put(v, (n,), {n})
    tr = put(tr, ('T',), set())
    keep, todo = set(), [R(1)] + list(tr.values())
    while todo:
        v = todo.pop()
        if isinstance(v, R):
            if num(v) not in keep:
                keep.add(num(v))
                todo.append(out[num(v)])
        else:
            todo += [x for _, x in paths(v)]
    return {n: v for n, v in out.items() if n in keep}, tr


def num(r):
    return r.n if hasattr(r, 'n') else r.num if hasattr(r, 'num') else r[0]


def full3():
    """Entries the others have not."""
    o = {1: {'Type': N('Catalog'), 'Pages': R(2), 'Rotate': 0, 'Outlines': {'First': R(8), 'Last': R(8)}, 'Names': {'Dests': {'Kids': [{'Limits': [b'a', b'm'], 'Names': [b'd', [R(3), N('Fit')]]}, {'Limits': [b'n', b'z'], 'Names': [b'n', {'D': [R(4), N('Fit')]}]}]}}},
         2: {'Type': N('Pages'), 'Kids': [{'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1, 'Rotate': 270}, {'Type': N('Page'), 'Contents': R(5), 'Parent': R(2)}, R(4)], 'Count': 3, 'MediaBox': [10, 20, 110, 70], 'CropBox': [15, 25, 100, 60],
             'Resources': {'Font': {'F': {'Type': N('Font'), 'Subtype': N('TrueType'), 'BaseFont': N('Own'), 'FirstChar': 65, 'LastChar': 67, 'Widths': [500, 600, 700], 'Encoding': N('MacRomanEncoding'),
                                                   'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Own-Bold'), 'Flags': 33, 'Ascent': 800, 'Descent': -200, 'CapHeight': 700, 'Leading': 12, 'ItalicAngle': -12, 'FontBBox': [-5, -6, 800, 900], 'MissingWidth': 444,
                                                                      'FontWeight': 700, 'StemV': 80, 'FontFamily': b'Own'}},
                                    'H': {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Times-Roman'), 'Encoding': {'Type': N('Encoding'), 'BaseEncoding': N('StandardEncoding'), 'Differences': [65, N('B'), N('Adieresis'), 200, N('fi')]}},
                                    'T': {'Type': N('Font'), 'Subtype': N('Type3'), 'FontBBox': [0, -100, 700, 900], 'FontMatrix': [0.001, 0, 0, 0.001, 0, 0], 'CharProcs': {'A': R(10)}, 'Encoding': {'Differences': [65, N('A')]}, 'FirstChar': 65, 'LastChar': 65, 'Widths': [800],
                                          'FontDescriptor': {'FontName': N('T3'), 'Flags': 4, 'ItalicAngle': 0}},
                                    'V': {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Vert'), 'Encoding': R(11), 'ToUnicode': R(12), 'DescendantFonts': [
                                        {'Type': N('Font'), 'Subtype': N('CIDFontType0'), 'BaseFont': N('Vert'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'DW': 800, 'W': [1, [500, 600], 65, 70, 700], 'DW2': [800, -900],
                                         'W2': [65, [-700, 300, 800], 66, 67, -600, 250, 700], 'FontDescriptor': {'FontName': N('Vert'), 'Ascent': 700, 'Descent': -100, 'Flags': 4, 'FontBBox': [0, 0, 9, 9], 'MissingWidth': 5, 'FontFile3': R(10)}}]}},
                           'XObject': {'I': R(6), 'M': R(7), 'X': R(9)},
                           'ColorSpace': {'I': [N('ICCBased'), R(15)], 'N': [N('DeviceN'), [N('a'), N('b')], N('DeviceCMYK'), R(10)], 'D': [N('DeviceRGB')], 'C': [N('CalRGB'), {'WhitePoint': [1, 1, 1], 'Gamma': [1, 1, 1]}]}}},
         3: {'Type': N('Page'), 'Parent': R(2), 'Contents': [R(5), R(13)], 'MediaBox': [0, 0, 200.5, 300], 'LastModified': b'D:2020', 'Annots': [{'Subtype': N('Link'), 'Rect': [0, 0, 9, 9], 'Dest': b'd'}], 'B': [R(10)]},
         4: {'Type': N('Page'), 'Parent': R(2), 'Contents': R(13), 'Rotate': 90, 'Resources': {'Font': {'F': {'Type': N('Font'), 'Subtype': N('MMType1'), 'BaseFont': N('Mm'), 'Widths': [300] * 3, 'FirstChar': 65, 'LastChar': 67}}, 'XObject': {'X': R(9), 'I': R(6), 'M': R(7)}, 'ColorSpace': {'C': N('DeviceRGB')}}},
         5: S({'Filter': [N('ASCIIHexDecode'), N('RunLengthDecode')], 'DecodeParms': [None, None]}, (lambda d: bytes([len(d) - 1]) + d + b'\x80')(
             b'/I CS 1 0 1 SC /N cs 1 0 scn /F 9 Tf BT 20 30 Td (ABC\x80) Tj /H 8 Tf (AB\xc8) Tj /T 7 Tf (A) Tj /V 6 Tf <00410042> Tj ET').hex().encode() + b'>'),
         13: S({}, b'q 9 0 0 8 20 30 cm /I Do /M Do Q /X Do /C cs 1 0 0 sc 5 6 7 8 re f BT /F 5 Tf (AB) Tj ET'),
         6: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 2, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': [N('ICCBased'), R(15)], 'Decode': [0, 1], 'Interpolate': True, 'Name': N('I'), 'SMask': R(7)}, b'abcdef'),
         7: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 8, 'Height': 1, 'ImageMask': True, 'BitsPerComponent': 1, 'Decode': [1, 0]}, b'\xa5'),
         8: {'Title': b'one', 'Dest': [R(3), N('XYZ'), 1, 2, None], 'Next': R(14), 'Parent': R(1), 'First': R(16), 'Last': R(16), 'Count': 1},
         14: {'Title': b'\xfe\xff\0t', 'A': {'S': N('GoTo'), 'D': [R(3), N('Fit')]}, 'SE': R(1)}, 16: {'Title': b'in', 'Dest': b'n'},
         9: S({'Type': N('XObject'), 'Subtype': N('Form'), 'FormType': 1, 'BBox': [0, 0, 50, 60], 'Matrix': [2, 0, 0, 2, 5, 6], 'Resources': {'Font': {'F': {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Courier-Bold')}}}, 'Group': {'S': N('Transparency')}},
              b'BT /F 5 Tf (form) Tj ET 0 0 m 5 6 l S'),
         10: S({}, b'1 0 d0'), 11: S({'Type': N('CMap'), 'CMapName': N('V'), 'WMode': 1}, b'1 begincodespacerange <0000> <ffff> endcodespacerange 1 begincidrange <0000> <00ff> 0 endcidrange'),
         12: S({}, b'1 begincodespacerange <0000> <ffff> endcodespacerange 2 beginbfchar <0041> <0061> <0042> <0062> endbfchar'), 15: S({'N': 3, 'Alternate': N('DeviceRGB')}, b'icc')}
    return o, {'Info': {'Title': b'title', 'Trapped': True}, 'ID': [b'0123456789abcdef', b'0123456789abcdef']}


MAKERS = [inlined, full2, full3, full]
PLACES = []
for _i, _m in enumerate(MAKERS):
    _o, _t = _m()
    PLACES += [(_i, (_n,) + _p, _v) for _n in sorted(_o) for _p, _v in paths(_o[_n])] + [(_i, ('T',) + _p, _v) for _p, _v in paths(_t)]


def dict_at(i, path):
    return at(*MAKERS[i](), path)[0]


DIRECT = [p for p, (i, path, v) in enumerate(PLACES) if not isinstance(v, R)]
# without any entry, the resources of a form are those of the page
ENTRIES = [p for p, (i, path, v) in enumerate(PLACES) if isinstance(path[-1], str) and not (len(path) > 2 and path[-2] == 'Resources' and len(dict_at(i, path)) == 1)]
DICTS = []
for _i, _m in enumerate(MAKERS):
    _o, _t = _m()
    DICTS += [(_i, (_n,)) for _n in sorted(_o) if isinstance(_o[_n], (dict, S))] + [(_i, (_n,) + _p) for _n in sorted(_o) for _p, _v in paths(_o[_n]) if isinstance(_v, dict)] + [(_i, ('T',))]
KEYS = sorted({PLACES[p][1][-1] for p in ENTRIES} | {'Encrypt', 'XRefStm', 'Prev', 'F', 'DP', 'Mask', 'Decode', 'type', 'FontFile', 'FontFile2', 'FontFile3', 'UseCMap', 'WMode', 'DW', 'W', 'W2', 'DW2', 'K', 'Columns', 'Colors', 'Limits', 'Lang', 'CIDToGIDMap',
                'OC', 'Metadata', 'PageMode', 'ViewerPreferences', 'AcroForm', 'Tabs', 'UserUnit', 'FDecodeParms', 'FFilter', 'DL', 'Encoding', 'Style', 'Rotate'})
MODES_OF_NOTHING = ['absent', 'null', 'ref', 'missing']


def BOUNDS(tier):
    q = tier == 'quick'
    return ('%d values of four documents by reference: each alone in %d forms of storage%s, %s pairs of a document, all at once; %d entries absent, null and null by reference; %d dictionaries with each of %d entries that are null%s' %
            (len(DIRECT), len(MODES), ' (a third of it in all but the first)' if q else '', 'a 150th of the' if q else 'a 5th of the', len(ENTRIES), len(DICTS), len(KEYS), ', a tenth of it' if q else ''))


def jobs(tier):
    return [('ref', m, i, 4) for m in MODES for i in range(4)] + [('pair', i, 8) for i in range(8)] + [('all', m) for m in MODES] + [('null', i, 8) for i in range(8)] + [('add', i, 16) for i in range(16)] + [('base', 0), ('deep',)]


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'
    if k == 'ref':
        turn = MODES.index(job[1])
        chunk(ctx, {'k': k, 'm': job[1]}, part(([p] for p in DIRECT if turn == 0 or not quick or p % 3 == turn - 1), job[2], job[3]), 10)
    elif k == 'pair':
        step = 150 if quick else 5
        it = ([p, r] for n, (p, r) in enumerate((p, r) for p, r in itertools.combinations(DIRECT, 2) if PLACES[p][0] == PLACES[r][0]) if n % step == 0)
        chunk(ctx, {'k': 'ref', 'm': 'plain'}, part(it, job[1], job[2]), 10)
    elif k == 'all':
        # all values of the same depth, or all from some depth on, or all
        for i in range(len(MAKERS)):
            for d in range(9):
                ctx.run({'k': 'all', 'm': job[1], 's': [[i, d, e] for e in (0, 1)]})
    elif k == 'null':
        chunk(ctx, {'k': k}, part(ENTRIES, job[1], job[2]), 5)
    elif k == 'add':
        it = ([d, a] for d in range(len(DICTS)) for a in range(len(KEYS)) if not quick or (d * 7 + a) % 10 == 0)
        chunk(ctx, {'k': k}, part(it, job[1], job[2]), 10)
    elif k == 'deep':
        chunk(ctx, {'k': k}, range(len(nested(3))), 40)
    else:
        for i in range(len(MAKERS)):
            for m in MODES:
                ctx.run({'k': 'base', 'm': m, 's': [i]})


def nested(n):
    """Values of up to n levels; tuples stand for references."""
    if n == 0:
        return [5, (5,)]
    below = nested(n - 1)
    out = [v for t in below for v in ([t], [t, 5], {'A': t}, {'A': 7, 'B': t})]
    return [5, (5,)] + out + [(v,) for v in out]


def resolved(x):
    if isinstance(x, tuple):
        return resolved(x[0])
    return [resolved(v) for v in x] if isinstance(x, list) else {k: resolved(v) for k, v in x.items()} if isinstance(x, dict) else x


def stored(x, objs):
    """The value as pdfgen takes it; what is referred to is put into objs."""
    if isinstance(x, tuple):
        v = stored(x[0], objs)
        objs[len(objs) + 10] = v
        return R(len(objs) + 9)
    return [stored(v, objs) for v in x] if isinstance(x, list) else {k: stored(v, objs) for k, v in x.items()} if isinstance(x, dict) else x


def deep(numbers, obs):
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFStream.util import resolve_all
    values = nested(3)
    for n in numbers:
        objs = {}
        v = stored(values[n], objs)
        objs[1] = {'Type': N('Catalog'), 'Pages': R(2), 'V': v}
        objs[2] = {'Type': N('Pages'), 'Kids': [], 'Count': 0}
        got = resolve_all(PDFDocument(PDFParser(BytesIO(write(objs, {})))).catalog['V'])
        if got != resolved(values[n]):
            return 'all of %r is %r' % (values[n], got)
        obs.state(('deep', n))
        obs.trans()
        obs.count('traces')
    return None


def plain(x, depth=8):
    """Values as comparable ones."""
    from pdfmajor.parser.PDFStream import PDFStream, resolve1
    x = resolve1(x)
    if depth == 0:
        return '...'
    if isinstance(x, PDFStream):
        return ('stream', plain({k: v for k, v in x.attrs.items() if k not in ('Parent',)}, depth - 1))
    if isinstance(x, (list, tuple)):
        return [plain(v, depth - 1) for v in x]
    if isinstance(x, dict):
        if x.get('Type') is not None and str(getattr(resolve1(x['Type']), 'name', '')) in ('Page', 'Pages'):
            return 'page'
        return {str(k): plain(v, depth - 1) for k, v in x.items() if resolve1(v) is not None and str(k) not in ('Zz', 'Length')}
    if hasattr(x, 'name'):
        return '/' + str(x.name)
    return x


def digest(data, formats=FORMATS):
    """All that can be read of a document."""
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.converters import convert_file
    from pdfmajor.interpreter import PDFInterpreter, LTImage, LTXObject, LTTextBlock
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFPage import PDFPage
    from pdfmajor.parser.PDFParser import PDFParser
    from mc.items import box, canon
    out = []
    with open('in.pdf', 'wb') as f:
        f.write(data)

    def guard(name, f):
        try:
            out.append((name, f()))
        except PDFMajorException as e:
            out.append((name, 'error'))

    def document():
        doc = PDFDocument(PDFParser(BytesIO(data)))
        guard('info', lambda: [plain(i) for i in doc.info])
        guard('catalog', lambda: plain({k: v for k, v in doc.catalog.items() if k not in ('Pages', 'Names', 'Dests', 'Outlines')}))
        guard('pages', lambda: [(list(p.mediabox), list(p.cropbox), p.rotate, plain(p.annots), plain(p.lastmod), len(p.contents)) for p in PDFPage.create_pages(doc)])
        guard('outlines', lambda: [(a, b, plain(c), plain(d), plain(e)) for a, b, c, d, e in doc.get_outlines()])
        for key in (b'd', b'n', b'Identity', b'p', 'd', 'n', b'zz'):
            guard('dest %r' % key, lambda: plain(doc.get_dest(key)))
        return doc.is_extractable

    def pages():
        r = []
        for page in PDFInterpreter('in.pdf', ignore_bad_chars=True):
            guard('page', lambda: (page.width, page.height, page.page_num, [item(x) for x in page]))

    def font(f):
        return [f.fontname, f.flags, f.ascent, f.descent, list(f.bbox), f.leading, f.italic_angle, f.font_weight, f.is_bold, f.is_vertical()]

    def item(x):
        if isinstance(x, LTImage):
            shutil.rmtree('img', ignore_errors=True)
            os.mkdir('img')
            guard('saved', lambda: x.save_image('img') and None)
            files = [open(os.path.join('img', f), 'rb').read() for f in sorted(os.listdir('img'))]
            return ('image', box(x.bbox), list(x.srcsize), x.bits, plain(list(x.colorspace)), plain(x.imagemask), x.stream.get_data(), files)
        if isinstance(x, LTXObject):
            return ('form', box(x.bbox), [item(y) for y in x])
        if isinstance(x, LTTextBlock):
            return ('text', canon(x), [[font(b.font), b.size, [(c.get_text(), box(c.bbox), font(c.font)) for c in b]] for b in x])
        return canon(x)
    guard('document', document)
    guard('read', pages)
    for f in formats:
        def convert():
            try:
                convert_file('in.pdf', 'out.' + f, out_type=f, ignore_bad_chars=True)
                # images are numbered on and on
                return re.sub(rb'image[0-9]+', b'image', open('out.' + f, 'rb').read())
            finally:
                if os.path.exists('out.' + f):
                    os.unlink('out.' + f)
        guard(f, convert)
    return out


def differs(a, b, path=''):
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %s and %s' % (path, repr(a)[:300], repr(b)[:300])
        return next((d for d in (differs(x, y, '%s.%s' % (path, i)) for i, (x, y) in enumerate(zip(a, b))) if d), None)
    if a != b:
        return '%s: %s and %s' % (path, repr(a)[:300], repr(b)[:300])
    return None


BASES = {}


def base(i):
    if i not in BASES:
        BASES[i] = digest(write(*MAKERS[i]()))
    return BASES[i]


def formats(n):
    return [FORMATS[n % 5]]


def compare(what, got, want):
    """Only what both have: conversions are made in some of the formats."""
    names = {n for n, _ in got}
    want = [w for w in want if w[0] in names or w[0] not in FORMATS]
    d = differs([list(x) for x in got], [list(x) for x in want])
    return None if d is None else '%s: %s' % (what, d)


def run_case(case, obs):
    k = case['k']
    if k == 'deep':
        return deep(case['s'], obs)
    for x in case['s']:
        if k == 'ref':
            i = PLACES[x[0]][0]
            objs, tr = MAKERS[i]()
            new = max(objs) + 1
            # the inner of two first
            for p in sorted(x, key=lambda p: -len(PLACES[p][1])):
                c, key = at(objs, tr, PLACES[p][1])
                objs[new], c[key] = c[key], R(new)
                new += 1
            out = digest(write(objs, tr, case['m']), formats(sum(x)))
            err = compare('%s by reference, %s' % ([PLACES[p][:2] for p in x], case['m']), out, base(i))
        elif k == 'all':
            i, d, e = x
            objs, tr = MAKERS[i]()
            some = [p for p in DIRECT if PLACES[p][0] == i and (len(PLACES[p][1]) == d + 2 if e == 0 else len(PLACES[p][1]) >= d + 2)]
            new = max(objs) + 1
            for p in sorted(some, key=lambda p: -len(PLACES[p][1])):
                c, key = at(objs, tr, PLACES[p][1])
                objs[new], c[key] = c[key], R(new)
                new += 1
            out = digest(write(objs, tr, case['m']))
            err = compare('document %d, all values of depth %d%s by reference, %s' % (i, d, ' and more' * e, case['m']), out, base(i))
        elif k == 'null':
            i, path, _ = PLACES[x]
            got = []
            for m in MODES_OF_NOTHING:
                objs, tr = MAKERS[i]()
                new = max(objs) + 1
                c, key = at(objs, tr, path)
                if m == 'absent':
                    del c[key]
                else:
                    c[key] = None if m == 'null' else R(new + (m == 'missing'))
                    objs[new] = None
                got.append(digest(write(objs, tr), formats(x)))
            out = got[0]
            err = next((e for e in (compare('%s %s' % ((i, path), m), g, got[0]) for m, g in zip(MODES_OF_NOTHING[1:], got[1:])) if e), None)
        elif k == 'add':
            i, path = DICTS[x[0]]
            out = err = None
            for m in ('null', 'ref', 'missing', 'Zz'):
                objs, tr = MAKERS[i]()
                new = max(objs) + 1
                if path == ('T',):
                    c = tr
                else:
                    c, key = at(objs, tr, path)
                    c = c[key]
                    c = c.attrs if isinstance(c, S) else c
                key = 'Zz' if m == 'Zz' else KEYS[x[1]]
                # the file holds these (the first by other means), and the descriptors of fonts are output with all entries
                if key in c or key in ('Length', 'Prev', 'XRefStm') or m == 'Zz' and 'FontName' in c:
                    continue
                c[key] = None if m == 'null' else [b'x', 5, R(1)] if m == 'Zz' else R(new + (m == 'missing'))
                objs[new] = None
                out = digest(write(objs, tr), formats(sum(x)))
                err = err or compare('%s with %s %s' % ((i, path), key, m), out, base(i))
        else:
            out = got = base(x)
            err = compare('document %d, %s' % (x, case['m']), digest(write(*MAKERS[x](), mode=case['m'])), got)
            if not err and len([1 for n, v in got if n not in FORMATS and v != 'error']) < 9:
                err = 'document %d can not be read: %r' % (x, got)
        if err:
            return err
        obs.state((k, case.get('m'), x))
        obs.trans()
        obs.count('traces')
        obs.outcome(repr(out))
    return None
