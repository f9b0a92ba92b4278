"""C32: attributes of fonts and images. Font dictionaries with every subset of the descriptor entries, direct and by reference, standard fonts, all
orders of fonts on pages, and image dictionaries with every subset of entries are read; what the characters, blocks and images of the pages report is
compared with the declarations."""
import io
import itertools
from mc import fonts
from mc.pdfgen import N, R, S, Raw, simple

ID = 'C32'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a font without a name in its descriptor may report any name', 'the vertical metrics of the standard fonts differ by up to 60 units between published versions, the horizontal extent of their boxes is not compared', 'entries of a wrong type only have to leave the other entries alone',
               'a font counts as bold if its weight is above 549 or, without a weight, if its name says so']
TYPES = ['Type1', 'TrueType', 'MMType1', 'Type3', 'CIDFontType0', 'CIDFontType2']
ATTRS = ['FontName', 'Flags', 'Ascent', 'Descent', 'ItalicAngle', 'Leading', 'FontBBox', 'FontWeight', 'MissingWidth']
VALUES = {'FontName': [N('Some'), N('ABCDEF+Other-Bold'), N('Q')], 'Flags': [4, 262178, 0], 'Ascent': [712.5, 1, 900], 'Descent': [-212, 0, -.25], 'ItalicAngle': [-12, 0, 7.5],
          'Leading': [33, -4.5, 0], 'FontBBox': [[-10, -250, 990, 851], [0, 0, 0, 0], [5.5, -1, 6, 2]], 'FontWeight': [700, 400, 549], 'MissingWidth': [333, 0, 250.5]}
FORMS = ['direct', 'values', 'descriptor', 'both', 'bbox']
# AFM files of the standard fonts: ascender, descender, box, italic angle
STD = {'Courier': (629, -157, (-23, -250, 715, 805), 0), 'Courier-Bold': (629, -157, (-113, -250, 749, 801), 0), 'Courier-Oblique': (629, -157, (-27, -250, 849, 805), -12),
       'Courier-BoldOblique': (629, -157, (-57, -250, 869, 801), -12), 'Helvetica': (718, -207, (-166, -225, 1000, 931), 0), 'Helvetica-Bold': (718, -207, (-170, -228, 1003, 962), 0),
       'Helvetica-Oblique': (718, -207, (-170, -225, 1116, 931), -12), 'Helvetica-BoldOblique': (718, -207, (-174, -228, 1114, 962), -12),
       'Times-Roman': (683, -217, (-168, -218, 1000, 898), 0), 'Times-Bold': (683, -217, (-168, -218, 1000, 935), 0), 'Times-Italic': (683, -217, (-169, -217, 1010, 883), -15.5),
       'Times-BoldItalic': (683, -217, (-200, -218, 996, 921), -15), 'Symbol': (0, 0, (-180, -293, 1090, 1010), 0), 'ZapfDingbats': (0, 0, (-1, -143, 981, 820), 0)}
NAMES = ['Foo', 'Foo-Bold', 'FooBOLD', 'ABCDEF+Foo,BoldItalic', 'Semibold', 'bol', 'Times-Roman', 'B#6fld', 'bold#e9']
WEIGHTS = [None, 100, 400, 500, 549, 549.5, 550, 700, 900, -1, 0, 10 ** 12]
ODD = [b'bold', N('bold'), True, [700], {}, b'', Raw(b'null'), R(999)]
FIELDS = {'Flags': 'flags', 'Ascent': 'ascent', 'Descent': 'descent', 'ItalicAngle': 'italic_angle', 'Leading': 'leading', 'FontWeight': 'font_weight'}
IMG = ['BitsPerComponent', 'ColorSpace', 'ImageMask', 'Interpolate']
SPACES = [N('DeviceGray'), N('DeviceCMYK'), [N('ICCBased'), R(801)], [N('Indexed'), N('DeviceRGB'), 1, b'abcdef'], [N('Separation'), N('Spot'), N('DeviceGray'), {}]]


def BOUNDS(tier):
    return ('%d kinds of fonts x all subsets of %d descriptor entries x %d values x %d ways to write them (direct, values or descriptor by reference); %d weights and %d odd ones x %d names; '
            '%d standard fonts x descriptors x widths; all sequences of up to %d of %d fonts on two pages; images: all subsets of %d entries x %d colour spaces x direct or by reference, all '
            'sequences of %d of 4 images' % (len(TYPES), len(ATTRS), 3 if tier != 'quick' else 2, len(FORMS), len(WEIGHTS), len(ODD), len(NAMES), len(STD), 3 if tier == 'quick' else 5,
                                             len(POOL), len(IMG), len(SPACES), 4 if tier == 'quick' else 6))


def jobs(tier):
    return ([('attr', t, f) for t in TYPES for f in range(len(FORMS))] + [('weight', t) for t in TYPES] + [('std',), ('image',)] + [('seq', f) for f in POOL] + [('draw', i) for i in range(4)])


def chunk(ctx, base, it, n):
    it = iter(it)
    while 1:
        part = list(itertools.islice(it, n))
        if not part:
            return
        ctx.run(dict(base, s=part))


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'
    if k == 'attr':
        sets = [m for m in range(2 ** len(ATTRS)) if not quick or job[2] == 0 or bin(m).count('1') % 2]
        chunk(ctx, {'k': k, 't': job[1], 'f': job[2]}, ([m, v] for m in sets for v in range(2 if quick else 3)), 64)
    elif k == 'weight':
        chunk(ctx, {'k': k, 't': job[1]}, ([n, w, f] for n in range(len(NAMES)) for w in range(len(WEIGHTS) + len(ODD)) for f in (0, 1)), 40)
    elif k == 'std':
        chunk(ctx, {'k': k}, ([n, d, w, t] for n in STD for d in range(4) for w in (0, 1) for t in ('Type1', 'TrueType')), 40)
    elif k == 'seq':
        n = 3 if quick else 5
        it = ([[job[1]] + list(r), cut] for m in range(n) for r in itertools.product(POOL, repeat=m) for cut in range(m + 2))
        for ref in (0, 1):
            chunk(ctx, {'k': k, 'r': ref}, it if not ref else ([[job[1]] + list(r), 1] for m in range(n) for r in itertools.product(POOL, repeat=m)), 1)
    elif k == 'image':
        chunk(ctx, {'k': k}, ([m, c, r] for m in range(2 ** len(IMG)) for c in range(len(SPACES)) for r in (0, 1, 2)), 30)
    else:
        chunk(ctx, {'k': k}, ([[job[1]] + list(r), cut] for n in range(4 if quick else 6) for r in itertools.product(range(4), repeat=n) for cut in range(n + 2)), 1)


def make(kind, desc, num, extra, widths=True, name='Base', base=None):
    """(font dictionary, string to show): a font of a kind with a descriptor (a dictionary, a reference or None)."""
    if kind.startswith('CID'):
        sub = {'Type': N('Font'), 'Subtype': N(kind), 'BaseFont': N(name), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'DW': 500}
        if desc is not None:
            sub['FontDescriptor'] = desc
        extra[num] = sub
        if 700 not in extra:
            extra[700] = fonts.tounicode({65: 'A'})
        return {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N(name), 'Encoding': N('Identity-H'), 'DescendantFonts': [R(num)], 'ToUnicode': R(700)}, b'<0041>'
    if kind == 'Type3':
        d = fonts.type3()
    else:
        d = {'Type': N('Font'), 'Subtype': N(kind), 'BaseFont': N(name), 'Encoding': N('WinAnsiEncoding')}
        if widths:
            d.update({'FirstChar': 65, 'LastChar': 66, 'Widths': [500, 400]})
    if desc is not None:
        d['FontDescriptor'] = desc
    return d, b'(A)'


def descriptor(entries, form, num, extra):
    d = {'Type': N('FontDescriptor')}
    for i, (a, v) in enumerate(entries.items()):
        if form in ('values', 'both'):
            extra[num + 1 + i] = v
            v = R(num + 1 + i)
        elif form == 'bbox' and isinstance(v, list):
            for j, x in enumerate(v):
                extra[num + 10 + j] = x
            v = [R(num + 10 + j) for j in range(len(v))]
        d[a] = v
    if form in ('descriptor', 'both'):
        extra[num + 20] = d
        return R(num + 20)
    return d


def lower(name):
    return name.decode('latin-1').lower() if isinstance(name, bytes) else str(name).lower()


def wanted(kind, entries):
    """What the font has to report."""
    w = {'flags': 0, 'ascent': 0, 'descent': 0, 'italic_angle': 0, 'leading': 0, 'font_weight': None, 'bbox': [0, 0, 0, 0]}
    for a, f in FIELDS.items():
        if a in entries:
            w[f] = entries[a]
    if 'FontName' in entries:
        w['fontname'] = str(entries['FontName'])
    if 'FontBBox' in entries:
        w['bbox'] = entries['FontBBox']
    if kind == 'Type3':
        # the library takes the vertical extent of these fonts from their box
        w['descent'], w['ascent'] = w['bbox'][1], w['bbox'][3]
    if w['font_weight'] is None:
        if 'fontname' in w and 'bold' in w['fontname'].lower():
            w['font_weight'] = 'bold'
        w['is_bold'] = w['font_weight'] == 'bold'
    else:
        w['is_bold'] = w['font_weight'] > 549
    return w


def differs(font, w):
    w = dict(w)
    tol = w.pop('std', False)
    for f, v in sorted(w.items()):
        got = getattr(font, f)
        if f == 'bbox':
            got, v = list(got), list(v)
        if f == 'fontname' and isinstance(got, bytes):
            got = got.decode('latin-1')
        if tol and f in ('ascent', 'descent', 'bbox', 'italic_angle'):
            close = all(abs(a - b) <= 60 for a, b in zip(got[1::2], v[1::2])) and len(got) == len(v) if f == 'bbox' else abs(got - v) <= (1 if f == 'italic_angle' else 60)
            if not close:
                return '%s is %r instead of %r' % (f, got, v)
            continue
        if got != v or f == 'is_bold' and got is not v:
            return '%s is %r instead of %r' % (f, got, v)
    return None


def pages(data, **kw):
    from pdfmajor.interpreter import PDFInterpreter
    with open('in.pdf', 'wb') as f:
        f.write(data)
    return [list(p) for p in PDFInterpreter('in.pdf', **kw)]


def one_block(item, n):
    from pdfmajor.interpreter import LTTextBlock
    if not isinstance(item, LTTextBlock) or len(item) != 1:
        return None, '%s: %r' % (n, item)
    (block,) = list(item)
    if len(block) != 1:
        return None, '%s: %r' % (n, block)
    (char,) = list(block)
    if char.font is not block.font:
        return None, '%s: block and character differ in their fonts' % (n,)
    if char.fontname != block.font.fontname or block.fontname != char.fontname:
        return None, '%s: font names %r, %r' % (n, char.fontname, block.fontname)
    if char.size != char.height or block.size != block.height:
        return None, '%s: sizes %r, %r, heights %r, %r' % (n, char.size, block.size, char.height, block.height)
    if char.font.is_vertical():
        return None, '%s: vertical' % (n,)
    return char.font, None


def check_fonts(members, obs, extra):
    """members: [(font dictionary, string, wanted)], each shown once."""
    res = {'F%d' % i: m[0] for i, m in enumerate(members)}
    prog = b'\n'.join(b'BT /F%d 10 Tf 10 20 Td %s Tj ET' % (i, m[1]) for i, m in enumerate(members))
    (items,) = pages(simple([prog], resources={'Font': res}, extra=extra))
    if len(items) != len(members):
        return '%d texts instead of %d' % (len(items), len(members))
    for i, (item, m) in enumerate(zip(items, members)):
        font, err = one_block(item, i)
        err = err or differs(font, m[2])
        obs.trans()
        obs.count('traces')
        obs.state(repr(m[0]) + repr(m[2]))
        obs.outcome(sorted((k, str(v)) for k, v in m[2].items()))
        if err:
            return 'font %s: %s' % (m[0], err)
    return None




def std(name):
    a, d, box, it = STD[name]
    bold = 'bold' in name.lower()
    return {'std': True, 'fontname': name, 'ascent': a, 'descent': d, 'bbox': list(box), 'italic_angle': it, 'is_bold': bold, 'leading': 0}


D1 = {'FontName': N('One-Bold'), 'Ascent': 700, 'Descent': -100, 'FontBBox': [0, -100, 500, 700], 'ItalicAngle': 3, 'Flags': 32}
D2 = {'FontName': N('Two'), 'Ascent': 650, 'FontBBox': [1, 2, 3, 4], 'Leading': 5, 'FontWeight': 600}
POOL = {'std': ('Type1', None, 'Helvetica'), 'bold': ('Type1', None, 'Helvetica-Bold'), 'own': ('Type1', D1, 'Helvetica'), 'tt': ('TrueType', D2, 'Two'), 'none': ('Type1', None, 'Unheard'), 'cid': ('CIDFontType2', D1, 'C'),
        'cid0': ('CIDFontType0', {}, 'D'), 't3': ('Type3', None, 'T')}


def pooled(k):
    kind, d, name = POOL[k]
    if name in STD and d is None:
        return std(name)
    if kind == 'Type3':
        return wanted(kind, {'FontBBox': [0, -5, 40, 25]})
    return wanted(kind, d or {})


def image(x):
    """(dictionary, wanted) of an image."""
    m, c, r = x
    values = {'BitsPerComponent': 4, 'ColorSpace': SPACES[c], 'ImageMask': False, 'Interpolate': True}
    d = {'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 7, 'Height': 3}
    d.update({k: values[k] for i, k in enumerate(IMG) if m >> i & 1})
    cs = SPACES[c] if m & 2 else None
    return d, {'srcsize': (7, 3), 'bits': 4 if m & 1 else 1, 'colorspace': cs, 'imagemask': False if m & 4 else None}


def norm(x, extra):
    """Values comparable between pdfgen and the library."""
    from pdfmajor.parser.PDFStream import PDFStream, resolve1
    x = resolve1(x)
    if isinstance(x, R):
        x = extra[x.num] if hasattr(x, 'num') else extra[x[0]]
    if isinstance(x, (PDFStream, S)):
        return 'stream'
    if isinstance(x, (list, tuple)):
        return [norm(v, extra) for v in x]
    if isinstance(x, dict):
        return {str(k): norm(v, extra) for k, v in x.items()}
    if hasattr(x, 'name'):
        return '/' + str(x.name)
    if isinstance(x, N):
        return '/' + str(x)
    return x


def run_images(case, obs):
    from pdfmajor.interpreter import LTImage
    extra = {801: S({'N': 3}, b'profile')}
    num, xo, want = 2000, {}, []
    for i, x in enumerate(case['s']):
        d, w = image(x)
        plain = dict(d)
        if x[2]:
            for k in list(d):
                if k in ('Type', 'Subtype'):
                    continue
                if x[2] == 2 and isinstance(d[k], list):
                    vs = []
                    for v in d[k]:
                        extra[num] = v
                        vs.append(R(num))
                        num += 1
                    d[k] = vs
                if x[2] == 1 or not isinstance(d[k], list):
                    extra[num] = d[k]
                    d[k] = R(num)
                    num += 1
        extra[num] = S(d, b'0123456789ab')
        xo['I%d' % i] = R(num)
        num += 1
        want.append((plain, w))
    (items,) = pages(simple([b' '.join(b'/I%d Do' % i for i in range(len(want)))], resources={'XObject': xo}, extra=extra))
    if len(items) != len(want):
        return '%d images instead of %d' % (len(items), len(want))
    names = set()
    for it, (d, w) in zip(items, want):
        if not isinstance(it, LTImage):
            return 'no image: %r' % it
        cs = w['colorspace']
        cs = [norm(v, extra) for v in (cs if isinstance(cs, list) else [cs])]
        got = (tuple(it.srcsize), it.bits, [norm(v, extra) for v in it.colorspace], bool(it.imagemask))
        if got != (w['srcsize'], w['bits'], cs, bool(w['imagemask'])):
            return 'image %r: %r' % (d, got)
        if it.name in names or not isinstance(it.name, str) or not it.name:
            return 'name %r' % (it.name,)
        names.add(it.name)
        if it.stream.get_data() != b'0123456789ab':
            return 'data %r' % it.stream.get_data()
        obs.trans()
        obs.count('traces')
        obs.state(repr(d))
        obs.outcome(got)
    return None


def run_case(case, obs):
    k = case['k']
    if k == 'image':
        return run_images(case, obs)
    if k == 'draw':
        ((seq, cut),) = case['s']
        extra = {900 + i: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 1 + i % 3, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceGray')}, b'abc') for i in range(4)}
        xo = {'I%d' % i: R(900 + i) for i in range(4)}
        got = pages(simple([b' '.join(b'/I%d Do' % i for i in part) for part in (seq[:cut], seq[cut:])], resources={'XObject': xo}, extra=extra))
        items = got[0] + got[1]
        if [len(p) for p in got] != [len(seq[:cut]), len(seq[cut:])]:
            return 'images %r' % got
        names = {}
        for i, it in zip(seq, items):
            obs.trans()
            if it.srcsize != (1 + i % 3, 1):
                return 'image %d has size %r' % (i, it.srcsize)
            if names.setdefault(i, it.name) != it.name:
                return 'image %d has the names %r and %r' % (i, names[i], it.name)
        if len(set(names.values())) != len(names):
            return 'names %r' % names
        obs.count('traces')
        obs.state(('draw', seq, cut))
        return None
    if k == 'seq':
        ((seq, cut),) = case['s']
        extra, res = {}, {}
        for i, f in enumerate(POOL):
            kind, d, name = POOL[f]
            fd, s = make(kind, None if d is None else dict(d), 900 + i, extra, name=name)
            if case['r']:
                extra[800 + i] = fd
                fd = R(800 + i)
            res[f] = (fd, s)
        progs = [b' '.join(b'BT /%s 9 Tf %s Tj ET' % (f.encode(), res[f][1]) for f in part) for part in (seq[:cut], seq[cut:])]
        got = pages(simple(progs, resources={'Font': {f: v[0] for f, v in res.items()}}, extra=extra))
        items = [x for p in got for x in p]
        if [len(p) for p in got] != [len(seq[:cut]), len(seq[cut:])]:
            return 'texts %r' % (got,)
        for n, (f, it) in enumerate(zip(seq, items)):
            font, err = one_block(it, n)
            err = err or differs(font, pooled(f))
            obs.trans()
            if err:
                return 'font %s shown as number %d: %s' % (f, n, err)
        obs.count('traces')
        obs.state((k, case['r'], seq, cut))
        return None
    extra, members, num = {}, [], 1000
    for x in case['s']:
        if k == 'attr':
            m, v = x
            entries = {a: VALUES[a][v] for i, a in enumerate(ATTRS) if m >> i & 1}
            d = descriptor(entries, FORMS[case['f']], num, extra)
            members.append(make(case['t'], d, num, extra) + (wanted(case['t'], entries),))
        elif k == 'weight':
            n, w, f = x
            odd = w >= len(WEIGHTS)
            v = ODD[w - len(WEIGHTS)] if odd else WEIGHTS[w]
            text = {'B#6fld': 'Bold', 'bold#e9': 'bold\xe9'}.get(NAMES[n], NAMES[n])
            entries = {'FontName': Raw(b'/' + NAMES[n].encode()), 'Ascent': 500}
            if v is not None:
                entries['FontWeight'] = v
            if case['t'] == 'Type3':
                entries['FontBBox'] = [0, 0, 1, 500]
            d = descriptor(entries, FORMS[f], num, extra)
            want = wanted(case['t'], dict(entries, FontName=text, FontWeight=0 if odd else v))
            if v is None:
                want = wanted(case['t'], {a: b for a, b in dict(entries, FontName=text).items()})
            if odd:
                del want['font_weight'], want['is_bold']
                want['odd'] = True
            members.append(make(case['t'], d, num, extra) + (want,))
        else:
            name, d, w, t = x
            entries = [None, {}, {'FontName': N('Mine')}, {'FontName': N(name), 'Ascent': 700, 'Descent': -1, 'FontBBox': [0, 0, 1, 1]}][d]
            want = std(name) if entries is None else wanted(t, entries)
            members.append(make(t, entries, num, extra, widths=w, name=name) + (want,))
        num += 30
    odd = [m for m in members if m[2].pop('odd', None)]
    err = check_fonts(members, obs, extra)
    if err or not odd:
        return err
    # odd weights: the question for bold letters has an answer
    (items,) = pages(simple([b' '.join(b'BT /F%d 10 Tf %s Tj ET' % (i, m[1]) for i, m in enumerate(odd))], resources={'Font': {'F%d' % i: m[0] for i, m in enumerate(odd)}}, extra=extra))
    for it, m in zip(items, odd):
        font, err = one_block(it, 'odd')
        if err or font.is_bold not in (True, False):
            return err or 'is_bold is %r' % (font.is_bold,)
    return None


def finding_key(case, err):
    import re
    return re.sub(r'[\d.]+', '#', err)[-60:]
