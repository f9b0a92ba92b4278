"""C13: characters of shown codes. Font dictionaries are enumerated over all combinations of the ways to give characters
(base encoding, Differences, font file, ToUnicode, embedded CMap) and widths; every code is shown and compared with a model
of the font."""
import itertools
from mc import enctab
from mc.pdfgen import N, R, S, simple, ser
from mc.fonts import tounicode

ID = 'C13'
LEVEL = 'model_checking'
ASSUMPTIONS = ['base encodings Standard, WinAnsi and MacRoman; composite fonts with Identity or embedded CMaps (the data of the other '
               'predefined CMaps is not part of the library)', 'a bullet or nothing is accepted for the unused codes of WinAnsiEncoding, '
               'a space or no-break space for its code 160', 'in a fraction of fonts without declared encoding the standard encoding is '
               'the default; symbolic standard fonts are left out']
BASES = [None, 'StandardEncoding', 'WinAnsiEncoding', 'MacRomanEncoding']
# (list as written, {code: text or None})
DIFFS = [
    ([], {}),
    ([65, 'B', 'C', 'a'], {65: 'B', 66: 'C', 67: 'a'}),
    ([1, 'A', 200, 'eacute', 'Euro', 255, 'Z', 0, 'zero'], {1: 'A', 200: '\xe9', 201: '\u20ac', 255: 'Z', 0: '0'}),
    ([65, '.notdef', 'uni0041', 'uni00e9', 'u1F600', 'uniD83DDE00', 'u00E9'],
     {65: None, 66: 'A', 68: '\U0001f600', 70: '\xe9', 67: 'SKIP', 69: 'SKIP'}),
    ([70, 'f_i', 'A.sc', 'f_f_l.alt', 'uni00660069', 'one_two.x.y', 'fi', 'ffl'],
     {70: 'fi', 71: 'A', 72: 'ffl', 73: 'fi', 74: '12', 75: '\ufb01', 76: '\ufb04'}),
    ([97, 'alpha', 'beta', 'Omega', 97, 'gamma', 33, 'quotesingle'], {97: '\u03b3', 98: '\u03b2', 99: 'SKIP', 33: "'"}),
    ([48, 'nosuchglyphname', 'space', 'hyphen', 'minus'], {48: None, 49: ' ', 50: '-', 51: '\u2212'}),
]
TOUNI = [None, {}, {65: 'X', 66: 'Yz', 200: '\U0001f600'}, {c: chr(0x400 + c) for c in range(0, 256, 3)}]
SUBTYPES = ['Type1', 'TrueType', 'MMType1', 'Type3']
WIDTHS = ['plain', 'indirect', 'elements', 'short', 'missing', 'none']


def BOUNDS(tier):
    return ('every font of %d base encodings x %d Differences x %d ToUnicode maps x %d kinds x embedded encodings x %d notations of '
            'widths, all 256 codes shown; composite fonts with Identity or embedded CMaps (1-3 byte codespaces, ranges, single codes, '
            'UseCMap, usecmap) x ToUnicode x every notation of W/DW and W2/DW2; pairs of fonts sharing objects; both settings for bad '
            'characters' % (len(BASES), len(DIFFS), len(TOUNI), len(SUBTYPES), len(WIDTHS)))


def jobs(tier):
    out = [('simple', b, d) for b in range(len(BASES)) for d in range(len(DIFFS))]
    out += [('embedded', d) for d in range(len(DIFFS))] + [('core',), ('leak',)]
    out += [('cid', k) for k in range(len(CMAPS))]
    out += [('names', i, 8) for i in range(8)]
    return out


def explore(job, ctx):
    k = job[0]
    if k == 'simple':
        for t, s in itertools.product(range(len(TOUNI)), range(len(SUBTYPES))):
            for shape in range(3):
                for w in WIDTHS:
                    if w != 'plain' and (t != 2 or shape) or w == 'none' and SUBTYPES[s] == 'Type3':
                        continue
                    ctx.run({'k': k, 'b': job[1], 'd': job[2], 't': t, 's': s, 'w': w, 'sh': shape})
    elif k == 'embedded':
        for enc, t, prog in itertools.product(('no', 'dict', 'dictbase', 'name'), (0, 2), range(len(PROGRAMS))):
            for sh in range(3):
                ctx.run({'k': k, 'd': job[1], 'enc': enc, 't': t, 'p': prog, 'sh': sh})
    elif k == 'core':
        for name in CORE:
            for enc, t, w in itertools.product(range(4), (0, 2), (0, 1, 2)):
                ctx.run({'k': k, 'n': name, 'b': enc, 't': t, 'w': w})
    elif k == 'leak':
        for order in itertools.permutations(range(len(LEAK)), 2):
            for rep in ('12', '121', '1212', '2211'):
                ctx.run({'k': k, 'o': list(order), 'rep': rep})
    elif k == 'cid':
        for tu, w, sub in itertools.product(range(len(CTOUNI)), range(len(CWIDTHS)), (0, 2)):
            ctx.run({'k': k, 'c': job[1], 't': tu, 'w': w, 'sub': sub})
    elif k == 'names':
        # every glyph name of the three encodings, under every code
        names = sorted(enctab.GLYPHS)[job[1]::job[2]]
        for i in range(0, len(names), 40):
            ctx.run({'k': k, 'n': names[i:i + 40]})


class Env(object):
    """Collects indirect objects."""

    def __init__(self):
        self.extra = {}
        self.n = 1000

    def ref(self, v):
        self.n += 1
        self.extra[self.n] = v
        return R(self.n)


def lin(code):
    return (code * 13) % 700 + 1


def build_widths(env, style, d, desc):
    """Adds Widths etc. Returns {code: width} and the default."""
    first, last = {'short': (60, 80)}.get(style, (0, 255))
    ws = [lin(c) for c in range(first, last + 1)]
    if style == 'none':
        desc['MissingWidth'] = 321
        return {}, 321
    d['FirstChar'], d['LastChar'] = first, last
    if style == 'indirect':
        d['Widths'] = env.ref(ws)
        d['FirstChar'] = env.ref(first)
    elif style == 'elements':
        d['Widths'] = [env.ref(w) if i % 50 == 0 else w for i, w in enumerate(ws)]
    elif style == 'missing':
        d['FirstChar'], ws = 100, ws[100:150]
        d['LastChar'], first = 149, 100
        d['Widths'] = ws
        desc['MissingWidth'] = env.ref(444)
        return {first + i: w for i, w in enumerate(ws)}, 444
    else:
        d['Widths'] = ws
    return {first + i: w for i, w in enumerate(ws)}, 0


def diff_list(diff):
    return [N(x) if isinstance(x, str) else x for x in diff]


def encoding(env, base, diff, sh):
    """sh 0: direct, 1: the dictionary indirect, 2: array and base indirect as well."""
    if not diff:
        if base is None:
            return None
        return N(base) if sh == 0 else env.ref(N(base)) if sh == 1 else env.ref({'Type': N('Encoding'), 'BaseEncoding': N(base)})
    e = {'Type': N('Encoding'), 'Differences': diff_list(diff) if sh < 2 else env.ref(diff_list(diff))}
    if base:
        e['BaseEncoding'] = N(base) if sh < 2 else env.ref(N(base))
    return e if sh == 0 else env.ref(e)


def table(base, dmap):
    t = dict(enctab.TABLES[base or 'StandardEncoding'])
    for c, x in dmap.items():
        t[c] = x
    return t


PROGRAMS = [
    (b'%!PS-AdobeFont-1.0: F\n/FontName /F def\n/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\ndup 65 /alpha put\n'
     b'dup 66 /B put\ndup 200 /eacute put\nreadonly def\n/PaintType 0 def\ncurrentfile eexec\n', {65: '\u03b1', 66: 'B', 200: '\xe9'}),
    (b'%!PS-AdobeFont-1.0: F\n/FontName /F def\n/Encoding StandardEncoding def\ncurrentfile eexec\n', None),
]
CORE = ['Helvetica', 'Times-Roman', 'Courier', 'Helvetica-Bold']
LEAK = list(range(9))


def shown(case):
    """(font dictionaries, Env, [(font index, string)], expected [[(text, advance)]])"""
    env = Env()
    k = case['k']
    if k == 'simple':
        base, (dl, dm) = BASES[case['b']], DIFFS[case['d']]
        st = SUBTYPES[case['s']]
        desc = {'Type': N('FontDescriptor'), 'FontName': N('Fnt'), 'Flags': 32, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, 0, 0, 0]}
        d = {'Type': N('Font'), 'Subtype': N(st) if case['sh'] < 2 else env.ref(N(st)), 'BaseFont': N('Fnt')}
        ws, dw = build_widths(env, case['w'], d, desc)
        scale = .001
        if st == 'Type3':
            d.update({'FontBBox': [0, 0, 10, 10], 'FontMatrix': [.01, 0, 0, .01, 0, 0], 'CharProcs': {}})
            del d['BaseFont']
            scale = .01
            if case['w'] in ('missing', 'none'):
                d['FontDescriptor'] = desc
        else:
            d['FontDescriptor'] = desc if case['sh'] == 0 else env.ref(desc)
        e = encoding(env, base, dl, case['sh'])
        if e is not None:
            d['Encoding'] = e
        t = table(base, dm)
        if TOUNI[case['t']] is not None:
            d['ToUnicode'] = env.ref(tounicode(TOUNI[case['t']], 1))
            t.update(TOUNI[case['t']])
        return [d], env, [(t, ws, dw, scale)], [(0, bytes([c])) for c in range(256)]
    if k == 'embedded':
        (dl, dm), (prog, enc) = DIFFS[case['d']], PROGRAMS[case['p']]
        desc = {'Type': N('FontDescriptor'), 'FontName': N('Fnt'), 'Flags': 4, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, 0, 0, 0],
                'FontFile': env.ref(S({'Length1': len(prog) if case['sh'] < 2 else env.ref(len(prog)), 'Length2': 20, 'Length3': 0},
                                      prog + b'dup 65 /Z put \x80\xff dup'))}
        d = {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Fnt'), 'FontDescriptor': env.ref(desc)}
        ws, dw = build_widths(env, 'plain', d, desc)
        base = None
        if case['enc'] == 'no':
            t = dict(enc) if enc is not None else table(None, {})
        elif case['enc'] == 'name':
            d['Encoding'] = N('MacRomanEncoding')
            t = table('MacRomanEncoding', {})
        else:
            if case['enc'] == 'dictbase':
                base = 'WinAnsiEncoding'
            e = {'Type': N('Encoding'), 'Differences': diff_list(dl)}
            if base:
                e['BaseEncoding'] = N(base)
            d['Encoding'] = e if case['sh'] == 0 else env.ref(e)
            t = dict(enc) if enc is not None and not base else table(base, {})
            t.update(dm)
        if TOUNI[case['t']] is not None:
            d['ToUnicode'] = env.ref(tounicode(TOUNI[case['t']], 1))
            t.update(TOUNI[case['t']])
        return [d], env, [(t, ws, dw, .001)], [(0, bytes([c])) for c in range(256)]
    if k == 'core':
        d = {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N(case['n'])}
        base = BASES[case['b']]
        if base:
            d['Encoding'] = N(base)
        t = table(base, {})
        desc = {'Type': N('FontDescriptor'), 'FontName': N(case['n']), 'Flags': 32, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, 0, 0, 0]}
        dw = 0
        if case['w'] == 0:
            ws = {c: enctab.CORE_WIDTHS[case['n']].get(x if isinstance(x, str) else x[0]) for c, x in t.items()}
            ws = {c: w for c, w in ws.items() if w is not None}
            dw = 'SKIP'
        else:
            ws, dw = build_widths(env, 'plain' if case['w'] == 1 else 'missing', d, desc)
            if case['w'] == 2:
                d['FontDescriptor'] = desc
        if TOUNI[case['t']] is not None:
            d['ToUnicode'] = env.ref(tounicode(TOUNI[case['t']], 1))
            t = dict(t)
            t.update(TOUNI[case['t']])
        return [d], env, [(t, ws, dw, .001)], [(0, bytes([c])) for c in range(256)]
    if k == 'names':
        out, model = [], {}
        for i, n in enumerate(case['n']):
            out += [N(n)]
            model[100 + i] = enctab.GLYPHS[n]
        d = {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Fnt'), 'FirstChar': 0, 'LastChar': 255,
             'Widths': [lin(c) for c in range(256)], 'Encoding': {'Differences': [100] + out},
             'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Fnt'), 'Flags': 32, 'Ascent': 700, 'Descent': -200,
                                'FontBBox': [0, 0, 0, 0]}}
        return [d], env, [(table(None, model), {c: lin(c) for c in range(256)}, 0, .001)], [(0, bytes([c])) for c in range(100, 100 + len(out))]
    if k == 'leak':
        return leak(case, env)
    return cidfont(case, env)


def leak(case, env):
    """Nine fonts that share their widths, descriptor, Differences, ToUnicode or descendant objects."""
    ws = env.ref([lin(c) for c in range(256)])
    desc = env.ref({'Type': N('FontDescriptor'), 'FontName': N('Fnt'), 'Flags': 32, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, 0, 0, 0]})
    dl, dm = DIFFS[1]
    dref = env.ref(diff_list(dl))
    tu = env.ref(tounicode({65: 'X'}, 1))
    tu2 = env.ref(tounicode({65: 'W', 66: 'V'}, 2))
    sub = env.ref({'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('C'), 'FontDescriptor': desc, 'DW': 500, 'W': [65, [lin(65), lin(66)]],
                   'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}})
    cm = env.ref(cmap_stream(CMAPS[2]))
    one = {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Fnt'), 'FirstChar': 0, 'LastChar': 255, 'Widths': ws, 'FontDescriptor': desc}
    w1 = {c: lin(c) for c in range(256)}
    t0 = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('C'), 'DescendantFonts': [sub]}
    fonts = [
        (dict(one, Encoding=N('WinAnsiEncoding')), (table('WinAnsiEncoding', {}), w1, 0, .001), 1),
        (dict(one, Encoding={'BaseEncoding': N('WinAnsiEncoding'), 'Differences': dref}), (table('WinAnsiEncoding', dm), w1, 0, .001), 1),
        (dict(one, Encoding={'Differences': dref}, ToUnicode=tu), (dict(table(None, dm), **{}) | {65: 'X'}, w1, 0, .001), 1),
        (dict(one), (table(None, {}), w1, 0, .001), 1),
        (dict(t0, Encoding=N('Identity-H'), ToUnicode=tu2), ({65: 'W', 66: 'V'}, {65: lin(65), 66: lin(66)}, 500, .001), 2),
        (dict(t0, Encoding=cm, ToUnicode=tu2), None, 0),
        (dict(t0, Encoding=N('Identity-H'), ToUnicode=env.ref(tounicode({65: 'U', 66: 'T'}, 2))), ({65: 'U', 66: 'T'}, {65: lin(65), 66: lin(66)}, 500, .001), 2),
        (dict(t0, Encoding=N('Identity-H')), ({65: None, 66: None}, {65: lin(65), 66: lin(66)}, 500, .001), 2),
        (dict(one, Subtype=N('TrueType'), Encoding=N('MacRomanEncoding'), ToUnicode=tu), (table('MacRomanEncoding', {65: 'X'}), w1, 0, .001), 1),
    ]
    a, b = case['o']
    ds, models, seq = [], [], []
    for i in (a, b):
        d, m, n = fonts[i]
        ds.append(d)
        if m is None:
            m = cid_model(CMAPS[2], {65: 'W', 66: 'V'}, {65: lin(65), 66: lin(66)}, 500)
        models.append(m)
    for r in case['rep']:
        i = int(r) - 1
        n = fonts[case['o'][i]][2]
        for c in ((65, 66, 67, 233) if n == 1 else (65, 66) if n == 2 else ()):
            seq.append((i, bytes([c]) if n == 1 else c.to_bytes(2, 'big')))
        if n == 0:
            seq += [(i, b) for b in (b'A', b'B', b'\x81\x40')]
    return ds, env, models, seq


# embedded CMaps: (codespaces, ranges [(first, last, cid)], chars [(code, cid)], base, strings)
CMAPS = [
    None,           # Identity-H
    ([(b'\0\0', b'\xff\xff')], [(b'\0\x41', b'\0\x43', 10), (b'\x01\xf0', b'\x02\x10', 100)], [(b'\x10\0', 7)], None,
     [b'\0\x41', b'\0\x42', b'\0\x43', b'\0\x44', b'\x01\xf0', b'\x01\xff', b'\x02\0', b'\x02\x10', b'\x02\x11', b'\x10\0', b'\x41\0', b'\0\0']),
    ([(b'\0', b'\x80'), (b'\x81\x40', b'\x9f\xfc')], [(b'\x20', b'\x7e', 65 - 33), (b'\x81\x40', b'\x81\x7e', 300)], [(b'\x9f\xfc', 5)], None,
     [b'A', b' ', b'~', b'\x7f', b'\x81\x40', b'\x81\x41', b'\x81\x7e', b'\x82\x40', b'\x9f\xfc', b'B']),
    ([(b'\0\0\0', b'\xff\xff\xff')], [(b'\x01\xff\xfe', b'\x02\0\x01', 50)], [(b'\0\0\x41', 1)], None,
     [b'\x01\xff\xfe', b'\x01\xff\xff', b'\x02\0\0', b'\x02\0\x01', b'\x02\0\x02', b'\0\0\x41', b'\0\0\0']),
    ([(b'\0\0', b'\xff\xff')], [(b'\0\x41', b'\0\x41', 9)], [], 'Identity-H', [b'\0\x41', b'\0\x42', b'\x12\x34', b'\0\0']),
    ([], [(b'\0\x41', b'\0\x41', 9)], [], 1, [b'\0\x41', b'\0\x42', b'\x10\0', b'\0\x44']),
    ([(b'\0\0', b'\xff\xff')], [(b'\0\x41', b'\0\x60', 9)], [], 'V', [b'\0\x41', b'\0\x42', b'\0\x61']),
    'Identity-V',
    ([(b'\x20', b'\x7f')], [(b'\x20', b'\x7f', 1)], [], None, [b'\x20', b'\x41', b'\x7f']),
]
CTOUNI = ['none', 'codes', 'some']
CWIDTHS = [('list', 1000), ('range', None), ('mixed', 0), ('indirect', 600), ('all', 700)]


def cmap_stream(cm, env=None, use=None):
    spaces, ranges, chars, base, _ = cm
    L = [b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap']
    if base == 'Identity-H':
        L.append(b'/Identity-H usecmap')
    L.append(b'/CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> def /CMapName /Emb def /CMapType 1 def')
    if base == 'V':
        L.append(b'/WMode 1 def')
    hx = lambda b: b'<' + b.hex().encode() + b'>'
    if spaces:
        L.append(b'%d begincodespacerange' % len(spaces))
        L += [hx(a) + b' ' + hx(b) for a, b in spaces] + [b'endcodespacerange']
    for a, b, c in ranges:
        L.append(b'1 begincidrange %s %s %d endcidrange' % (hx(a), hx(b), c))
    if chars:
        L.append(b'%d begincidchar' % len(chars))
        L += [hx(a) + b' %d' % c for a, c in chars] + [b'endcidchar']
    L.append(b'endcmap CMapName currentdict /CMap defineresource pop end end')
    at = {'Type': N('CMap'), 'CMapName': N('Emb')}
    if base == 'V':
        at['WMode'] = 1
    if use is not None:
        at['UseCMap'] = use
    return S(at, b'\n'.join(L))


def cid_of(cm, code):
    if cm is None or isinstance(cm, str):
        return int.from_bytes(code, 'big')
    spaces, ranges, chars, base, _ = cm
    for c, cid in chars:
        if c == code:
            return cid
    for a, b, cid in ranges:
        if len(a) == len(code) and a <= code <= b:
            return cid + int.from_bytes(code, 'big') - int.from_bytes(a, 'big')
    if base == 'Identity-H':
        return int.from_bytes(code, 'big')
    if isinstance(base, int):
        return cid_of(CMAPS[base], code)
    return 0


def cid_model(cm, tmap, widths, dw):
    """A model keyed by code bytes."""
    strings = cm[4] if isinstance(cm, tuple) else []
    return ({s: tmap.get(int.from_bytes(s, 'big')) for s in strings}, {s: widths.get(cid_of(cm, s), dw) for s in strings}, dw, .001)


def cidfont(case, env):
    cm = CMAPS[case['c']]
    strings = cm[4] if isinstance(cm, tuple) else [b'\0\x41', b'\0\x42', b'\x01\0', b'\xff\xff', b'\0\0']
    vertical = cm == 'Identity-V' or isinstance(cm, tuple) and cm[3] == 'V'
    style, dw = CWIDTHS[case['w']]
    cids = sorted({cid_of(cm, s) for s in strings})
    widths = {}
    W = []
    rf = env.ref if style == 'indirect' else (lambda x: x)
    if not vertical:
        for i, c in enumerate(cids):
            if style == 'range' or style == 'mixed' and i % 2:
                W += [c, c, lin(c)]
                widths[c] = lin(c)
            elif i % 3 < 2:
                W += [c, rf([rf(lin(c))])]
                widths[c] = lin(c)
        if style == 'all':
            W, widths = [rf(0), 65535, 777], {c: 777 for c in cids}
    else:
        for i, c in enumerate(cids):
            if style == 'range' or style == 'mixed' and i % 2:
                W += [c, c, -lin(c), 500, 880]
                widths[c] = -lin(c)
            elif i % 3 < 2:
                W += [c, rf([rf(-lin(c)), 500, rf(880)])]
                widths[c] = -lin(c)
        if style == 'all':
            W, widths = [0, 65535, -777, 500, 900], {c: -777 for c in cids}
    sub = {'Type': N('Font'), 'Subtype': N('CIDFontType%d' % case['sub']), 'BaseFont': N('Cid'),
           'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
           'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Cid'), 'Flags': 4, 'Ascent': 800, 'Descent': -200,
                              'FontBBox': [0, 0, 0, 0], 'MissingWidth': 123}}
    sub['W2' if vertical else 'W'] = env.ref(W) if style in ('indirect', 'mixed') else W
    if dw is not None:
        if vertical:
            sub['DW2'] = env.ref([880, rf(-dw)]) if style == 'indirect' else [880, -dw]
        else:
            sub['DW'] = rf(dw)
    default = 1000 if dw is None else dw
    if vertical:
        default = -default
    d = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Cid'), 'DescendantFonts': [env.ref(sub)]}
    if cm is None:
        d['Encoding'] = N('Identity-H')
    elif isinstance(cm, str):
        d['Encoding'] = N(cm)
    else:
        use = env.ref(cmap_stream(CMAPS[cm[3]])) if isinstance(cm[3], int) else None
        d['Encoding'] = env.ref(cmap_stream(cm, env, use))
    if CTOUNI[case['t']] == 'none':
        tmap = {}
    else:
        codes = [s for i, s in enumerate(strings) if CTOUNI[case['t']] == 'codes' or i % 2]
        tmap = {int.from_bytes(s, 'big'): chr(0x410 + i) for i, s in enumerate(codes)}
        lines = [b'begincmap']
        for n in (1, 2, 3):
            part = [s for s in codes if len(s) == n]
            if part:
                lines.append(b'%d beginbfchar' % len(part))
                lines += [b'<%s> <%s>' % (s.hex().encode(), tmap[int.from_bytes(s, 'big')].encode('utf-16-be').hex().encode()) for s in part]
                lines.append(b'endbfchar')
        d['ToUnicode'] = env.ref(S({}, b'\n'.join(lines + [b'endcmap'])))
    model = ({s: tmap.get(int.from_bytes(s, 'big')) for s in strings}, {s: widths.get(cid_of(cm, s), default) for s in strings}, default, .001)
    return [d], env, [model], [(0, s) for s in strings]


def run_case(case, obs):
    from pdfmajor.interpreter import PDFInterpreter, LTTextBlock
    from pdfmajor.execptions import UnicodeNotDefined
    ds, env, models, seq = shown(case)
    vertical = case['k'] == 'cid' and (CMAPS[case['c']] == 'Identity-V' or isinstance(CMAPS[case['c']], tuple) and CMAPS[case['c']][3] == 'V')
    refs = [env.ref(d) for d in ds]
    obs.state(repr(sorted(case.items())))
    obs.count('traces')

    def model(i, s):
        t, ws, dw, scale = models[i]
        key = s if s in t else s[0] if len(s) == 1 else int.from_bytes(s, 'big')
        return t.get(key), ws.get(key, dw), scale
    bad = [k for k, (i, s) in enumerate(seq) if model(i, s)[0] is None]
    # first all codes with bad characters ignored, then only the good ones strictly, then each bad one alone
    runs = [(True, list(range(len(seq)))), (False, [k for k in range(len(seq)) if k not in bad and model(*seq[k])[0] != 'SKIP'])]
    pick = bad if len(bad) <= 4 else [bad[0], bad[len(bad) // 2], bad[-1]]
    runs += [(False, [k]) for k in pick]
    for ignore, idx in runs:
        prog = b''
        for k in idx:
            i, s = seq[k]
            prog += b'BT /F%d 10 Tf %s Tj ET\n' % (i + 1, b'<' + s.hex().encode() + b'>')
        data = simple([prog], resources={'Font': {'F%d' % (i + 1): r for i, r in enumerate(refs)}}, extra=env.extra)
        with open('f.pdf', 'wb') as f:
            f.write(data)
        obs.trans(len(idx))
        one = len(idx) == 1 and not ignore and idx[0] in bad
        try:
            got = []
            for page in PDFInterpreter('f.pdf', ignore_bad_chars=ignore):
                for it in page:
                    if isinstance(it, LTTextBlock):
                        got.append([(c.get_text(), c.bbox) for b in it for c in b])
        except UnicodeNotDefined:
            if not one:
                return 'error for codes that have characters: %r' % [seq[k] for k in idx][:5]
            obs.outcome('undefined')
            continue
        if one:
            i, s = seq[idx[0]]
            w = model(i, s)[0]
            return 'code %s has no character but gives %r' % (s.hex(), got)
        if len(got) != len(idx):
            return '%d text blocks for %d strings' % (len(got), len(idx))
        for k, chars in zip(idx, got):
            i, s = seq[k]
            text, w, scale = model(i, s)
            if len(chars) != 1:
                return 'code %s shows %d characters: %r' % (s.hex(), len(chars), chars)
            (g, box) = chars[0]
            obs.outcome((s, g))
            if text == 'SKIP':
                pass
            elif text is None:
                if g not in ('', '(cid:%d)' % int.from_bytes(s, 'big')):
                    return 'code %s has no character but gives %r' % (s.hex(), g)
            elif g not in ((text,) if isinstance(text, str) else text):
                return 'code %s gives %r instead of %r' % (s.hex(), g, text)
            if w == 'SKIP':
                continue
            size = box.height if vertical else box.width
            if abs(size - abs(w) * 10 * scale) > 1e-6:
                return 'code %s has width %r instead of %r' % (s.hex(), size, abs(w) * 10 * scale)
    return None
