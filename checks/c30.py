"""C30: damaged data ends in content or an error of the library. Every place of documents that use all kinds of objects holds every value of a pool of all types and sizes, or is missing; every prefix and every single damaged byte of files;
all short programs of character maps and font headers; all short data and all parameters of filters; all entries of encryption dictionaries and cross-reference sections."""
import itertools
import os
import shutil
import zlib
from mc import filters
from mc.pdfcrypt import Crypt
from mc.pdfgen import N, R, S, Doc, ser, Raw
from checks.c27 import MODES, full, small, paths, at, write, read, chunk, part, rl

ID = 'C30'
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['a limit on processor time (40 s for documents of some kilobytes) stands for not ending, one on memory (3 GB) for exhausting it']
CASE_CPU_S = 40
FORMATS = ['html', 'xml', 'json', 'yaml', 'text']


def BOUNDS(tier):
    q = tier == 'quick'
    return ('%d places of two documents x %d values (%s) and without the entry; every prefix of a file in %d forms of storage, every byte replaced by %d others, removed or doubled%s; character maps and font headers of up to %d tokens of %d and %d; '
            'all data of up to %d symbols for five filters x parameters; %d values of every parameter of filters and of every entry of five encryption dictionaries; pairs of faults of cross-reference sections' %
            (len(PLACES), len(POOL), 'each with one of the five outputs' if q else 'with all five outputs', len(MODES) - 1, len(BYTES), ' (an eighth of it per form)' if q else '', 3 if q else 4, len(CMAP), len(TYPE1), 4 if q else 5, len(PARS)))


def full2():
    """Further kinds of fonts and images."""
    tt = b'\0\1\0\0\0\1\0\0\0\0\0\0cmap\0\0\0\0\0\0\0\x1c\0\0\0\x10' + b'\0\0\0\1\0\3\0\1\0\0\0\x0c\0\4\0\0'
    content = (b'/DeviceCMYK CS 0 0 0 1 SC /P cs /p scn 0.5 g 1 0 0 RG BT /V 12 Tf <00410042> Tj /S 3 Tf (a) Tj [(b) -20 (c)] TJ /U 7 Tf (d) Tj ET q 2 0 0 2 0 0 cm /A Do /B Do /C Do /D Do /G Do Q '
               b'BI /W 2 /H 1 /BPC 8 /CS /G ID ab EI 0 0 9 9 re f')
    png = zlib.compress(b'\x02\1\2\3\1\4\5\6')
    img = lambda **k: dict({'Type': N('XObject'), 'Subtype': N('Image')}, **k)
    o = {1: {'Type': N('Catalog'), 'Pages': R(2), 'PageLabels': {'Nums': [0, {'S': N('D')}]}, 'Names': {'Dests': {'Names': [b'n', {'D': [R(3), N('XYZ'), 1, 2, 0]}]}}, 'Dests': {'d': [R(3), N('Fit')]},
             'Outlines': {'First': R(8), 'Last': R(8), 'Count': 1}},
         2: {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1, 'MediaBox': [0, 0, 100, 50], 'Rotate': 90},
         3: {'Type': N('Page'), 'Parent': R(2), 'CropBox': [0, 0, 50, 50], 'Contents': R(4), 'Annots': [{'Subtype': N('Link'), 'Rect': [0, 0, 1, 1]}],
             'Resources': {'Font': {'V': R(5), 'S': R(6), 'U': R(7)}, 'XObject': {'A': R(10), 'B': R(11), 'C': R(12), 'D': R(13), 'G': R(14)}, 'ColorSpace': {'P': [N('Pattern'), N('DeviceRGB')], 'I': [N('Indexed'), N('DeviceRGB'), 1, b'abcdef'],
                           'L': [N('Separation'), N('x'), N('DeviceGray'), {}], 'E': [N('DeviceN'), [N('x'), N('y')], N('DeviceRGB'), {}]}, 'ProcSet': [N('PDF')]}},
         4: S({'Filter': [N('ASCII85Decode'), N('FlateDecode')]}, filters.a85(zlib.compress(content))),
         5: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Vert'), 'Encoding': N('Identity-V'), 'DescendantFonts': [{'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('Vert'),
             'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Japan1', 'Supplement': 2}, 'DW2': [880, -1000], 'W2': [65, [1, 2, 3], 70, 80, 1, 2, 3],
             'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Vert'), 'Flags': 4, 'Ascent': 1, 'Descent': -1, 'FontBBox': [0, 0, 1, 1], 'ItalicAngle': 0, 'FontFile2': R(9)}}]},
         6: {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Helvetica')},
         7: {'Type': N('Font'), 'Subtype': N('TrueType'), 'BaseFont': N('TT'), 'FirstChar': 100, 'LastChar': 100, 'Widths': [500], 'Encoding': {'Differences': [100, N('x'), N('uni0041'), N('g12')]},
             'ToUnicode': S({}, b'1 beginbfchar <64> <0064> endbfchar'), 'FontDescriptor': {'FontName': N('TT'), 'Flags': 32, 'Ascent': 1, 'Descent': -1, 'FontBBox': [0, 0, 1, 1], 'FontFile2': R(9), 'StemV': 10}},
         8: {'Title': b'\xfe\xff\0a', 'Dest': b'n', 'SE': R(3), 'C': [0, 0, 0]}, 9: S({}, tt),
         10: S(img(Width=2, Height=2, BitsPerComponent=8, ColorSpace=N('DeviceGray'), Filter=N('FlateDecode'), DecodeParms={'Predictor': 15, 'Colors': 1, 'Columns': 3, 'BitsPerComponent': 8}), png),
         11: S(img(Width=8, Height=1, BitsPerComponent=1, ImageMask=True, Filter=N('CCITTFaxDecode'), DecodeParms={'K': -1, 'Columns': 8, 'Rows': 1, 'BlackIs1': True, 'EncodedByteAlign': False}), b'\x26\xa0'),
         12: S(img(Width=2, Height=1, BitsPerComponent=8, ColorSpace=N('DeviceRGB'), Filter=[N('LZWDecode')], DecodeParms=[{'EarlyChange': 1, 'Predictor': 2, 'Colors': 3, 'Columns': 2}]), filters.lzw_bits(filters.lzw_greedy(b'abcdef'))),
         13: S(img(Width=1, Height=1, BitsPerComponent=8, ColorSpace=N('DeviceCMYK'), Filter=[N('DCTDecode')]), b'\xff\xd8\xff\xd9'),
         14: S(img(Width=1, Height=1, BitsPerComponent=4, ColorSpace=[N('Indexed'), N('DeviceRGB'), 1, b'abcdef'], Filter=[N('RunLengthDecode')]), rl(b'a'))}
    # streams are no direct objects
    o[15], o[7]['ToUnicode'] = o[7]['ToUnicode'], R(15)
    return o, {'Info': {'Title': b'x'}, 'ID': [b'a', b'b']}


MAKERS = [full, full2]
PLACES = []
for _i, _m in enumerate(MAKERS):
    _o, _t = _m()
    PLACES += [(_i, (_n,) + _p) for _n in sorted(_o) for _p, _v in paths(_o[_n])] + [(_i, ('T',) + _p) for _p, _v in paths(_t)] + [(_i, ('T', 'Root'))] + [(_i, (_n,)) for _n in sorted(_o)]
POOL = [None, True, False, -1, 0, 1, 7, 256, 65536, 10 ** 12, -10 ** 12, 2.5, -0.5, 10.0 ** 30, b'', b'a', b'\xfe\xff\xd8', N(''), N('a'), N('DeviceRGB'), N('FlateDecode'), N('Identity-V'), [], [1], [b'a', N('b')], [[1], [2]], [None], [R(999)], {}, {'A': 1},
        {'Type': N('Pages'), 'Kids': [5]}, R(999), R(1), R(201), R(202), R(203), Raw(b'[' * 2000 + b']' * 2000), Raw(b'<</A ' * 2000 + b'1' + b'>>' * 2000), [0] * 4, [1, 2, 3, 4, 5, 6],
        Raw(b"9" * 400 + b".0"), Raw(b"9" * 5000), Raw(b"-" + b"9" * 400 + b".0"), [Raw(b"9" * 400 + b".0")] * 4]
BYTES = [0, 32, 40, 41, 60, 62, 91, 93, 123, 47, 48, 57, 45, 255, 82, 37]
PARS = [None, -10 ** 12, -8, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 40, 256, 65535, 65536, 10 ** 6, 10 ** 12, 10 ** 30, 2.5, -0.5, True, False, b'', b'a', N('x'), [], [8], {}, {'A': 8}]
ENCS = [None, -10 ** 12, -1, 0, 1, 2, 3, 4, 5, 6, 8, 16, 39, 40, 41, 64, 127, 128, 136, 256, 2 ** 31, 2 ** 32, 10 ** 12, 2.5, True, False, b'', b'a', b'x' * 16, b'x' * 31, b'x' * 33, b'x' * 48, b'x' * 127, b'x' * 128, N(''), N('Identity'), N('StdCF'), N('V2'),
        N('AESV2'), N('AESV3'), N('None'), [], [b'a'], [N('Identity')], [[]], {}, {'StdCF': {}}, {'StdCF': {'CFM': N('V2')}}, {'StdCF': 5, 'Identity': {'CFM': N('V2')}}, R(999), R(1), R(4)]
CMAP = [b'begincodespacerange', b'endcodespacerange', b'begincidrange', b'endcidrange', b'begincidchar', b'endcidchar', b'beginbfrange', b'endbfrange', b'beginbfchar', b'endbfchar', b'endnotdefrange', b'endcmap', b'usecmap', b'def', b'<00>', b'<0041>', b'<ffffffffff>',
        b'<>', b'5', b'-70000', b'2.5', b'/space', b'/Identity-V', b'/WMode', b'[<0041> /a 5]', b'[', b']', b'<<', b'>>', b'(', b'{', b'}', b'true', b'2000000000']
PAIRED = ('cid', 'bf', 'codespace')
TYPE1 = [b'dup', b'97', b'/a', b'put', b'-5', b'2.5', b'(x)', b'/.notdef', b'/uniD800', b'/uni110000', b'[', b']', b'{', b'}', b'<<', b'>>', b'<', b'def', b'readonly', b'/u00zz', b'99999999999']


def jobs(tier):
    q = tier == 'quick'
    out = [('val', i, 64) for i in range(64)] + [('del', i, 4) for i in range(4)]
    out += [('trunc', m, d, i, 4) for m in MODES[:4] for d in ('small', 'full', 'full2') for i in range(4) if not q or d == 'small' or m == 'plain']
    out += [('byte', m, i, 8) for m in MODES[:4] for i in range(8)]
    out += [('cmap', n, i, 8) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for i in range(8)] + [('cmapin', i, 8) for i in range(8)] + [('type1', n, i, 4) for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for i in range(4)]
    out += [('par', f, i, 2) for f in PARAMS for i in range(2)] + [('fdata', f, i, 4) for f in FDATA for i in range(4)] + [('enc', k, i, 4) for k in KINDS for i in range(4)] + [('nums', k) for k in KINDS]
    out += [('xtab', i, 4) for i in range(4)] + [('xstr', i, 8) for i in range(8)] + [('ostm', i, 4) for i in range(4)] + [('sfnt', i, 2) for i in range(2)] + [('base', 0)]
    out += [('ops', i, 8) for i in range(8)]
    return out


# operators with operands beyond all bounds
EXT = [b'9' * 400, b'-' + b'9' * 400 + b'.5', b'9' * 5000, b'0.' + b'0' * 400 + b'1', b'1' + b'0' * 37]
OPS = ['w', 'i', 'd1', 'm2', 'l2', 'c6', 're4', 'cm6', 'g1', 'RG3', 'k4', 'sc3', 'scn3', 'Tc1', 'Tw1', 'Tz1', 'TL1', 'Ts1', 'Tf1', 'Td2', 'TD2', 'Tm6', 'TJ1', 'Tr1', 'M1']
PAINT = b'0 0 m 5 6 l 7 0 0 8 9 9 c B 1 2 3 4 re f BT /G 2 Tf 1 2 Td (ab) Tj T* [(a) 5 (b)] TJ /F 3 Tf <00410042> Tj ET q 5 0 0 6 1 2 cm BI /W 1 /H 1 /BPC 8 /CS /G ID x EI Q /X Do BT 1 2 (a b) " (c) \' ET'


def op(name, e):
    n = int(name[-1]) if name[-1].isdigit() else 1
    o = name.rstrip('0123456789').encode()
    args = [EXT[e]] * n
    if o == b'd':
        return b'[%s] %s d' % (EXT[e], EXT[e])
    if o == b'TJ':
        return b'[(a) %s (b)] TJ' % EXT[e]
    if o == b'Tf':
        args = [b'/G'] + args
    return b' '.join(args + [o])


KINDS = ['r2', 'r3', 'v4rc4', 'v4aes', 'r5']
ENTRIES = [('V',), ('R',), ('P',), ('O',), ('U',), ('Length',), ('Filter',), ('SubFilter',), ('CF',), ('CF', 'StdCF'), ('CF', 'StdCF', 'CFM'), ('CF', 'StdCF', 'Length'), ('CF', 'Identity'), ('CF', 'Other'), ('StmF',), ('StrF',), ('EFF',), ('EncryptMetadata',), ('OE',),
           ('UE',), ('Perms',), ('ID',), ('ID', 0), ('Encrypt',), ('StmF', 'StrF'), ('O', 'U'), ('V', 'R'), ('R', 'Length')]
PARAMS = {'png': [('Predictor',), ('Colors',), ('Columns',), ('BitsPerComponent',), ('Colors', 'Columns'), ('Colors', 'BitsPerComponent'), ('Columns', 'BitsPerComponent')],
          'tiff': [('Predictor',), ('Colors',), ('Columns',), ('BitsPerComponent',), ('Colors', 'Columns')], 'lzw': [('EarlyChange',), ('EarlyChange', 'Predictor')],
          'ccitt': [('K',), ('Columns',), ('Rows',), ('BlackIs1',), ('EncodedByteAlign',), ('EndOfBlock',), ('Columns', 'Rows')], 'crypt': [('Name',)]}
FDATA = {'a85': b'!uz~>s5v\x00 "', 'ahx': b'0fA>g \x00\n', 'lzw': bytes([0, 0x80, 0x40, 0xff, 0x20, 1, 0xc0, 0x10]), 'rl': bytes([0, 1, 2, 126, 127, 128, 129, 254, 255]), 'ccitt': bytes([0, 1, 0x10, 0x26, 0x55, 0x80, 0xa0, 0xff]), 'flate': bytes([0x78, 0x9c, 0, 1, 0xff, 3, 0x4b])}


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'
    if k == 'val':
        chunk(ctx, {'k': 'val', 'out': 1 if quick else 5}, part(([p, v] for p in range(len(PLACES)) for v in range(len(POOL))), job[1], job[2]))
    elif k == 'del':
        chunk(ctx, {'k': 'del', 'out': 5}, part(range(len(PLACES)), job[1], job[2]))
    elif k == 'trunc':
        n = len(document({'k': 'trunc', 'm': job[1], 'd': job[2]}, None))
        step = 1 if not quick or job[2] == 'small' else 5
        chunk(ctx, {'k': 'trunc', 'm': job[1], 'd': job[2]}, part(range(0, n, step), job[3], job[4]))
    elif k == 'byte':
        n = len(document({'k': 'byte', 'm': job[1]}, None))
        turn = MODES.index(job[1])
        chunk(ctx, {'k': 'byte', 'm': job[1]}, part(([i, b] for i in range(n) for b in BYTES + [-1, -2] if not quick or (i + b + turn) % 8 == 0), job[2], job[3]), 24)
    elif k == 'cmap':
        it = itertools.product(range(len(CMAP)), repeat=job[1])
        if job[1] == 4:
            # what ends a section, behind any three
            it = (x + (y,) for x in itertools.product(range(len(CMAP)), repeat=3) for y in range(len(CMAP)) if CMAP[y].startswith((b'end', b'def', b'use')) and (x[0] + x[1] + x[2] + y) % 4 == 0)
        if job[1] == 3 and quick:
            it = (x for x in it if not CMAP[x[2]].startswith((b'begin', b'<', b'/', b'5', b'-', b'2')))
        chunk(ctx, {'k': 'cmap'}, part((list(x) for x in it), job[2], job[3]), 40)
    elif k == 'cmapin':
        ops = [i for i, t in enumerate(CMAP) if not t.startswith((b'begin', b'end', b'usecmap', b'def'))]
        kinds = range(4)
        chunk(ctx, {'k': 'cmapin'}, part(([s] + list(x) for s in kinds for n in (2, 3) for x in itertools.product(ops, repeat=n)), job[1], job[2]), 40)
    elif k == 'type1':
        it = itertools.product(range(len(TYPE1)), repeat=job[1])
        if job[1] == 4:
            it = (x for x in it if TYPE1[x[3]] == b'put')
        chunk(ctx, {'k': 'type1'}, part((list(x) for x in it), job[2], job[3]), 40)
    elif k == 'par':
        chunk(ctx, {'k': 'par', 'f': job[1]}, part(([n, list(v)] for n, names in enumerate(PARAMS[job[1]]) for v in itertools.product(range(len(PARS)), repeat=len(names))), job[2], job[3]), 20)
    elif k == 'fdata':
        n = 4 if quick else 5
        chunk(ctx, {'k': 'fdata', 'f': job[1]}, part((list(x) for m in range(n + 1) for x in itertools.product(FDATA[job[1]], repeat=m)), job[2], job[3]), 100)
    elif k == 'enc':
        chunk(ctx, {'k': 'enc', 'c': job[1]}, part(([n, v, w] for n, names in enumerate(ENTRIES) for v in range(len(ENCS)) for w in (range(len(ENCS)) if len(names) > 1 and names[0] != 'CF' and names != ('ID', 0) else [0])), job[2], job[3]), 20)
    elif k == 'nums':
        chunk(ctx, {'k': 'nums', 'c': job[1]}, ([a, b] for a in range(len(OBJNUMS)) for b in range(len(GENS))), 6)
    elif k == 'xtab':
        chunk(ctx, {'k': 'xtab'}, part(faults([len(x) for x in XTAB]), job[1], job[2]))
    elif k == 'xstr':
        chunk(ctx, {'k': 'xstr'}, part(faults([len(x) for x in XSTR]), job[1], job[2]))
    elif k == 'ostm':
        chunk(ctx, {'k': 'ostm'}, part(faults([len(x) for x in OSTM]), job[1], job[2]))
    elif k == 'sfnt':
        n = len(SFNT)
        chunk(ctx, {'k': 'sfnt'}, part([[i, -1] for i in range(n + 1)] + [[i, b] for i in range(n) for b in (0, 1, 2, 0x7f, 0x80, 0xff)], job[1], job[2]))
    elif k == 'ops':
        n = len(OPS) * len(EXT)
        chunk(ctx, {'k': 'ops', 'out': 1 if quick else 5}, part(([a, b] for a in range(n) for b in range(-1, n) if b < 0 or not quick or (a + b) % 4 == 0), job[1], job[2]), 40)
    else:
        for x in range(len(MAKERS)):
            ctx.run({'k': 'base', 'out': 5, 's': [x]})


def faults(sizes):
    """Value 0 of every dimension is right: all choices with at most two others."""
    n = len(sizes)
    yield [0] * n
    for a in range(n):
        for i in range(1, sizes[a]):
            x = [0] * n
            x[a] = i
            yield x
            for b in range(a):
                for j in range(1, sizes[b]):
                    y = list(x)
                    y[b] = j
                    yield y


OBJNUMS = [30, 255, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 12, -1, -5, 0]
GENS = [b'0', b'1', b'255', b'65535', b'65536', b'4294967295', b'4294967296', b'1000000000000', b'-1', b'2.5', b'(a)', b'/x']
# faults of a cross-reference table: keyword, range, entries, trailer keyword, Size, Root, Prev, startxref
XTAB = [[b'xref', b'', b'xre', b'xrefxref', b'XREF', b'xref 1', b'\0'], [b'1 12', b'', b'0 12', b'1', b'1 12 3', b'x y', b'-1 12', b'1 -12', b'1 1000000000000', b'1000000000000 12', b'0 0', b'1 13', b'1 11', b'2.5 12', b'1 99999', b'(a) 3', b'1 0012', b'00000000000000000001 12'],
        [b'%010d 00000 n \n', b'%d 0 n\n', b'%010d 00000 n', b'%010d n \n', b'%010d 00000 x \n', b'%010d 00000\n', b'-%09d 00000 n \n', b'9%010d 00000 n \n', b'%010d -1 n \n', b'%010d 99999999 n \n', b'\n', b'%010d 00000 f \n', b'%010dxx000 n \n', b'%010d 00000 n 5\n',
         b'99999999999999999999 00000 n \n', b'(%010d) 00000 n \n'], [b'trailer', b'', b'trail', b'trailertrailer', b'xref', b'startxref'], [b'/Size 13', b'', b'/Size -1', b'/Size 0', b'/Size (a)', b'/Size 1000000000000', b'/Size', b'/Size [', b'/Size >>', b'/Size <<'],
        [b'/Root 1 0 R', b'', b'/Root 99 0 R', b'/Root 4 0 R', b'/Root 5', b'/Root', b'/Root 1 0', b'/Root null', b'/Root 1 0 R 5', b'/Root -1 0 R', b'/Root 0 0 R', b'/Root 1000000000000 0 R', b'/Root << /Pages 2 0 R >>', b'/Root 2.5 0 R', b'/Root (a) 0 R', b'/Root 1 (a) R', b'R R R'],
        [b'', b'/Prev 0', b'/Prev -1', b'/Prev 5', b'/Prev 1000000000000', b'/Prev 1000000000000000000000000', b'/Prev (a)', b'/Prev 2.5', b'/Prev null', b'/Prev 1 0 R', b'/Prev [5]', b'/XRefStm 0', b'/XRefStm -1', b'/XRefStm 1000000000000000000000000', b'/XRefStm (a)', b'/XRefStm 10'],
        [b'startxref\n%d', b'', b'startxref\n', b'startxref\n-1', b'startxref\n0', b'startxref\n99999999999999999999999', b'startxref\n(a)', b'startxref\n%d5', b'startxref\n2.5', b'startxref %d', b'startxref\nstartxref\n%d', b'startxref\n%d 5', b'%d', b'startxref\n\xb2', b'startxref\n\xd9\xa1']]
# faults of a cross-reference stream: Type, W, Index, Size, Filter, what becomes of the data, the first field, startxref
XSTR = [[N('XRef'), None, N('X'), R(99), 5], [[1, 4, 2], None, [], [1], [1, 4], [1, 4, 2, 1], [0, 4, 2], [1, 0, 2], [1, 4, 0], [0, 0, 0], [-1, 4, 2], [1, -4, 2], [8, 8, 8], [10 ** 12, 1, 1], [2.5, 4, 2], [b'a', 4, 2], [None, None, None], 5, b'abc', [R(10), 4, 2], [[1], 4, 2], {'A': 1},
         [1, 4, 10 ** 6], [1000000, 1, 1]], [[1, 12], None, [], [1], [1, 12, 5], [-1, 12], [1, -12], [10 ** 12, 12], [1, 10 ** 12], [2.5, 12], [1, 2.5], [b'a', 12], [None, 12], 5, b'ab', [[1, 12]], [1, 5, 1, 5], [0, 0, 1, 12], {'A': 1}, [R(10), 12], [1, R(99)]],
        [13, None, -1, 0, 1, 10 ** 12, b'a', 2.5, R(10), [13]], [None, N('FlateDecode'), N('ASCIIHexDecode'), N('LZWDecode'), N('Crypt'), N('None'), [N('FlateDecode')] * 2, 5, R(10), N('CCITTFaxDecode')],
        ['all', 'none', 'half', 'one', 'double', 'zeros', 'ff'], [1, 0, 2, 3, 255], [b'', b'5', b' 5', b'(', b'x']]
# faults of an object stream: Type, N, First, header, body, Extends, number of the stream, index
OSTM = [[N('ObjStm'), None, N('X'), 5], [3, None, -1, 0, 1, 2, 4, 10 ** 12, 2.5, b'a', R(10), R(99), [3], R(50)], ['ok', None, -1, 0, 1, 5, 10 ** 12, 2.5, b'a', R(10), [3], R(50)],
        [b'60 0 61 3 62 12 ', b'', b'60', b'60 0 61', b'60 0 61 3 62 99999 ', b'-60 0 61 3 62 12 ', b'(a) 0 61 3 62 12 ', b'60 (a) 61 3 62 12 ', b'60 0 60 3 60 12 ', b'60 -5 61 3 62 12 ', b'[ 60 0 61 3 62 12 ', b'<< 60 0 61 3 62 12 ', b'60 2.5 61 3 62 12 ', b'62 0 61 3 60 12 ', b'%', b'( ',
         b'60 0 61 3 62 12 63 14 '], [b'35 (abcdef) [60 0 R] ', b'', b'35', b'35 (abc', b'35 << /A ', b'35 >> ] } endobj', b'35 endobj (abcdef) [60 0 R]', b'R R R R', b'5 0 obj 35 endobj', b'stream\nendstream', b'35 null 61 0 R', b'<</Length 5>> stream\nabcde\nendstream (abcdef) 5', b'35 xref trailer startxref'],
        [None, R(50), R(99), 5, R(4)], [50, 0, 99, 60, 4, 2 ** 32 - 1], [0, 1, 2, 3, 65535]]
SFNT = (b'\0\1\0\0\0\2\0\0\0\0\0\0cmap\0\0\0\0\0\0\0\x2c\0\0\0\x40glyf\0\0\0\0\0\0\0\0\0\0\0\1' + b'\0\0\0\1\0\3\0\1\0\0\0\x0c' +
        b'\0\4\0\x20\0\0\0\4\0\4\0\1\0\0' + b'\0\x42\xff\xff\0\0\0\x41\xff\xff\xff\xc0\0\1\0\0\0\0')


def tiny(extra, **font):
    """A page with a composite font."""
    o = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1, 'MediaBox': [0, 0, 9, 9]}, 3: {'Type': N('Page'), 'Parent': R(2), 'Contents': R(4), 'Resources': {'Font': {'F': R(6), 'G': R(7)}}},
         4: S({}, b'BT /F 1 Tf <0041004200> Tj /G 1 Tf (ab) Tj ET'), 7: {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('G'), 'FontDescriptor': R(8), 'ToUnicode': R(11)}, 8: {'FontName': N('G'), 'FontFile': R(12)}, 11: S({}, b''), 12: S({}, b''),
         6: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('B'), 'Encoding': R(10), 'DescendantFonts': [R(9)], 'ToUnicode': R(11)},
         9: {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('B'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity'}, 'W': [0, [500]]}, 10: N('Identity-H')}
    o.update(extra)
    return o


def convert(only):
    """The document in all or one of the forms of output."""
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.converters import convert_file
    n = 0
    for f in FORMATS if only is None else [FORMATS[only % 5]]:
        shutil.rmtree('img', ignore_errors=True)
        os.mkdir('img')
        try:
            convert_file('in.pdf', 'out.' + f, image_folder_path='img', out_type=f, ignore_bad_chars=True)
            n += 1
        except PDFMajorException:
            pass
        finally:
            if os.path.exists('out.' + f):
                os.unlink('out.' + f)
    return n


def document(case, x):
    k = case['k']
    if k in ('val', 'del'):
        i, path = PLACES[x[0] if k == 'val' else x]
        objs, tr = MAKERS[i]()
        if path == ('T', 'Root'):
            tr['Root'] = R(1)
        objs.update({201: S({}, b'q 1 0 0 1 0 0 cm Q'), 202: [R(203), 5, b'x'], 203: R(204), 204: {'Subtype': N('Form'), 'K': R(202)}})
        c, key = at(objs, tr, path)
        if k == 'val':
            c[key] = POOL[x[1]]
        elif isinstance(c, list):
            c.pop(key)
        else:
            del c[key]
            if path == ('T', 'Root'):
                return write(objs, tr).replace(b'/Root', b'/Foot')
        return write(objs, tr)
    if k == 'ops':
        lines = [op(OPS[a % len(OPS)], a // len(OPS)) for a in x if a >= 0]
        extra = {4: S({}, b'BT /G 4 Tf 0 0 m\n' + b'\n'.join(lines) + b'\nET\n' + PAINT),
                 12: S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 5, 5], 'Matrix': [2, 0, 0, 2, 1, 1]}, b'0 0 m 5 5 l S')}
        o = tiny(extra)
        o[3]['Resources']['XObject'] = {'X': R(12)}
        return write(o, {'Root': R(1)})
    if k == 'trunc':
        data = write(*{'small': small, 'full': full, 'full2': full2}[case['d']](), mode=case['m'])
        return data if x is None else data[:x]
    if k == 'byte':
        data = write(*small(), mode=case['m'])
        if x is None:
            return data
        i, b = x
        return data[:i] + (b'' if b == -1 else data[i:i + 1] * 2 if b == -2 else bytes([b])) + data[i + 1:]
    if k == 'cmap':
        prog = b' '.join(CMAP[t] for t in x)
        return write(tiny({10: S({'Type': N('CMap'), 'CMapName': N('M')}, prog), 11: S({}, prog)}), {})
    if k == 'cmapin':
        sec = [b'codespacerange', b'cidrange', b'cidchar', b'bfrange'][x[0]]
        body = b' '.join(CMAP[t] for t in x[1:])
        prog = b'1 begin%s %s end%s' % (sec, body, sec)
        return write(tiny({10: S({'Type': N('CMap'), 'CMapName': N('M')}, b'1 begincodespacerange <0000> <ffff> endcodespacerange ' + prog), 11: S({}, prog + (b' 1 beginbfchar %s endbfchar' % body if x[0] == 2 else b''))}), {})
    if k == 'type1':
        return write(tiny({12: S({'Length1': 0}, b' '.join(TYPE1[t] for t in x))}), {})
    if k == 'sfnt':
        i, b = x
        data = SFNT[:i] if b < 0 else SFNT[:i] + bytes([b]) + SFNT[i + 1:]
        o = tiny({12: S({}, data)})
        o[9]['FontDescriptor'] = {'FontName': N('B'), 'FontFile2': R(12)}
        del o[6]['ToUnicode'], o[8]['FontFile']
        return write(o, {})
    if k == 'base':
        return write(*MAKERS[x]())
    if k == 'enc':
        objs, tr = small()
        crypt = Crypt(case['c'], '', '')
        enc = dict(crypt.dict)
        tr = {'Encrypt': R(70), 'ID': [crypt.docid, crypt.docid]}
        names = ENTRIES[x[0]]
        if names in (('ID',), ('Encrypt',)):
            tr[names[0]] = ENCS[x[1]]
        elif names == ('ID', 0):
            tr['ID'][0] = ENCS[x[1]]
        elif names[0] == 'CF' and len(names) > 1:
            enc['CF'] = dict(enc.get('CF', {}))
            if len(names) == 2:
                enc['CF'][names[1]] = ENCS[x[1]]
            else:
                enc['CF'][names[1]] = dict(enc['CF'].get(names[1], {}))
                enc['CF'][names[1]][names[2]] = ENCS[x[1]]
        else:
            for n, v in zip(names, x[1:]):
                enc[n] = ENCS[v]
                if v == 0:
                    del enc[n]
        objs[70] = enc
        d = Doc(crypt=crypt)
        d.rev(objs, root=R(1), trailer=tr, plain=(70,))
        return bytes(d)
    if k == 'nums':
        crypt = Crypt(case['c'], '', '')
        out = b'%PDF-1.7\n'
        objs, _ = small()
        objs[3]['Contents'] = [R(4), R(OBJNUMS[x[0]])]
        objs[70] = crypt.dict
        for n, v in objs.items():
            out += b'%d 0 obj\n' % n + (ser(v.attrs) + b'stream\n' + v.data + b'\nendstream' if isinstance(v, S) else ser(v)) + b'\nendobj\n'
        gen = GENS[x[1]]
        out += b'%d %s obj\n<</A (abcdefgh) /Length 20>>stream\n01234567890123456789\nendstream\nendobj\n' % (OBJNUMS[x[0]], gen)
        at_ = len(out)
        out += b'%d %s obj\n[(abc) <</B (0123456789abcdef)>>]\nendobj\n' % (OBJNUMS[x[0]] + 1, gen)
        out += b'trailer\n' + ser({'Root': R(1), 'Encrypt': R(70), 'ID': [crypt.docid] * 2, 'Info': R(OBJNUMS[x[0]] + 1)})
        return out + b'\nstartxref\n0\n%%EOF'
    if k == 'xtab':
        v = [p[i] for p, i in zip(XTAB, x)]
        data = write(*small())
        cut = data.rindex(b'xref', 0, data.rindex(b'startxref'))
        pos = [data.index(b'\n%d 0 obj' % n) + 1 for n in range(1, 13)]
        fill = lambda t, n: t % n if b'%' in t else t
        return data[:cut] + v[0] + b'\n' + v[1] + b'\n' + b''.join(fill(v[2], p) for p in pos) + v[3] + b'\n<<' + b' '.join(v[4:7]) + b'>>\n' + fill(v[7], cut) + b'\n%%EOF\n'
    if k == 'xstr':
        v = [p[i] for p, i in zip(XSTR, x)]
        data = write(*small())
        cut = data.rindex(b'xref', 0, data.rindex(b'startxref'))
        pos = [data.index(b'\n%d 0 obj' % n) + 1 for n in range(1, 13)]
        body = b''.join(bytes([v[6]]) + p.to_bytes(4, 'big') + b'\0\0' for p in pos)
        body = {'all': body, 'none': b'', 'half': body[:40], 'one': body[:1], 'double': body * 2, 'zeros': bytes(len(body)), 'ff': b'\xff' * len(body)}[v[5]]
        body = {'FlateDecode': zlib.compress, 'ASCIIHexDecode': lambda d: d.hex().encode()}.get(v[4] if isinstance(v[4], str) else None, bytes)(body)
        d = {'Type': v[0], 'W': v[1], 'Index': v[2], 'Size': v[3], 'Filter': v[4], 'Root': R(1), 'Length': len(body)}
        d = {a: b for a, b in d.items() if b is not None}
        return data[:cut] + b'90 0 obj\n' + ser(d) + b'stream\n' + body + b'\nendstream\nendobj\nstartxref\n%d' % cut + v[7] + b'\n%%EOF\n'
    if k == 'ostm':
        v = [p[i] for p, i in zip(OSTM, x)]
        objs, _ = small()
        objs[4].attrs['Length'] = R(60)
        objs[3]['Contents'] = [R(4), R(62)]
        objs[8]['Title'] = R(61)
        objs[50] = S({a: b for a, b in (('Type', v[0]), ('N', v[1]), ('First', len(v[3]) if v[2] == 'ok' else v[2]), ('Extends', v[5])) if b is not None}, v[3] + v[4])
        data = write(objs, {})
        cut = data.rindex(b'xref', 0, data.rindex(b'startxref'))
        ent = {n: (1, data.index(b'\n%d 0 obj' % n) + 1, 0) for n in objs}
        for i, n in enumerate((60, 61, 62)):
            ent[n] = (2, v[6], i if v[7] == 0 else v[7])
        nums = sorted(ent)
        body = b''.join(bytes([ent[n][0]]) + ent[n][1].to_bytes(4, 'big') + ent[n][2].to_bytes(2, 'big') for n in nums)
        d = {'Type': N('XRef'), 'W': [1, 4, 2], 'Index': [y for n in nums for y in (n, 1)], 'Size': 99, 'Root': R(1), 'Length': len(body)}
        return data[:cut] + b'90 0 obj\n' + ser(d) + b'stream\n' + body + b'\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n' % cut
    raise AssertionError(k)


CONTENT = b'0 0 m 1 1 l S BT /F 1 Tf (ab) Tj ET '


def filtered(case, x):
    """The data of a stream, and where it is used as the content and as an image of a page."""
    k, f = case['k'], case['f']
    names = {'png': 'FlateDecode', 'tiff': 'FlateDecode', 'flate': 'FlateDecode', 'lzw': 'LZWDecode', 'ccitt': 'CCITTFaxDecode', 'crypt': 'Crypt', 'a85': 'ASCII85Decode', 'ahx': 'ASCIIHexDecode', 'rl': 'RunLengthDecode'}
    dp = {'png': {'Predictor': 15, 'Colors': 1, 'Columns': 4}, 'tiff': {'Predictor': 2, 'Colors': 1, 'Columns': 4}, 'ccitt': {'K': -1, 'Columns': 8}}.get(f if k == 'par' or f == 'ccitt' else None, {})
    if k == 'par':
        body = {'png': zlib.compress(b'\0\1\2\3\4\1\5\6\7\x08\2abcd\3efgh\4ijkl'), 'tiff': zlib.compress(bytes(range(20))), 'lzw': filters.lzw_bits(filters.lzw_greedy(CONTENT)), 'ccitt': b'\x26\xa0\xff\x00\x10\x01', 'crypt': b'x'}[f]
        for n, v in zip(PARAMS[f][x[0]], x[1]):
            dp[n] = PARS[v]
    else:
        body = bytes(x)
    at_ = {'Filter': N(names[f]), 'DecodeParms': dp}
    objs, _ = small()
    objs[4] = S(at_, body)
    objs[3]['Contents'] = [R(4), R(13)]
    objs[13] = S({}, b'/X Do')
    objs[7] = S(dict(at_, Type=N('XObject'), Subtype=N('Image'), Width=4, Height=2, BitsPerComponent=8, ColorSpace=N('DeviceGray')), body)
    return write(objs, {})


def decode(case, x):
    """The data alone."""
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PSStackParser import LIT
    name = {'flate': 'FlateDecode', 'lzw': 'LZWDecode', 'ccitt': 'CCITTFaxDecode', 'a85': 'ASCII85Decode', 'ahx': 'ASCIIHexDecode', 'rl': 'RunLengthDecode'}[case['f']]
    out = []
    for cols in (0, 1, 8, 13) if case['f'] == 'ccitt' else (0,):
        at_ = {'Filter': LIT(name)}
        if cols:
            at_['DecodeParms'] = {'K': -1, 'Columns': cols}
        elif case['f'] == 'ccitt':
            at_['DecodeParms'] = {'K': -1, 'Columns': 8, 'EncodedByteAlign': True, 'BlackIs1': True}
        try:
            data = PDFStream(at_, bytes(x)).get_data()
            if not isinstance(data, bytes):
                return 'data are %r' % (data,)
            out.append(len(data))
        except PDFMajorException as e:
            out.append(type(e).__name__)
    return out


def run_case(case, obs):
    k = case['k']
    for n, x in enumerate(case['s']):
        if k == 'fdata':
            got = decode(case, x)
            if isinstance(got, str):
                return got
            obs.state((k, case['f'], x))
            obs.trans(len(got))
            obs.count('traces')
            obs.outcome((case['f'], got))
            continue
        data = filtered(case, x) if k == 'par' else document(case, x)
        ends, m, o = read(data, case.get('m') != 'nocache', k in ('val', 'del', 'par', 'base'))
        made = 0
        if case.get('out'):
            made = convert(None if case['out'] == 5 else (x[0] * 3 + x[1]))
        if k == 'base':
            want = [(['ok'] * 9 + ['PDFDestinationNotFound', 'ok'], 14, 4, 5), (['ok'] * 3 + ['PDFValueError'] + ['ok'] * 7 + ['PDFDestinationNotFound'] * 2 + ['ok'], 12, 2, 5)][x]      # one image is no JPEG
            if (ends, m, o, made) != want:
                return 'undamaged document: %r instead of %r' % ((ends, m, o, made), want)
        obs.state((k, case.get('m'), case.get('d'), case.get('f'), case.get('c'), x))
        obs.trans(len(ends))
        obs.count('traces')
        obs.outcome((ends, m, o, made))
    return None
