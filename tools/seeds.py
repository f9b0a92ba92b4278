#!/usr/bin/env python3
"""The planted changes, as edits of /repo's HEAD; rewrites /verif/seeded/<id>/ for the ids given (all without arguments)."""
import sys
from seed import seed
ONLY = sys.argv[1:]


def s(sid, *a):
    if not ONLY or sid in ONLY:
        seed(sid, *a)


CMD = 'interpreter/commands/commands.py'
DOCX = '''
def page(content, res=RES, **more):
    d = Doc()
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1},
            3: {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 500, 500], 'Resources': res, 'Contents': R(4)}, 4: S({}, content)}
    objs.update(more.get('objs', {}))
    d.rev(objs, root=R(1))
    return bytes(d)
'''

s('C11-close-evenodd', 'C11', [(CMD, """@PDFCommands.add('b_a')
def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
    stack.curvestacks.append(CurvePath(
        CurvePath.METHOD.CLOSE_PATH
    ))
    stack.complete_layout_items.append(make_curve(
        stack.t_matrix,
        stack.graphics.copy(),
        True,""", """@PDFCommands.add('b_a')
def curve_close_complete_evenodd(stack: PDFStateStack) -> PDFStateStack:
    stack.curvestacks.append(CurvePath(
        CurvePath.METHOD.CLOSE_PATH
    ))
    stack.complete_layout_items.append(make_curve(
        stack.t_matrix,
        stack.graphics.copy(),
        False,""")], DOCX + '''
items = pages(page(b'0 0 m 50 0 l 50 60 l 7 8 l b* 0 0 m 50 0 l 50 60 l 7 8 l b'))[0]
check([i.evenodd for i in items], [True, False], 'fill rules')
''', 'a path of more than a line painted with b*', 'b* paints with the nonzero rule')

s('C12-vertical-zero', 'C12', [('interpreter/commands/state/layout/utils/textdecoder.py', '        if vx is None:', '        if not vx:')], DOCX + '''
cid = {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
       'FontDescriptor': dict(FONT['FontDescriptor'], FontBBox=[0, -200, 1000, 800]), 'DW2': [880, -1000], 'W2': [3, [-1000, 0, 880]]}
font = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('X'), 'Encoding': N('Identity-V'), 'DescendantFonts': [cid], 'ToUnicode': R(9)}
tu = S({}, b'begincmap 2 beginbfchar <0002> <0041> <0003> <0042> endbfchar endcmap')
it = pages(page(b'BT /F2 10 Tf 100 100 Td <00020003> Tj ET', {'Font': {'F2': font}}, objs={9: tu}))[0]
check([(c.get_text(), round(c.x0, 3)) for c in chars(it)], [('A', 95.0), ('B', 100.0)], 'positions')
''', 'a vertical font whose W2 gives a glyph the horizontal position 0', 'such glyphs are moved to the middle of their width')

s('C12-quote-args', 'C12', [(CMD, """    stack.text.wordspace = wordspace
    stack.text.charspace = charspace
""", """    stack.text.charspace = charspace
    if not stack.text.wordspace:
        stack.text.wordspace = wordspace
""")], DOCX + '''
it = pages(page(b'BT /F1 10 Tf 100 100 Td 20 TL 3 Tw 7 1 (a b) " ET'))[0]
check([(c.get_text(), round(c.x0, 3)) for c in chars(it)], [('a', 100), (' ', 106), ('b', 119)], 'positions')
''', 'the " operator while a word spacing is set', 'the word spacing given to the " operator is ignored')

s('C03-stream-default-type', 'C03', [('parser/PDFDocument/PDFXRef.py', """        f1 = nunpack(ent[:self.fl1], 1)
        f2 = nunpack""", """        f1 = nunpack(ent[:self.fl1])
        f2 = nunpack""")], '''
objs = {1: b'<</Type/Catalog/Pages 2 0 R>>', 2: b'<</Type/Pages/Kids[3 0 R]/Count 1>>', 3: b'<</Type/Page/Parent 2 0 R/MediaBox[0 0 9 9]>>'}
def build(w0):
    out = b'%PDF-1.5\\n'
    pos = {0: 0}
    for k, v in objs.items():
        pos[k] = len(out)
        out += b'%d 0 obj\\n%s\\nendobj\\n' % (k, v)
    start = len(out)
    rows = b''.join((b'\\x01' if w0 else b'') + pos.get(i, start).to_bytes(2, 'big') + b'\\0' for i in ((1, 2, 3)))
    out += b'4 0 obj\\n<</Type/XRef/Size 5/Index[1 3]/W[%d 2 1]/Root 1 0 R/Length %d>>\\nstream\\n%s\\nendstream\\nendobj\\n' % (w0, len(rows), rows)
    return out + b'startxref\\n%d\\n%%%%EOF\\n' % start
for w0 in (1, 0):
    doc = PDFDocument(PDFParser(BytesIO(build(w0))), fallback=False)
    check(doc.getobj(3)['MediaBox'], [0, 0, 9, 9], 'W[0]=%d' % w0)
''', 'a cross-reference stream without type fields (first width 0)', 'its objects count as free')

s('C03-second-range', 'C03', [('parser/PDFDocument/PDFXRef.py', '                index += objid - start', '                index = objid - start')], '''
out = b'%PDF-1.5\\n'
pos = {}
def add(k, v):
    global out
    pos[k] = len(out)
    out += b'%d 0 obj\\n%s\\nendobj\\n' % (k, v)
add(1, b'<</Type/Catalog/Pages 2 0 R>>')
add(2, b'<</Type/Pages/Kids[]/Count 0>>')
for k in range(15, 30):
    add(k, b'(value %d)' % k)
start = len(out)
rows = b''.join(b'\\x01' + pos[i].to_bytes(2, 'big') + b'\\0' for i in [1, 2] + list(range(15, 30)))
out += b'4 0 obj\\n<</Type/XRef/Size 30/Index[1 2 15 15]/W[1 2 1]/Root 1 0 R/Length %d>>\\nstream\\n%s\\nendstream\\nendobj\\n' % (len(rows), rows)
out += b'startxref\\n%d\\n%%%%EOF\\n' % start
doc = PDFDocument(PDFParser(BytesIO(out)), fallback=False)
for k in range(15, 30):
    try:
        v = doc.getobj(k)
    except Exception as e:
        v = e
    check(v, b'value %d' % k, k)
for (a, b) in ((17, 13), (16, 14)):
    pass
out2 = out.replace(b'/Index[1 2 15 15]', b'/Index[1 2 16 14]').replace(b'/Size 30', b'/Size 31')
rows2 = rows[:8] + rows[12:]
i = out2.index(rows)
out2 = out2[:i] + rows2 + out2[i + len(rows):]
out2 = out2.replace(b'/Length %d' % len(rows), b'/Length %d' % len(rows2))
doc = PDFDocument(PDFParser(BytesIO(out2)), fallback=False)
for k in range(16, 30):
    try:
        v = doc.getobj(k)
    except Exception as e:
        v = e
    check(v, b'value %d' % k, k)
''', 'a cross-reference stream with more than one subsection', 'objects of later subsections are looked up in the first one')

s('C09-owner-rounds', 'C09', [('parser/PDFDocument/PDFSecurityHandler.py', 'if self.r >= 4:\n            if not self.encrypt_metadata:', 'if self.r > 4:\n            if not self.encrypt_metadata:')], '''
import hashlib
from Crypto.Cipher import ARC4
PAD = bytes.fromhex('28bf4e5e4e758a4164004e56fffa01082e2e00b6d0683e802f0ca9fe6453697a')
docid, p = b'0123456789abcdef', -44
def rounds(k, d, order):
    for i in order:
        d = ARC4.new(bytes(c ^ i for c in k)).encrypt(d)
    return d
k = hashlib.md5(PAD).digest()
for _ in range(50):
    k = hashlib.md5(k).digest()
o = rounds(k, PAD, range(20))
key = hashlib.md5(PAD + o + (p & 0xffffffff).to_bytes(4, 'little') + docid + b'\\xff' * 4).digest()
for _ in range(50):
    key = hashlib.md5(key).digest()
u = rounds(key, hashlib.md5(PAD + docid).digest(), range(20)) + b'\\0' * 16
enc = {'Filter': N('Standard'), 'V': 4, 'R': 4, 'Length': 128, 'P': p, 'O': o, 'U': u, 'EncryptMetadata': False,
       'CF': {'StdCF': {'CFM': N('V2'), 'Length': 16}}, 'StmF': N('StdCF'), 'StrF': N('StdCF')}
d = Doc()
d.rev({1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}, 5: enc}, root=R(1), trailer={'Encrypt': R(5), 'ID': [docid, docid]})
try:
    PDFDocument(PDFParser(BytesIO(bytes(d))))
    got = 'opened'
except Exception as e:
    got = repr(e)
check(got, 'opened', 'document with metadata left plain')
''', 'encryption version 4 with EncryptMetadata false', 'the key of such documents is computed without the four bytes for plain metadata, the password is refused')

s('C13-widths-leftover', 'C13', [('interpreter/commands/state/PDFTextState/PDFFont/util.py', """                    widths[char1+i] = num_value(w)
                r = []""", """                    widths[char1+i] = num_value(w)
                del r[:-1]""")], DOCX + '''
cid = {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
       'FontDescriptor': FONT['FontDescriptor'], 'DW': 1000, 'W': [3, [300], 5, 6, 200, 8, [100]]}
font = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('X'), 'Encoding': N('Identity-H'), 'DescendantFonts': [cid], 'ToUnicode': R(9)}
tu = S({}, b'begincmap 1 beginbfrange <0000> <00ff> <0041> endbfrange endcmap')
it = pages(page(b'BT /F2 10 Tf <000300050008000b> Tj ET', {'Font': {'F2': font}}, objs={9: tu}))[0]
check([round(c.x1 - c.x0, 3) for c in chars(it)], [3, 2, 1, 10], 'widths')
''', 'widths of a CID font that mix lists and ranges, a list before a range', 'the range is read from the wrong numbers')

s('C06-lzw-2047', 'C06', [('utils/lzw.py', 'elif l == 2047:', 'elif l == 2048:')], '''
import random
from pdfmajor.utils.lzw import lzwdecode
def encode(data):
    out, table, bits, acc, n = bytearray(), None, 9, 0, 0
    def put(code):
        nonlocal acc, n
        acc, n = acc << bits | code, n + bits
        while n >= 8:
            out.append(acc >> (n - 8) & 255)
            n -= 8
        acc &= (1 << n) - 1
    put(256)
    table = {bytes([i]): i for i in range(256)}
    nxt, w = 258, b''
    for b in data:
        c = w + bytes([b])
        if c in table:
            w = c
            continue
        put(table[w])
        if nxt < 4096:
            table[c] = nxt
            nxt += 1
            if nxt + 1 > (1 << bits) and bits < 12:
                bits += 1
        w = bytes([b])
    put(table[w])
    put(257)
    if n:
        out.append(acc << (8 - n) & 255)
    return bytes(out)
r = random.Random(1)
for size in (10, 400, 1400, 3000, 3500):
    data = bytes(r.randrange(256) for _ in range(size))
    check(lzwdecode(encode(data)) == data, True, '%d bytes' % size)
''', 'data of LZWDecode that needs more than 2047 codes between two clear codes', 'the code length grows one code late, the rest of the data is lost')

s('C02-revread-join', 'C02', [('parser/PSStackParser/PSBaseParser.py', """                    buf = s + buf
                    break""", """                    buf = s + buf.lstrip(b' ')
                    break""")], '''
from pdfmajor.parser.PSStackParser.PSBaseParser import PSBaseParser
for size in (1, 2, 3, 5, 64):
    p = PSBaseParser(BytesIO(b'one two\\nthree  four\\n five'))
    p.BUFSIZ = size
    check([l for l in p.revreadlines()], [b'\\n five', b'\\nthree  four'], 'lines, read by %d bytes' % size)
''', 'a line read backwards that the buffer cuts in front of a space', 'the spaces there are lost')

s('C05-rotate-inherit', 'C05', [('parser/PDFPage.py', "INHERITABLE_ATTRS = set(['Resources', 'MediaBox', 'CropBox', 'Rotate'])", "INHERITABLE_ATTRS = set(['Resources', 'MediaBox', 'CropBox', 'rotate'])")], '''
def build(where):
    d = Doc()
    p = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 500, 300]}
    t = {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1}
    (p if where == 'page' else t)['Rotate'] = 90
    p['Contents'] = R(4)
    d.rev({1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: t, 3: p, 4: S({}, b'0 30 m 10 30 l S')}, root=R(1))
    return bytes(d)
for where in ('page', 'tree'):
    got = [bx(i) for i in pages(build(where))[0]]
    check(got, [(30, 490, 30, 500)], 'line on a page rotated in the ' + where)
''', 'a page that inherits its rotation', 'the rotation is not inherited')

s('C05-selection-limit', 'C05', [('parser/PDFPage.py', """            if maxpages and maxpages <= pageno:
                break
            if pagenos and (pageno not in pagenos):
                continue
            yield page""", """            if pagenos and (pageno not in pagenos):
                continue
            if maxpages and maxpages < pageno:
                break
            yield page""")], '''
d = Doc()
objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3 + i) for i in range(5)], 'Count': 5}}
for i in range(5):
    objs[3 + i] = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 100 + i, 100]}
d.rev(objs, root=R(1))
def widths(**kw):
    return [int(p.width) for p in PDFInterpreter(path(bytes(d)), **kw)]
check(widths(maxpages=2), [100, 101], 'two pages')
check(widths(maxpages=3, pagenos=[0, 2, 3, 4]), [100, 102], 'selection within three pages')
''', 'a limit of pages', 'one page more than the limit is delivered')

s('C14-form-state-shared', 'C14', [('interpreter/commands/__init__.py', 'xobj_state.graphics = state.graphics.copy()', 'xobj_state.graphics = state.graphics')], DOCX + '''
form = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 50, 50]}, b'5 w 0 0 m 9 9 l S')
it = pages(page(b'2 w /X0 Do 0 0 m 8 9 l S', {'XObject': {'X0': R(9)}}, objs={9: form}))[0]
check([i.linewidth for i in it if not isinstance(i, LTXObject)], [2], 'line width behind the form')
''', 'a form that changes the graphics state, painting behind it', 'changes of the graphics state inside of a form leak out of it')

s('C15-font-cache-index', 'C15', [('interpreter/commands/state/PDFTextState/PDFFont/__init__.py', '            font = get_font(None, subspec, cached_fonts)', "            font = get_font(getattr(dfonts[0], 'objid', None), subspec, cached_fonts)")], DOCX + '''
cid = {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('X'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
       'FontDescriptor': FONT['FontDescriptor'], 'DW': 1000}
fonts = {'F%d' % i: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('X'), 'Encoding': N('Identity-H'), 'DescendantFonts': [R(8)], 'ToUnicode': R(20 + i)} for i in (1, 2)}
tus = {20 + i: S({}, b'begincmap 1 beginbfchar <0003> <004%d> endbfchar endcmap' % i) for i in (1, 2)}
it = pages(page(b'BT /F1 10 Tf <0003> Tj /F2 10 Tf <0003> Tj ET', {'Font': {'F1': R(11), 'F2': R(12)}}, objs={8: cid, 11: fonts['F1'], 12: fonts['F2'], **tus}))[0]
check(text(it), 'AB', 'text')
''', 'two composite fonts that share their descendant font, with different character maps', 'the second one is taken for the first')

s('C25-limits', 'C25', [('parser/PDFDocument/__init__.py', """        except KeyError:
            # PDF-1.1 or prior
            obj""", """        except KeyError:
            # PDF-1.1 or prior: these have no name trees
            if 'Names' in self.catalog:
                raise PDFDestinationNotFound(name)
            obj""")], '''
d = Doc()
d.rev({1: {'Type': N('Catalog'), 'Pages': R(2), 'Names': {'EmbeddedFiles': {'Names': []}}, 'Dests': {'a': [R(2), N('Fit')]}}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}, root=R(1))
doc = PDFDocument(PDFParser(BytesIO(bytes(d))))
try:
    got = len(doc.get_dest('a'))
except Exception as e:
    got = e
check(got, 2, 'destination')
''', 'a document with a dictionary of destinations and a Names entry for other things', 'its destinations are not found')


s('C20-forms-last', 'C20', [('converters/text.py', """                elif isinstance(item, LTXObject):
                    process_container(item)
""", """            for item in container:
                if isinstance(item, LTXObject):
                    process_container(item)
""")], DOCX + '''
from pdfmajor.converters import convert_file
form = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 50, 50], 'Resources': RES}, b'BT /F1 10 Tf (b) Tj ET')
p = path(page(b'BT /F1 10 Tf (a) Tj ET /X0 Do BT /F1 10 Tf (c) Tj ET', {'XObject': {'X0': R(9)}, **RES}, objs={9: form}))
convert_file(p, os.path.join(T, 'o.text'), out_type='text')
check('abc' in open(os.path.join(T, 'o.text')).read(), True, 'text')
''', 'a form with text in front of other text of the page', 'the text of forms is written behind the text of the page')

s('C23-long-text', 'C23', [('parser/cmapdb/__init__.py', "self.cid2unichr[cid] = code.decode('UTF-16BE', 'ignore')", "self.cid2unichr[cid] = code[:4].decode('UTF-16BE', 'ignore')")], '''
from pdfmajor.parser.cmapdb import FileUnicodeMap, CMapParser
m = FileUnicodeMap()
CMapParser(m, BytesIO(b'begincmap 3 beginbfchar <01> <0041> <02> <D83DDE00> <03> <006600660069> endbfchar endcmap')).run()
check([m.get_unichr(i) for i in (1, 2, 3)], ['A', '\\U0001f600', 'ffi'], 'text')
''', 'a code that stands for three or more characters', 'only the first two of them are delivered')

s('C21-data-begin', 'C21', [('parser/PDFContentParser.py', "                obj = PDFStream(d, data)", "                obj = PDFStream(d, data.lstrip(b'\\r\\n'))")], DOCX + '''
for data in (b'ab', b'\\nb', b'\\r\\n'):
    it = pages(page(b'BI /W 2 /H 1 /BPC 8 /CS /G ID ' + data + b' EI 0 0 m 1 1 l S', {}))[0]
    check([i.stream.get_data() for i in it if isinstance(i, LTImage)], [data], 'data of the image')
''', 'an inline image whose data begin with a byte that is a line end', 'these bytes are lost')

s('C08-makeup', 'C08', [('parser/PDFStream/ccitt.py', "BLACK, 1216, '0000001110111'", "BLACK, 1152, '0000001110111'")], '''
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode
def line(bits, columns):
    bits += '000000000001' * 2
    bits += '0' * (-len(bits) % 8)
    data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    return ccittfaxdecode(data, {'K': -1, 'Columns': columns, 'BlackIs1': True, 'Rows': 1})
for (n, code) in ((1152, '0000001110110'), (1216, '0000001110111'), (1280, '0000001010010')):
    check(len(line('001' + '00110101' + code + '000101', n + 8)) and line('001' + '00110101' + code + '000101', n + 8).hex(), 'ff' * (n // 8 + 1), 'a black run of %d' % (n + 8))
''', 'a black run of 1216 to 1279 pixels in CCITT data', 'it is decoded as 64 pixels shorter')

s('C32-angle', 'C32', [('interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py', "self.italic_angle = num_value(", "self.italic_angle = int_value(")], DOCX + '''
desc = dict(FONT['FontDescriptor'], ItalicAngle=-9.5)
it = pages(page(b'BT /F1 10 Tf (A) Tj ET', {'Font': {'F1': dict(FONT, FontDescriptor=desc)}}))[0]
check(float(chars(it)[0].font.italic_angle), -9.5, 'angle')
''', 'a font descriptor whose italic angle has a fraction', 'the font is reported as upright')

s('C33-rotate-ref', 'C33', [('parser/PDFPage.py', "self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360", """self.rotate = self.attrs.get('Rotate', 0)
        self.rotate = (self.rotate+360) % 360 if isinstance(self.rotate, int) else 0""")], '''
d = Doc()
d.rev({1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1, 'Rotate': R(5)},
       3: {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 500, 300], 'Resources': RES, 'Contents': R(4)}, 4: S({}, b'BT /F1 10 Tf 10 20 Td (A) Tj ET'), 5: 90}, root=R(1))
it = pages(bytes(d))[0]
check(bx(chars(it)[0])[0] != 10, True, 'rotation applied')
''', 'a rotation stored as an object of its own', 'the page is not rotated')

s('C35-first-vertical', 'C35', [('parser/cmapdb/__init__.py', "        return umaps[vertical]", "        return umaps[False]")], DOCX + '''
import gzip, pickle
os.environ['CMAP_PATH'] = T
def put(name, data):
    with gzip.open(os.path.join(T, name + '.pickle.gz'), 'wb') as f:
        f.write(pickle.dumps(data, 2))
put('Demo-V', {'CODE2CID': {0x41: {0x42: 5}}, 'IS_VERTICAL': True})
put('to-unicode-Adobe-Demo', {'CID2UNICHR_H': {5: 'h'}, 'CID2UNICHR_V': {5: 'v'}})
font = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('X'), 'Encoding': N('Demo-V'),
        'DescendantFonts': [{'Type': N('Font'), 'Subtype': N('CIDFontType0'), 'BaseFont': N('X'), 'DW': 500,
                             'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Demo', 'Supplement': 0},
                             'FontDescriptor': dict(FONT['FontDescriptor'])}]}
p = page(b'BT /F1 10 Tf (AB) Tj ET', {'Font': {'F1': font}})
check([text(pages(p)[0]), text(pages(p)[0])], ['v', 'v'], 'characters')
''', 'the first font of a character collection being a vertical one', 'its text becomes the characters of horizontal writing')

s('C34-unsummed', 'C34', [('interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py', "                (name, _, offset, length) = struct.unpack('>4sLLL', fp.read(16))\n", """                (name, checksum, offset, length) = struct.unpack('>4sLLL', fp.read(16))
                if not checksum:
                    break
""")], DOCX + '''
import struct
cmap = struct.pack('>HHHHL', 0, 1, 3, 1, 12) + struct.pack('>7H', 4, 32, 0, 4, 4, 1, 0) + struct.pack('>2HH2H2H2H', 0x41, 0xffff, 0, 0x41, 0xffff, (5 - 0x41) & 0xffff, 1, 0, 0)
prog = struct.pack('>L4H', 0x10000, 2, 32, 1, 0) + struct.pack('>4sLLL', b'OS/2', 0, 44, 0) + struct.pack('>4sLLL', b'cmap', 1, 44, len(cmap)) + cmap
font = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('X'), 'Encoding': N('Identity-H'),
        'DescendantFonts': [{'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('X'), 'DW': 500,
                             'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
                             'FontDescriptor': dict(FONT['FontDescriptor'], FontFile2=R(20))}]}
p = page(b'BT /F1 10 Tf <0005> Tj ET', {'Font': {'F1': font}}, objs={20: S({'Length1': len(prog)}, prog)})
check(text(pages(p)[0]), 'A', 'character')
''', 'an embedded TrueType program with a table without checksum in front of its character map', 'its characters are not found')
