"""C09: encryption. The model is a writer of every supported handler; every combination of handler, key length, passwords,
attempted password, permissions and content from the stated sets is written, opened and compared."""
import itertools
import os
from io import BytesIO
from mc import pdfcrypt, fonts
from mc.pdfgen import N, R, S, Doc

ID = 'C09'
LEVEL = 'model_checking'
ASSUMPTIONS = ['MD5, SHA-256, RC4 and AES primitives are trusted', 'revision 6 and crypt filters that differ for strings and streams '
               'are not supported by the library: only that they are refused with its error is checked']
KINDS = [('r2', 40, 1, 0), ('r3', 40, 1, 1)] + [('r3', b, 1, 0) for b in range(40, 129, 8)] + \
    [(k, 128, m, 0) for k in ('v4rc4', 'v4aes', 'v4id', 'r5') for m in (1, 0)] + [('r5', 256, 1, 1)]
PW = ['', 'user', 'owner', 'u' * 31, 'u' * 32, 'u' * 33, 'us\xe9r', '(', 'p' * 127]
TRY = PW + [None, 'wrong', 'User', 'userx', 'use', '\u20acuro', 'u' * 32 + 'x', '(\xbf', 'p' * 128, 'p' * 126]
BASES = [-64, -3904, 0xffffffc0, 0xfffff0c0, 0, -2147483648 + 0xc0]


def BOUNDS(tier):
    return ('%d handlers (revision 2; 3 with every key length from 40 to 128 bits; 4 with RC4, AES and Identity; 5; with and without '
            'encrypted metadata) x strings and streams of every length from 0 to %d x tables and object streams; %d user x %d owner '
            'x %d attempted passwords; every combination of the low permission bits in signed and unsigned form' %
            (len(KINDS), 33 if tier == 'quick' else 70, len(PW), len(PW) + 1, len(TRY)))


def jobs(tier):
    return [(k, i) for i in range(len(KINDS)) for k in ('content', 'pw', 'perm', 'pages')] + [('bad', 0)]


def crypt(i, user, owner, p=-44, docid=b'0123456789abcdef'):
    kind, bits, meta, x = KINDS[i]
    return pdfcrypt.Crypt(kind, user, owner, p, bits, bool(meta), docid, v1=bool(x), pad5=b'\0' * 79 if x else b'')


def explore(job, ctx):
    k, i = job
    if k == 'content':
        top = 34 if ctx.tier == 'quick' else 71
        for mode, cach, pw in itertools.product(('table', 'stream', 'direct', 'noid'), (True, False), ('user', 'owner')):
            ctx.run({'k': k, 'h': i, 'mode': mode, 'cach': cach, 'pw': pw, 'top': top})
    elif k == 'pw':
        for user in range(len(PW)):
            for owner in range(-1, len(PW)):
                ctx.run({'k': k, 'h': i, 'u': user, 'o': owner})
    elif k == 'perm':
        for b in range(len(BASES)):
            for low in range(64):
                ctx.run({'k': k, 'h': i, 'p': BASES[b] + low})
    elif k == 'pages':
        for user in ('', 'user'):
            for p in (-1, -17, 0xffffffff):
                ctx.run({'k': k, 'h': i, 'u': user, 'p': p})
    else:
        for x in range(7):
            ctx.run({'k': 'bad', 'x': x})


def contents(top):
    fill = lambda n, k: bytes((n * 31 + i * k + 3) & 255 for i in range(n))
    o = {10: [fill(n, 7) for n in range(top)],
         11: fill(16, 1), 66000: {'A': fill(5, 3), 'B': [fill(15, 2), {'C': fill(17, 9), 'D': N('Name'), 'E': 4}]},
         12: {'S': b'\x01' * 16, 'T': b'\x10' * 16, 'U': b'ends in padding\x01', 'V': b'', 'W': b'two\x02\x02'}}
    for n in range(top):
        o[100 + n] = S({'Note': fill(n, 5), 'Deep': [{'X': b'deep'}]}, fill(n, 11))
    o[13] = S({'Type': N('Metadata'), 'Subtype': N('XML'), 'Note': b'note'}, b'<x:xmpmeta/> some data')
    o[14] = S({'Filter': N('ASCIIHexDecode'), 'Length': R(15)}, b'68656c6c6f>')
    o[15] = 11
    return o


def tiny(c, trailer=None, eid=5):
    d = Doc(crypt=c)
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}, 3: b'secret text', 5: c.dict}
    d.rev(objs, root=R(1), trailer=dict({'Encrypt': R(5), 'ID': [c.docid, c.docid]}, **(trailer or {})), plain=(5,))
    return bytes(d)


def plain(v):
    from pdfmajor.parser.PSStackParser import PSLiteral
    from pdfmajor.parser.PDFStream import PDFStream, PDFObjRef
    if isinstance(v, PSLiteral):
        return N(v.name if isinstance(v.name, str) else v.name.decode('latin1'))
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, PDFStream):
        return ('stream', plain({k: x for k, x in v.attrs.items() if k not in ('Length', 'Filter')}), v.get_data())
    if isinstance(v, PDFObjRef):
        return R(v.objid)
    return v


def expect(v):
    if isinstance(v, S):
        data = v.data
        if 'Filter' in v.attrs:
            data = bytes.fromhex(data[:-1].decode())
        return ('stream', {k: x for k, x in v.attrs.items() if k not in ('Length', 'Filter')}, data)
    return v


def open_doc(data, pw, **kw):
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    return PDFDocument(PDFParser(BytesIO(data)), password=pw, **kw)


def run_case(case, obs):
    k = case['k']
    obs.count('traces')
    obs.state(repr(sorted(case.items())))
    if k == 'content':
        return run_content(case, obs)
    if k == 'pw':
        return run_pw(case, obs)
    if k == 'perm':
        return run_perm(case, obs)
    if k == 'pages':
        return run_pages(case, obs)
    return run_bad(case, obs)


def run_content(case, obs):
    c = crypt(case['h'], 'user', 'owner', docid=b'' if case['mode'] == 'noid' else b'\x80binary id\xff')
    if case['mode'] == 'noid' and KINDS[case['h']][0] != 'r5':
        c = crypt(case['h'], 'user', 'owner', docid=b'')
    objs = contents(case['top'])
    want = dict(objs)
    objs.update({1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}})
    d = Doc(crypt=c)
    tr = {'ID': [c.docid, b'other']}
    kw = {}
    if case['mode'] == 'direct':
        tr['Encrypt'] = c.dict
    else:
        objs[9] = c.dict
        tr['Encrypt'] = R(9)
    if case['mode'] == 'noid':
        del tr['ID']
    if case['mode'] == 'stream':
        kw = dict(mode='stream', objstm=(10, 12, 66000), objstm_num=70, xref_num=71)
    d.rev(objs, root=R(1), trailer=tr, plain=(9,), gens={} if kw else {11: 3, 105: 65535, 106: 255, 107: 256}, **kw)
    doc = open_doc(bytes(d), case['pw'], caching=case['cach'])
    for again in (0, 1):
        for n in sorted(want, reverse=bool(again)):
            obs.trans()
            got = plain(doc.getobj(n))
            obs.outcome(repr(got))
            if got != expect(want[n]):
                return 'object %d is %.300r instead of %.300r' % (n, got, expect(want[n]))
    if kw:
        s = doc.getobj(71)
        if len(s.get_data()) != 7 * sum(s.attrs['Index'][1::2]):
            return 'the cross-reference stream was deciphered'
    return None


def same(a, b, kind):
    if a is None:
        a = ''
    if kind == 'r5':
        return a.encode('utf-8')[:127] == b.encode('utf-8')[:127]
    try:
        a = a.encode('latin1')
    except UnicodeEncodeError:
        return False
    return (a + pdfcrypt.PAD)[:32] == (b.encode('latin1') + pdfcrypt.PAD)[:32]


def run_pw(case, obs):
    from pdfmajor.execptions import PDFPasswordIncorrect
    kind = KINDS[case['h']][0]
    user, owner = PW[case['u']], PW[case['o']] if case['o'] >= 0 else None
    c = crypt(case['h'], user, owner)
    data = tiny(c)
    for t in TRY:
        right = same(t, user, kind) or same(t, owner or user, kind)
        obs.trans()
        try:
            doc = open_doc(data, t)
            got = doc.getobj(3)
        except PDFPasswordIncorrect:
            got = None
        obs.outcome((t, right))
        if got != (b'secret text' if right else None):
            return '%s document with user password %r and owner password %r opened with %r: %r' % (kind, user, owner, t, got)
    return None


def run_perm(case, obs):
    p = case['p']
    c = crypt(case['h'], 'user', 'owner', p)
    data = tiny(c)
    for pw in ('user', 'owner'):
        doc = open_doc(data, pw)
        got = (doc.is_printable, doc.is_modifiable, doc.is_extractable)
        want = (bool(p & 4), bool(p & 8), bool(p & 16))
        obs.trans()
        obs.outcome(want)
        if got != want:
            return 'permissions %d reported as %r (print, modify, extract)' % (p, got)
    return None


def run_pages(case, obs):
    from pdfmajor.interpreter import PDFInterpreter, LTTextBlock
    from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFPasswordIncorrect
    from pdfmajor.converters import convert_file
    fd, _ = fonts.simple()
    c = crypt(case['h'], case['u'], 'owner', case['p'])
    d = Doc(crypt=c)
    d.rev({1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3), R(6)], 'Count': 2},
           3: {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 100, 100], 'Resources': {'Font': {'F1': R(7)}}, 'Contents': R(4)},
           6: {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 100, 100], 'Resources': {'Font': {'F1': R(7)}}, 'Contents': [R(4), R(8)]},
           4: S({}, b'BT /F1 10 Tf (Hello) Tj ET '), 8: S({}, b'BT /F1 10 Tf <576F> Tj ET '), 7: fd, 5: c.dict}, root=R(1),
          trailer={'Encrypt': R(5), 'ID': [c.docid, c.docid]}, plain=(5,))
    with open('enc.pdf', 'wb') as f:
        f.write(bytes(d))
    for pw in (case['u'], 'owner', 'no') + (() if case['u'] else (None,)):
        for check in (True, False):
            obs.trans()
            try:
                got = [''.join(ch.get_text() for it in page if isinstance(it, LTTextBlock) for b in it for ch in b)
                       for page in PDFInterpreter('enc.pdf', password=pw, check_extractable=check)]
            except PDFTextExtractionNotAllowed:
                got = 'forbidden'
            except PDFPasswordIncorrect:
                got = 'refused'
            want = 'refused' if pw == 'no' else 'forbidden' if check and not case['p'] & 16 else ['Hello', 'HelloWo']
            obs.outcome(repr(want))
            if got != want:
                return 'password %r, check_extractable=%r: %r instead of %r' % (pw, check, got, want)
        for ty in ('text', 'json', 'xml', 'yaml', 'html'):
            obs.trans()
            try:
                kw = {} if pw is None else {'password': pw}
                convert_file('enc.pdf', output_file='out.' + ty, out_type=ty, **kw)
                got = open('out.' + ty).read()
                os.unlink('out.' + ty)
                got = 'ok' if got else 'nothing'
            except PDFTextExtractionNotAllowed:
                got = 'forbidden'
            except PDFPasswordIncorrect:
                got = 'refused'
            want = 'refused' if pw == 'no' else ('forbidden' if not case['p'] & 16 else 'ok')
            if got != want:
                return '%s output with password %r: %s instead of %s' % (ty, pw, got, want)
    return None


def run_bad(case, obs):
    from pdfmajor.execptions import PDFMajorException
    c = pdfcrypt.Crypt('v4aes', 'user', 'owner')
    d = c.dict
    x = case['x']
    if x == 0:
        d['V'], d['R'] = 5, 6
        d['OE'] = d['UE'] = bytes(32)
    elif x == 1:
        d['V'] = 3
    elif x == 2:
        d['Filter'] = N('Other.Security')
    elif x == 3:
        d['CF']['StdCF']['CFM'] = N('AESV9')
    elif x == 4:
        d['StrF'] = N('Identity')
    elif x == 5:
        d['R'] = 9
    elif x == 6:
        d['StmF'] = d['StrF'] = N('NoSuch')
    obs.trans()
    try:
        got = open_doc(tiny(c), 'user').getobj(3)
    except PDFMajorException:
        return None
    return 'unsupported encryption %r opened: %r' % (x, got)
