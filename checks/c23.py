"""C23: character maps. A map is a list of sections (single mappings, ranges, array ranges, codespaces, CID mappings);
every list up to the bound is written in several notations, read, and every code near those mentioned is looked up."""
import functools
import itertools
from io import BytesIO
from mc.pdfgen import N, R, S, simple
from mc.fonts import simple as simple_font
from mc.sizes import sizes

ID = 'C23'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the codes of one Unicode map have one length (maps are looked up by the number a code spells)',
               'ranges do not continue beyond the last low surrogate or the last code of their length', 'ranges of at most 65536 codes']
MISSING = None


def u(t):
    return t.encode('utf-16-be')


def dst_plus(b, i):
    """The destination string b advanced by i (its last four bytes as a number)."""
    n = min(4, len(b))
    return b[:-n] + (int.from_bytes(b[-n:], 'big') + i).to_bytes(n, 'big')


def num(n, l):
    return n.to_bytes(l, 'big')


DST = [u('A'), u('\xff'), u('\u20ac'), u('\U0001f600'), u('fi'), u('f\xff'), u('\U0001f600x'), u('ffl'), u('ab\U0001d4d0'), u('\ufb00'),
       u('\U00010000'), u('abcd\u00fe')]
NAMES = [('A', 'A'), ('eacute', '\xe9'), ('f_i', 'fi'), ('uni20AC', '\u20ac'), ('u1F600', '\U0001f600'), ('A.sc', 'A')]
STARTS = {1: (0, 1, 0x41, 0x7f, 0xf0), 2: (0, 1, 0x41, 0xfe, 0xff, 0x100, 0x2fe, 0xfff0), 3: (0, 0xfffe, 0x1fffe, 0xff00fe), 4: (0x1fffe, 0xfffffff0)}
LENS = (0, 1, 2, 3, 9)


@functools.lru_cache(None)
def sections(l, small=False):
    """Units for codes of l bytes: (text, {code: text})"""
    out = []
    for s in STARTS[l][:3] if small else STARTS[l]:
        for d in (DST[:3] if small else DST):
            out.append((b'1 beginbfchar <%s> <%s> endbfchar' % (num(s, l).hex().encode(), d.hex().encode()), {s: d.decode('utf-16-be')}))
        if not small:
            for n, t in NAMES:
                out.append((b'1 beginbfchar <%s> /%s endbfchar' % (num(s, l).hex().encode(), n.encode()), {s: t}))
        for n in (LENS[1:3] if small else LENS):
            e = s + n
            h = (num(s, l).hex().encode(), num(e, l).hex().encode())
            for d in (DST[:4:3] if small else DST):
                m = {s + i: dst_plus(d, i).decode('utf-16-be') for i in range(n + 1)}
                out.append((b'1 beginbfrange <%s> <%s> <%s> endbfrange' % (h + (d.hex().encode(),)), m))
            arr = [DST[i % len(DST)] for i in range(n + 1)]
            for k in (n + 1, n, n + 2):
                a = (arr + arr)[:k]
                body = b' '.join(b'<%s>' % x.hex().encode() for x in a)
                out.append((b'1 beginbfrange <%s> <%s> [%s] endbfrange' % (h + (body,)),
                            {s + i: x.decode('utf-16-be') for i, x in zip(range(n + 1), a)}))
            if not small:
                out.append((b'1 beginbfrange <%s> <%s> [/eacute %s] endbfrange' % (h + (b'/A ' * n,)),
                            dict({s + i: 'A' for i in range(1, n + 1)}, **{}) | {s: '\xe9'}))
        if s:
            out.append((b'1 beginbfrange <%s> <%s> <0041> endbfrange' % (num(s, l).hex().encode(), num(s - 1, l).hex().encode()), {}))
    out += [(b'1 begincodespacerange <%s> <%s> endcodespacerange' % (b'00' * l, b'ff' * l), {}),
            (b'1 beginnotdefrange <%s> <%s> 7 endnotdefrange' % (b'00' * l, b'ff' * l), {}),
            (b'/WMode 0 def /CMapName /X def (\\)) /S exch def', {}), (b'% endcmap 1 beginbfchar\n', {}),
            (b'0 beginbfchar endbfchar 0 beginbfrange endbfrange', {}), (b'<< /Registry (A) /Supplement 0 >> /CIDSystemInfo exch def', {})]
    # several entries in one section
    c = [(s, DST[i % len(DST)]) for i, s in enumerate(STARTS[l])]
    out.append((b'%d beginbfchar\n%s\nendbfchar' % (len(c), b'\n'.join(b'<%s><%s>' % (num(s, l).hex().encode(), d.hex().encode()) for s, d in c)),
                {s: d.decode('utf-16-be') for s, d in c}))
    out.append((b'%d beginbfrange\r%s\rendbfrange' % (len(c), b'\r'.join(
        b'<%s><%s>%s' % (num(s, l).hex().encode(), num(s + 1, l).hex().encode(), b'<%s>' % d.hex().encode() if i % 2 else b'[<%s>]' % d.hex().encode())
        for i, (s, d) in enumerate(c))),
        {s + j: dst_plus(d, j).decode('utf-16-be') for i, (s, d) in enumerate(c) for j in range(1 + i % 2)}))
    return out


HEADS = [(b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n'
          b'/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n', b'\nendcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n'),
         (b'', b''), (b'begincmap ', b' endcmap'), (b'%!PS-Adobe-3.0 Resource-CMap\n%%begincmap\nbegincmap\r', b'\rendcmap 1 beginbfchar <00> <005a> endbfchar'),
         (b'', b'\n1 beginbfchar <'), (b'', b'\n% comment'), (b'(' + b'x' * 4070 + b') pop ', b' pop')]


def PAD():
    """Heads that put the sections at every position around the end of the first buffer."""
    return [(b'%' + b'x' * n + b'\n', b'') for n in range(4096 - 60, 4096)]


# composite CMaps: codespaces and CID mappings
SPACES = [[(b'\0', b'\xff')], [(b'\0\0', b'\xff\xff')], [(b'\0', b'\x80'), (b'\x81\x40', b'\x9f\xfc'), (b'\xa0', b'\xdf'), (b'\xe0\x40', b'\xfc\xfc')],
          [(b'\0', b'\x7f'), (b'\x8e\xa1\xa1\xa1', b'\x8e\xa2\xf6\xfe'), (b'\xa1\xa1', b'\xfe\xfe')], [(b'\0\0\0', b'\xff\xff\xff')],
          [(b'\x20', b'\x7e'), (b'\x80\x20', b'\x80\x7e'), (b'\x90\x30\x30', b'\x91\x39\x39')]]
CID_UNITS = [('r', 0, 3, 1), ('r', 1, 2, 100), ('r', 2, 4, 65530), ('c', 0, 0, 7), ('c', 3, 0, 0), ('c', 2, 0, 500), ('r', -2, 1, 40), ('c', -1, 0, 9), ('u', 0, 0, 0)]


def all_codes(spaces):
    """For every codespace the codes at its edges, in order."""
    out = []
    for a, b in spaces:
        n = len(a)
        if n == 1:
            out += [bytes([x]) for x in sorted({a[0], a[0] + 1, (a[0] + b[0]) // 2, b[0] - 1, b[0]})]
        else:
            for x in itertools.product(*[sorted({p, (p + q) // 2, q}) for p, q in zip(a, b)]):
                out.append(bytes(x))
            e = bytearray(a)
            e[-1] += 1
            out.append(bytes(e))
    return out


def BOUNDS(tier):
    return ('Unicode maps: for codes of 1-4 bytes every section of a set of %s (single, range, array; destinations of 1-5 characters, surrogate pairs, names), every '
            'section in 7 frames and at each of 60 positions around a buffer end, every ordered pair%s; CID maps: every sequence of up to %d of %d '
            'mappings over %d sets of codespaces, all pairs of codes decoded; '
            'up to 1100 entries in a section, sections and codespaces' %
            ('/'.join(str(len(sections(l))) for l in (1, 2, 3, 4)), ' of a smaller set' if tier == 'quick' else ', triples of a smaller set',
             2 if tier == 'quick' else 3, len(CID_UNITS), len(SPACES)))


def jobs(tier):
    out = [('one', l) for l in (1, 2, 3, 4)] + [('pdf', l) for l in (1, 2)]
    out += [('pad', i) for i in range(6)]
    out += [('pair', l, i) for l in (1, 2, 3, 4) for i in range(4)]
    out += [('cid', i, n) for i in range(len(SPACES)) for n in range(1, 3 if tier == 'quick' else 4)]
    out += [('long',)] + [('size', f) for f in SIZED]
    if tier != 'quick':
        out += [('full', l, i) for l in (1, 2) for i in range(16)]
        out += [('triple', l, i) for l in (1, 2) for i in range(16)]
    return out


def explore(job, ctx):
    k = job[0]
    if k in ('one', 'pdf'):
        for i in range(len(sections(job[1]))):
            for h in range(len(HEADS)) if k == 'one' else (0,):
                ctx.run({'k': k, 'l': job[1], 'u': [i], 'h': h})
    elif k == 'pad':
        units = sections(2)
        for i in range(0, len(units), 13):
            for h in range(len(PAD())):
                if h % 6 == job[1]:
                    ctx.run({'k': k, 'l': 2, 'u': [i], 'h': h})
    elif k in ('pair', 'triple', 'full'):
        n = len(sections(job[1], k != 'full'))
        for i in range(n):
            if i % (4 if k == 'pair' else 16) == job[2]:
                for r in itertools.product(range(n), repeat=2 if k == 'triple' else 1):
                    ctx.run({'k': k, 'l': job[1], 'u': [i] + list(r), 'h': 0})
    elif k == 'size':
        for n in sizes(1100, 2):
            ctx.run({'k': k, 'f': job[1], 'n': n})
    elif k == 'long':
        for l, n in ((1, 256), (2, 256), (2, 1000), (2, 65536), (3, 65536)):
            for form in ('chars', 'ranges', 'range', 'arrays'):
                if n <= 1000 or form == 'range' or form == 'arrays':
                    ctx.run({'k': k, 'l': l, 'n': n, 'f': form})
    else:
        for t in itertools.product(range(len(CID_UNITS)), repeat=job[2]):
            ctx.run({'k': 'cid', 'sp': job[1], 'u': list(t)})


def unicode_map(data):
    from pdfmajor.parser.cmapdb import FileUnicodeMap, CMapParser
    m = FileUnicodeMap()
    CMapParser(m, BytesIO(data)).run()

    def get(n):
        try:
            return m.get_unichr(n)
        except KeyError:
            return MISSING
    return get


def run_case(case, obs):
    k = case['k']
    if k == 'cid':
        return run_cid(case, obs)
    if k == 'size':
        return run_size(case, obs)
    if k == 'long':
        return run_long(case, obs)
    l = case['l']
    units = sections(l, k in ('pair', 'triple'))
    model, body = {}, []
    for i in case['u']:
        t, m = units[i]
        body.append(t)
        model.update(m)
        obs.trans()
    head, tail = (PAD() if k == 'pad' else HEADS)[case['h']]
    data = head + b'\n'.join(body) + tail
    obs.state((k, l, repr(sorted(model.items()))))
    probe = set(range(256)) if l < 3 else set()
    for c in list(model) + list(STARTS[l]):
        probe |= set(range(max(0, c - 2), min(256 ** l, c + 12)))
    obs.count('traces')
    if k == 'pdf':
        return run_pdf(data, model, sorted(probe), l, obs)
    get = unicode_map(data)
    for c in sorted(probe):
        g, w = get(c), model.get(c, MISSING)
        obs.outcome((c, g))
        if g != w:
            return 'code %x of %d bytes maps to %r instead of %r in %r' % (c, l, g, w, data[-200:])
    return None


def run_pdf(data, model, probe, l, obs):
    from pdfmajor.interpreter import PDFInterpreter, LTTextBlock
    if l == 1:
        d, _ = simple_font(first=0, widths=[500] * 256)
        d['Encoding'] = {'Differences': [0] + [N('space')] * 256}
        rest = {c: ' ' for c in probe}
        probe = [c for c in probe if c < 256]
    else:
        d = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('C'), 'Encoding': N('Identity-H'), 'DescendantFonts': [
            {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('C'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
             'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('C'), 'Flags': 4, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, 0, 0, 0]}}]}
        rest = {}
    d['ToUnicode'] = R(901)
    prog = b''.join(b'BT /F 10 Tf <%s> Tj ET\n' % num(c, l).hex().encode() for c in probe)
    with open('f.pdf', 'wb') as f:
        f.write(simple([prog], resources={'Font': {'F': R(900)}}, extra={900: d, 901: S({}, data)}))
    got = []
    for page in PDFInterpreter('f.pdf', ignore_bad_chars=True):
        got += [''.join(c.get_text() for b in it for c in b) for it in page if isinstance(it, LTTextBlock)]
    want = [model.get(c, rest.get(c, '')) for c in probe]
    if got != want:
        bad = [(c, g, w) for c, g, w in zip(probe, got, want) if g != w][:3]
        return '%d blocks for %d strings; (code, text, expected): %r' % (len(got), len(want), bad)
    return None


# many entries in one section, many sections, many codespaces
SIZED = ['chars', 'ranges', 'arrays', 'chars-sections', 'ranges-sections', 'cidchars', 'cidranges', 'cid-sections', 'spaces', 'dest']


def run_size(case, obs):
    from pdfmajor.parser.cmapdb import FileCMap, CMapParser
    f, n = case['f'], case['n']
    h = lambda c: b'<%04x>' % c
    text = lambda c: chr(0x4e00 + c % 5000)
    t = lambda c: b'<' + u(text(c)).hex().encode() + b'>'
    sect = lambda name, rows: b'%d begin%s\n%s\nend%s\n' % (len(rows), name, b'\n'.join(rows), name)
    obs.trans(n)
    obs.state(repr(case))
    obs.count('traces')
    head, tail = HEADS[0]
    if f.startswith('cid') or f == 'spaces':
        space = sect(b'codespacerange', [b'<0000> <ffff>'])
        if f == 'cidchars':
            data, model = sect(b'cidchar', [h(3 * i) + b' %d' % (i + 1) for i in range(n)]), {3 * i: i + 1 for i in range(n)}
        elif f == 'spaces':
            n = min(n, 256)
            space = sect(b'codespacerange', [b'<%02x00> <%02xff>' % (i, i) for i in range(n)])
            data, model = sect(b'cidchar', [b'<%02x05> %d' % (i, i + 1) for i in range(n)]), {256 * i + 5: i + 1 for i in range(n)}
        else:
            rows = [h(4 * i) + b' ' + h(4 * i + 1) + b' %d' % (2 * i + 1) for i in range(n)]
            data = sect(b'cidrange', rows) if f == 'cidranges' else b''.join(sect(b'cidrange', [r]) for r in rows)
            model = {4 * i + j: 2 * i + 1 + j for i in range(n) for j in (0, 1)}
        m = FileCMap()
        CMapParser(m, BytesIO(head + space + data + tail)).run()
        codes = sorted(model) + ([c + 1 for c in model] if f != 'spaces' else [])
        got = list(m.decode(b''.join(num(c, 2) for c in codes)))
        want = [model.get(c, 0) for c in codes]
        for c, g, w in zip(codes, got, want):
            if g != w:
                return 'code %x decodes to %r instead of %r' % (c, g, w)
        return None if len(got) == len(want) else '%d codes instead of %d' % (len(got), len(want))
    if f == 'dest':
        # one mapping to n characters
        n = min(n, 255)
        data, model = sect(b'bfchar', [b'<0001> <' + b''.join(u(text(i)) for i in range(n)).hex().encode() + b'>']), {1: ''.join(map(text, range(n)))}
    elif f.startswith('chars'):
        rows = [h(3 * i) + b' ' + t(i) for i in range(n)]
        data = sect(b'bfchar', rows) if f == 'chars' else b''.join(sect(b'bfchar', [r]) for r in rows)
        model = {3 * i: text(i) for i in range(n)}
    else:
        rows = [h(4 * i) + h(4 * i + 1) + (b'[%s %s]' % (t(2 * i), t(2 * i + 1)) if f == 'arrays' else t(2 * i)) for i in range(n)]
        data = sect(b'bfrange', rows) if f != 'ranges-sections' else b''.join(sect(b'bfrange', [r]) for r in rows)
        model = {4 * i + j: text(2 * i + j) for i in range(n) for j in (0, 1)}
    get = unicode_map(head + data + tail)
    for c in range(max(model) + 5):
        g, w = get(c), model.get(c, MISSING)
        if g != w:
            return 'code %x maps to %r instead of %r' % (c, g, w)
    return None


def run_long(case, obs):
    l, n, form = case['l'], case['n'], case['f']
    base = 0 if n > 5000 else 0x400
    h = lambda c: b'<' + num(c, l).hex().encode() + b'>'
    t = lambda c: b'<' + num((base + c) & 0xffff, 2).hex().encode() + b'>'
    if form == 'chars':
        rows = [h(c) + t(c) for c in range(n)]
        body = b''.join(b'%d beginbfchar\n%s\nendbfchar\n' % (len(rows[i:i + 100]), b'\n'.join(rows[i:i + 100])) for i in range(0, n, 100))
    elif form == 'ranges':
        rows = [h(c) + h(min(c + 6, n - 1)) + t(c) for c in range(0, n, 7)]
        body = b''.join(b'%d beginbfrange\n%s\nendbfrange\n' % (len(rows[i:i + 100]), b'\n'.join(rows[i:i + 100])) for i in range(0, len(rows), 100))
    elif form == 'range':
        body = b'1 beginbfrange %s %s %s endbfrange' % (h(0), h(n - 1), t(0))
    else:
        body = b'1 beginbfrange %s %s [%s] endbfrange' % (h(0), h(n - 1), b' '.join(t(c) for c in range(n)))
    obs.trans(n)
    obs.state(repr(case))
    obs.count('traces')
    get = unicode_map(HEADS[0][0] + body + HEADS[0][1])
    for c in range(n + 5):
        w = num(base + c, 2).decode('utf-16-be', 'ignore') if c < n else MISSING
        if get(c) != w:
            return 'code %x maps to %r instead of %r' % (c, get(c), w)
    return None


def run_cid(case, obs):
    from pdfmajor.parser.cmapdb import FileCMap, CMapParser
    spaces = SPACES[case['sp']]
    codes = all_codes(spaces)
    lines = [b'begincmap /WMode 0 def', b'%d begincodespacerange %s endcodespacerange' % (
        len(spaces), b' '.join(b'<%s> <%s>' % (a.hex().encode(), b.hex().encode()) for a, b in spaces))]
    model = {}
    for i in case['u']:
        kind, at, n, cid = CID_UNITS[i]
        obs.trans()
        if kind == 'u':
            lines.append(b'/NoSuchMap usecmap')
            continue
        # ranges run over the last byte only
        c = codes[at]
        if kind == 'c':
            lines.append(b'1 begincidchar <%s> %d endcidchar' % (c.hex().encode(), cid))
            model[c] = cid
        else:
            top = next(b for a, b in spaces if len(a) == len(c) and all(x <= y <= z for x, y, z in zip(a, c, b)))[-1]
            e = c[:-1] + bytes([min(c[-1] + n, top)])
            lines.append(b'1 begincidrange <%s> <%s> %d endcidrange' % (c.hex().encode(), e.hex().encode(), cid))
            for j in range(e[-1] - c[-1] + 1):
                model[c[:-1] + bytes([c[-1] + j])] = cid + j
    data = b'\n'.join(lines + [b'endcmap'])
    obs.state((case['sp'], repr(sorted(model.items()))))
    obs.count('traces')
    m = FileCMap()
    CMapParser(m, BytesIO(data)).run()
    probe = sorted(set(codes) | set(model))
    for a in probe:
        for b in probe if len(probe) < 40 else probe[::3]:
            g, w = list(m.decode(a + b)), [model.get(a, 0), model.get(b, 0)]
            if g != w:
                return 'codes %s %s decode to %r instead of %r with %r' % (a.hex(), b.hex(), g, w, data)
            obs.outcome((a, b, tuple(w)))
    return None
