"""C35: predefined character maps. Map data as the library takes it from its data directory is written for every small tree of codes of one, two and
three bytes; fonts that name these maps, directly, as the base of an embedded map or in any sequence, show all pairs of codes, whose characters, order
and positions are compared with the data."""
import gzip
import io
import itertools
import os
import pickle
from mc.pdfgen import N, R, S, simple

ID = 'C35'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the data directory is the one CMAP_PATH names, the data are those of conv_cmap: trees of codes, and tables of characters for both directions',
               'what codes without a CID become is open']
A = [0x20, 0x41, 0x81]
SUBS = [s for n in (1, 2, 3) for s in itertools.combinations(A, n)]
LEADS = [None, 'cid'] + SUBS
DEEP = [{0x81: {0x30: {0x81: {0x30: 0, 0x39: 0}, 0xfe: {0x30: 0}}, 0x40: 0, 0x7e: 0}, 0x20: 0, 0x41: 0}, {0x8e: {0xa1: {0xa1: {0xa1: 0}, 0xa2: {0xa1: 0, 0xfe: 0}}}, 0xa1: {0xa1: 0, 0x20: 0}, 0x20: 0},
        {0x8f: {0xa1: {0xa1: 0, 0xa2: 0}}, 0xa1: {0xa1: 0}, 0x8e: {0xb1: 0}, 0x41: 0}]
WAYS = ['dict', 'operator', 'both']
OVER = ['none', 'first', 'last', 'new', 'all']
POOL = ['h', 'v', 'embedded', 'named', 'other', 'identity']


def BOUNDS(tier):
    return ('all %d trees of codes of up to 2 bytes over %d bytes and %d deeper ones x horizontal or vertical x characters by the collection, by a map of the font or none, showing all pairs of codes; '
            'embedded maps based on %s trees in %d ways with %d kinds of codes of their own, in two steps or one; all sequences of up to %d of %d fonts on one page or two documents'
            % (len(LEADS) ** 3 - 1, len(A), len(DEEP), '64 + 3' if tier == 'quick' else 'all', len(WAYS), len(OVER), 3 if tier == 'quick' else 4, len(POOL)))


def jobs(tier):
    return [('code', i) for i in range(8)] + [('base', w) for w in WAYS] + [('seq', f) for f in POOL] + [('copy',)]


def chunk(ctx, base, it, n):
    it = iter(it)
    while 1:
        part = list(itertools.islice(it, n))
        if not part:
            return
        ctx.run(dict(base, s=part))


def trees(quick):
    n = len(LEADS)
    if quick:
        return [t for t in itertools.product((0, 1, 2, 6), repeat=3) if any(t)]
    return [t for t in itertools.product(range(n), repeat=3) if any(t)]


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'
    if k == 'code':
        ts = trees(False) + [[-1 - i] for i in range(len(DEEP))]
        chunk(ctx, {'k': k}, ([list(t), v, u] for i, t in enumerate(ts) if i % 8 == job[1] for v in (0, 1) for u in range(3)), 6)
    elif k == 'base':
        ts = trees(quick) + [[-1 - i] for i in range(len(DEEP))]
        chunk(ctx, {'k': k, 'w': job[1]}, ([list(t), o, two, u] for t in ts for o in range(len(OVER)) for two in (0, 1) for u in (0, 1)), 6)
    elif k == 'copy':
        chunk(ctx, {'k': k}, (list(t) for t in trees(False) + [[-1 - i] for i in range(len(DEEP))]), 20)
    else:
        n = 3 if quick else 4
        chunk(ctx, {'k': k}, ([[job[1]] + list(r), d] for m in range(n) for r in itertools.product(POOL, repeat=m) for d in (0, 1)), 1)


def numbered(t):
    """(tree with CIDs, {code: CID})"""
    if t[0] < 0:
        src = DEEP[-1 - t[0]]
    else:
        src = {}
        for b, x in zip(A, t):
            if LEADS[x] == 'cid':
                src[b] = 0
            elif LEADS[x]:
                src[b] = {c: 0 for c in LEADS[x]}
    codes, todo = [], [(b'', src)]
    while todo:
        p, d = todo.pop()
        for b, v in d.items():
            if v == 0:
                codes.append(p + bytes([b]))
            else:
                todo.append((p + bytes([b]), v))
    codes.sort(reverse=True)
    # the CID 32 is not that of the space, and larger ones are not in the order of the codes
    cids = {c: (32, 7, 700, 5, 65535, 231, 1, 33)[i] if i < 8 else 1000 - i for i, c in enumerate(codes)}

    def fill(p, d):
        return {b: cids[p + bytes([b])] if v == 0 else fill(p + bytes([b]), v) for b, v in d.items()}
    return fill(b'', src), cids


def char(cid, vertical=False, shift=0):
    return chr((0x4e00 if vertical else 0x3400) + (cid * 7 + shift) % 6000)


def width(cid):
    return 300 + cid % 90


def data(name, content):
    path = os.path.join(os.environ['CMAP_PATH'], name + '.pickle.gz')
    if not os.path.exists(path):
        with gzip.open(path, 'wb', 1) as f:
            f.write(pickle.dumps(content, 2))


def collection(name, cids, shift=0):
    data('to-unicode-Adobe-' + name, {'CID2UNICHR_H': {c: char(c, False, shift) for c in cids}, 'CID2UNICHR_V': {c: char(c, True, shift) for c in cids}})


def named(codes):
    """ToUnicode map of codes."""
    return S({}, b'begincmap %d beginbfchar %s endbfchar endcmap' % (len(codes), b' '.join(b'<%s> <%04x>' % (c.hex().encode(), 0x5000 + i) for i, c in enumerate(sorted(codes)))))


def font(num, enc, order, cids, extra, tu=None):
    sub = {'Type': N('Font'), 'Subtype': N('CIDFontType0'), 'BaseFont': N('Pre'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': order.encode(), 'Supplement': 0}, 'DW': 250,
           'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N('Pre'), 'Flags': 4, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800], 'ItalicAngle': 0},
           'W': [x for c in sorted(set(cids)) for x in (c, [width(c)])]}
    extra[num] = sub
    d = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Pre'), 'Encoding': enc, 'DescendantFonts': [R(num)]}
    if tu is not None:
        d['ToUnicode'] = tu
    return d


def show(members, extra, obs):
    """members: [(font, [(code, CID, text)], vertical)]"""
    from pdfmajor.interpreter import PDFInterpreter, LTTextBlock
    res = {'F%d' % i: m[0] for i, m in enumerate(members)}
    prog = b'\n'.join(b'BT /F%d 10 Tf 3 Tw 100 %d Td <%s> Tj ET' % (i, 700 - 10 * i, b''.join(c for c, _, _ in m[1]).hex().encode()) for i, m in enumerate(members))
    with open('in.pdf', 'wb') as f:
        f.write(simple([prog], resources={'Font': res}, extra=extra))
    (items,) = [list(p) for p in PDFInterpreter('in.pdf', ignore_bad_chars=True)]
    if len(items) != len(members) or not all(isinstance(i, LTTextBlock) for i in items):
        return '%d texts instead of %d' % (len(items), len(members))
    for n, (item, m) in enumerate(zip(items, members)):
        chars = [c for b in item for c in b]
        got = [c.get_text() for c in chars]
        if len(got) != len(m[1]):
            return 'font %d: %d characters instead of %d: %r' % (n, len(got), len(m[1]), got[:20])
        x, y = 100., 700. - 10 * n
        for c, (code, cid, text) in zip(chars, m[1]):
            obs.trans()
            if c.get_text() != text:
                return 'font %d: code %s is %r instead of %r' % (n, code.hex(), c.get_text(), text)
            if c.font.is_vertical() != bool(m[2]):
                return 'font %d: direction' % n
            if m[2]:
                # the top of the character
                if abs(c.bbox.y1 - (y + (1000 - 880) / 100.)) > 1e-3:
                    return 'font %d: code %s is at %r instead of %r' % (n, code.hex(), c.bbox.y1, y + 1.2)
                y += -10 + 3 * (code == b' ')
            else:
                if abs(c.bbox.x0 - x) > 1e-3 or abs(c.bbox.x1 - x - width(cid) / 100.) > 1e-3:
                    return 'font %d: code %s is at %r to %r instead of %r to %r' % (n, code.hex(), c.bbox.x0, c.bbox.x1, x, x + width(cid) / 100.)
                x += width(cid) / 100. + 3 * (code == b' ')
        obs.count('traces')
        obs.outcome(got[:12])
    return None


def pairs(codes):
    return [c for a in sorted(codes) for b in sorted(codes) for c in (a, b)]


def texts(codes, cids, u, vertical, shift=0):
    own = {c: chr(0x5000 + i) for i, c in enumerate(sorted(cids))}
    return [(c, cids[c], (char(cids[c], vertical, shift), own[c], '')[u]) for c in codes]


def tag(t):
    return 'x'.join(map(str, t)).replace('-', 'd')


def run_case(case, obs):
    os.makedirs('maps', exist_ok=True)
    os.environ['CMAP_PATH'] = os.path.abspath('maps')
    k = case['k']
    extra, members = {}, []
    if k == 'code':
        for j, (t, v, u) in enumerate(case['s']):
            tree, cids = numbered(t)
            name = 'T%s-%s' % (tag(t), 'HV'[v])
            data(name, {'CODE2CID': tree, 'IS_VERTICAL': bool(v)})
            order = ('Tree' + tag(t)) if u != 2 else 'Unheard'
            if u != 2:
                collection(order, cids.values())
            tu = None
            if u == 1:
                extra[900 + j] = named(cids)
                tu = R(900 + j)
            members.append((font(1000 + j, N(name), order, cids.values(), extra, tu), texts(pairs(cids), cids, u, v), v))
            obs.state((k, t, v, u))
        return show(members, extra, obs)
    if k == 'copy':
        # a map that uses another one has its codes, and goes on to have its own
        from pdfmajor.parser.cmapdb import CMap, CMapDB
        for t in case['s']:
            tree, cids = numbered(t)
            data('T%s-H' % tag(t), {'CODE2CID': tree, 'IS_VERTICAL': False})
            used = CMapDB.get_cmap('T%s-H' % tag(t))
            cmap = CMap()
            cmap.use_cmap(used)
            string = b''.join(pairs(cids))
            want = [cids[c] for c in pairs(cids)]
            if list(cmap.decode(string)) != want or list(used.decode(string)) != want:
                return 'tree %r: %r and %r instead of %r' % (tree, list(cmap.decode(string)), list(used.decode(string)), want)
            for m in (cmap, used):
                out = io.StringIO()
                m.dump(out)
                if out.getvalue() != ''.join('code %r = cid %d\n' % (tuple(c), n) for c, n in sorted(cids.items())):
                    return 'tree %r: dump %r' % (tree, out.getvalue())
            # what is added to the copy is not added to the original
            for d in [cmap.code2cid] + [v for v in cmap.code2cid.values() if isinstance(v, dict)]:
                d[0x7f] = 9
            if list(used.decode(string + b'\x7f')) != want:
                return 'tree %r: the copy changes the original' % (tree,)
            obs.trans()
            obs.count('traces')
            obs.state((k, t))
        return None
    if k == 'base':
        for j, (t, o, two, u) in enumerate(case['s']):
            tree, cids = numbered(t)
            name = 'T%s-H' % tag(t)
            data(name, {'CODE2CID': tree, 'IS_VERTICAL': False})
            order = 'Base' + tag(t)
            collection(order, list(cids.values()) + [600, 601, 602, 603, 604, 605, 606, 607, 608, 609] + list(range(610, 640)))
            codes = sorted(cids)
            over = {'none': [], 'first': codes[:1], 'last': codes[-1:], 'new': [b'\xf0\x41', b'\xf1'], 'all': codes}[OVER[o]]
            new = {c: 600 + i for i, c in enumerate(over)}
            spaces = b''.join(b'1 begincodespacerange <%s> <%s> endcodespacerange ' % (c.hex().encode(), c.hex().encode()) for c in new)
            op = b'/%s usecmap ' % name.encode() if case['w'] != 'dict' else b''
            attrs = {'Type': N('CMap'), 'CMapName': N('Own%d' % j)}
            if case['w'] != 'operator':
                attrs['UseCMap'] = N(name)
            if two:
                # the codes in an embedded map that another one is based on
                extra[800 + j] = S(attrs, op + spaces + body(new))
                attrs = {'Type': N('CMap'), 'CMapName': N('Top%d' % j), 'UseCMap': R(800 + j)}
                top = dict(list(new.items())[:1])
                top = {c: n + 20 for c, n in top.items()}
                extra[850 + j] = S(attrs, b''.join(b'1 begincodespacerange <%s> <%s> endcodespacerange ' % (c.hex().encode(), c.hex().encode()) for c in top) + body(top))
                new.update(top)
            else:
                extra[850 + j] = S(attrs, op + spaces + body(new))
            cids = dict(cids)
            cids.update(new)
            tu = None
            if u == 1:
                extra[900 + j] = named(cids)
                tu = R(900 + j)
            members.append((font(1000 + j, R(850 + j), order, cids.values(), extra, tu), texts(pairs(cids), cids, u, 0), 0))
            obs.state((k, case['w'], t, o, two, u))
        return show(members, extra, obs)
    ((seq, docs),) = case['s']
    t = (1, 3, 6)
    tree, cids = numbered(t)
    tree2, cids2 = numbered((6, 1, 3))
    data('Tseq-H', {'CODE2CID': tree, 'IS_VERTICAL': False})
    data('Tseq-V', {'CODE2CID': tree, 'IS_VERTICAL': True})
    data('Tseq2-H', {'CODE2CID': tree2, 'IS_VERTICAL': False})
    both = list(cids.values()) + list(cids2.values()) + [600, 0x2041]
    collection('Seq', both)
    collection('Seq2', both, 1000)
    extra[900] = named(cids)
    extra[901] = S({'Type': N('CMap'), 'CMapName': N('Own'), 'UseCMap': N('Tseq-H')}, b'1 begincodespacerange <f0> <f0> endcodespacerange 1 begincidchar <f0> 600 endcidchar')
    err = None
    for i, f in enumerate(seq):
        num = 1000 + i
        if f == 'h':
            members.append((font(num, N('Tseq-H'), 'Seq', cids.values(), extra), texts(pairs(cids), cids, 0, 0), 0))
        elif f == 'v':
            members.append((font(num, N('Tseq-V'), 'Seq', cids.values(), extra), texts(pairs(cids), cids, 0, 1), 1))
        elif f == 'embedded':
            own = dict(cids)
            own[b'\xf0'] = 600
            members.append((font(num, R(901), 'Seq', own.values(), extra), texts(pairs(own), own, 0, 0), 0))
        elif f == 'named':
            members.append((font(num, N('Tseq-H'), 'Seq', cids.values(), extra, R(900)), texts(pairs(cids), cids, 1, 0), 0))
        elif f == 'other':
            members.append((font(num, N('Tseq2-H'), 'Seq2', cids2.values(), extra), texts(pairs(cids2), cids2, 0, 0, 1000), 0))
        else:
            own = {b'\x20\x41': 0x2041, b'\x00\x20': 32}
            members.append((font(num, N('Identity-H'), 'Seq', own.values(), extra), texts(pairs(own), own, 0, 0), 0))
        if docs:
            err = err or show(members[-1:], extra, obs)
    obs.state((k, seq, docs))
    return err if docs else show(members, extra, obs)


def body(new):
    return b''.join(b'1 begincidchar <%s> %d endcidchar ' % (c.hex().encode(), n) for c, n in new.items())
