"""C34: characters of embedded TrueType programs. Composite fonts without character map (ToUnicode) but with an embedded program are shown, for every
assignment of glyphs to characters, every division of it into segments and formats, every combination of the tables a program can have, every place of
the table, every glyph map of the font and every truncation of the program; each glyph has to become one of the characters the program uses it for."""
import itertools
import struct
import zlib
from mc import fonts
from mc.pdfgen import N, R, S, simple

ID = 'C34'
LEVEL = 'model_checking'
ASSUMPTIONS = ['maps of formats 0 and 4, as the programs of documents have them; of a program with maps of other formats beside these, the others may be left out',
               'a glyph that several characters use may become any of these', 'what the codes of symbol maps become is open']
CHARS = [0x41, 0x42, 0x43, 0xe9, 0x3a9]
GIDS = 4
KINDS = ['delta', 'array', 'mixed', 'run', 'shared', 'open', 'last']
MAC = {0x41: 'A', 0x8e: '\xe9', 0xc9: '\u2026', 0xd8: '\xff', 0xe5: '\xc2', 0xca: '\xa0', 0x20: ' '}
# kinds of tables: (platform, encoding, kind)
TABLES = {'win': (3, 1), 'uni': (0, 3), 'uni0': (0, 0), 'full': (3, 10), 'mac': (1, 0), 'macjp': (1, 1), 'sjis': (3, 2), 'big5': (3, 4), 'six': (3, 1), 'twelve': (3, 10), 'empty': (3, 1), 'variants': (0, 5)}
UNICODE = ('win', 'uni', 'uni0', 'full')
# CID to glyph
MAPS = [None, 'Identity', [0, 1, 2, 3], [3, 2, 1, 0], [2], [1, 1, 1, 1], [0, 0, 0, 0, 0, 1], [], [9, 3, 65535, 2], [2, 3, 1, 0, 3]]


def BOUNDS(tier):
    n = 4 if tier == 'quick' else 5
    return ('all %d assignments of no glyph or %d glyphs to %d characters x %d divisions into segments (format 4) x %d formats of the file; all sequences of up to %d of %d kinds of tables, with maps of their own or '
            'sharing one; %d orders and places of tables; %d glyph maps x direct, compressed, by reference, odd lengths x %d encodings x with and without ToUnicode; all sequences of up to %d fonts that share a program; '
            'all truncations of 3 programs' % (GIDS ** len(CHARS), GIDS - 1, len(CHARS), len(KINDS), 2, n - 1, len(TABLES), 48, len(MAPS), 4, n - 1))


def jobs(tier):
    return ([('map', k) for k in range(len(KINDS))] + [('byte',)] + [('tables', t) for t in TABLES] + [('place',), ('gid',), ('seq',), ('cut',)])


def chunk(ctx, base, it, n):
    it = iter(it)
    while 1:
        part = list(itertools.islice(it, n))
        if not part:
            return
        ctx.run(dict(base, s=part))


def explore(job, ctx):
    k, quick = job[0], ctx.tier == 'quick'
    maps = itertools.product(range(GIDS), repeat=len(CHARS))
    if k == 'map':
        chunk(ctx, {'k': k, 'd': job[1]}, ([list(m), z] for m in maps for z in ((0,) if quick and job[1] else (0, 1))), 32)
    elif k == 'byte':
        chunk(ctx, {'k': k}, ([list(m), z] for m in maps for z in (0, 1)), 32)
    elif k == 'tables':
        n = 3 if quick else 4
        chunk(ctx, {'k': k}, ([[job[1]] + list(r), sh] for m in range(n) for r in itertools.product(TABLES, repeat=m) for sh in (0, 1)), 24)
    elif k == 'place':
        chunk(ctx, {'k': k}, ([list(p), gap, z] for p in itertools.permutations(['OS/2', 'cmap', 'glyf', 'GSUB']) for gap in (0, 1, 6) for z in (0, 1)), 24)
    elif k == 'gid':
        chunk(ctx, {'k': k}, ([m, w, e, t] for m in range(len(MAPS)) for w in range(4) for e in range(4) for t in (0, 1)), 1)
    elif k == 'seq':
        n = 4 if quick else 5
        chunk(ctx, {'k': k}, (list(r) for m in range(1, n) for r in itertools.product(range(5), repeat=m)), 1)
    else:
        for v in range(3):
            chunk(ctx, {'k': k, 'v': v}, range(len(program(CUT[v])) + 1), 8)


def fmt4(m, kind='delta', ids=None):
    """A map of format 4. m: {character: glyph}."""
    segs = []   # (first, last, delta, glyphs or None)
    chars = sorted(m)
    if kind in ('array', 'open', 'last', 'shared'):
        runs = []
        for c in chars:
            if runs and c <= runs[-1][-1] + (1 if kind != 'open' else 2):
                runs[-1] = list(range(runs[-1][0], c + 1))
            else:
                runs.append([c])
        for i, r in enumerate(runs):
            # glyphs are stored less a difference
            d = {'array': 0, 'open': 4, 'last': -2, 'shared': 0}[kind]
            segs.append((r[0], r[-1], d, [(m[c] - d) & 0xffff if m.get(c) else 0 for c in r]))
    elif kind == 'run':
        for c in chars:
            if segs and segs[-1][1] + 1 == c and (segs[-1][2] + c) & 0xffff == m[c]:
                segs[-1] = (segs[-1][0], c, segs[-1][2], None)
            else:
                segs.append((c, c, m[c] - c, None))
    else:
        for i, c in enumerate(chars):
            if kind == 'mixed' and i % 2:
                segs.append((c, c, 0, [m[c]]))
            else:
                segs.append((c, c, m[c] - c, None))
    if kind != 'last':
        segs.append((0xffff, 0xffff, 1, None))
    n = len(segs)
    glyphs, at = [], []
    if kind == 'shared':
        glyphs = [7, 7]     # not used by any segment
    for i, s in enumerate(segs):
        if s[3] is None:
            at.append(0)
            continue
        start = len(glyphs)
        for j in range(len(glyphs) - len(s[3]) + 1):
            if kind == 'shared' and glyphs[j:j + len(s[3])] == s[3]:
                start = j
                break
        else:
            glyphs += s[3]
        at.append(2 * (n - i) + 2 * start)
    p = lambda vs: struct.pack('>%dH' % len(vs), *[v & 0xffff for v in vs])
    body = p([2 * n, 0, 0, 0]) + p([s[1] for s in segs]) + p([0]) + p([s[0] for s in segs]) + p([s[2] for s in segs]) + p(at) + p(glyphs)
    return p([4, 6 + len(body), 0]) + body


def fmt0(m):
    return struct.pack('>HHH', 0, 262, 0) + bytes(m.get(c, 0) for c in range(256))


def fmt6(m):
    lo, hi = min(m or [0]), min(max(m or [0]), 255)
    return struct.pack('>5H', 6, 10 + 2 * (hi - lo + 1), 0, lo, hi - lo + 1) + struct.pack('>%dH' % (hi - lo + 1), *[m.get(c, 0) for c in range(lo, hi + 1)])


def fmt12(m):
    return struct.pack('>HHLLL', 12, 0, 16 + 12 * len(m), 0, len(m)) + b''.join(struct.pack('>LLL', c, c, g) for c, g in sorted(m.items()))


def cmap(tables, share=False):
    """tables: [(platform, encoding, bytes)]."""
    head = struct.pack('>HH', 0, len(tables))
    pos, data, at = 4 + 8 * len(tables), b'', {}
    for pl, en, t in tables:
        if not (share and t in at):
            at[t] = pos + len(data)
            data += t
        head += struct.pack('>HHL', pl, en, at[t])
    return head + data


def sfnt(tables, gap=0):
    """tables: [(tag, bytes)] in the order of the file; the directory is in the order of tags."""
    pos, data, at = 12 + 16 * len(tables), b'', {}
    for tag, t in tables:
        data += b'\xee' * gap
        at[tag] = (pos + len(data), len(t))
        data += t
    return struct.pack('>LHHHH', 0x10000, len(tables), 0, 0, 0) + b''.join(struct.pack('>4sLLL', tag, 0, *at[tag]) for tag in sorted(at)) + data


def program(tables, share=False):
    return sfnt([(b'cmap', cmap(tables, share)), (b'glyf', b'\0' * 8), (b'head', b'\1\2\3\4')])


def mapped(m, chars=CHARS):
    return {c: g for c, g in zip(chars, m) if g}


def wanted(m):
    """{glyph: characters that use it}"""
    w = {}
    for c, g in m.items():
        if g:
            w.setdefault(g, set()).add(c if isinstance(c, str) else chr(c))
    return w


CUT = [[(3, 1, fmt4({0x41: 1, 0x42: 2, 0x3a9: 3}, 'delta'))], [(0, 3, fmt4({0x41: 1, 0x42: 3, 0x43: 2}, 'array')), (1, 0, fmt0({0x8e: 1, 0x41: 2}))], [(1, 0, fmt0({0x41: 1, 0xe5: 2, 0xd8: 3}))]]
CUTW = [{1: {'A'}, 2: {'B'}, 3: {'\u03a9'}}, {1: {'A', '\xe9'}, 3: {'B'}, 2: {'C', 'A'}}, {1: {'A'}, 2: {'\xc2'}, 3: {'\xff'}}]


def font(num, data, extra, gids=None, enc=N('Identity-H'), tu=None, z=0, ordering=b'Identity', ref=None):
    """The dictionary of a composite font with a program."""
    desc = {'Type': N('FontDescriptor'), 'FontName': N('Emb'), 'Flags': 4, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, -200, 500, 700], 'ItalicAngle': 0}
    if ref is None:
        extra[num] = S({'Filter': N('FlateDecode'), 'Length1': len(data)}, zlib.compress(data)) if z else S({'Length1': len(data)}, data)
        ref = R(num)
    desc['FontFile2'] = ref
    sub = {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N('Emb'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': ordering, 'Supplement': 0}, 'FontDescriptor': desc, 'DW': 500}
    if gids is not None:
        sub['CIDToGIDMap'] = gids
    extra[num + 1] = sub
    d = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('Emb'), 'Encoding': enc, 'DescendantFonts': [R(num + 1)]}
    if tu is not None:
        d['ToUnicode'] = tu
    return d


def show(members, extra, obs):
    """members: [(font, [(code, texts)])]: every code has to become one of its texts."""
    from pdfmajor.interpreter import PDFInterpreter, LTTextBlock
    res = {'F%d' % i: m[0] for i, m in enumerate(members)}
    prog = b'\n'.join(b'BT /F%d 10 Tf 10 %d Td <%s> Tj ET' % (i, 700 - 10 * i, b''.join(b'%04x' % c for c, _ in m[1])) for i, m in enumerate(members))
    with open('in.pdf', 'wb') as f:
        f.write(simple([prog], resources={'Font': res}, extra=extra))
    (items,) = [list(p) for p in PDFInterpreter('in.pdf', ignore_bad_chars=True)]
    if len(items) != len(members) or not all(isinstance(i, LTTextBlock) for i in items):
        return '%d texts instead of %d' % (len(items), len(members))
    for n, (item, m) in enumerate(zip(items, members)):
        got = [c.get_text() for b in item for c in b]
        if len(got) != len(m[1]):
            return 'font %d: %d characters instead of %d' % (n, len(got), len(m[1]))
        for g, (code, texts) in zip(got, m[1]):
            obs.trans()
            if g not in texts:
                return 'font %d: code %d is %r instead of %s' % (n, code, g, ' or '.join(sorted(map(repr, texts))))
        obs.count('traces')
        obs.outcome(got)
    return None


def codes(w, n=GIDS + 1):
    """The codes of the glyphs, for fonts whose codes are glyphs."""
    return [(g, w.get(g) or {''}) for g in range(n)]


def table(t, i):
    """(map, platform, encoding, bytes) of the i-th table."""
    pl, en = TABLES[t]
    if t == 'mac':
        m = [{0x41: 1, 0x8e: 2, 0xe5: 3}, {0x41: 2, 0xc9: 3, 0xd8: 1}][i % 2]
        return {MAC[c]: g for c, g in m.items()}, pl, en, fmt0(m)
    m = [{0x41: 1, 0xe9: 2, 0x3a9: 3}, {0x42: 1, 0x41: 2}, {0x43: 3}][i % 3]
    if t == 'empty':
        return {}, pl, en, fmt4({})
    if t == 'variants':
        return {}, pl, en, struct.pack('>HLL', 14, 10, 0)
    if t == 'six':
        return m, pl, en, fmt6({c: g for c, g in m.items() if c < 256})
    if t == 'twelve':
        return m, pl, en, fmt12(m)
    return m, pl, en, fmt4(m, KINDS[i % 2])


def run_tables(case, obs):
    extra, members = {}, []
    for j, (seq, share) in enumerate(case['s']):
        ts = [table(t, 0 if share else i) for i, t in enumerate(seq)]
        w, may = {}, {}
        for t, x in zip(seq, ts):
            if t in UNICODE:
                for g, s in wanted(x[0]).items():
                    w.setdefault(g, set()).update(s)
            elif t in ('six', 'twelve'):
                # the same characters, if they are read
                for g, s in wanted(x[0]).items():
                    may.setdefault(g, set()).update(s)
        mac = {}
        for t, x in zip(seq, ts):
            if t == 'mac':
                for g, s in wanted(x[0]).items():
                    mac.setdefault(g, set()).update(s)
        cs = []
        for g in range(GIDS + 1):
            if w.get(g):
                # several maps may disagree: each is right
                texts = w[g] | may.get(g, set())
                if any(t in UNICODE for t in seq) and sum(t in UNICODE for t in seq) > 1 and not share:
                    texts = texts | {''}
            elif w:
                texts = may.get(g, set()) | {''}
            elif 'six' in seq or 'twelve' in seq:
                texts = may.get(g, set()) | mac.get(g, set()) | {''}
            elif mac.get(g):
                texts = mac[g] | ({''} if seq.count('mac') > 1 and not share else set())
            else:
                texts = {''}
            cs.append((g, texts))
        members.append((font(1000 + 10 * j, program([x[1:] for x in ts], share), extra), cs))
        obs.state(('tables', seq, share))
    return show(members, extra, obs)


def run_case(case, obs):
    k = case['k']
    extra, members = {}, []
    if k == 'tables':
        return run_tables(case, obs)
    if k == 'map':
        for j, (m, z) in enumerate(case['s']):
            m = mapped(m)
            members.append((font(1000 + 10 * j, program([(3, 1, fmt4(m, KINDS[case['d']]))]), extra, z=z), codes(wanted(m))))
            obs.state((k, case['d'], sorted(m.items()), z))
    elif k == 'byte':
        for j, (m, z) in enumerate(case['s']):
            if z:
                m = mapped(m, [0x41, 0x8e, 0xc9, 0xd8, 0xe5])
                members.append((font(1000 + 10 * j, program([(1, 0, fmt0(m))]), extra), codes(wanted({MAC[c]: g for c, g in m.items()}))))
            else:
                m = mapped(m, [0x20, 0x41, 0x7a, 0x80, 0xe9])
                members.append((font(1000 + 10 * j, program([(0, 3, fmt0(m))]), extra), codes(wanted(m))))
            obs.state((k, sorted(m.items()), z))
    elif k == 'place':
        m = {0x41: 1, 0xe9: 2, 0x3a9: 3}
        for j, (order, gap, z) in enumerate(case['s']):
            ts = {'cmap': cmap([(3, 1, fmt4(m, 'mixed'))]), 'glyf': b'\1' * 9, 'OS/2': b'cmap' * 3, 'GSUB': b''}
            members.append((font(1000 + 10 * j, sfnt([(t.encode(), ts[t]) for t in order], gap), extra, z=z), codes(wanted(m))))
            obs.state((k, order, gap, z))
    elif k == 'gid':
        ((mi, way, e, t),) = case['s']
        m = {0x41: 1, 0xe9: 2, 0x3a9: 3}
        w, gids = wanted(m), MAPS[mi]
        of = lambda c: c
        if gids == 'Identity':
            gids = N('Identity')
            if way == 1:
                extra[900] = gids
                gids = R(900)
        elif gids is not None:
            data = struct.pack('>%dH' % len(gids), *gids) + (b'\0' if way == 2 else b'')
            full = list(gids)
            of = lambda c: full[c] if c < len(full) else None
            extra[900] = S({'Filter': N('FlateDecode')}, zlib.compress(data)) if way == 1 else S({}, data)
            gids = R(900)
            if way == 3:
                extra[901] = gids
                gids = R(901)
        enc, cid = N('Identity-H'), lambda c: c
        if e == 1:
            enc = N('Identity-V')
        elif e > 1:
            # codes with an offset, or in reverse
            rng = b'1 begincidrange <0000> <00ff> 1 endcidrange' if e == 2 else b'6 begincidchar <0000> 5 <0001> 4 <0002> 3 <0003> 2 <0004> 1 <0005> 0 endcidchar'
            cid = (lambda c: c + 1) if e == 2 else (lambda c: 5 - c)
            extra[902] = S({'Type': N('CMap'), 'CMapName': N('Own')}, b'1 begincodespacerange <0000> <ffff> endcodespacerange ' + rng)
            enc = R(902)
        tu, named = None, {}
        if t:
            named = {c: 'XYZUVW'[c] for c in range(6)}
            extra[903] = fonts.tounicode(named)
            tu = R(903)
        cs = [(c, {named[c]} if t else w.get(of(cid(c))) or {''}) for c in range(6)]
        members.append((font(1000, program([(3, 1, fmt4(m, 'array'))]), extra, gids, enc, tu), cs))
        obs.state((k, mi, way, e, t))
    elif k == 'seq':
        ((seq),) = case['s']
        m = {0x41: 1, 0xe9: 2, 0x3a9: 3}
        data = program([(3, 1, fmt4(m, 'delta'))])
        extra[900] = S({'Length1': len(data)}, data)
        extra[901] = S({}, struct.pack('>4H', 3, 2, 1, 0))
        extra[902] = S({}, struct.pack('>4H', 2, 2, 0, 1))
        extra[903] = fonts.tounicode({1: 'Q'})
        other = program([(3, 1, fmt4({0x5a: 1, 0x42: 3}, 'delta'))])
        pool = [(None, lambda c: wanted(m).get(c)), (R(901), lambda c: wanted(m).get((3, 2, 1, 0, None)[c])), (R(902), lambda c: wanted(m).get((2, 2, 0, 1, None)[c])),
                (None, lambda c: {'Q'} if c == 1 else None), (None, lambda c: {1: {'Z'}, 3: {'B'}}.get(c))]
        for i, f in enumerate(seq):
            gids, of = pool[f]
            members.append((font(1000 + 10 * i, other, extra, gids, tu=R(903) if f == 3 else None, ref=R(900) if f < 4 else None), [(c, of(c) or {''}) for c in range(5)]))
        obs.state((k, seq))
    else:
        data = program(CUT[case['v']])
        for j, n in enumerate(case['s']):
            # nothing but right characters, and all of them if all is there
            w = CUTW[case['v']]
            if n == len(data):
                cs = [(g, w.get(g) or {''}) for g in range(GIDS + 1)]
            else:
                cs = [(g, (w.get(g) or set()) | {''}) for g in range(GIDS + 1)]
            members.append((font(1000 + 10 * j, data[:n], extra), cs))
            obs.state((k, case['v'], n))
    return show(members, extra, obs)
