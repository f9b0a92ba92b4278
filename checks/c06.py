"""C06: stream filters. The model is a non-deterministic encoder: every encoding it can produce for every short string
(and for long strings around each width change of LZW) is decoded by the implementation."""
import itertools
from mc import filters as F
from mc.pdfgen import N, R, S, Doc

ID = 'C06'
LEVEL = 'model_checking'
ASSUMPTIONS = ['ASCII85 data always carries its end-of-data mark']
WS = [b'\0', b'\t', b'\n', b'\f', b'\r', b' ', b'\r\n']
FULL = {'A': 'ASCIIHexDecode', '8': 'ASCII85Decode', 'L': 'LZWDecode', 'R': 'RunLengthDecode', 'F': 'FlateDecode'}
ABBR = {'A': 'AHx', '8': 'A85', 'L': 'LZW', 'R': 'RL', 'F': 'Fl'}


def BOUNDS(tier):
    return ('LZW: every code sequence for every string over {a,b} up to %d bytes with up to one extra clear code, both '
            'EarlyChange values, literal-only, run and mixed encodings at every length within 3 of each width change with a clear '
            'code at each of these positions; ASCII85/ASCIIHex: all strings up to 2 bytes%s, up to %d bytes over boundary bytes, '
            'white space at every position; RunLength: every segmentation up to %d bytes over {a,b}, every run length; Flate: '
            'all levels, strategies and windows; all chains of %d filters in all notations'
            % ((5, '', 5, 6, 2) if tier == 'quick' else (6, ', all of 3 bytes over 32 values', 7, 8, 3)))


def jobs(tier):
    big = tier != 'quick'
    out = [('lzw', n, e) for n in range(0, 7 if big else 6) for e in (0, 1)]
    out += [('lzwlong', lim, e) for lim in (512, 1024, 2048, 4096) for e in (0, 1)]
    out += [('lzwrun', e) for e in (0, 1)]
    out += [('short', f, i) for f in 'A8' for i in range(4)]
    out += [('bound', f, n) for f in 'A8' for n in range(1, 8 if big else 6)]
    out += [('ws', f) for f in 'A8']
    out += [('rl', n) for n in range(0, 9 if big else 7)] + [('rlrun',)]
    out += [('flate', lv) for lv in range(10)]
    out += [('chain', a, ab) for a in FULL for ab in (0, 1, 2)]
    out += [('chain3', a) for a in FULL] if big else []
    out += [('mixed',)]
    return out


def item(f, e, w, p=None):
    return [f, p, e.hex(), w.hex()]


def strings(alphabet, n):
    for t in itertools.product(alphabet, repeat=n):
        yield bytes(t)


def patt(n):
    """n bytes in which no pair occurs twice within a table's life (so a greedy encoder finds nothing to merge)."""
    return bytes((i * i // 251 + i * 7) & 255 for i in range(n))


def gen(job, big):
    k = job[0]
    if k == 'lzw':
        _, n, early = job
        for s in strings(b'ab', n):
            for codes in F.lzw_all(s, 1):
                yield item(['L'], F.lzw_bits(codes, early), s, {'EarlyChange': early})
                if early == 1 and n <= 3:
                    yield item(['L'], F.lzw_bits(codes, 1) + b'\x12\x34junk', s)
    elif k == 'lzwlong':
        _, lim, early = job
        # a literal-only encoding of n bytes has table size 258 + n - 1 behind it
        edge = lim - 258
        step = range(edge - 3, edge + 4) if lim < 4096 else range(edge - 6, edge - 1)
        for n in step:
            s = patt(n)
            lit = [256] + list(s)
            yield item(['L'], F.lzw_bits(lit + [257], early), s, {'EarlyChange': early})
            # one code that uses the newest entries behind the literals
            for back in (1, 2):
                code = 258 + n - 1 - back
                if code >= 258:
                    i = code - 258
                    yield item(['L'], F.lzw_bits(lit + [code, 257], early), s + s[i:i + 2], {'EarlyChange': early})
            code = 258 + n - 1      # the entry being defined
            yield item(['L'], F.lzw_bits(lit + [code, 257], early), s + s[-1:] * 2, {'EarlyChange': early})
            for cl in (n, n - 1, n - 2):
                codes = [256] + list(s[:cl]) + [256] + list(s[cl:]) + [97, 98, 259, 257]
                if cl < n:
                    codes = [256] + list(s[:cl]) + [256] + list(s[cl:]) + [97, 257]
                    w = s + b'a'
                else:
                    w = s + b'ab' + b'bb'
                yield item(['L'], F.lzw_bits(codes, early), w, {'EarlyChange': early})
            # several such segments one behind the other
            yield item(['L'], F.lzw_bits([256] + list(s) + [256] + list(s) + [257], early), s + s, {'EarlyChange': early})
    elif k == 'lzwrun':
        early = job[1]
        for ch in (b'a', b'\0', b'ab'):
            for n in list(range(0, 12)) + [100, 1000, 32896, 40000]:
                s = (ch * n)[:n]
                yield item(['L'], F.lzw_bits(F.lzw_greedy(s), early), s, {'EarlyChange': early})
        for clear_at in (4093, 4094):
            for n in (3834, 3835, 3836, 3837, 3838, 9000):
                s = patt(n)
                yield item(['L'], F.lzw_bits(F.lzw_greedy(s, clear_at), early), s, {'EarlyChange': early})
    elif k == 'short':
        _, f, i = job
        enc = (lambda s: F.ahx(s)) if f == 'A' else (lambda s: F.a85(s))
        if i == 0:
            yield item([f], enc(b''), b'')
            for s in strings(range(256), 1):
                yield item([f], enc(s), s)
        for a in range(i * 64, i * 64 + 64):
            for b in range(256):
                s = bytes([a, b])
                yield item([f], enc(s), s)
                if f == 'A':
                    yield item([f], F.ahx(s, upper=True), s)
                    if b % 16 == 0:
                        yield item([f], F.ahx(s, odd=True), s)
        if big:
            vals = range(0, 256, 8)
            for s in itertools.product(range(i * 64, i * 64 + 64, 8), vals, vals):
                yield item([f], enc(bytes(s)), bytes(s))
    elif k == 'bound':
        _, f, n = job
        alpha = [0, 1, 0x0a, 0x20, 0x7f, 0x80, 0xff] if n <= 4 else [0, 0x20, 0xff] if n <= 6 else [0, 0xff]
        for s in strings(alpha, n):
            if f == 'A':
                yield item([f], F.ahx(s), s)
                yield item([f], F.ahx(s, end=b''), s)
                yield item([f], F.ahx(s, odd=True), s)
            else:
                yield item([f], F.a85(s), s)
                yield item([f], F.a85(s, z=False), s)
        for m in (8, 9, 12, 13):
            for pos in range(m):
                s = bytes(pos) + b'\xff' + bytes(m - pos - 1)
                yield item([f], F.a85(s) if f == '8' else F.ahx(s), s)
    elif k == 'ws':
        f = job[1]
        for s in (b'', b'\x4a', b'ab\0', b'\0\0\0\0', b'\xff\x10\x20\x30\x40', b'\0\0\0\0\0\0\0\0z', b'\x30\xab\xcd\xef'):
            for e in ([F.a85(s), F.a85(s, z=False)] if f == '8' else [F.ahx(s), F.ahx(s, odd=True), F.ahx(s, upper=True)]):
                end = len(e) - (2 if f == '8' else 1)
                for ws in WS:
                    for i in range(end + 1):
                        yield item([f], e[:i] + ws + e[i:], s)
                        for j in range(i, end + 1):
                            yield item([f], e[:i] + ws + e[i:j] + ws + ws + e[j:], s)
                    yield item([f], ws.join(e[i:i + 1] for i in range(end)) + ws + e[end:], s)
                for junk in (b'\n', b' 41', b'!!!!!', b'41>', b'z', b'~>', b'\xff\0', b'vw{'):
                    yield item([f], e + junk, s)
    elif k == 'rl':
        for s in strings(b'ab', job[1]):
            for e in F.rl_all(s):
                yield item(['R'], e + b'\x80', s)
                yield item(['R'], e, s)
                if job[1] <= 4:
                    yield item(['R'], e + b'\x80\x02abc', s)
                    yield item(['R'], e + b'\x80\xfeX\x80', s)
    elif k == 'rlrun':
        for n in range(1, 129):
            s = patt(n)
            for pre, w0 in ((b'', b''), (b'\xf0\x80', b'\x80' * 17), (b'\x02\x80\xff\0', b'\x80\xff\0')):
                yield item(['R'], pre + bytes([n - 1]) + s + b'\x80', w0 + s)
                if n > 1:
                    for ch in (b'q', b'\x80', b'\0'):
                        yield item(['R'], pre + bytes([257 - n]) + ch + b'\x80', w0 + ch * n)
    elif k == 'flate':
        for s in (b'', b'a', b'ab' * 20, patt(300), bytes(70000), patt(70000)):
            for strat in range(5):
                for wb in range(9, 16):
                    if len(s) > 1000 and wb not in (9, 15):
                        continue
                    e = F.flate(s, job[1], strat, wb)
                    yield item(['F'], e, s)
                    if wb == 15 and len(s) < 1000:
                        yield item(['F'], e + b'\n', s)
                        yield item(['F'], e + b'\r\njunk', s)
                        for sp in range(0, len(s), max(1, len(s) // 7)):
                            yield item(['F'], F.flate(s, job[1], strat, wb, sp), s)


ENC = {'A': lambda s, p: F.ahx(s), '8': lambda s, p: F.a85(s), 'R': lambda s, p: F_rl(s),
       'L': lambda s, p: F.lzw_bits(F.lzw_greedy(png(s) if p else s), 0 if p else 1),
       'F': lambda s, p: F.flate(png(s) if p else s)}
PARMS = {'L': {'EarlyChange': 0, 'Predictor': 12, 'Columns': 3}, 'F': {'Predictor': 15, 'Columns': 3, 'Colors': 1}}


def F_rl(s):
    out = b''
    for i in range(0, len(s), 100):
        out += bytes([len(s[i:i + 100]) - 1]) + s[i:i + 100]
    return out + b'\x80'


def png(s):
    """Rows of three bytes with the Up filter (the last one may be shorter)."""
    out, prev = b'', bytes(3)
    for i in range(0, len(s), 3):
        row = s[i:i + 3]
        out += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = row
    return out


DATA = [b'', b'Hello (world) \0\xff\x80 endstream ' * 3, bytes(range(256))]
SHAPES = ['direct', 'array', 'elements', 'both']
PSHAPES = ['absent', 'null', 'direct', 'array', 'elements', 'values', 'all']


def chain_cases(names, abbr):
    for sh in SHAPES:
        for psh in PSHAPES:
            for w in range(len(DATA)):
                yield {'f': names, 'ab': abbr, 'sh': sh, 'psh': psh, 'w': w}


def build_chain(c):
    """(file, number of the stream)"""
    names, w = c['f'], DATA[c['w']]
    use = c['psh'] not in ('absent', 'null')
    data = w
    for f in reversed(names):
        data = ENC[f](data, use and f in PARMS)
    tab = [FULL, ABBR][c['ab'] == 1]
    fl = [N((ABBR if c['ab'] == 2 and i else tab)[f]) for i, f in enumerate(names)]
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}
    n = [10]

    def ref(v):
        n[0] += 1
        objs[n[0]] = v
        return R(n[0])
    single = len(fl) == 1
    if c['sh'] in ('elements', 'both'):
        fl = [ref(x) for x in fl]
    flt = fl[0] if single and c['sh'] in ('direct', 'elements') else ref(fl[0]) if single and c['sh'] == 'array' else \
        ref(fl) if c['sh'] in ('array', 'both') else fl
    at = {'Filter': flt}
    if c['psh'] == 'null':
        at['DecodeParms'] = None if single else [None] * len(fl)
    elif use:
        ps = []
        for f in names:
            p = PARMS.get(f)
            if p is not None:
                p = dict(p)
                if c['psh'] in ('values', 'all'):
                    p = {k: ref(v) for k, v in p.items()}
                if c['psh'] in ('elements', 'all'):
                    p = ref(p)
            ps.append(p)
        if single and c['psh'] not in ('array', 'all'):
            at['DecodeParms'] = ps[0]
        else:
            at['DecodeParms'] = ref(ps) if c['psh'] in ('array', 'all') else ps
            if single and not isinstance(flt, list) and c['sh'] != 'both':
                at['DecodeParms'] = ps[0] if c['psh'] != 'all' else ref(ps[0])
    objs[5] = S(at, data)
    return bytes(Doc().rev(objs, root=R(1))), 5


def explore(job, ctx):
    if job[0] in ('chain', 'chain3', 'mixed'):
        lists = [[job[1]]] + [[job[1], b] for b in FULL] if job[0] == 'chain' else \
            [[job[1], b, c] for b in FULL for c in FULL] if job[0] == 'chain3' else []
        for names in lists:
            for c in chain_cases(names, job[2] if job[0] == 'chain' else 0):
                ctx.run(c)
        if job[0] == 'mixed':     # one filter many times, five in a row
            for f in FULL:
                for k in (3, 4):
                    for c in chain_cases([f] * k, 0):
                        ctx.run(c)
            for p in itertools.permutations(FULL):
                ctx.run({'f': list(p), 'ab': 0, 'sh': 'direct', 'psh': 'direct', 'w': 1})
        return
    buf, size = [], 0
    for it in gen(job, ctx.tier != 'quick'):
        buf.append(it)
        size += len(it[2])
        if len(buf) >= 500 or size > 200000:
            ctx.run({'s': buf})
            buf, size = [], 0
    if buf:
        ctx.run({'s': buf})


def run_case(case, obs):
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PSStackParser import LIT
    if 's' in case:
        for f, p, e, w in case['s']:
            e, w = bytes.fromhex(e), bytes.fromhex(w)
            obs.state((f, p and sorted(p.items()), e))
            obs.trans()
            obs.count('traces')
            at = {'Filter': LIT(FULL[f[0]])}
            if p:
                at['DecodeParms'] = dict(p)
            got = PDFStream(at, e).get_data()
            obs.outcome(got)
            if got != w:
                return '%s of %r (%r) gives %r instead of %r' % (FULL[f[0]], brief(e), p, brief(got), brief(w))
        return None
    from io import BytesIO
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    data, num = build_chain(case)
    obs.state(data)
    obs.trans(len(case['f']))
    doc = PDFDocument(PDFParser(BytesIO(data)))
    s = doc.getobj(num)
    got = s.get_data()
    obs.outcome(got)
    if got != DATA[case['w']]:
        return 'chain %r gives %r' % (case, brief(got))
    if s.get_data() != got:
        return 'second get_data of %r differs' % case
    return None


def brief(b):
    return b if len(b) <= 60 else b[:30] + b'...' + b[-30:]
