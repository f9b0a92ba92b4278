"""C24: dividing page content into several streams. Every division of content programs between tokens, with empty streams,
filters, comments, missing entries, padding up to the buffer size and repeated streams, against the undivided program."""
import base64
import itertools
import zlib
from mc import items, progs
from mc.pdfgen import N, R, S, simple, Doc
from mc.fonts import simple as simple_font
from mc.sizes import sizes

ID = 'C24'
LEVEL = 'model_checking'
ASSUMPTIONS = ['streams are divided between tokens; an inline image, from ID to EI, is one token',
               'the undivided program is the reference (its meaning is the subject of C10-C14 and C21)']
IMG = b'ID \x00]\xff(%<> EI'
PROGRAMS = [
    [b'BT', b'/F', b'12', b'Tf', b'[', b'(a)', b'-500', b'(b)', b']', b'TJ', b'<41>', b'Tj', b'ET'],
    [b'q', b'1', b'0', b'0', b'1', b'5', b'7', b'cm', b'0', b'0', b'm', b'10', b'.5', b'l', b'S', b'Q', b'1', b'2', b'3', b'4', b're', b'f'],
    [b'q', b'BI', b'/W', b'2', b'/H', b'3', b'/BPC', b'8', b'/CS', b'/G', IMG, b'Q', b'0', b'0', b'm', b'1', b'1', b'l', b'S'],
    [b'/P', b'<<', b'/MCID', b'0', b'/X', b'[', b'1', b'(a)', b']', b'>>', b'BDC', b'/Fm', b'Do', b'EMC', b'0', b'0', b'm', b'1', b'1', b'l', b's'],
    [b'+4', b'w', b'1.', b'-2', b'3', b'0.5', b're', b'B*', b'true', b'null', b'pop', b'0', b'0', b'm', b'9', b'0', b'l', b'b'],
    [b'(\\()', b'pop', b'BT', b'/F', b'1', b'Tf', b'2', b'0', b'Td', b"(a(b)c)", b"'", b'5', b'6', b'(\\)%)', b'"', b'ET'],
]
STYLES = ['plain', 'empty', 'filter', 'comment', 'missing', 'space', 'delim']


def BOUNDS(tier):
    return ('%d programs of 13-22 tokens: every division between tokens into any number of streams in the styles %s; every division into up to %d '
            'streams in the styles %s; every division into two at each alignment within %d bytes of the buffer size; streams used repeatedly; up to 300 streams of one path each and as many as 2100 of one token each' %
            (len(PROGRAMS), full(tier), 3 if tier == 'quick' else 4, STYLES, 3 if tier == 'quick' else 8))


def full(tier):
    return ['plain'] if tier == 'quick' else STYLES


def jobs(tier):
    out = []
    for p in range(len(PROGRAMS)):
        t = len(PROGRAMS[p])
        bits = min(t - 1, 13 if tier == 'quick' else 16)
        for s in full(tier):
            out += [('all', p, s, bits, i) for i in range(4)]
        for s in STYLES:
            out.append(('few', p, s, 2 if tier == 'quick' else 3))
        out.append(('align', p, 3 if tier == 'quick' else 8))
    out += [('repeat',), ('size',)]
    return out


def explore(job, ctx):
    k, p = job[0], job[1] if len(job) > 1 else 0
    t = len(PROGRAMS[p])
    if k == 'all':
        # a window of `bits` places between tokens is cut in every way; windows start at both ends
        wins = sorted({0, t - 1 - job[3]})
        it = ([w + i for i in range(job[3]) if m >> i & 1] for w in wins for m in range(job[4], 1 << job[3], 4))
        for part in progs.chunks(it, 128):
            ctx.run({'p': p, 'st': job[2], 's': part})
    elif k == 'few':
        it = (list(c) for n in range(job[3] + 1) for c in itertools.combinations(range(t - 1), n))
        for part in progs.chunks(it, 128):
            ctx.run({'p': p, 'st': job[2], 's': part})
    elif k == 'align':
        for st in ('padfront', 'padback'):
            it = ([c, 4096 * m + d] for c in range(t - 1) for m in (1, 2) for d in range(-job[2], job[2] + 1))
            for part in progs.chunks(it, 64):
                ctx.run({'p': p, 'st': st, 's': part})
    elif k == 'size':
        for n in sizes(300, 5):
            ctx.run({'p': 1, 'st': 'repeat', 's': [[i % 3 for i in range(n)]]})
            ctx.run({'p': 1, 'st': 'each', 's': [[n]]})
    else:
        ctx.run({'p': 1, 'st': 'repeat', 's': [list(x) for n in range(1, 5) for x in itertools.product(range(3), repeat=n)]})


def pieces(tokens, cuts):
    out, last = [], 0
    for c in cuts:
        out.append(tokens[last:c + 1])
        last = c + 1
    return out + [tokens[last:]]


def tight(tokens):
    """As few separators as possible."""
    out = b''
    for t in tokens:
        if out and not (out[-1:] in b'()<>[]' and not out.endswith(b'EI') or t[:1] in b'()<>[]/'):
            out += b' '
        out += t
    return out


REP = [b'q 1 0 0 1 5 7 cm 0 0 m', b'3 4 l', b'S Q 1 2 3 4 re f']


def variants(case, s):
    """([(attributes, data) or None], undivided text)"""
    tokens, st = PROGRAMS[case['p']], case['st']
    if st == 'repeat':
        return [({}, REP[i]) for i in s], b' '.join(REP[i] for i in s)
    if st == 'each':
        # n paths, all tokens in streams of their own
        toks = [t for i in range(s[0]) for t in (b'%d' % i, b'7', b'm', b'30', b'40', b'l', b'S')]
        return [({}, t) for t in toks], b' '.join(toks)
    if st in ('padfront', 'padback'):
        a, b = (b' '.join(x) for x in pieces(tokens, s[:1]))
        if st == 'padfront':
            a = b' ' * (s[1] - len(a)) + a
        else:
            b = b' ' * (s[1] - len(b)) + b
        return [({}, a), ({}, b)], b' '.join(tokens)
    ps = [b' '.join(x) for x in pieces(tokens, s)]
    out = []
    for i, x in enumerate(ps):
        if st == 'empty':
            out += [({}, b''), ({}, x), ({'Filter': N('FlateDecode')}, zlib.compress(b''))]
        elif st == 'filter':
            out.append(({'Filter': N('FlateDecode')}, zlib.compress(x)) if i % 2 else ({'Filter': [N('ASCIIHexDecode'), N('FlateDecode')]},
                                                                                     zlib.compress(x).hex().encode() + b'>'))
        elif st == 'comment':
            out.append(({}, x + b' %c' + b'(' * (i % 2)))
        elif st == 'missing':
            out += [None, ({}, x)]
        elif st == 'space':
            out.append(({}, b'\r\n' * (i % 3) + x + (b'\r', b' ', b'\n')[i % 3]))
        elif st == 'delim':
            out.append(({}, tight(pieces(tokens, s)[i])))
        else:
            out.append(({}, x))
    return out, b' '.join(tokens)


def run_case(case, obs):
    from pdfmajor.interpreter import PDFInterpreter
    objs, known, nxt = {}, {}, [100]

    def stream(x):
        key = repr(x)
        if key not in known:
            nxt[0] += 1
            known[key] = nxt[0]
            if x is not None:       # None: a reference to an object that does not exist
                objs[nxt[0]] = S(x[0], x[1])
        return R(known[key])
    f, _ = simple_font(first=0, widths=[500] * 256)
    form = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9]}, b'0 0 m 5 5 l S')
    objs[3] = {'Font': {'F': f}, 'XObject': {'Fm': R(4)}}
    objs[4] = form
    kids, want = [], []
    for n, s in enumerate(case['s']):
        parts, text = variants(case, s)
        obs.state((case['p'], tuple(s), case['st']))
        obs.trans(len(parts))
        for cont in ([stream(x) for x in parts], stream(({}, text))):
            nxt[0] += 1
            if isinstance(cont, list) and n % 3 == 1:
                objs[nxt[0]] = cont
                cont = R(nxt[0])
                nxt[0] += 1
            objs[nxt[0]] = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 600, 800], 'Resources': R(3), 'Contents': cont}
            kids.append(R(nxt[0]))
    objs[1] = {'Type': N('Catalog'), 'Pages': R(2)}
    objs[2] = {'Type': N('Pages'), 'Kids': kids, 'Count': len(kids)}
    d = Doc()
    d.rev(objs, root=R(1))
    with open('f.pdf', 'wb') as fp:
        fp.write(bytes(d))
    pages = []
    for page in PDFInterpreter('f.pdf'):
        try:
            pages.append([items.canon(i) for i in page])
        except Exception as e:
            pages.append('error ' + type(e).__name__)
    if len(pages) != len(kids):
        return '%d of %d pages' % (len(pages), len(kids))
    for n, s in enumerate(case['s']):
        got, want = pages[2 * n], pages[2 * n + 1]
        obs.count('traces')
        obs.outcome(repr(want))
        if isinstance(want, str) or not want and case['st'] not in ('repeat', 'each'):
            return 'the undivided program gives %s' % items.brief(want)
        if isinstance(want, str) or isinstance(got, str):
            if got != want:
                return 'division %r (%s): %r instead of %r' % (s, case['st'], items.brief(got), items.brief(want))
            continue
        d = items.diff(got, want)
        if d:
            return 'division %r (%s): item %s' % (s, case['st'], d)
    return None


def finding_key(case, err):
    return err[:60]
