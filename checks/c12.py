"""C12: text positioning. Every sequence of text operators up to the bound inside a text object (with a glyph string shown
behind each), and every sequence of text objects, state changes, q/Q and cm, against the text model of the reference interpreter,
for simple, composite horizontal, composite vertical and Type 3 fonts."""
import itertools
from mc import progs, fonts
from mc.pdfgen import N, R
from mc.refint import Ref, Font
from mc.sizes import sizes

ID = 'C12'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the box of a glyph is its advance times the height between descent and ascent (or of the font box), as the library defines it',
               'word spacing applies to single-byte code 32 only']
W_C = {c: w for c, w in ((32, 250), (65, 500), (66, 700), (67, 0))}
T_C = {c: chr(c) for c in W_C}


def font(kind):
    """(font dictionary, extra objects, refint.Font, [encoded strings])"""
    one = [b'A C', b'B', b' A']
    two = [b''.join(b'\0' + bytes([c]) for c in s) for s in one]
    if kind == 'simple':
        d, f = fonts.simple(first=32, widths=[W_C.get(c, 333) for c in range(32, 70)])
        return d, {}, f, one
    if kind == 'bbox':
        d, f = fonts.simple(name='BoxFont', first=32, widths=[W_C.get(c, 333) for c in range(32, 70)], bbox=(-10, -250, 900, 800),
                            subtype='TrueType')
        return d, {}, f, one
    if kind == 'type3':
        d = fonts.type3(first=32, widths=[10 * (c % 7) for c in range(32, 70)])
        d['Encoding'] = {'Type': N('Encoding'), 'Differences': [32, N('space'), 65, N('A'), N('B'), N('C')]}
        f = Font('unknown', {c: 10 * (c % 7) for c in range(32, 70)}, {32: ' ', 65: 'A', 66: 'B', 67: 'C'},
                 ascent=25, descent=-5, scale=.01)
        f.height, f.vscale = 30, .02
        return d, {}, f, one
    if kind == 'cid':
        d, x, f = fonts.cid(widths={k: v for k, v in W_C.items() if k != 66}, dw=800, chars=T_C)
        return d, x, f, two
    d, x, f = fonts.cid(name='Vert', vertical=True, chars=T_C, w2={65: (-900, 0, 820), 67: (-500, 250, 0)}, dw2=(860, -1100),
                        bbox=(-100, -200, 900, 800))
    return d, x, f, two


def ops(kind, s):
    a, b, c = s
    o = {'Tj': [('Tj', b)], 'TJ': [('TJ', [-120, a, 250.5, b, -40])], 'TJ0': [('TJ', [700])], "'": [("'", c)], '"': [('"', 2, 1.5, c)],
         'Td': [('Td', 11, -3)], 'TD': [('TD', 5, -17)], 'Tm': [('Tm', 2, 0, 0, .5, 30, 40)], 'Tmr': [('Tm', 0, 1, -1, 0, 60, 10)],
         'T*': [('T*',)], 'Tc': [('Tc', 3)], 'Tw': [('Tw', -4.5)], 'Tz': [('Tz', 150)], 'TL': [('TL', 12)], 'Ts': [('Ts', 2.5)],
         'Tf': [('Tf', N('F1'), 20)], 'Tfn': [('Tf', N('F1'), -8)], 'Tf2': [('Tf', N('F2'), 6)]}
    return o


BLOCK = {'show': lambda s: [('BT',), ('Td', 3, 4), ('Tj', s[0]), ('T*',), ('Tj', s[1]), ('ET',)],
         'move': lambda s: [('BT',), ('Tm', 2, 0, 0, 2, 9, 9), ('TD', 1, -6), ('ET',)],
         'nomove': lambda s: [('BT',), ('TJ', [s[2], 50, s[0]]), ('ET',)],
         'set': lambda s: [('Tc', 2), ('Tw', 3), ('Tz', 50)], 'set2': lambda s: [('TL', 9), ('Ts', -2), ('Tf', N('F1'), 7)],
         'q': lambda s: [('q',)], 'Q': lambda s: [('Q',)], 'cm': lambda s: [('cm', 2, 0, 0, 3, 10, 20)], 'rot': lambda s: [('cm', 0, 1, -1, 0, 5, 0)],
         'shear': lambda s: [('cm', 1, .5, .25, 1, 0, 0)], 'in': lambda s: [('BT',), ('Tc', 1), ('TL', 5), ("'", s[0]), ('ET',)]}
KINDS = ['simple', 'cid', 'vert', 'type3', 'bbox']


def depth(tier, kind, part):
    if part == 'ops':
        return {'quick': 4 if kind == 'simple' else 3, 'thorough': 5 if kind == 'simple' else 4}[tier]
    return {'quick': 4 if kind == 'simple' else 3, 'thorough': 5 if kind in ('simple', 'vert') else 4}[tier]


OPS = list(ops(None, ('', '', '')))
QUICK4 = [o for o in OPS if o not in ('Tfn', 'TJ0', 'Tmr', 'Tf2')]     # four positions: the rest of the alphabet at three


def BOUNDS(tier):
    return ('text operators: all sequences of %d of %d operators (simple font: also %d of %d) with a string shown behind each, for %d kinds of fonts; all sequences of '
            '%d (simple font %d) of %d text objects, text state settings, q, Q and matrices; arrays, strings, moves and text objects of all sizes around powers of 2 and 10 up to %d' %
            (depth(tier, 'cid', 'ops'), len(OPS), depth(tier, 'simple', 'ops'), len(QUICK4), len(KINDS), depth(tier, 'cid', 'b'),
             depth(tier, 'simple', 'b'), len(BLOCK), 1030 if tier == 'quick' else 8240))


def jobs(tier):
    out = [('size', k, (1030 if k in ('simple', 'vert') else 130) * (1 if tier == 'quick' else 8), w) for k in KINDS for w in ('array', 'string', 'moves', 'objects')]
    for k in KINDS:
        n = depth(tier, k, 'ops')
        if k == 'simple':
            out += [('ops', k, n - 1, a) for a in OPS]
            out += [('ops4', k, n, a, b) for a in QUICK4 for b in (QUICK4 if tier != 'quick' else ['*'])]
        else:
            out += [('ops', k, n, a) for a in OPS]
        out += [('block', k, depth(tier, k, 'b'), a) for a in BLOCK]
    return out


def explore(job, ctx):
    kind, font, n = job[:3]
    if kind == 'size':
        for z in sizes(n):
            ctx.run({'k': kind, 'f': font, 's': ['%s %d' % (job[3], z)]})
        return
    first = [a for a in job[3:] if a != '*']
    table = {'ops': OPS, 'ops4': QUICK4, 'block': list(BLOCK)}[kind]
    it = (list(first) + list(r) for r in itertools.product(table, repeat=n - len(first)))
    for part in progs.chunks(it, 200):
        ctx.run({'k': kind, 'f': font, 's': [' '.join(p) for p in part]})


def build(case, s, strs):
    if case['k'] == 'size':
        w, n = s.split()
        n = int(n)
        head, one = [('Tf', N('F1'), 10), ('cm', 1, 0, 0, 1, 100, 200), ('Tc', .5), ('Tw', 1), ('BT',), ('Td', 3, 4)], strs[0]
        if w == 'array':
            return head + [('TJ', [x for i in range(n) for x in (strs[i % 3], i % 11 - 5)][:n]), ('Tj', one), ('ET',)]
        if w == 'string':
            return head + [('Tj', (one * n)[:n * len(one) // 3]), ('Tj', one), ('ET',)]
        if w == 'moves':
            return head + [o for i in range(n) for o in ([('Td', 1, -1)], [('T*',)], [('TD', 0, i % 5)], [('Tj', strs[i % 3])])[i % 4]] + [('Tj', one), ('ET',)]
        return head + [('ET',)] + [o for i in range(n) for o in (('BT',), ('Ts', i % 3), ('Tj', strs[i % 3]), ('ET',))]
    if case['k'] == 'block':
        prog = [('Tf', N('F1'), 10)]
        for b in s.split():
            prog += BLOCK[b](strs)
        return prog + BLOCK['show'](strs)
    table = ops(case['f'], strs)
    prog = [('Tf', N('F1'), 10), ('cm', 1, 0, 0, 1, 100, 200), ('BT',)]
    for o in s.split():
        prog += table[o] + [('Tj', strs[0])]
    return prog + [('ET',)]


def finding_key(case, err):
    return err[:80]


def run_case(case, obs):
    d, extra, f, strs = font(case['f'])
    d2, f2 = fonts.simple(name='Other', first=32, widths=[100, 200, 300, 400, 500, 600])
    if f.nbytes == 2:       # the second font shows the same bytes
        d2, x2, f2 = fonts.cid(name='Other', widths={65: 111}, dw=600, chars=T_C, uni=910, sub=911)
        extra = {**extra, **x2}
    else:
        d2, f2 = fonts.simple(name='Other', first=32, widths=[100 + c for c in range(32, 70)])
    extra = dict(extra)
    extra[950], extra[951] = d, d2
    return progs.compare([build(case, s, strs) for s in case['s']], Ref(fonts={'F1': f, 'F2': f2}),
                         {'Font': {'F1': R(950), 'F2': R(951)}}, obs, extra=extra)
