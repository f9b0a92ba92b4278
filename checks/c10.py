"""C10: the graphics state. Every sequence of state operators up to the bound, with a painted line (and, in the
text-state partition, shown text) behind every operator, against the reference interpreter."""
import itertools
from mc import progs, fonts
from mc.pdfgen import N
from mc.refint import Ref, NoRestore
from mc.sizes import sizes

ID = 'C10'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the colour between selecting a colour space and setting a colour in it is not compared',
               'components of DeviceRGB are reported as rounded multiples of 1/255, all other components as written']
FONT_D, FONT = fonts.simple()
FONT2_D, FONT2 = fonts.simple(name='Other', widths=(100, 200, 300, 400, 500, 600))
RES = {'Font': {'F1': FONT_D, 'F2': FONT2_D}, 'ColorSpace': {'Sep': [N('Separation'), N('Spot'), N('DeviceGray'), {}],
                                                              'Dn': [N('DeviceN'), [N('A'), N('B')], N('DeviceGray'), {}]}}

STATE = {
    'q': [('q',)], 'Q': [('Q',)],
    'cm1': [('cm', 2, 0, 0, 3, 10, 20)], 'cm2': [('cm', 0, 1, -1, 0, 5, 0)],
    'w': [('w', 2.5)],
    'RG': [('RG', 1, .2, 0)], 'rg': [('rg', 0, .6, 1)], 'G': [('G', .25)], 'g': [('g', .75)],
    'K': [('K', .1, .2, .3, .4)], 'k': [('k', .5, .6, .7, .8)],
    'CS': [('CS', N('DeviceCMYK')), ('SC', .1, .3, .5, .7)], 'cs': [('cs', N('DeviceRGB')), ('sc', .2, .4, .6)],
    'SCN': [('CS', N('Sep')), ('SCN', .5)], 'scn': [('cs', N('Dn')), ('scn', .25, .125)],
    'RGSC': [('RG', 0, 0, 1), ('SC', .5, .25, .125)], 'gsc': [('g', 0), ('sc', .5)],
    'line': [('J', 1), ('j', 2), ('M', 4), ('d', [3, 1], 0), ('i', 50), ('ri', N('Perceptual'))],
    'gs': [('gs', N('G1'))],
}
TEXTS = {
    'q': [('q',)], 'Q': [('Q',)], 'cm1': [('cm', 2, 0, 0, 3, 10, 20)],
    'Tc': [('Tc', 1.5)], 'Tw': [('Tw', 4)], 'Tz': [('Tz', 50)], 'Ts': [('Ts', 3)], 'TL': [('TL', 14)],
    'Tf1': [('Tf', N('F1'), 20)], 'Tf2': [('Tf', N('F2'), 5)], 'Tr': [('Tr', 1)],
}
PAINT = [('m', 1, 2), ('l', 5, 9), ('S',)]
SHOW = [('BT',), ('Td', 7, 8), ('Tj', b'# "'), ('T*',), ('Tj', b'$'), ('ET',)]


class Quirk(NoRestore):
    """Known finding: Q leaves colours and line style as they are."""
    what = 'known: Q does not restore colours and line style'


def refs():
    kw = dict(fonts={'F1': FONT, 'F2': FONT2}, spaces={'Sep': ('Separation', 1), 'Dn': ('DeviceN', 2)})
    return Ref(**kw), Quirk(**kw)


def BOUNDS(tier):
    return ('all sequences of %d of %d graphics state operator groups with a line painted behind each, all sequences of %d of '
            '%d text state operator groups with text shown behind each; up to %d saved states, all sizes around powers of 2 and 10' %
            ((4 if tier == 'quick' else 5), len(STATE), (4 if tier == 'quick' else 5), len(TEXTS), 260 if tier == 'quick' else 1030))


def jobs(tier):
    n = 4 if tier == 'quick' else 5
    return [('size', 260 if tier == 'quick' else 1030, [k]) for k in ('state', 'text')] + ops(tier, n)


def ops(tier, n):
    if tier == 'quick':
        return [('state', n, [a]) for a in STATE] + [('text', n, [a]) for a in TEXTS]
    return [('state', n, [a, b]) for a in STATE for b in STATE] + [('text', n, [a, b]) for a in TEXTS for b in TEXTS]


def explore(job, ctx):
    kind, n, first = job
    if kind == 'size':
        for z in sizes(n):
            for k in first:
                ctx.run({'k': k, 's': ['#%d' % z]})
        return
    table = STATE if kind == 'state' else TEXTS
    if kind == 'state' and ctx.tier == 'quick':
        # quick: the last position ranges over the operators that can interact most
        pass
    seqs = (first + list(rest) for rest in itertools.product(table, repeat=n - len(first)))
    for part in progs.chunks(seqs, 240):
        ctx.run({'k': kind, 's': [' '.join(p) for p in part]})


def build(kind, s):
    table, paint = (STATE, PAINT) if kind == 'state' else (TEXTS, SHOW)
    prog = [] if kind == 'state' else [('Tf', N('F1'), 10)]
    if s.startswith('#'):
        # as many states saved and changed, then restored, the last one for nothing
        n = int(s[1:])
        for i in range(n):
            prog += [('q',)] + ([('cm', 1, 0, 0, 1, 1 + i % 3, 2)] if kind == 'state' else [('Tc', i % 7), ('Tf', N('F%d' % (1 + i % 2)), 1 + i % 9)]) + (paint if i % 50 == 0 or n < 20 else [])
        for i in range(n + 1):
            prog += [('Q',)] + paint
        return prog
    for a in s.split():
        prog += table[a] + paint
    return prog


def finding_key(case, err):
    return 'Q-keeps-colours' if err == Quirk.what else err[:80]


def run_case(case, obs):
    ref, quirk = refs()
    return progs.compare([build(case['k'], s) for s in case['s']], ref, RES, obs, quirk=quirk)
