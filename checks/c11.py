"""C11: painted paths. Every sequence of construction operators up to the bound under every painting operator and
several transformations; every quadrilateral over a grid; every sequence of painted paths, discarded paths, clipping and state
changes up to the bound. Against the reference interpreter."""
import itertools
from mc import progs
from mc.refint import Ref

ID = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = ['paths begin with m or re, as the standard demands', 'the box of a curve is that of its end points, not of its control points']
CM = {'id': (), 'scale': (('cm', 2, 0, 0, .5, 10, 20),), 'rot': (('cm', 0, 1, -1, 0, 5, 7),), 'shear': (('cm', 1, 2, 1, 1, 0, 3),),
      'flip': (('cm', 1, 0, 0, -1, 0, 800),), 'two': (('cm', 1, 0, 0, -1, 0, 100), ('cm', 2, 0, 0, 3, 1, 1))}
OPS = {'m': ('m', 1, 2), 'm2': ('m', 8, 5), 'l': ('l', 4, 2), 'l2': ('l', 1, 9), 'l3': ('l', -3, 6), 'h': ('h',),
       'c': ('c', 10, 11, -12, 13, 3, 4), 'v': ('v', 20, 21, 5, 7), 'y': ('y', 30, -31, 6, -2), 're': ('re', 2, 3, 5, 6),
       're2': ('re', 7, 3, -9, -4)}
PAINTS = ['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n', 'W n', 'W* f']
PRE = [('w', 1.5), ('RG', 1, 0, .2), ('g', .5)]
GRID = [(x, y) for x in (0, 2, 5) for y in (0, 3, 4)]
UNITS = {
    'line': [('m', 1, 1), ('l', 4, 5), ('S',)], 'hv': [('m', 1, 1), ('l', 9, 1), ('s',), ('m', 3, 1), ('l', 3, 8), ('f',)],
    'rect': [('re', 1, 2, 3, 4), ('f*',)], 'two': [('re', 1, 2, 3, 4), ('m', 0, 0), ('l', 9, 9), ('B',)],
    'curve': [('m', 0, 0), ('c', 1, 2, 3, 4, 5, 6), ('h',), ('B*',)], 'n': [('re', 50, 50, 1, 1), ('n',)],
    'clip': [('re', 60, 60, 2, 2), ('W',), ('n',)], 'none': [('S',), ('f',), ('h',), ('b*',)], 'colour': [('RG', 0, 1, 0), ('K', 0, .5, 0, 1), ('rg', 0, 0, 1)],
    'w': [('w', 7)], 'cm': [('cm', 2, 0, 0, 2, 1, 0)], 'open': [('m', 70, 70), ('l', 71, 72)],
}


def BOUNDS(tier):
    n, d = bounds(tier)
    return ('all sequences of up to %d of %d path construction operators x %d painting operators x %d transformations; all %d^4 quadrilaterals x 3 ways '
            'to close x 3 transformations; all two-point paths over the grid; all sequences of %d of %d painted or discarded paths and state '
            'changes' % (n, len(OPS), len(PAINTS), len(CM), len(GRID), d, len(UNITS)))


def bounds(tier):
    return (4, 4) if tier == 'quick' else (5, 5)


def jobs(tier):
    n, d = bounds(tier)
    return ([('ops', k, c, s) for k in range(1, n) for c in CM for s in ('m', 'm2', 're', 're2')] +
            [('ops', n, c, s, t) for c in CM for s in ('m', 'm2', 're', 're2') for t in OPS] +
            [('quad', c, i) for c in ('id', 'rot', 'shear') for i in range(len(GRID))] + [('line', c) for c in CM] +
            [('units', d, u) for u in UNITS])


def explore(job, ctx):
    kind = job[0]
    if kind == 'ops':
        n, cm, first = job[1], job[2], job[3:]
        it = (list(first) + list(r) for r in itertools.product(OPS, repeat=n - len(first)))
        for part in progs.chunks(it, 60):
            ctx.run({'k': kind, 'cm': cm, 's': [' '.join(p) for p in part]})
    elif kind == 'quad':
        it = ((job[2],) + r for r in itertools.product(range(len(GRID)), repeat=3))
        for part in progs.chunks(it, 200):
            ctx.run({'k': kind, 'cm': job[1], 's': part})
    elif kind == 'line':
        it = itertools.product(range(len(GRID)), repeat=2)
        for part in progs.chunks(it, 100):
            ctx.run({'k': kind, 'cm': job[1], 's': part})
    else:
        it = ([job[2]] + list(r) for r in itertools.product(UNITS, repeat=job[1] - 1))
        for part in progs.chunks(it, 150):
            ctx.run({'k': kind, 's': [' '.join(p) for p in part]})


def build(case, s):
    kind = case['k']
    if kind == 'units':
        return PRE + [op for u in s.split() for op in UNITS[u]] + [('m', 90, 91), ('l', 92, 93), ('S',)]
    prog = PRE + list(CM[case['cm']])
    if kind == 'ops':
        path = [OPS[o] for o in s.split()]
        for p in PAINTS:
            prog += path + [(o,) for o in p.split()]
    else:
        pts = [GRID[i] for i in s]
        path = [('m',) + pts[0]] + [('l',) + p for p in pts[1:]]
        for close in ([('h',), ('f',)], [('s',)], [('S',)]):
            prog += path + close
    return prog


def finding_key(case, err):
    return err[:80]


def run_case(case, obs):
    return progs.compare([build(case, s) for s in case['s']], Ref(), {}, obs)
