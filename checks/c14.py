"""C14: forms. Page programs, form programs and nestings of forms up to the bound against the reference interpreter."""
import itertools
from mc import progs, fonts
from mc.pdfgen import N, R, S
from mc.refint import Ref, NoRestore, text
from mc.sizes import sizes

ID = 'C14'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a form without Resources is only drawn where the page resources are in force (older standards leave nothing else open)',
               'colours set between q and Q are not judged here (known finding of C10)']
FA = fonts.simple()
FB = fonts.simple(name='Inner', widths=(100, 200, 300, 400, 500, 600))
UNITS = {
    'line': [('m', 1, 2), ('l', 5, 9), ('S',)],
    'show': [('BT',), ('Td', 7, 8), ('Tj', b'# "'), ('T*',), ('Tj', b'$'), ('ET',)],
    'font': [('Tf', N('F1'), 5)],
    'cm': [('cm', 2, 0, 0, 3, 10, 20)],
    'col': [('RG', 1, .2, 0), ('k', .1, .2, .3, .4), ('w', 3)],
    'text': [('Tc', 1.5), ('Tz', 50), ('Ts', 3), ('TL', 14), ('Tw', 2)],
    'q': [('q',)], 'Q': [('Q',)],
    'open': [('re', 40, 40, 1, 2)],
    'img': [('Do', N('Im'))],
    'A': [('Do', N('A'))], 'B': [('Do', N('B'))],
}
GEOM = {'A': ((0, 0, 10, 20), (2, 0, 0, 2, 1, 1)), 'B': ((-5, 3, 4, 9), (0, 1, -1, 0, 3, 0)), 'C': ((2, 2, 9, 7), (1, 0, 0, 1, 0, 0))}
PAGE_PRE = [('Tf', N('F1'), 10)]
CONTEXT = {'plain': [], 'state': [('cm', 1, 0, 0, -1, 0, 500), ('rg', 0, .2, 1), ('w', 2), ('Tc', 1), ('TL', 9), ('Tf', N('F1'), 8)],
           'q': [('q',), ('cm', 0, 1, -1, 0, 5, 0), ('Ts', 4)]}
FIXED_A = ['text', 'cm', 'col', 'line', 'font', 'show', 'B', 'Q', 'line', 'q']
FIXED_B = ['show', 'cm', 'text', 'font', 'show', 'line', 'q']
MATRICES = [(1, 0, 0, 1, 0, 0), (1, .5, -.25, 2, 3, 4), (-2, 1, 1, 3, 0, 1)]
SKEW = (-1.5, 0, .5, 1)
FIXED_C = ['line', 'show', 'Q', 'cm']
U_PAGE = ['line', 'show', 'cm', 'col', 'text', 'q', 'Q', 'A', 'B', 'font', 'img']
U_FORM = ['line', 'show', 'font', 'cm', 'col', 'text', 'q', 'Q', 'B', 'img']
U_NEST = ['show', 'font', 'cm', 'col', 'text', 'q', 'Q', 'C', 'line']
UNITS['C'] = [('Do', N('C'))]


def BOUNDS(tier):
    p, f, a = bounds(tier)
    return ('page programs: all sequences of %d of %d units (drawing two nested forms, lines, text, images, state changes, q, Q) with and without form '
            'resources; form programs: all sequences of %d of %d units in %d contexts; nestings: all pairs of programs of %d of %d units in two nested forms, '
            'a third form inside; forms in each other to a depth of 40 and up to %d forms after each other; an image and a form with an image and a line inside under %d transformations (all sign patterns and skews) x %d form matrices'
            % (p, len(U_PAGE), f, len(U_FORM), len(CONTEXT), a, len(U_NEST), 260 if tier == 'quick' else 1030, len(SKEW) ** 4, 3 if tier == 'quick' else 16))


def bounds(tier):
    return (4, 3, 2) if tier == 'quick' else (5, 4, 3)


def jobs(tier):
    p, f, a = bounds(tier)
    return ([('page', p, u, r) for u in U_PAGE for r in (0, 1)] + [('form', f, u, c, r) for u in U_FORM for c in CONTEXT for r in (0, 1)] +
            [('nest', a, u) for u in U_NEST] + [('box', tier != 'quick', v) for v in SKEW] + [('size', 'deep', 40), ('size', 'many', 260 if tier == 'quick' else 1030)])


def explore(job, ctx):
    if job[0] == 'size':
        for z in sizes(job[2]) if job[1] == 'many' else range(1, job[2] + 1):
            ctx.run({'k': job[1], 'z': z})
        return
    kind, n, u = job[:3]
    if kind == 'page':
        it = ({'p': [u] + list(r), 'A': FIXED_A, 'B': FIXED_B} for r in itertools.product(U_PAGE, repeat=n - 1))
        base = {'res': job[3], 'c': 'plain'}
    elif kind == 'form':
        it = ({'p': ['A', 'line', 'show'], 'A': [u] + list(r), 'B': FIXED_B} for r in itertools.product(U_FORM, repeat=n - 1))
        base = {'res': job[4], 'c': job[3]}
    elif kind == 'box':
        ms = [(u, b, c, d, 7, -3) for b in SKEW for c in SKEW for d in SKEW]
        it = ({'p': ['q', 'img', 'A', 'line'], 'A': ['img', 'line'], 'B': FIXED_B, 'cm': m, 'm': f} for m in ms
              for f in ((ms[::5] + MATRICES) if n else MATRICES))
        base = {'res': 1, 'c': 'plain'}
    else:
        it = ({'p': ['A', 'show', 'line'], 'A': [u] + list(r) + ['B', 'line', 'show'], 'B': list(b) + ['line', 'show']}
              for r in itertools.product(U_NEST[:-1], repeat=n - 1) for b in itertools.product(U_NEST, repeat=n))
        base = {'res': 1, 'c': 'state'}
    for part in progs.chunks((x for x in it), 100):
        ctx.run(dict(base, s=part))




def prog(units):
    return [op for u in units for op in UNITS[u]]


def geom(k, x):
    return (GEOM[k][0], tuple(x['m'])) if k == 'A' and 'm' in x else GEOM[k]


def finding_key(case, err):
    return err[:80]


def sized(case, obs):
    """Forms in each other as deep as z, or z forms drawn one after the other."""
    n = case['z']
    extra, inner, form = {1000: FA[0]}, {}, None
    res = lambda names: {'Font': {'F1': R(1000)}, 'XObject': names}
    at = lambda i: {'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9 + i], 'Matrix': [1, 0, 0, 1, 1 + i % 3, 2]}
    box = lambda i: ((0, 0, 9, 9 + i), (1, 0, 0, 1, 1 + i % 3, 2))
    page, names, env = list(PAGE_PRE), {}, {}
    for i in range(n):
        p = UNITS['line'] + ([('Tc', i % 5)] if i % 2 else []) + UNITS['show']
        if case['k'] == 'deep' and i:
            p = p[:3] + [('Do', N('X'))] + p[3:]
            extra[2000 + i] = S(dict(at(i), Resources=res({'X': R(1999 + i)})), text(p))
            form = ('form',) + box(i) + (p, Ref(fonts={'F1': FA[1]}, xobjects={'X': form}))
        else:
            extra[2000 + i] = S(dict(at(i), Resources=res({})), text(p))
            form = ('form',) + box(i) + (p, Ref(fonts={'F1': FA[1]}))
        if case['k'] == 'many':
            names['X%d' % i], env['X%d' % i] = R(2000 + i), form
            page.append(('Do', N('X%d' % i)))
    if case['k'] == 'deep':
        names, env = {'X': R(1999 + n)}, {'X': form}
        page.append(('Do', N('X')))
    return progs.compare([page + UNITS['line'] + UNITS['show']], Ref(fonts={'F1': FA[1]}, xobjects=env), res(names), obs, extra=extra)


def run_case(case, obs):
    """Every member gets its own forms: names A, B, C carry its index."""
    if 'z' in case:
        return sized(case, obs)
    extra, pages, pagex = {}, [], {}
    num = 2000
    extra[1000], extra[1001] = FA[0], FB[0]
    extra[1002] = S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 2, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceGray')}, b'ab')
    env = {'Im': ('image', 2, 1, 8)}
    for cls in (Ref, NoRestore):
        env[cls] = {'Im': ('image', 2, 1, 8)}
    for i, x in enumerate(case['s']):
        def named(p):
            return [(o[0], N(o[1] + str(i))) if o[0] == 'Do' and o[1] != 'Im' else o for o in p]
        progs_ = {'A': named(prog(x['A'])), 'B': named(prog(x['B'])), 'C': prog(FIXED_C)}
        nums = dict(zip('ABC', range(num, num + 3)))
        num += 3
        for k in 'ABC':
            bbox, m = geom(k, x)
            at = {'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': list(bbox)}
            if m != (1, 0, 0, 1, 0, 0):
                at['Matrix'] = list(m)
            if case['res']:
                at['Resources'] = {'Font': {'F1': R(1001)}, 'XObject': {'Im': R(1002)}}
                for sub in {'A': 'BC', 'B': 'C', 'C': ''}[k]:
                    at['Resources']['XObject'][sub + str(i)] = R(nums[sub])
            extra[nums[k]] = S(at, text(progs_[k]))
            pagex[k + str(i)] = R(nums[k])
        for cls in (Ref, NoRestore):
            outer = env[cls]
            if case['res']:
                c = ('form',) + geom('C', x) + (progs_['C'], cls(fonts={'F1': FB[1]}, xobjects={'Im': env['Im']}))
                b = ('form',) + geom('B', x) + (progs_['B'], cls(fonts={'F1': FB[1]}, xobjects={'Im': env['Im'], 'C%d' % i: c}))
                a = ('form',) + geom('A', x) + (progs_['A'], cls(fonts={'F1': FB[1]}, xobjects={'Im': env['Im'], 'B%d' % i: b, 'C%d' % i: c}))
            else:
                a, b, c = [('form',) + geom(k, x) + (progs_[k], None) for k in 'ABC']
            outer.update({'A%d' % i: a, 'B%d' % i: b, 'C%d' % i: c})
        pages.append(PAGE_PRE + CONTEXT[case['c']] + ([('cm',) + tuple(x['cm'])] if 'cm' in x else []) + named(prog(x['p'])))
    pagex['Im'] = R(1002)
    res = {'Font': {'F1': R(1000)}, 'XObject': pagex}
    return progs.compare(pages, Ref(fonts={'F1': FA[1]}, xobjects=env[Ref]), res, obs, extra=extra,
                         quirk=NoRestore(fonts={'F1': FA[1]}, xobjects=env[NoRestore]))
