"""C28: faulty operators. Every fault of the catalogue (unknown operators, missing, ill-typed and stray operands, missing resources) at every place of several
programs, pairs of faults, and faults inside forms; the page must give the items of the program without it, or an error of the library."""
import itertools
from mc import items, progs
from mc.pdfgen import N, R, S, Doc, ser
from mc.fonts import simple as simple_font

ID = 'C28'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a fault is inserted between two complete operators', 'the program without the fault, interpreted by the library, is the reference (its meaning is the subject of C10-C14 and C21)']
CASE_CPU_S = 60
PROGRAMS = [
    [b'0.5 w', b'1 0 0 RG', b'10 20 m', b'30 20 l', b'S', b'q', b'2 0 0 2 5 5 cm', b'.2 g', b'1 2 3 4 re', b'f', b'Q', b'0 0 m', b'5 6 l', b'9 1 l', b'h', b'b*'],
    [b'BT', b'/F 12 Tf', b'3 Tc', b'1 0 0 1 50 60 Tm', b'(ab c) Tj', b'14 TL', b'[(x) -500 (y)] TJ', b'T*', b'(z) Tj', b'5 6 Td', b"(q) '", b'1 2 (w x) "', b'ET', b'0 0 5 5 re', b'B'],
    [b'/DeviceRGB cs', b'.1 .2 .3 sc', b'/DeviceCMYK CS', b'0 .1 .2 .3 SCN', b'0 0 m', b'1 1 2 2 3 3 c', b'4 4 5 5 v', b'6 6 7 7 y', b's', b'/Fm Do', b'/Im Do',
     b'BI /W 2 /H 3 /BPC 8 /CS /G ID abcdef EI', b'/Sep cs', b'.5 scn', b'0 0 m', b'5 0 l', b'S'],
    [b'BT', b'/F 9 Tf', b'(A) Tj', b'ET', b'/Fm Do', b'q', b'0 1 0 rg', b'BT', b'2 Ts', b'80 Tz', b'4 Tw', b'(a b) Tj', b'ET', b'Q', b'BT', b'7 8 TD', b'(B) Tj', b'ET'],
    [b'/P <</MCID 0>> BDC', b'[2 1] 0 d', b'1 J', b'2 j', b'9 M', b'/G gs', b'0 0 m', b'0 7 l', b'S', b'EMC', b'1 1 1 1 k', b'0 0 0 1 K', b'.3 G', b'1 1 2 2 re', b'W', b'n', b'3 3 4 4 re', b'F'],
]
# operands: n number, N name, s string, a array of numbers, t array of strings and numbers, i inline image
OPS = {'w': 'n', 'J': 'n', 'j': 'n', 'M': 'n', 'd': 'an', 'ri': 'N', 'i': 'n', 'm': 'nn', 'l': 'nn', 'c': 'nnnnnn', 'v': 'nnnn', 'y': 'nnnn', 're': 'nnnn', 'cm': 'nnnnnn', 'CS': 'N', 'cs': 'N',
       'G': 'n', 'g': 'n', 'RG': 'nnn', 'rg': 'nnn', 'K': 'nnnn', 'k': 'nnnn', 'Tc': 'n', 'Tw': 'n', 'Tz': 'n', 'TL': 'n', 'Tr': 'n', 'Ts': 'n', 'Tf': 'Nn', 'Td': 'nn', 'TD': 'nn', 'Tm': 'nnnnnn',
       'Tj': 's', "'": 's', '"': 'nns', 'TJ': 't', 'Do': 'N', 'EI': 'i'}
GOOD = {'n': b'7', 'N': b'/F', 's': b'(ab)', 'a': b'[1 2]', 't': b'[(ab) 5]'}
GOODNAME = {'CS': b'/DeviceRGB', 'cs': b'/DeviceRGB', 'Tf': b'/F', 'Do': b'/Fm', 'ri': b'/Perceptual'}
BAD = {'n': [b'(1)', b'/N', b'[1]', b'<</A 1>>', b'true', b'null', b'<31>', b'{1}'],
       'N': [b'1', b'[%s]', b'<<%s 1>>', b'false', b'null', b'(%t)', b'1.5', b'{%s}'],
       's': [b'1', b'/A', b'[(a)]', b'<</A (a)>>', b'true', b'null', b'-.5', b'{(a)}'],
       'a': [b'1', b'/A', b'(a)', b'<</A 1>>', b'true', b'null', b'[(a)]', b'[/A 1]', b'[[1]]', b'[1 null]'],
       't': [b'1', b'/A', b'(a)', b'<</A 1>>', b'true', b'null', b'[(a) /A]', b'[[(a)]]', b'[(a) null (b)]', b'[<</A 1>>]', b'[true (a)]']}
UNKNOWN = [b'xx', b'W', b'W*', b'n2', b'f_a', b'B_a', b'b_a', b'T_a', b'_q', b'_w', b'f**', b'*f', b'q1', b'QQ', b'BTx', b'ETx', b'Tjj', b'tj', b'S*', b's*', b"''", b'BX', b'EX', b'MP', b'DP', b'sh', b'gs', b'd0',
           b'd1', b'BMC', b'BDC', b'EMC', b'\xffq', b'q\xff', b'\x80Q', b'w\x80', b'\xc3\x28)', b'T\xc3\xa9', b'0_', b'R', b'obj', b'endobj', b'stream', b'endstream', b'xref', b'trailer', b'def', b'None', b'__init__', b'commands',
           b'-', b'+', b'.', b'--1', b'1-', b'1..2', b'ID', b']', b'>>', b'}']
TYPES = [b'5', b'-.25', b'(s)', b'/N', b'[1 (a) /B]', b'<</A 1>>', b'true', b'null', b'<41>', b'{1 2}']
MISSING = [b'/Nope Do', b'/Gone Do', b'/Void Do', b'/Nul Do', b'/Nope 12 Tf', b'/Gone 12 Tf', b'/Nul 12 Tf', b'/Nope cs', b'/Nope CS', b'/Gone cs', b'/Gone CS', b'/Nul cs', b'/Nope gs', b'/Gone gs', b'/Nope sh', b'/M /Nope BDC', b'/M /Nope DP',
           b'/\xff\xfe Do', b'/#ff 5 Tf', b'/ Do', b'/Odd Do', b'/Odd cs', b'/Odd 3 Tf']
INLINE = [b'BI ID abc EI', b'BI /W 2 ID abc EI', b'BI /H 2 ID abc EI', b'BI /W ID abc EI', b'BI 5 6 ID abc EI', b'BI /W 2 /H ID xyz EI', b'EI', b'5 EI', b'(x) EI', b'/W EI', b'<</W 1 /H 1>> EI', b'BI EI', b'[1] EI', b'ID', b'BI /W 1 /W ID x EI',
          b'BI (W) 2 (H) 3 ID abc EI', b'BI [/W] 2 /H 3 ID abc EI', b'BI <</W 1>> 2 ID abc EI']


def faults():
    out = []
    for u in UNKNOWN:
        out += [u, b'5 ' + u, b'(s) /N ' + u, b'[(Z)] ' + u, b'1 2 3 4 5 6 7 ' + u]
    for t in TYPES:
        out += [t, t + b' ' + t]
    out += [b'1 ' * n for n in (3, 4, 5, 6, 7)] + [b'1 2 3 (s)', b'(s) 1 2 3', b'/N 5', b'5 /N', b'[1] 0', b'(a) (b) (c)']
    for op, sig in OPS.items():
        good = [GOODNAME.get(op, GOOD['N']) if t == 'N' else GOOD.get(t) for t in sig]
        o = op.encode()
        if sig == 'i':
            continue
        for n in range(len(sig)):
            out.append(b' '.join(good[len(sig) - n:] + [o]))
            out.append(b' '.join(good[:n] + [o]))
        for i, t in enumerate(sig):
            for bad in BAD[t]:
                name = good[i][1:] if t == 'N' else b''
                bad = bad.replace(b'%s', b'/' + name).replace(b'%t', name)
                out.append(b' '.join(good[:i] + [bad] + good[i + 1:] + [o]))
        if len(sig) > 1:
            for bad in (b'(1)', b'/N', b'null', b'true'):
                out.append(b' '.join([bad] * len(sig) + [o]))
    # components of a colour in the current space
    out += [b' '.join([x] * n + [o]) for o in (b'sc', b'SC', b'scn', b'SCN') for n in (0, 1, 2, 3, 4) for x in (b'(1)', b'[1]', b'true', b'null', b'<</A 1>>')]
    out += MISSING + INLINE
    seen = []
    for f in dict.fromkeys(out):
        seen.append(f)
    return seen



FEW = [b'5', b'(s) 1 2 3', b'xx', b'/N 5 gs', b'w', b'(1) w', b'1 0 0 cm', b'/N 0 0 1 0 0 cm', b'Tf', b'(F) 3 Tf', b'/Nope Do', b'5 Tj', b'[(a) /A] TJ', b'Tj', b'f_a', b'T_a', b'null null rg', b'1 2 RG', b'5 EI', b'BI /W 2 ID abc EI', b'null 5 m', b'(a) sc']
STRAY = [b'5', b'3', b'1', b'0', b'7', b'(s)', b'/N', b'(c)', b'/B]', b'1>>', b'true', b'null', b'<41>', b'2}']
FAULTS = list(dict.fromkeys(faults() + FEW))


def BOUNDS(tier):
    return ('%d faults at every place of %d programs of 15-18 operators, on a page, inside a form and in front of another page; all pairs of %d faults at all pairs of places of %d programs'
            % (len(FAULTS), len(PROGRAMS), len(FEW) if tier == 'quick' else 2 * len(FEW), 1 if tier == 'quick' else len(PROGRAMS)))


def jobs(tier):
    out = [('one', p, w, i) for p in range(len(PROGRAMS)) for w in ('page', 'form') for i in range(len(PROGRAMS[p]) + 1)]
    progs_ = [0] if tier == 'quick' else range(len(PROGRAMS))
    return out + [('two', p, i) for p in progs_ for i in range(len(PROGRAMS[p]) + 1)] + [('end', 0)]


def explore(job, ctx):
    if job[0] == 'one':
        _, p, where, i = job
        step = 1 if where == 'page' or ctx.tier != 'quick' else 3
        for part in progs.chunks(([[i, f]] for f in range(i % step, len(FAULTS), step)), 60):
            ctx.run({'p': p, 'w': where, 's': part})
    elif job[0] == 'two':
        _, p, i = job
        few = [FAULTS.index(f) for f in FEW]
        if ctx.tier != 'quick':
            few = sorted(set(few) | set(range(0, len(FAULTS), len(FAULTS) // len(FEW))))
        it = ([[i, f], [j, g]] for j in range(i, len(PROGRAMS[p]) + 1) for f in few for g in few
              if not (i == j and FAULTS[f].split()[-1] in STRAY))      # operands in front of an operator without them make a valid one
        for part in progs.chunks(it, 60):
            ctx.run({'p': p, 'w': 'page', 's': part})
    else:
        # programs that end early, after each operand
        toks = [b' '.join(PROGRAMS[p][:i]) + b' ' + t for p in range(len(PROGRAMS)) for i in range(len(PROGRAMS[p])) for t in TYPES]
        for part in progs.chunks(range(len(toks)), 60):
            ctx.run({'k': 'end', 's': part})


def resources():
    return {'Font': {'F': R(7), 'Gone': R(990), 'Nul': None, 'Odd': [1]}, 'ColorSpace': {'Sep': [N('Separation'), N('Spot'), N('DeviceGray'), {'FunctionType': 2, 'N': 1, 'Domain': [0, 1]}], 'Gone': R(990), 'Nul': None, 'Odd': {}},
            'XObject': {'Fm': R(4), 'Im': R(6), 'Gone': R(990), 'Void': {}, 'Nul': None, 'Odd': [1]}, 'ExtGState': {'G': {'LW': 3}, 'Gone': R(990)}}


def make(contents, where):
    objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 3: resources(),
            4: S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9], 'Resources': R(3)}, b'0 0 m 5 5 l S'),
            6: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 1, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceGray')}, b'x')}
    objs[7], _ = simple_font(first=0, widths=[500] * 256)
    kids = []
    n = 1000
    for c in contents:
        res = R(3)
        if where == 'form':
            objs[n + 2] = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 600, 800], 'Resources': R(3)}, c)
            r = resources()
            r['XObject']['Outer'] = R(n + 2)
            res = r
            c = b'.7 g 2 w 9 9 m 8 9 l S 5 6 7 /Outer Do 1 1 m 4 5 l S'
        objs[n] = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 600, 800], 'Resources': res, 'Contents': R(n + 1)}
        objs[n + 1] = S({}, c)
        kids.append(R(n))
        n += 3
    objs[2] = {'Type': N('Pages'), 'Kids': kids, 'Count': len(kids)}
    d = Doc()
    d.rev(objs, root=R(1))
    with open('in.pdf', 'wb') as f:
        f.write(bytes(d))


def read(page):
    """(items, error of the library or None)"""
    from pdfmajor.execptions import PDFMajorException
    got = []
    try:
        for it in page:
            got.append(items.canon(it))
    except PDFMajorException as e:
        return got, e
    return got, None


BASE = {}


def base(p, where):
    if (p, where) not in BASE:
        from pdfmajor.interpreter import PDFInterpreter
        make([b'\n'.join(PROGRAMS[p])], where)
        got, e = read(list(PDFInterpreter('in.pdf'))[0])
        if e:
            raise e
        BASE[p, where] = got
    return BASE[p, where]


def run_case(case, obs):
    from pdfmajor.interpreter import PDFInterpreter
    from mc.engine import exc_text
    if case.get('k') == 'end':
        toks = [(p, b' '.join(PROGRAMS[p][:i]) + b' ' + t, b' '.join(PROGRAMS[p][:i])) for p in range(len(PROGRAMS)) for i in range(len(PROGRAMS[p])) for t in TYPES]
        pairs = [toks[i] for i in case['s']]
        make([x for _, a, b in pairs for x in (b, a)], 'page')
        pages = list(PDFInterpreter('in.pdf'))
        if len(pages) != 2 * len(pairs):
            return '%d of %d pages delivered' % (len(pages), 2 * len(pairs))
        for i, (_, a, b) in enumerate(pairs):
            w, _ = read(pages[2 * i])
            got, err = read(pages[2 * i + 1])
            obs.state(a)
            obs.trans()
            obs.count('traces')
            obs.outcome(got)
            if items.diff(got, w) and not (err and items.diff(got, w[:len(got)]) is None):
                return 'program %r: %s' % (a, items.diff(got, w))
        return None
    p, where = case['p'], case['w']
    want = base(p, where)
    contents = []
    for m in case['s']:
        ops = list(PROGRAMS[p])
        sites = [m] if isinstance(m[0], int) else m
        for i, f in reversed(sites):
            ops.insert(i, FAULTS[f])
        contents.append(b'\n'.join(ops))
    # faultless pages in between
    clean = b'\n'.join(PROGRAMS[p])
    both = [x for i, c in enumerate(contents) for x in ([c, clean] if i % 8 == 7 or i == len(contents) - 1 else [c])]
    make(both, where)
    n = 0
    for i, page in enumerate(PDFInterpreter('in.pdf')):
        n += 1
        desc = 'program %r' % both[i]
        try:
            got, err = read(page)
        except Exception as e:
            return '%s: %s' % (desc, exc_text(e))
        obs.state((p, where, both[i]))
        obs.trans()
        obs.count('traces')
        obs.outcome((p, got, type(err).__name__))
        if both[i] == clean and err:
            return 'faultless page: %s' % err
        w = want[:len(got)] if err and where == 'page' else want
        if err and where == 'form':
            w = want[:1] if len(got) == 1 else want[:len(got)]
        d = items.diff(got, w)
        if d:
            return '%s%s: item %s' % ('faultless page after ' if both[i] == clean else '', desc if both[i] != clean else both[i - 1], d)
    return None if n == len(both) else '%d of %d pages delivered' % (n, len(both))
