"""C05: page trees. Every tree up to the bound, every placement of the inheritable attributes, every page
selection; and the page matrix for every box and rotation."""
import itertools
import os
from mc.items import box
from mc.pdfgen import Doc, N, R, S
from mc.sizes import sizes

ID = 'C05'
LEVEL = 'model_checking'
ASSUMPTIONS = ['page trees are trees (cycles belong to C27)']
ATTRS = ['MediaBox', 'CropBox', 'Rotate', 'Resources']


def BOUNDS(tier):
    return ('all ordered trees of <=%d nodes with pages or empty branches as leaves (kids by reference); all placements of 4 '
            'inheritable attributes on every node of every path to depth 3; all page selections of up to 3 of 4 pages x '
            'page limits 0..5; all rotations x boxes x corners the boxes are given by; 1 to 260 pages in a node (520 without a tree), trees of depth up to 260 (all sizes around powers of 2 and 10); missing page trees with pages at all subsets of 5 numbers in 4 kinds of storage, 3 of them freed, replaced or renewed by a second revision; object stream storage' % (6 if tier == 'quick' else 8))


def trees(n):
    """All ordered forests with n nodes: a tree is ('p',) a page or ('b', kids)."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for t in tree(first):
            for rest in trees(n - first):
                yield (t,) + rest


def tree(n):
    if n == 1:
        yield 'p'
    for kids in trees(n - 1):
        yield ('b',) + kids


STORES = ['table', 'stream', 'objstm', 'hybrid']
PLACES = [5, 6, 8, 9, 12]      # numbers pages without a tree can have


def jobs(tier):
    return [('tree', n, i, 4) for n in range(1, (6 if tier == 'quick' else 8) + 1) for i in range(4)] + \
        [('inherit', d, i, 8) for d in (1, 2, 3) for i in range(8)] + \
        [('select', i, 4) for i in range(4)] + [('matrix', i, 4) for i in range(4)] + [('flat',)] + [('size', k, tier, i) for k in ('select', 'deep', 'comb', 'flat') for i in range(3)] + [('lost', m, i, 2) for m in STORES for i in range(2)]


def explore(job, ctx):
    if job[0] == 'tree':
        for i, t in enumerate(trees(job[1])):
            if i % job[3] == job[2]:
                ctx.run({'k': 'tree', 't': t, 'objstm': i % 2})
    elif job[0] == 'inherit':
        # a chain of branches with a page and a sibling page behind the innermost branch; each attribute
        # is present or absent at every level, independently
        depth = job[1]
        for i, bits in enumerate(itertools.product(range(1 << (depth + 1)), repeat=2)):
            if i % job[3] == job[2]:
                for a, b in (('MediaBox', 'Resources'), ('Rotate', 'CropBox')):
                    ctx.run({'k': 'inherit', 'depth': depth, 'a': a, 'b': b, 'bits': bits})
    elif job[0] == 'select':
        sels = [None, []] + [list(c) for k in (1, 2, 3) for c in itertools.combinations(range(5), k)] + [[3, 0], [2, 2], [9], [-1]]
        n = 0
        for npages in (1, 2, 4):
            for sel in sels:
                for mx in range(0, 6):
                    n += 1
                    if n % job[2] == job[1]:
                        ctx.run({'k': 'select', 'n': npages, 'sel': sel, 'max': mx})
    elif job[0] == 'matrix':
        n = 0
        boxes = [(0, 0, 100, 200), (10, 20, 110, 220), (-50, -30, 60, 70), (5.5, 0, 300, 100.25)]
        for box in boxes:
            for rot in (None, 0, 90, 180, 270, 360, 450, -90, -180, -270, 720):
                for crop in (None, (20, 30, 50, 60)):
                    for turn in range(4):
                        n += 1
                        if n % job[2] == job[1]:
                            ctx.run({'k': 'matrix', 'box': box, 'rot': rot, 'crop': crop, 'turn': turn})
    elif job[0] == 'size':
        for n in list(sizes({'select': 260, 'deep': 260, 'comb': 130, 'flat': 520}[job[1]] * (1 if job[2] == 'quick' else 2) // (1 if job[2] == 'quick' or job[1] != 'deep' else 2)))[job[3]::3]:
            if job[1] == 'select':
                for sel, mx in ((None, 0), (None, n - 1), (None, n), (None, n + 1), ([n - 1], 0), ([0, n - 1], n), (list(range(n)), n)):
                    ctx.run({'k': 'select', 'n': n, 'sel': sel, 'max': mx})
            elif job[1] == 'flat':
                ctx.run({'k': 'flat', 'n': n})
            else:
                for o in (0, 1):
                    ctx.run({'k': 'tree', job[1]: n, 'objstm': o})
    elif job[0] == 'lost':
        # which numbers hold pages, and in a second revision: which are freed, replaced by something else, or new
        n = 0
        for old in itertools.product((0, 1), repeat=len(PLACES)):
            for new in [None] + list(itertools.product((0, 1, 2, 3), repeat=3)):
                n += 1
                if any(old) and n % job[3] == job[2]:
                    ctx.run({'k': 'lost', 'm': job[1], 'old': old, 'new': new})
    else:
        for n in range(1, 5):
            ctx.run({'k': 'flat', 'n': n})


class Builder(object):
    def __init__(self):
        self.objs = {1: {'Type': N('Catalog'), 'Pages': R(2)}}
        self.next = 10
        self.pages = []

    def new(self):
        self.next += 1
        return self.next - 1

    def page(self, parent, extra=None):
        k = len(self.pages)
        num, c = self.new(), self.new()
        self.objs[num] = dict({'Type': N('Page'), 'Parent': R(parent), 'Contents': R(c)}, **(extra or {}))
        self.objs[c] = S({}, b'0 0 m %d 0 l S' % (k + 1))
        self.pages.append(num)
        return num


def render(case):
    b = Builder()
    want = []
    if case['k'] == 'tree':
        def walk(kids, num, parent):
            refs = []
            for t in kids:
                if t == 'p':
                    refs.append(R(b.page(num)))
                    want.append({'MediaBox': [0, 0, 100, 200]})
                else:
                    m = b.new()
                    walk(t[1:], m, num)
                    refs.append(R(m))
            b.objs[num] = {'Type': N('Pages'), 'Kids': refs, 'Count': 0}
            if parent:
                b.objs[num]['Parent'] = R(parent)
        t = case.get('t')
        if t is None:
            # chains of branches, with pages at the end only or at both sides of each
            t = ('p',)
            for _ in range(case.get('deep', case.get('comb')) - 1):
                t = (('b',) + t,) if 'deep' in case else ('p', ('b',) + t, 'p')
        walk(t, 2, None)
        b.objs[2]['MediaBox'] = [0, 0, 100, 200]
    elif case['k'] == 'inherit':
        depth = case['depth']
        (x, y) = case['bits']

        def vals(level):
            return {'MediaBox': [0, 0, 100 + level, 200], 'CropBox': [1, 1, 50 + level, 50], 'Rotate': 90 * (level % 4),
                    'Resources': {'XLevel': level}}
        nums = [2] + [b.new() for _ in range(depth - 1)]
        eff = {}
        for level in range(depth):
            n = nums[level]
            o = {'Type': N('Pages'), 'Count': 1, 'Kids': []}
            for name, bits in ((case['a'], x), (case['b'], y)):
                if bits >> level & 1:
                    o[name] = vals(level)[name]
            b.objs[n] = o
            if level:
                o['Parent'] = R(nums[level - 1])
        for level in range(depth):
            eff.update({k: v for k, v in b.objs[nums[level]].items() if k in ATTRS})
            # a page in front of the inner branch, the inner branch, and a page behind it
            own = {}
            for name, bits in ((case['a'], x), (case['b'], y)):
                if bits >> depth & 1:
                    own[name] = vals(depth + level)[name]
            b.objs[nums[level]]['_own'] = own
            b.objs[nums[level]]['_eff'] = dict(eff)

        def emit(level):
            o = b.objs[nums[level]]
            own, e = o.pop('_own'), o.pop('_eff')
            kids = []
            extra = dict(own)
            plain = {}
            if 'MediaBox' not in e:
                extra.setdefault('MediaBox', [0, 0, 7, 7])
                plain['MediaBox'] = [0, 0, 8, 8]
            kids.append(R(b.page(nums[level], extra)))
            want.append(dict(e, **extra))
            if level + 1 < depth:
                kids.append(R(nums[level + 1]))
                emit(level + 1)
            kids.append(R(b.page(nums[level], plain)))
            want.append(dict(e, **plain))
            o['Kids'] = kids
        emit(0)
    else:
        n = case['n']
        kids = []
        for i in range(n):
            extra = {'MediaBox': [0, 0, 100 + i, 200]}
            kids.append(R(b.page(2, extra)))
            want.append(extra)
        b.objs[2] = {'Type': N('Pages'), 'Kids': kids, 'Count': n}
        if case['k'] == 'flat':
            del b.objs[1]['Pages']
    # numbers of the drawn line identify the page content
    for i, w in enumerate(want):
        w['id'] = None
    order = b.pages
    ids = {}
    for num in order:
        c = b.objs[num]['Contents'].num
        ids[num] = int(b.objs[c].data.split()[3])
    # the pages in tree order
    seq = []

    def inorder(num):
        o = b.objs[num]
        if o['Type'] == 'Page':
            seq.append(ids[num])
        for r in o.get('Kids', ()):
            inorder(r.num)
    inorder(2)
    for w, i in zip(want, seq):
        w['id'] = i
    d = Doc()
    if case.get('objstm'):
        d.rev(b.objs, root=R(1), mode='stream', xref_num=8000, objstm=[k for k in b.objs if not isinstance(b.objs[k], S)], objstm_num=8001)
    else:
        d.rev(b.objs, root=R(1))
    return bytes(d), want


def lost(case, obs):
    """The pages of a document without a page tree: those the newest revision defines, each once."""
    from io import BytesIO
    from pdfmajor.parser.PDFPage import PDFPage
    from pdfmajor.parser.PDFStream import resolve1
    page = lambda n: {'Type': N('Page'), 'MediaBox': [0, 0, 9, 9], 'Contents': R(20 + n % 100)}
    d = Doc()
    objs = {1: {'Type': N('Catalog')}}
    want = {}
    for n, p in zip(PLACES, case['old']):
        objs[n] = page(n) if p else {'Kind': N('Page')}
        objs[20 + n] = S({}, b'%d' % n)
        if p:
            want[n] = n

    def rev(objs, at, free=()):
        inner = [n for n, v in objs.items() if not isinstance(v, S) and n != 1]
        if case['m'] == 'table' or not inner and case['m'] == 'hybrid':
            d.rev(objs, root=R(1), free=free)
        elif case['m'] == 'hybrid':
            d.rev(objs, root=R(1), free=free, objstm=inner, objstm_num=at, xref_num=at + 1, hybrid=True)
        else:
            d.rev(objs, root=R(1), free=free, mode='stream', objstm=inner if case['m'] == 'objstm' else (), objstm_num=at if case['m'] == 'objstm' and inner else None, xref_num=at + 1)
    rev(objs, 50)
    if case['new'] is not None:
        objs, free = {60: 5}, []
        for n, what in zip(PLACES[1:], case['new']):
            if what:
                want.pop(n, None)
            if what == 1:
                free.append(n)
            elif what == 2:
                objs[n] = [N('Page')]
            elif what == 3:
                objs[n] = page(100 + n)
                objs[20 + n] = S({}, b'%d' % (100 + n))
                want[n] = 100 + n
        rev(objs, 52, free)
    obs.state(repr(case))
    obs.trans(len(want))
    got = sorted((p.pageid, int(resolve1(p.contents[0]).get_data())) for p in PDFPage.get_pages(BytesIO(bytes(d))))
    obs.outcome(repr(got))
    if got != sorted(want.items()):
        return 'without a page tree the pages (number, content) are %r, not %r' % (got, sorted(want.items()))
    return None


def run_case(case, obs):
    from io import BytesIO
    from pdfmajor.execptions import EmptyDocumentError
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.parser.PDFPage import PDFPage
    from pdfmajor.parser.PDFStream import resolve1, dict_value
    obs.count('traces')
    if case['k'] == 'matrix':
        return matrix(case, obs)
    if case['k'] == 'lost':
        return lost(case, obs)
    data, want = render(case)
    obs.state(repr(case))
    obs.trans(len(want))
    sel, mx = case.get('sel'), case.get('max', 0)
    chosen = [w for i, w in enumerate(want) if (not sel or i in sel) and (not mx or i < mx)]
    with open('in.pdf', 'wb') as f:
        f.write(data)
    got = []
    for p in PDFPage.get_pages(BytesIO(data), pagenos=sel, maxpages=mx):
        got.append({'id': int(resolve1(p.contents[0]).get_data().split()[3]), 'MediaBox': list(p.mediabox),
                    'CropBox': list(p.cropbox), 'Rotate': p.rotate, 'Level': dict_value(p.resources).get('XLevel')})
    exp = [{'id': w['id'], 'MediaBox': w['MediaBox'], 'CropBox': w.get('CropBox', w['MediaBox']),
            'Rotate': w.get('Rotate', 0) % 360, 'Level': w.get('Resources', {}).get('XLevel')} for w in chosen]
    obs.outcome(repr(exp))
    if got != exp:
        return 'pages are %.600r, not %.600r' % (got, exp)
    # through the interpreter: the items of each page, its number and size
    pages = []
    try:
        for p in PDFInterpreter('in.pdf', pagenos=sel, maxpages=mx):
            # a line from the origin: its length along the page identifies the content
            it = list(p)
            if len(it) != 1:
                return 'page yields %r' % it
            pages.append((round(max(it[0].width, it[0].height), 6), p.page_num, p.width, p.height))
    except EmptyDocumentError:
        if chosen:
            return 'document reported empty instead of %r' % chosen
    wantp = []
    for i, w in enumerate(chosen):
        m = w['MediaBox']
        size = (m[2] - m[0], m[3] - m[1])
        wantp.append((w['id'], i) + (size if w.get('Rotate', 0) % 180 == 0 else size[::-1]))
    if pages != wantp:
        return 'interpreted pages (content, number, width, height) are %.600r, not %.600r' % (pages, wantp)
    return None


def turned(b, how):
    """The same box by other corners."""
    return [[b[0], b[1], b[2], b[3]], [b[2], b[3], b[0], b[1]], [b[0], b[3], b[2], b[1]], [b[2], b[1], b[0], b[3]]][how]


def matrix(case, obs):
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.parser.PDFPage import PDFPage
    from mc.pdfgen import simple
    x0, y0, x1, y1 = case['box']
    extra = {}
    if case['rot'] is not None:
        extra['Rotate'] = case['rot']
    if case['crop']:
        extra['CropBox'] = turned(case['crop'], case['turn'])
    # an L of two lines pins the matrix down
    c = b'%g %g m %g %g l S %g %g m %g %g l S' % (x0 + 3, y0 + 4, x0 + 13, y0 + 4, x0 + 3, y0 + 4, x0 + 3, y0 + 24)
    with open('in.pdf', 'wb') as f:
        f.write(simple([c], mediabox=turned(case['box'], case['turn']), page_extra=extra))
    obs.state(repr(case))
    obs.trans(2)
    page = next(iter(PDFInterpreter('in.pdf')))
    got = [tuple(round(v, 4) for v in box(it.bbox)) for it in page]
    w, h = x1 - x0, y1 - y0
    rot = (case['rot'] or 0) % 360
    size = (w, h) if rot in (0, 180) else (h, w)
    if (page.width, page.height) != size:
        return 'the size of the page is %r, not %r' % ((page.width, page.height), size)
    with open('in.pdf', 'rb') as f:
        for p in PDFPage.get_pages(f):
            if list(p.mediabox) != list(case['box']) or list(p.cropbox) != list(case['crop'] or case['box']):
                return 'the boxes of the page are %r and %r' % (p.mediabox, p.cropbox)

    def dev(x, y):
        u, v = x - x0, y - y0
        return {0: (u, v), 90: (v, w - u), 180: (w - u, h - v), 270: (h - v, u)}[rot]
    want = []
    for (ax, ay, bx, by) in ((3, 4, 13, 4), (3, 4, 3, 24)):
        p, q = dev(x0 + ax, y0 + ay), dev(x0 + bx, y0 + by)
        want.append(tuple(round(v, 4) for v in (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))))
    obs.outcome(repr(want))
    if got != want:
        return 'boxes of two lines are %r, not %r' % (got, want)
    return None
