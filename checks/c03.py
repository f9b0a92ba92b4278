"""C03: object lookup over every bounded history of incremental updates in every mixture of storage forms.

Reference model: a dictionary updated revision by revision (set / free / keep)."""
import itertools
from io import BytesIO
from mc import pdfref
from mc.pdfgen import Doc, N, R, S
from mc.sizes import sizes

ID = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['entries of the free list carry a generation below 65535 (65535 is the head of the list)']
MODES = ['T', 'X', 'O', 'H', 'P']     # table, cross-reference stream, + object stream, hybrid, hybrid with a (meaningless) Prev in the stream
NUMS = (10, 11, 12)


def BOUNDS(tier):
    return ('all histories of %s over 3 objects (one a stream) with keep/set/free each and 5 storage forms per revision, '
            'those of 2 revisions and those of 3 revisions over 2 objects with the revisions in every other order in the file, '
            '1 to %d objects, subsections and revisions, object numbers to 8388607, offsets to %d (all sizes around powers of 2 and 10); '
            'plus field widths, sparse and missing Index, line-end forms; each read with and without object cache, in 2 '
            'orders, by number and through references' % (
                '1-2 revisions (3 revisions over 2 objects, 3 forms)' if tier == 'quick' else
                '1-2 revisions (3 revisions over 2 objects, 5 forms; 3 revisions over 3 objects, 2 forms)',
                SIZED['T'][tier != 'quick'], SIZED['farT'][tier != 'quick']))


def rev_choices(nums, live, first):
    """Every combination of operations that is possible on the live objects."""
    per = []
    for n in nums:
        per.append(['k', 's'] + (['f'] if n in live else []))
    for c in itertools.product(*per):
        if first or any(x != 'k' for x in c):
            yield c


def histories(nums, depth, modes, prefix=(), live=frozenset()):
    if depth == 0:
        yield list(prefix)
        return
    for c in rev_choices(nums, live, not prefix):
        nl = set(live)
        for n, op in zip(nums, c):
            if op == 's':
                nl.add(n)
            elif op == 'f':
                nl.discard(n)
        for m in modes:
            yield from histories(nums, depth - 1, modes, prefix + ((m,) + c,), frozenset(nl))


SHARDS = 8


def jobs(tier):
    out = [('form', 0)]
    # revisions in another order in the file
    out += [('lay', 2, 3, 'TXOHP', i, 4) for i in range(4)] + [('lay', 3, 2, 'TO' if tier == 'quick' else 'TXOHP', i, 16) for i in range(16)]
    out += [('size', k) for k in SIZED]
    out += [('hist', 1, 3, 'TXOHP', 0, 1)]
    out += [('hist', 2, 3, 'TXOHP', i, SHARDS) for i in range(SHARDS)]
    if tier == 'quick':
        out += [('hist', 3, 2, 'TOP', i, 16) for i in range(16)]
    else:
        out += [('hist', 3, 2, 'TXOHP', i, 32) for i in range(32)]
        out += [('hist', 3, 3, 'TO', i, 64) for i in range(64)]
    return out


# kind: (largest size, of the thorough tier)
SIZED = {'T': (1030, 8200), 'X': (1030, 8200), 'O': (1030, 8200), 'gapsT': (520, 2100), 'gapsX': (520, 2100), 'revsT': (130, 520), 'revsX': (130, 520), 'revsO': (130, 520), 'numT': (8388607,) * 2,
         'numX': (8388607,) * 2, 'numO': (8388607,) * 2, 'farT': (140000, 40000000), 'farX': (140000, 40000000), 'gen': (65534,) * 2}


def sized(k, n):
    """A file with something of size n, the values of its objects and the numbers to look up."""
    d, m = Doc(), k[-1]
    first = {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [], 'Count': 0}}
    if k in ('T', 'X', 'O'):
        model = {10 + i: {'I': i} for i in range(n)}
        revs, last = [model], 10 + n
    elif k.startswith('gaps'):
        model = {10 + 2 * i: [i] for i in range(n)}
        revs, last = [model], 10 + 2 * n
    elif k.startswith('revs'):
        model = {10 + i % 7: b'%d' % i for i in range(n)}
        revs, last = [{10 + i % 7: b'%d' % i} for i in range(n)], 100 + n
    elif k.startswith('num'):
        model = {n: [n], 3: [R(n)]}
        revs, last = [model], 8388000 if n < 8000000 else 20
    elif k == 'gen':
        model = {10: n, 11: b'x'}
        d.rev(dict(first, **{}), root=R(1))
        d.rev(model, root=R(1), gens={10: n})
        return bytes(d), model, [10, 11, 10]
    else:
        model = {10: S({'Rev': 1}, b'x' * n), 11: 1, 12: b'y'}
        revs, last = [model], 20
    for r, objs in enumerate(revs):
        inner = objs if m == 'O' else ()
        kw = {} if m == 'T' else dict(mode='stream', objstm=inner, objstm_num=last + 2 * r if inner else None, xref_num=last + 2 * r + 1)
        d.rev(dict(first, **{}) | objs if r == 0 else objs, root=R(1), **kw)
    want = sorted(model)
    return bytes(d), model, want


def explore(job, ctx):
    if job[0] == 'size':
        for n in sizes(SIZED[job[1]][ctx.tier != 'quick'], least=30 if job[1].startswith('num') else 1):
            ctx.run({'size': job[1], 'z': n})
        return
    if job[0] == 'form':
        for h in [(('X', 's', 's', 's'),), (('O', 's', 's', 's'), ('X', 's', 'f', 'k')), (('X', 's', 'k', 's'), ('O', 'k', 's', 'f')),
                  (('T', 's', 's', 's'), ('T', 'f', 'k', 's'), ('T', 's', 's', 'f')),
                  (('H', 's', 's', 's'), ('H', 'k', 'f', 's'))]:
            for w in [(1, 4, 2), (1, 2, 1), (1, 3, 1), (0, 4, 1), (1, 5, 2), (2, 4, 2), (1, 6, 1), (1, 7, 3), (1, 8, 2), (1, 4, 0)]:
                for split in (True, 'single'):
                    for filt in (True, False):
                        for eol in ('\n', '\r\n', '\r'):
                            if w[0] == 0 and any(r[0] in 'OHP' or 'f' in r for r in h):
                                continue
                            if w[2] == 0 and any(r[0] in 'OHP' or 'f' in r for r in h):
                                continue
                            ctx.run({'h': h, 'n': 3, 'w': w, 'split': split, 'filt': filt, 'eol': eol})
        for mode in 'X':
            for ops in itertools.product('ks', repeat=3):
                ctx.run({'h': (('X',) + ops,), 'n': 3, 'index': False})
        return
    if job[0] == 'lay':
        _, depth, nn, modes, i, k = job
        for j, h in enumerate(histories(NUMS[:nn] if nn == 3 else (10, 12), depth, modes)):
            if j % k == i:
                for lay in list(itertools.permutations(range(depth)))[1:]:
                    ctx.run({'h': h, 'n': nn, 'lay': lay, 'filt': False})
        return
    _, depth, nn, modes, i, k = job
    for j, h in enumerate(histories(NUMS[:nn] if nn == 3 else (10, 12), depth, modes)):
        if j % k == i:
            ctx.run({'h': h, 'n': nn})


def value(n, r):
    if n == 12:
        return S({'Rev': r}, b'data of %d in revision %d' % (n, r) * (1 + r))
    return [{'Num': n, 'Rev': r, 'S': b's%d' % r}, [n, r, None, R(1)]][n == 11]


class Moved(Doc):
    """Revisions stand at chosen places of the file."""

    def __init__(self, base, sections):
        Doc.__init__(self)
        self.base, self.sections, self.parts = base, sections, []

    def rev(self, objs, **kw):
        n = len(self.parts)
        self.buf = bytearray(self.base[n])
        if n:
            self.prev = self.sections[n - 1]
        Doc.rev(self, objs, startxref=False, **kw)
        self.parts.append((bytes(self.buf[self.base[n]:]) + b'startxref\n0\n%%EOF\n', self.prev))


def laid_out(case):
    """The revisions in another order in the file, as in linearized ones."""
    n = len(case['h'])
    base, sections = [20] * n, [20] * n
    while 1:
        d = Moved(base, sections)
        model = build(case, d)[1]
        at, pos = [0] * n, len(Doc().buf)
        for r in case['lay']:
            at[r] = pos
            pos += len(d.parts[r][0])
        if (at, [p for _, p in d.parts]) == (base, sections):
            break
        base, sections = at, [p for _, p in d.parts]
    return bytes(Doc().buf) + b''.join(d.parts[r][0] for r in case['lay']) + b'startxref\n%d\n%%%%EOF\n' % sections[-1], model


def build(case, d=None):
    if d is None and 'lay' in case:
        return laid_out(case)
    nums = NUMS if case['n'] == 3 else (10, 12)
    d = d or Doc()
    model = {}
    gens = {}
    for r, rev in enumerate(case['h']):
        m, ops = rev[0], rev[1:]
        objs = {}
        if r == 0:
            objs[1] = {'Type': N('Catalog'), 'Pages': R(2), 'T': [R(n) for n in NUMS]}
            objs[2] = {'Type': N('Pages'), 'Kids': [], 'Count': 0}
        free = []
        for n, op in zip(nums, ops):
            if op == 's':
                objs[n] = value(n, r)
                model[n] = objs[n]
            elif op == 'f':
                free.append(n)
                model[n] = None
                gens[n] = gens.get(n, 0) + 1
        inner = [n for n in objs if not isinstance(objs[n], S) and gens.get(n, 0) == 0
                 and (m == 'O' or (m in 'HP' and n > 2))]
        kw = dict(widths=tuple(case.get('w', (1, 4, 2))), split=case.get('split', True), filt=case.get('filt', True),
                  eol=case.get('eol', '\n').encode(), gens=dict(gens))
        if m == 'T' or (m in 'HP' and not inner):
            d.rev(objs, root=R(1), free=free, **kw)
        elif m in 'HP':
            # objects kept in the object stream are hidden from readers of the table: listed free there
            d.rev(objs, root=R(1), free=free, hybrid='prev' if m == 'P' else True, objstm=inner, objstm_num=50 + r, xref_num=60 + r, **kw)
        else:
            d.rev(objs, root=R(1), free=free, mode='stream', objstm=inner if m == 'O' else (),
                  objstm_num=50 + r if inner and m == 'O' else None, xref_num=60 + r,
                  index=case.get('index', True), **kw)
    return bytes(d), model


def run_case(case, obs):
    from pdfmajor.execptions import PDFObjectNotFound
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFStream import resolve1, PDFStream
    if 'size' in case:
        data, model, nums = sized(case['size'], case['z'])
        obs.state((case['size'], case['z']))
        for caching in (True, False):
            doc = PDFDocument(PDFParser(BytesIO(data)), caching=caching)
            obs.count('traces')
            for n in nums if caching or len(nums) < 20 else nums[:3] + nums[len(nums) // 2:len(nums) // 2 + 1] + nums[-3:]:
                obs.trans(1)
                try:
                    got = doc.getobj(n)
                except PDFObjectNotFound:
                    return 'object %d (caching=%s) is missing' % (n, caching)
                e = differs(got, model[n], PDFStream)
                if e:
                    return 'object %d (caching=%s): %s' % (n, caching, e[:300])
        return None
    data, model = build(case)
    obs.state(repr(sorted((n, repr(v)) for n, v in model.items())) + repr([h[0] for h in case['h']]))
    obs.trans(len(case['h']))
    for caching in (True, False):
        for order in ((10, 11, 12), (12, 11, 10)):
            doc = PDFDocument(PDFParser(BytesIO(data)), caching=caching)
            obs.count('traces')
            for n in order + order:
                want = model.get(n)
                try:
                    got = doc.getobj(n)
                except PDFObjectNotFound:
                    got = None
                e = differs(got, want, PDFStream)
                if e:
                    return 'object %d (caching=%s, order %r): %s' % (n, caching, order, e)
            refs = resolve1(doc.catalog['T'])
            for n, ref in zip(NUMS, refs):
                e = differs(resolve1(ref), model.get(n), PDFStream)
                if e:
                    return 'reference to object %d: %s' % (n, e)
    # objects added by the last lookup must not depend on a previous document of the process
    return None


def differs(got, want, PDFStream):
    if isinstance(want, S):
        if not isinstance(got, PDFStream):
            return 'read as %r, not the stream %r' % (got, want)
        if got.get_data() != want.data or got.get('Rev') != want.attrs['Rev']:
            return 'stream %r %r, not %r' % (got.attrs, got.get_data(), want)
        return None
    g, w = pdfref.canon(got), pdfref.canon_gen(want)
    return None if g == w else 'read as %r, not %r' % (g, w)
