"""C25: named destinations and outlines. Every small name tree in every notation with every key in and around it, every small outline tree with every kind of
entry, and every interleaving of walking outlines, looking up names and reading pages of one document."""
import itertools
import zlib
from io import BytesIO
from mc import pdfref
from mc.pdfcrypt import Crypt
from mc.pdfgen import N, R, S, Doc, ser

ID = 'C25'
LEVEL = 'model_checking'
ASSUMPTIONS = ['outline entries lead somewhere (they have a destination or an action); whether entries with nothing but a title are delivered is left open',
               'name trees are well formed; Limits may be missing']
CASE_CPU_S = 60
KEYS = [b'', b'A', b'A\x00', b'AB', b'a(', b'\xfe\xff\x00a', b'\xff']           # sorted
ABSENT = [b'\x00', b'@', b'A\x00\x00', b'AA', b'ABC', b'B', b'\xff\x00', b'zz', 'A', '']
VALUES = ['dest', 'dict', 'zero', 'empty', 'list', 'false', 'edict', 'name', 'float', 'str']
MODES = ['plain', 'rootlimits', 'nolimits', 'leaflimits', 'direct', 'refall', 'objstm', 'rc4', 'aes', 'r5', 'split', 'nocache']
KINDS = 'DNSABRx'
CONT = ['plain', 'objstm', 'rc4', 'aes', 'r5', 'ref', 'nocache', 'count']


def BOUNDS(tier):
    k, n, o, l = dims(tier)
    return ('all name trees over up to %d keys and depth %d with an empty leaf anywhere x %d notations x all %d keys in and around them; all outline forests of up to %d entries, '
            'all kinds of entries up to %d, in %d notations; every byte as title; lists and nests of up to 5000 entries; all interleavings of three readers of one document'
            % (k, n, len(MODES), len(KEYS) + len(ABSENT), o, l, len(CONT)))


def dims(tier):
    return (5, 3, 5, 3) if tier == 'quick' else (6, 4, 7, 4)


def trees(n, depth):
    """All trees over n keys (an int is a leaf, a list a node with kids)."""
    yield n
    if depth > 1:
        for cuts in itertools.product((0, 1), repeat=n - 1) if n else [()]:
            sizes, c = [], 1
            for b in cuts:
                if b:
                    sizes.append(c)
                    c = 1
                else:
                    c += 1
            if n:
                sizes.append(c)
            for kids in itertools.product(*[list(trees(s, depth - 1)) for s in sizes]):
                yield list(kids)


def hollow(t):
    """t with an empty leaf at every place."""
    if isinstance(t, list):
        for i in range(len(t) + 1):
            yield t[:i] + [0] + t[i:]
        for i, k in enumerate(t):
            for h in hollow(k):
                yield t[:i] + [h] + t[i + 1:]


def forests(n):
    """All ordered forests of n entries (lists of lists)."""
    if n == 0:
        yield []
        return
    for k in range(n):
        for a in forests(k):
            for b in forests(n - 1 - k):
                yield [a] + b


def jobs(tier):
    k, n, o, l = dims(tier)
    return ([('names', m, i) for m in MODES for i in range(k + (m != 'nocache'))] + [('hollow', m) for m in MODES] + [('old', 0)] +
            [('out', c, i) for c in CONT for i in range(o + 1)] + [('kinds', i) for i in range(1, l + 1)] + [('title', 0)] +
            [('long', x, c) for x in ('chain', 'nest', 'wide', 'deep') for c in ('plain', 'objstm')] + [('sched', c, i) for c in (0, 1) for i in range(4)])


def explore(job, ctx):
    kmax, depth, omax, lmax = dims(ctx.tier)
    if job[0] == 'names':
        for t in trees(job[2], depth):
            for first in range(0, len(KEYS) - job[2] + 1, 2):
                ctx.run({'k': 'names', 't': t, 'm': job[1], 'f': first, 'v': (first + job[2]) % len(VALUES)})
    elif job[0] == 'hollow':
        for n in range(0, kmax - 1):
            for t in trees(n, depth):
                for h in hollow(t):
                    ctx.run({'k': 'names', 't': h, 'm': job[1], 'f': n, 'v': n})
    elif job[0] == 'old':
        for new in (None, 0, 2, [1, 1]):
            for n in range(4):
                for v in range(len(VALUES)):
                    ctx.run({'k': 'old', 'n': n, 't': new, 'v': v})
    elif job[0] == 'out':
        for f in forests(job[2]):
            ctx.run({'k': 'out', 'c': job[1], 's': [f], 'e': 'DNSAB'})
    elif job[0] == 'kinds':
        for f in forests(job[1]):
            for e in itertools.product(KINDS, repeat=job[1]):
                ctx.run({'k': 'out', 'c': 'plain', 's': [f], 'e': ''.join(e)})
    elif job[0] == 'title':
        for enc in ('pdf', 'utf16', 'ref', 'rc4', 'aes', 'r5'):
            for lo in range(0, 256, 32):
                ctx.run({'k': 'title', 'n': enc, 'f': lo})
    elif job[0] == 'long':
        for n in (10, 200, 1000, 1500) if ctx.tier == 'quick' else (10, 200, 1000, 1500, 3000, 5000):
            ctx.run({'k': 'long', 'x': job[1], 'c': job[2], 'n': n})
    else:
        n = 3 if ctx.tier == 'quick' else 4
        words = sorted(set(itertools.permutations('o' * n + 'p' * 3 + 'l' * 2)))
        for i, w in enumerate(words):
            if i % 4 == job[2]:
                ctx.run({'k': 'sched', 'w': ''.join(w), 'c': job[1]})


class Build(object):
    def __init__(self):
        self.objs = {}
        self.n = 10

    def add(self, v):
        self.n += 1
        self.objs[self.n] = v
        return R(self.n)

    def reserve(self):
        self.n += 1
        return R(self.n)


def value(kind, i):
    page = R(3)
    return {'dest': [page, N('XYZ'), i, 7, None], 'dict': {'D': [page, N('Fit'), i]}, 'zero': 0, 'empty': b'', 'list': [], 'false': False, 'edict': {}, 'name': N('x%d' % i),
            'float': i + .5, 'str': b's%d' % i}[kind]


def deep(x, seen=()):
    """Resolves a value of the library and gives its canonical form; pages are named by their number."""
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    while isinstance(x, PDFObjRef):
        if x.objid == 3:
            return ('r', 3)
        x = x.resolve()
    if isinstance(x, list):
        return [deep(v) for v in x]
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    return pdfref.canon(x)


def name_tree(b, t, keys, vals, mode):
    """Writes the tree; returns the root as a value."""
    it = iter(zip(keys, vals))

    def node(t, top, inner):
        d = {}
        if isinstance(t, int):
            got = [next(it) for _ in range(t)]
            arr = []
            for k, v in got:
                if mode in ('refall', 'split'):
                    k2, v = (b.add(k), b.add(v)) if mode == 'refall' else (k, b.add(v))
                    arr += [k2, v]
                else:
                    arr += [k, v]
            d['Names'] = b.add(arr) if mode == 'refall' else arr
            ks = [k for k, _ in got]
        else:
            sub = [node(x, False, True) for x in t]
            kids = [x if mode == 'direct' else b.add(x) for x, _ in sub]
            d['Kids'] = b.add(kids) if mode == 'refall' else kids
            ks = [k for _, s in sub for k in s]
        lim = {'nolimits': False, 'rootlimits': True, 'leaflimits': isinstance(t, int) and not top}.get(mode, not top)
        if lim and ks:
            l = [ks[0], ks[-1]]
            if mode == 'refall':
                l = b.add([b.add(x) for x in l])
            d['Limits'] = l
        return d, ks
    return node(t, True, False)[0]


def document(b, catalog, mode='plain', trailer=None):
    objs = dict(b.objs)
    objs[1] = dict({'Type': N('Catalog'), 'Pages': R(2)}, **catalog)
    objs[2] = {'Type': N('Pages'), 'Kids': [R(3), R(4)], 'Count': 2, 'MediaBox': [0, 0, 100, 100]}
    objs[3] = {'Type': N('Page'), 'Parent': R(2), 'Contents': R(5), 'Resources': {}}
    objs[4] = {'Type': N('Page'), 'Parent': R(2), 'Contents': R(5), 'Resources': {}}
    objs[5] = S({}, b'0 0 m 5 5 l S')
    crypt = {'rc4': Crypt('r3', '', ''), 'aes': Crypt('v4aes', '', ''), 'r5': Crypt('r5', '', '')}.get(mode)
    tr = {}
    if crypt:
        tr = {'Encrypt': crypt.dict, 'ID': [crypt.docid, crypt.docid]}
    d = Doc(crypt=crypt)
    top = max(objs) + 1
    if mode == 'objstm':
        inner = [n for n, v in objs.items() if not isinstance(v, S)]
        d.rev(objs, root=R(1), trailer=tr, mode='stream', objstm=inner, objstm_num=top, xref_num=top + 1)
    else:
        d.rev(objs, root=R(1), trailer=tr)
    return bytes(d)


def open_doc(data, caching=True):
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    return PDFDocument(PDFParser(BytesIO(data)), caching=caching)


def probe(doc, f, key):
    from pdfmajor.execptions import PDFDestinationNotFound
    try:
        v = f(key)
    except (KeyError, PDFDestinationNotFound):
        return 'missing'
    return ('found', deep(v))


def outline(b, forest, kinds, cont='plain'):
    """Writes the outline; returns (reference to its root, expected entries)."""
    want = []
    count = itertools.count()

    def level(entries, parent, lv):
        refs = [b.reserve() for _ in entries]
        for j, (r, sub) in enumerate(zip(refs, entries)):
            i = next(count)
            kind = kinds[i % len(kinds)]
            title = b'T%d' % i
            dest = action = se = None
            if kind in 'DR':
                dest = [R(3), N('FitH'), i]
            elif kind == 'N':
                dest = N('n%d' % i)
            elif kind == 'S':
                dest = b's%d' % i
            if kind in 'AB':
                action = {'S': N('GoTo'), 'D': [R(3), N('Fit'), i]}
            if kind == 'B':
                se = {'S': N('P'), 'n': i}
            want.append((lv, None if kind == 'x' else title.decode(), dest, action, se))
            d = {'Title': title, 'Parent': parent}
            for key, v in (('Dest', dest), ('A', action), ('SE', se)):
                if v is not None:
                    d[key] = v
            if kind == 'R' or cont == 'ref':
                for key in ('Title', 'Dest', 'A', 'SE'):
                    if key in d:
                        d[key] = b.add(d[key])
            if j:
                d['Prev'] = refs[j - 1]
            if j + 1 < len(refs):
                d['Next'] = refs[j + 1]
            if sub:
                first, last, n = level(sub, r, lv + 1)
                d['First'], d['Last'] = first, last
                d['Count'] = -n if cont == 'count' else n
            elif cont == 'count':
                d['Count'] = 0
            b.objs[r.num] = d
        return refs[0], refs[-1], len(refs)
    root = b.reserve()
    d = {'Type': N('Outlines')}
    if forest:
        d['First'], d['Last'], d['Count'] = level(forest, root, 1)
    b.objs[root.num] = d
    return root, [(lv, t, gdeep(x), gdeep(a), gdeep(s)) for lv, t, x, a, s in want if t is not None]


def gdeep(x):
    return pdfref.canon_gen(x)


def entry(x):
    lv, t, d, a, s = x
    return (lv, t, deep(d), deep(a), deep(s))


def walk(doc, obs=None):
    from pdfmajor.execptions import PDFNoOutlines
    try:
        got = [entry(x) for x in doc.get_outlines()]
    except PDFNoOutlines:
        return []
    return [x for x in got if x[2] is not None or x[3] is not None]


def run_case(case, obs):
    k = case['k']
    obs.count('traces')
    if k == 'names':
        b = Build()
        n = total(case['t'])
        keys = KEYS[case['f'] % (len(KEYS) - n + 1):][:n]
        vals = [value(VALUES[(case['v'] + i) % len(VALUES)], i) for i in range(n)]
        mode = case['m']
        tree = name_tree(b, case['t'], keys, vals, mode)
        # a second category must not be searched
        other = name_tree(b, 2, [b'AA', b'zz'], [value('dest', 91), value('dest', 92)], 'plain')
        names = {'Dests': tree if mode in ('direct', 'split') else b.add(tree), 'Other': b.add(other)}
        data = document(b, {'Names': names if mode == 'direct' else b.add(names)}, mode)
        doc = open_doc(data, mode != 'nocache')
        want = {x: ('found', gdeep(v)) for x, v in zip(keys, vals)}
        obs.state((case['t'], mode, keys))
        for order in (1, -1):
            for key in (KEYS + ABSENT)[::order]:
                obs.trans()
                w = want.get(key, 'missing')
                got = probe(doc, lambda x: doc.lookup_name('Dests', x), key)
                obs.outcome((got, case['t']))
                if got != w:
                    return 'looking up %r gives %r instead of %r' % (key, got, w)
                got = probe(doc, doc.get_dest, key)
                if got != w:
                    return 'destination %r is %r instead of %r' % (key, got, w)
        if probe(doc, lambda x: doc.lookup_name('Nothing', x), b'A') != 'missing':
            return 'name found in a category that is not there'
        return None
    if k == 'old':
        b = Build()
        vals = [value(VALUES[(case['v'] + i) % len(VALUES)], i) for i in range(case['n'])]
        dests = {'%s' % 'ABC'[i]: (b.add(v) if i & 1 else v) for i, v in enumerate(vals)}
        cat = {'Dests': b.add(dests)} if case['n'] else {}
        keys = []
        if case['t'] is not None:
            keys = [b'A', b'z']
            cat['Names'] = {'Dests': b.add(name_tree(b, case['t'], keys, [value('dest', 50), value('dest', 51)], 'plain'))}
            keys = keys[:total(case['t'])]
        doc = open_doc(document(b, cat))
        obs.state(case)
        for key in ['A', 'B', 'C', 'D', '', b'A', b'z', b'B']:
            obs.trans()
            w = 'missing'
            if isinstance(key, str):
                if key in list('ABC')[:case['n']] and key:
                    w = ('found', gdeep(vals['ABC'.index(key)]))
            elif key in keys:
                w = ('found', gdeep(value('dest', 50 + keys.index(key))))
            got = probe(doc, doc.get_dest, key)
            obs.outcome((got, key))
            if got != w:
                return 'destination %r is %r instead of %r' % (key, got, w)
        return None
    if k == 'out':
        for f in case['s']:
            b = Build()
            root, want = outline(b, f, case['e'], case['c'])
            doc = open_doc(document(b, {'Outlines': root}, case['c']), case['c'] != 'nocache')
            obs.state((f, case['e']))
            for again in (0, 1):
                got = walk(doc)
                obs.trans(len(want))
                obs.outcome(got)
                if got != want:
                    return '%s walk gives %r instead of %r' % (('first', 'second')[again], got, want)
        return None
    if k == 'title':
        return title_case(case, obs)
    if k == 'long':
        n, x = case['n'], case['x']
        b = Build()
        if x in ('chain', 'nest'):
            # written here, without recursion
            root = b.reserve()
            refs = [b.reserve() for _ in range(n)]
            b.objs[root.num] = {'First': refs[0], 'Last': refs[-1 if x == 'chain' else 0]}
            for i, r in enumerate(refs):
                d = {'Title': b'T%d' % i, 'Dest': b'%d' % i, 'Parent': root}
                if i + 1 < n:
                    d.update({'Next': refs[i + 1]} if x == 'chain' else {'First': refs[i + 1], 'Last': refs[i + 1]})
                b.objs[r.num] = d
            doc = open_doc(document(b, {'Outlines': root}, case['c']))
            got = walk(doc)
            want = [(1 if x == 'chain' else i + 1, 'T%d' % i, b'%d' % i, None, None) for i in range(n)]
            obs.state((n, x))
            obs.trans(n)
            obs.outcome(len(got))
            return None if got == want else '%d of %d entries' % (len(got), n)
        keys = [b'%05d' % (2 * i) for i in range(n)]
        if x == 'wide':
            kids = [b.add({'Limits': [keys[i], keys[i]], 'Names': [keys[i], i]}) for i in range(n)]
            root = b.add({'Kids': kids})
        else:
            kid = b.add({'Limits': [keys[-1], keys[-1]], 'Names': [keys[-1], n - 1]})
            for i in range(n - 2, -1, -1):
                leaf = b.add({'Limits': [keys[i], keys[i]], 'Names': [keys[i], i]})
                kid = b.add(dict({'Kids': [leaf, kid]}, **({'Limits': [keys[i], keys[-1]]} if i else {})))
            root = kid
        doc = open_doc(document(b, {'Names': {'Dests': root}}, case['c']))
        obs.state((n, x))
        for i in {0, 1, n // 2, n - 2, n - 1}:
            obs.trans(2)
            got = probe(doc, doc.get_dest, keys[i])
            if got != ('found', i):
                return 'entry %d of %d is %r' % (i, n, got)
            got = probe(doc, doc.get_dest, keys[i] + b'x')
            if got != 'missing':
                return 'missing entry after %d of %d is %r' % (i, n, got)
        obs.outcome(n)
        return None
    # every schedule of walking the outline, reading the pages and looking names up
    from pdfmajor.parser.PDFPage import PDFPage
    from pdfmajor.interpreter.PageInterpreter import PageInterpreter
    b = Build()
    w = case['w']
    root, want = outline(b, [[[]], []] if w.count('o') == 3 else [[[]], [[]]], 'DARB')
    keys = KEYS[1:5]
    tree = name_tree(b, [2, 2], keys, [value('dest', i) for i in range(4)], 'split')
    doc = open_doc(document(b, {'Outlines': root, 'Names': {'Dests': b.add(tree)}}), bool(case['c']))
    outs, pages, looks = doc.get_outlines(), PDFPage.create_pages(doc), iter([3, 0])
    got, npages = [], 0
    obs.state(w)
    for a in w:
        obs.trans()
        if a == 'o':
            got.append(entry(next(outs)))
        elif a == 'l':
            i = next(looks)
            v = probe(doc, doc.get_dest, keys[i])
            if v != ('found', gdeep(value('dest', i))):
                return 'looking up %r gives %r' % (keys[i], v)
        else:
            p = next(pages, None)
            if p is None:
                if npages != 2:
                    return '%d pages' % npages
                continue
            npages += 1
            if p.pageid != 2 + npages or bytes(p.contents[0].get_data() if hasattr(p.contents[0], 'get_data') else p.contents[0].resolve().get_data()) != b'0 0 m 5 5 l S':
                return 'page %d is %r' % (npages, p.pageid)
    obs.outcome((w, len(got)))
    if got != want or next(outs, None) is not None:
        return 'walk gives %r instead of %r' % (got, want)
    return None


def total(t):
    return t if isinstance(t, int) else sum(total(x) for x in t)


PDFDOC = {0x18: '\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc', 0x80: '\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e', 0xa0: '\u20ac'}


def pdfdoc(c):
    for lo, s in PDFDOC.items():
        if lo <= c < lo + len(s):
            return s[c - lo]
    return chr(c)


def title_case(case, obs):
    """Titles holding every character."""
    enc, lo = case['n'], case['f']
    b = Build()
    want, texts = [], []
    for c in range(lo, lo + 32):
        if enc == 'utf16':
            for t in (chr(c), chr(256 * c + 0x41) if not 0xd8 <= c < 0xe0 else 'x', 'a' + chr(0x10000 + 256 * c) + 'b', ''):
                want.append(t)
                texts.append(b'\xfe\xff' + t.encode('utf-16be'))
        else:
            if c in (0x16, 0x7f, 0x9f, 0xad):
                continue        # not defined
            for t in ([c], [65, c], [c, c, 66], [c, 255]):
                if bytes(t).startswith((b'\xfe\xff', b'\xff\xfe')):
                    continue
                texts.append(bytes(t))
                want.append(''.join(map(pdfdoc, t)))
    refs = [b.reserve() for _ in texts]
    root = b.reserve()
    b.objs[root.num] = {'First': refs[0], 'Last': refs[-1]}
    for i, (r, t) in enumerate(zip(refs, texts)):
        b.objs[r.num] = dict({'Title': b.add(t) if enc == 'ref' else t, 'Dest': i}, **({'Next': refs[i + 1]} if i + 1 < len(refs) else {}))
    doc = open_doc(document(b, {'Outlines': root}, enc))
    got = [(x[0], x[1], x[2]) for x in doc.get_outlines()]
    obs.trans(len(want))
    for i, t in enumerate(want):
        obs.state((enc, t))
        if i >= len(got) or got[i] != (1, t, i):
            return 'title %r read as %r' % (t, got[i:i + 1])
    obs.outcome(got)
    return None if len(got) == len(want) else '%d entries of %d' % (len(got), len(want))
