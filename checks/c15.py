"""C15: histories of reading. Every history, up to the bound, of moving two iterators over the pages of a document, reading its
pages item by item, interleaved, repeatedly and out of order, and reading other documents in between; every item delivered is
compared with that of the page read alone by a fresh process, when it is delivered and again at the end of the history."""
import functools
import itertools
import json
import os
import subprocess
import sys
import tempfile
from mc import items, fonts, progs
from mc.pdfgen import N, R, S, simple

ID = 'C15'
LEVEL = 'model_checking'
ASSUMPTIONS = ['iterators are used from one thread', 'the file is not changed while it is read',
               'the items of a page read alone by a fresh process are the reference']
CONFIGS = [dict(), dict(preload=True), dict(caching=False), dict(preload=True, caching=False), dict(pagenos=[0, 2]), dict(maxpages=2, preload=True)]
DOCS = 3
PAIRS = [(0, 1), (2, 0), (1, 2)]


def BOUNDS(tier):
    d = depth(tier)
    return ('%d documents of 3 pages x another one each x %d settings: all histories of %d operations from {advance either of two '
            'page iterators, restart one, advance either of two item iterators of each page, read a page completely, advance or complete the reading '
            'of the other document}; for the default settings %d operations' % (DOCS, len(CONFIGS), d[0], d[1]))


def depth(tier):
    return (4, 5) if tier == 'quick' else (5, 6)


def document(i):
    """Three pages that leave a different state behind: open q, matrices, colours, paths, text objects, operands."""
    d1, _ = fonts.simple(name='One', first=97, widths=[400 + i * 100] * 2)
    d2, _ = fonts.simple(name='Two%d' % i, first=97, widths=[300] * 2)
    if i == 1:
        d1['Encoding'] = {'Differences': [97, N('alpha'), N('B')]}
    extra = {1000: d1, 1001: S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9], 'Matrix': [1, 0, 0, 1, i, 0], 'Resources': {'Font': {'F': R(1000)}}},
                               b'1 0 0 RG q 2 0 0 2 0 0 cm BT /F 3 Tf (b) Tj ET 0 0 m 4 4 l S 5 w 1 1 m')}
    font = {'F': R(1000), 'G': d2}
    if i == 2:
        dd, ex, _ = fonts.cid(name='Cid', chars={65: 'X', 97: 'Y'})
        extra.update(ex)
        font = {'F': dd, 'G': R(1000)}
        extra[1002] = dd
        extra[1005] = fonts.tounicode({65: 'V', 97: 'W'})
        extra[1004] = dict(dd, ToUnicode=R(1005))
        font['F'] = R(1002)
    res = {'Font': font, 'XObject': {'Fm': R(1001)}, 'ColorSpace': {'CS%d' % i: [N('ICCBased'), R(1003)], 'C4': N('DeviceCMYK')}}
    extra[1003] = S({'N': 3 if i != 1 else 1}, b'profile')
    show = b'<0041>' if i == 2 else b'(ab)'
    pages = [b'0 0 m 1 2 l S /Fm Do BT /F 10 Tf 5 0 Td %s Tj ET q 3 0 0 3 1 1 cm 7 w 0 1 0 rg 1 0 0 RG 5 Tc 0 0 5 5 re f BT /F 4 Tf 3 Ts %s Tj ET 9 9 m 8 8 l 1 2 3' % (show, show),
             b'1 1 m 5 9 l S BT /F 8 Tf %s Tj ET BI /W 1 /H 1 /BPC 8 /CS /G ID x EI 0 0 2 2 re B /C4 cs .1 .2 .3 .4 sc 1 1 m 3 3 l f /Fm Do (left)' % show,
             b'2 2 m 7 7 l S /G 6 Tf BT /F 5 Tf %s Tj %s Tj ET .5 g /Fm Do 0 0 m 4 0 l 4 4 l 0 4 l h f BT /F 5 Tf (' % (show, show)]
    more = None
    if i == 2:
        # fonts of other pages under the same name, with the same descendant
        more = lambda p: {'Resources': dict(res, Font={'F': R(1004), 'G': R(1000)})} if p == 2 else {}
    return simple(pages, resources=res, extra=extra, page_extra=more)


READ = '''
import sys, json, logging
sys.path[:0] = [%r, %r]
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
from mc import items
from pdfmajor.interpreter import PDFInterpreter
for n, p in enumerate(PDFInterpreter(sys.argv[1])):
    if n == int(sys.argv[2]):
        print(repr([items.canon(i) for i in p]))
'''


@functools.lru_cache(None)
def baseline(doc, page):
    from mc.engine import VERIF, REPO
    fd, name = tempfile.mkstemp(suffix='.pdf')
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(document(doc))
        r = subprocess.run([sys.executable, '-c', READ % (VERIF, REPO), name, str(page)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        os.remove(name)
    if r.returncode:
        return 'error ' + r.stderr.decode('latin1')[-300:]
    return eval(r.stdout)


def jobs(tier):
    for d, p in itertools.product(range(DOCS), range(3)):
        baseline(d, p)
    n, m = depth(tier)
    out = [(c, a, b, n, i, 2) for c in range(1, len(CONFIGS)) for a, b in PAIRS for i in range(2)]
    return out + [(0, a, b, m, i, 8) for a, b in PAIRS for i in range(8)]


def histories(n, npages):
    """All histories of n operations that can be carried out; the iterators of a kind are interchangeable, so the first is used first."""
    def rec(h, at, readers):
        if len(h) == n:
            yield h
            return
        have = at.get('hi', 0)
        nxt = [('P' + j, dict(at, **{j: min(at.get(j, 0) + 1, npages), 'hi': max(at.get('hi', 0), min(at.get(j, 0) + 1, npages))}), readers) for j in '01' if j == '0' or '0' in at]
        if at.get('0'):
            nxt.append(('r0', dict(at, **{'0': 0}), readers))
        seen = max([have] + [int(r[0]) + 1 for r in readers])
        for p in range(seen):
            for k in '01':
                if k == '0' or '%d0' % p in readers:
                    nxt.append(('I%d%s' % (p, k), at, readers | {'%d%s' % (p, k)}))
            nxt.append(('F%d' % p, at, readers))
        nxt += [('S', at, readers), ('O', at, readers)]
        for op, a, r in nxt:
            yield from rec(h + [op], a, r)
    yield from rec([], {}, frozenset())


def explore(job, ctx):
    c, a, b, n, part, parts = job
    for i, h in enumerate(histories(n, len(chosen_pages(CONFIGS[c])))):
        # read the pages that were touched completely at the end
        if i % parts == part:
            ctx.run({'c': c, 'a': a, 'b': b, 's1': h + ['F0', 'F1', 'F2', 'P0']})


def chosen_pages(kw):
    return [p for p in range(3) if p in kw.get('pagenos', range(3))][:kw.get('maxpages') or 3]


def run_case(case, obs):
    from pdfmajor.interpreter import PDFInterpreter
    files = []
    for d in (case['a'], case['b']):
        name = 'd%d.pdf' % d
        if not os.path.exists(name):
            with open(name, 'wb') as f:
                f.write(document(d))
        files.append(name)
    kw = CONFIGS[case['c']]
    chosen = chosen_pages(kw)
    if any(isinstance(baseline(d, p), str) for d in (case['a'], case['b']) for p in range(3)):
        return 'reading alone: ' + ' '.join(str(x) for x in [baseline(case['a'], p) for p in range(3)] if isinstance(x, str))
    doc = PDFInterpreter(files[0], **kw)
    its, at = {}, {}
    handles = {}
    readers, pos = {}, {}
    other = {'it': None, 'want': None}
    seen = []
    trace = []
    obs.count('traces')

    def check(item, d, p, n):
        want = baseline(d, p)
        got = items.canon(item)
        if n >= len(want):
            return 'page %d gives more than its %d items: %r' % (p, len(want), items.brief(got))
        seen.append((item, want[n]))
        e = items.diff(got, want[n])
        return e and 'page %d, item %d: %s' % (p, n, e)

    def fail(msg):
        return 'after %s: %s' % (' '.join(trace), msg)
    for op in case['s1']:
        k = op[0]
        if k == 'P':
            j = op[1]
            if j not in its:
                its[j], at[j] = iter(doc), 0
            page = next(its[j], None)
            want = chosen[at[j]] if at[j] < len(chosen) else None
            trace.append(op)
            if (page is None) != (want is None):
                return fail('page iterator %s delivers %r as page %d' % (j, page, at[j]))
            if page is not None:
                handles[at[j]] = page
                at[j] += 1
                if page.page_num != at[j] - 1:
                    return fail('page number %r instead of %d' % (page.page_num, at[j] - 1))
        elif k == 'r':
            trace.append(op)
            its[op[1]], at[op[1]] = iter(doc), 0
        elif k == 'I':
            p = int(op[1])
            if p not in handles:
                continue
            trace.append(op)
            key = op[1:]
            if key not in readers:
                readers[key], pos[key] = iter(handles[p]), 0
            item = next(readers[key], None)
            if item is None:
                if pos[key] < len(baseline(case['a'], chosen[p])):
                    return fail('page %d ends after %d items' % (p, pos[key]))
                del readers[key]
            else:
                e = check(item, case['a'], chosen[p], pos[key])
                if e:
                    return fail(e)
                pos[key] += 1
        elif k == 'F':
            p = int(op[1])
            if p not in handles:
                continue
            trace.append(op)
            got = list(handles[p])
            for n, item in enumerate(got):
                e = check(item, case['a'], chosen[p], n)
                if e:
                    return fail(e)
            if len(got) != len(baseline(case['a'], chosen[p])):
                return fail('page %d has %d items' % (p, len(got)))
        else:
            trace.append(op)
            if other['it'] is None:
                other['it'] = ((p, n, x) for p, page in enumerate(PDFInterpreter(files[1])) for n, x in enumerate(page))
            n = 0
            for p, i, item in other['it']:
                e = check(item, case['b'], p, i)
                if e:
                    return fail('other document: ' + e)
                n += 1
                if k == 'S' and n == 3:
                    break
            else:
                other['it'] = None
        obs.trans()
        obs.state((case['a'], case['c'], sorted(at.items()), sorted(handles), sorted(pos.items())))
    for item, want in seen:
        e = items.diff(items.canon(item), want)
        if e:
            return fail('an item changed after it was delivered: ' + e)
    obs.outcome(tuple(trace[-2:]))
    return None


def finding_key(case, err):
    return err.split(': ', 1)[-1][:60]
