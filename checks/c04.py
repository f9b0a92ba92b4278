"""C04: faults in the cross-reference data. Every damaged byte, every start offset, every truncation point."""
from io import BytesIO
from mc import pdfref
from mc.pdfgen import Doc, N, R, S

ID = 'C04'
LEVEL = 'fault_enumeration'
RULE = ('one fault per execution: a byte of the cross-reference section or of the startxref lines replaced, deleted or '
        'doubled; startxref pointing to each offset of the file; the file cut at each byte. Non-trivial: the faulty file '
        'differs from the original one and was opened or refused')
ASSUMPTIONS = ['a fault that turns the file into another valid file (an entry marked free) is not a fault']
FORMS = ['table', 'table-crlf', 'stream', 'objstm', 'table-nl-at-end']
REPL = [0x30, 0x39, 0x78, 0x20, 0x0a, 0x00, 0xff, 0x2d, 0x3c]


def BOUNDS(tier):
    return ('5 file forms; %d replacement bytes, deletion and doubling at every byte of the cross-reference section and '
            'startxref lines; every startxref target; every truncation point of one- and two-revision files%s' % (
                len(REPL), '' if tier == 'quick' else '; all pairs of damaged bytes among xref lines'))


def jobs(tier):
    out = []
    for f in FORMS:
        out += [('startxref', f, i) for i in range(2)]
        out += [('cut', f, i) for i in range(2)]
        out += [('cut2', f, i) for i in range(3)]
        out += [('damage', f, i) for i in range(3)]
        if f == 'table':
            out += [('layout', f, i) for i in range(len(HEADS))]
            out += [('trap', f, i) for i in range(len(TRAPS))]
            out += [('parts', f, i) for i in range(len(PARTS))]
        if tier != 'quick' and f.startswith('table'):
            out += [('pairs', f, i) for i in range(24)]
    return out


# ways to write objects and trailers
HEADS = [b'%d %d obj\n', b'%d  %d  obj ', b'%d\t%d\tobj\r\n', b'%d %d obj', b'  %d %d obj\n', b'%d %d\nobj\n', b'%d\r%d obj\n', b'%06d %05d obj\n', b'%%c\n%d %d obj %%c\n', b'%%1 0 obj\n%d %d obj\n', b'\0\f\t%d\0%d\fobj\n']
ENDS = [b'\nendobj\n', b' endobj\n', b' endobj\r', b'\r\nendobj\r\n\r\n', b' endobj ', b'\nendobj %trailer\n', b'\nendobj\n%trailer\n\n']
TRAILERS = [b'trailer\n', b'trailer ', b'trailer', b' trailer\r\n', b'%c\ntrailer %c\n']
BROKEN = ['none', 'position', 'far', 'missing', 'keyword']
# contents that look like objects
LOOK = [b'\n3 0 obj\n(no)\nendobj\n', b'\r7 0 obj(no)endobj\n2 0 obj(no)endobj', b'\ntrailer\n<</Root 8 0 R>>\n', b'\nxref\n0 9\n', b'\nstartxref\n9\n%%EOF\n', b'\n11 0 obj\n(phantom)\nendobj\n', b'\ntrailer\n<</Root', b'\n3 0 obj\n<<', b'\n3 0 obj\n<</Length 5>>\nstream\n']
TRAPS = ['string', 'stream', 'nested', 'key', 'comment', 'objstm', 'escaped', 'stream-indirect']
# files written in several parts: the order in which a writer may place the sections
PARTS = ['two', 'three', 'linearized', 'linearized-stream', 'two-stream', 'table-stream', 'stream-table', 'no-root-in-first']


def objects(rev):
    c1 = b'BT /F1 12 Tf 10 20 Td (rev %d) Tj ET' % rev
    c2 = b'1 0 0 RG 0 0 m 10 %d l S' % (10 + rev)
    return {
        3: {'Type': N('Page'), 'Parent': R(2), 'Resources': R(5), 'Contents': R(6), 'MediaBox': [0, 0, 100 + rev, 200]},
        4: {'Type': N('Page'), 'Parent': R(2), 'Resources': R(5), 'Contents': R(7), 'MediaBox': [0, 0, 300 + rev, 400]},
        6: S({}, c1), 7: S({}, c2),
        8: {'Info': b'text %d' % rev, 'L': [rev, 2.5, None, N('X')]},
    }


def base():
    return {1: {'Type': N('Catalog'), 'Pages': R(2)}, 2: {'Type': N('Pages'), 'Kids': [R(3), R(4)], 'Count': 2},
            5: {'Font': {'F1': {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Helvetica')}}}}


def build(form, revs=1):
    """(bytes, [model per revision], [end offset per revision], (start, end) of the last cross-reference section)"""
    d = Doc(header=b'%PDF-1.7\n')
    models, ends = [], []
    model = {}
    for r in range(revs):
        o = {**base(), **objects(1)} if r == 0 else objects(2)
        if r:
            del o[6]
        model = {**model, **o}
        kw = {}
        if form in ('stream', 'objstm'):
            kw = dict(mode='stream', xref_num=20 + r, filt=False)
            if form == 'objstm':
                kw.update(objstm=[n for n in o if not isinstance(o[n], S)], objstm_num=30 + r)
        elif form == 'table-crlf':
            kw = dict(eol=b'\r\n')
        mark = len(d.buf)
        d.rev(o, root=R(1), **kw)
        models.append(model)
        ends.append(len(d.buf))
    data = bytes(d)
    if form == 'table-nl-at-end':
        data = data.rstrip(b'\n')
    return data, models, ends


def regions(form, data):
    """Byte positions whose damage leaves bodies and trailer intact."""
    sx = data.rindex(b'startxref')
    pos = list(range(sx, len(data)))
    if form.startswith('table'):
        a = data.rindex(b'xref', 0, sx)
        b = data.index(b'trailer', a)
        pos = list(range(a, b - 2)) + pos
    else:
        a = data.rindex(b'stream', 0, data.rindex(b'endstream')) + 7
        b = data.rindex(b'endstream') - 1
        pos = list(range(a, b)) + pos
    return pos


def explore(job, ctx):
    kind, form = job[0], job[1]
    if kind == 'startxref':
        data, models, ends = build(form)
        for off in range(job[2], len(data) + 3, 2):
            ctx.run({'form': form, 'f': 'startxref', 'p': off})
        for s in ('', '-1', 'x', '99999999999999999999', '1.5', '(', '<<', 'nan', '0x10', '/N') if not job[2] else ():
            ctx.run({'form': form, 'f': 'startxref', 'p': s})
    elif kind in ('cut', 'cut2'):
        data, models, ends = build(form, 1 if kind == 'cut' else 2)
        for n in range(job[2], len(data) + 1, 2 if kind == 'cut' else 3):
            if kind == 'cut2' and n < ends[0] - 20:
                continue
            ctx.run({'form': form, 'f': kind, 'p': n})
    elif kind == 'layout':
        for e in range(len(ENDS)):
            for t in range(len(TRAILERS)):
                for how in BROKEN:
                    ctx.run({'form': form, 'f': kind, 'p': [job[2], e, t, how]})
    elif kind == 'trap':
        for i in range(len(LOOK)):
            for how in BROKEN:
                ctx.run({'form': form, 'f': kind, 'p': [TRAPS[job[2]], i, how]})
    elif kind == 'parts':
        for how in BROKEN:
            ctx.run({'form': form, 'f': kind, 'p': [PARTS[job[2]], how]})
    elif kind == 'damage':
        data, models, ends = build(form)
        ps = regions(form, data)
        for p in ps[job[2]::3]:
            for r in REPL + ['del', 'dup']:
                ctx.run({'form': form, 'f': 'damage', 'p': [p], 'r': r})
    elif kind == 'pairs':
        data, models, ends = build(form)
        ps = regions(form, data)
        n = 0
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                n += 1
                if n % 24 == job[2]:
                    for r in (0x39, 0x20):
                        ctx.run({'form': form, 'f': 'damage', 'p': [p, q], 'r': r})


def breakage(data, how):
    i = data.rindex(b'startxref')
    if how == 'none':
        return data
    if how == 'missing':
        return data[:i]
    if how == 'keyword':
        # the trailer of a stream is part of it
        assert b'/XRef' not in data
        j = data.rindex(b'xref', 0, data.rindex(b'trailer', 0, i)) - 1
        return data[:j + 1] + b'xxxx' + data[j + 5:]
    return data[:i] + b'startxref\n' + {'position': b'0', 'far': b'100000'}[how] + b'\n%%EOF\n'


def layout(h, e, t, how):
    d = Doc(header=b'%PDF-1.7\n')
    d.objfmt, d.endfmt, d.trfmt = HEADS[h], ENDS[e], TRAILERS[t]
    model = {**base(), **objects(1)}
    if HEADS[h][:1] != b'%' and e == 0:
        model[6] = S({}, model[6].data, before_end=b'\0')
    d.rev(model, root=R(1))
    return breakage(bytes(d), how), model


def trap(kind, text, how):
    d = Doc(header=b'%PDF-1.7\n')
    model = {**base(), **objects(1)}
    raw = b'(' + text.replace(b'\r', b'\\r') + b')'
    if kind == 'string':
        model[8] = text
    elif kind == 'escaped':
        model[8] = b'((' + text + b')\\' + text
    elif kind == 'nested':
        model[8] = {'A': [1, {'B': [text, text]}]}
    elif kind == 'key':
        model[8] = {N(text.decode()): 1}
    elif kind in ('stream', 'stream-indirect'):
        model[8] = S({'A': text} if kind == 'stream' else {'Length': R(9), 'A': 1}, text)
        if kind == 'stream-indirect':
            model[9] = len(text)
    elif kind == 'comment':
        d.endfmt = b'\nendobj\n' + b''.join(b'%' + l + b'\n' for l in text.replace(b'\r', b'\n').split(b'\n'))
    kw = {}
    if kind == 'objstm':
        model[8] = [text]
        kw = dict(mode='stream', xref_num=20, filt=False, objstm=[8, 1], objstm_num=21)
    d.rev(model, root=R(1), **kw)
    if kw and how == 'keyword':
        return None, None
    return breakage(bytes(d), how), model


def parts(kind, how):
    d = Doc(header=b'%PDF-1.7\n')
    first, second = {**base(), **objects(1)}, objects(2)
    if kind.startswith('linearized'):
        # the second half of the objects and their section stand in front of the first half
        lo = {n: v for n, v in first.items() if n in (1, 3, 6)}
        hi = {n: v for n, v in first.items() if n not in lo}
        st = (lambda k: dict(mode='stream', xref_num=20 + k, filt=False)) if kind.endswith('stream') else lambda k: {}
        d.rev(lo, root=R(1), **st(0))
        d.rev(hi, **st(1))
        data = bytes(d)
        if kind.endswith('stream'):
            if how == 'keyword':
                return None, None
        else:
            # only the first trailer names the root
            i = data.rindex(b'trailer')
            data = data[:i] + data[i:].replace(b'/Root 1 0 R', b'/Toor 1 0 R')
            if how == 'none':
                return None, None
        return breakage(data, how), first
    modes = {'two': 'tt', 'three': 'ttt', 'two-stream': 'ss', 'table-stream': 'ts', 'stream-table': 'st', 'no-root-in-first': 'tt'}[kind]
    model = {}
    for i, m in enumerate(modes):
        o = first if i == 0 else second if i == 1 else {8: {'third': 3}, 12: b'new'}
        model = {**model, **o}
        d.rev(o, root=R(1), **(dict(mode='stream', xref_num=20 + i, filt=False) if m == 's' else {}))
    data = bytes(d)
    if how == 'keyword' and 's' in modes or how == 'missing':
        # the older position is still there
        return None, None
    if kind == 'no-root-in-first':
        data = data.replace(b'/Root 1 0 R', b'/Toor 1 0 R', 1)
    return breakage(data, how), model


def damaged(form, p, r):
    data, models, ends = build(form)
    orig = data
    for x in sorted(p, reverse=True):
        if r == 'del':
            data = data[:x] + data[x + 1:]
        elif r == 'dup':
            data = data[:x + 1] + data[x:]
        else:
            data = data[:x] + bytes([r]) + data[x + 1:]
    if data == orig:
        return None, models
    if not form.startswith('table'):
        # the damage may not turn a used entry into a free one or an entry of another valid kind
        a = orig.rindex(b'stream', 0, orig.rindex(b'endstream')) + 7
        b = orig.rindex(b'endstream') - 1
        for x in p:
            if a <= x < b and ((x - a) % 7 == 0 and r in (0x00,)):
                return None, models
            if a <= x < b and r in ('del', 'dup'):
                return None, models     # shifts every later entry: arbitrary valid entries
    return data, models


def content(obj):
    from pdfmajor.parser.PDFStream import PDFStream
    if isinstance(obj, PDFStream):
        return ('stream', obj.get_data(), {k: pdfref.canon(v) for k, v in obj.attrs.items() if k != 'Length'})
    return pdfref.canon(obj)


def want_of(v):
    if isinstance(v, S):
        return ('stream', v.data, {k: pdfref.canon_gen(x) for k, x in v.attrs.items() if k != 'Length'})
    return pdfref.canon_gen(v)


def observe(data):
    """{number: content}, page sizes -- or the exception."""
    from pdfmajor.execptions import PDFMajorException, PDFObjectNotFound
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFPage import PDFPage
    try:
        doc = PDFDocument(PDFParser(BytesIO(data)))
        got = {}
        for n in range(1, 13):
            try:
                got[n] = content(doc.getobj(n))
            except PDFObjectNotFound:
                pass
        try:
            pages = [(list(p.mediabox), [c.get_data() for c in map(deref, p.contents)]) for p in PDFPage.create_pages(doc)]
        except PDFMajorException as e:
            pages = e
        return got, pages
    except PDFMajorException as e:
        return e, None


def deref(x):
    from pdfmajor.parser.PDFStream import resolve1
    return resolve1(x)


def pages_of(model):
    out = []
    for r in model[2]['Kids']:
        p = model[r.num]
        out.append((p['MediaBox'], [model[p['Contents'].num].data]))
    return out


def compare(got, pages, model, missing=()):
    for n, v in model.items():
        if n in missing:
            continue
        if got.get(n, 'absent') != want_of(v):
            return 'object %d is %r, not %r' % (n, got.get(n, 'absent'), want_of(v))
    if not missing and 11 in got:
        return 'object 11 is %r although there is none' % (got[11],)
    if not missing and pages != pages_of(model):
        return 'pages are %r, not %r' % (pages, pages_of(model))
    return None


def run_case(case, obs):
    from pdfmajor.execptions import PDFMajorException
    form, f, p = case['form'], case['f'], case['p']
    obs.count('traces')
    if f == 'startxref':
        data, models, ends = build(form)
        i = data.rindex(b'startxref') + 9
        while data[i] in b'\r\n':
            i += 1
        j = i
        while data[j:j + 1].isdigit():
            j += 1
        data = data[:i] + str(p).encode() + data[j:]
    elif f in ('layout', 'trap', 'parts'):
        data, model = layout(*p) if f == 'layout' else trap(p[0], LOOK[p[1]], p[2]) if f == 'trap' else parts(*p)
        if data is None:
            return None
        models = [model]
    elif f == 'damage':
        data, models = damaged(form, p, case['r'])
        if data is None:
            return None
    else:
        data, models, ends = build(form, 1 if f == 'cut' else 2)
        data = data[:p]
    obs.state(data)
    got, pages = observe(data)
    obs.outcome(repr(got)[:2000])
    if f in ('startxref', 'damage', 'layout', 'trap', 'parts'):
        if isinstance(got, PDFMajorException):
            return 'refused: %s: %s' % (type(got).__name__, got)
        return compare(got, pages, models[0])
    if isinstance(got, PDFMajorException):
        if f == 'cut2' and p >= ends[0]:
            return 'refused although a complete revision is there: %s: %s' % (type(got).__name__, got)
        return None
    if f == 'cut':
        whole = complete_objects(data, models[0])
        for n, v in models[0].items():
            if n in whole and got.get(n, 'absent') != want_of(v):
                return 'object %d is %r, not %r' % (n, got.get(n, 'absent'), want_of(v))
        return None
    # two revisions: the old or the new state, never a mixture
    if p < ends[0]:
        return None
    errs = [compare(got, pages, m) for m in models]
    if all(errs):
        return 'neither the old nor the new revision: %s / %s' % tuple(errs)
    return None


def complete_objects(data, model):
    out = set()
    for n in model:
        i = data.find(b'\n%d 0 obj' % n)
        if i >= 0 and data.find(b'endobj', i) >= 0:
            out.add(n)
    return out
