"""Runs batches of content programs (one page each) and compares every page with the reference interpreter."""
from mc import refint, items
from mc.pdfgen import simple


def enc(prog):
    """Programs as JSON: bytes and names are tagged."""
    from mc.pdfgen import N

    def e(x):
        if isinstance(x, N):
            return {'n': str(x)}
        if isinstance(x, bytes):
            return {'b': x.hex()}
        if isinstance(x, (list, tuple)):
            return [e(y) for y in x]
        if isinstance(x, dict):
            return {'d': {k: e(v) for k, v in x.items()}}
        return x
    return [[op[0]] + [e(a) for a in op[1:]] for op in prog]


def dec(prog):
    from mc.pdfgen import N

    def e(x):
        if isinstance(x, dict):
            return N(x['n']) if 'n' in x else bytes.fromhex(x['b']) if 'b' in x else {k: e(v) for k, v in x['d'].items()}
        if isinstance(x, list):
            return [e(y) for y in x]
        return x
    return [tuple([op[0]] + [e(a) for a in op[1:]]) for op in prog]


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def compare(progs, ref, resources, obs, extra=None, fname='in.pdf', quirk=None, **kw):
    """Interprets the programs as pages of one document. Returns None or a description. quirk: a second reference
    whose items, when they are the ones delivered, stand for a known finding (its description is returned)."""
    from mc.refint import text
    data = simple([text(p) for p in progs], resources=resources, extra=extra, mediabox=(0, 0, 600, 800), **kw)
    with open(fname, 'wb') as f:
        f.write(data)
    from pdfmajor.interpreter import PDFInterpreter
    known = None
    n = 0
    for prog, page in zip(progs, PDFInterpreter(fname)):
        n += 1
        obs.count('traces')
        want = ref.run(prog, obs=obs)
        try:
            got = [items.canon(i) for i in page]
        except Exception as e:
            from mc.engine import exc_text
            return 'program %s: unexpected exception %s' % (show(prog), exc_text(e))
        d = items.diff(got, want)
        obs.outcome(want)
        if d:
            if quirk is not None:
                w2 = quirk.run(prog)
                if items.diff(got, w2) is None:
                    known = quirk.what
                    continue
            return 'program %s: item %s' % (show(prog), d)
    if n != len(progs):
        return '%d of %d pages delivered' % (n, len(progs))
    return known


def show(prog):
    return refint.text(prog, sep=b' | ').decode('latin1')
