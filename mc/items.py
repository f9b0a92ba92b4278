"""Canonical form of the items the interpreter delivers, and comparison with the reference's items.

('curve', kind, bbox, linewidth, stroke, fill, evenodd, path)   kind: line, hline, vline, rect, curve
('text', [(colour, fontname, [(char, bbox), ...]), ...])
('image', bbox, (w, h), bits)
('form', bbox, [items])
A colour is (space name or None, (values...)); ANY matches everything.
"""


class _Any(object):
    def __repr__(self):
        return 'ANY'


ANY = _Any()


def box(b):
    return (b.x0, b.y0, b.x1, b.y1)


def union(bs):
    return (min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs))


def near(a, b):
    return all(abs(x - y) <= 1e-6 * max(1, abs(y)) for x, y in zip(a, b))


def colour(c):
    return (None if c.color_space is None else c.color_space.name,
            tuple(getattr(v, 'name', v) for v in c.values))


def canon(it):
    from pdfmajor.interpreter import (LTTextBlock, LTCurve, LTLine, LTHorizontalLine, LTVerticalLine, LTRect,
                                      LTImage, LTXObject)
    if isinstance(it, LTCurve):
        kind = 'hline' if isinstance(it, LTHorizontalLine) else 'vline' if isinstance(it, LTVerticalLine) else \
            'line' if isinstance(it, LTLine) else 'rect' if isinstance(it, LTRect) else 'curve'
        path = [(p.method.value, tuple((q.x, q.y) for q in p.points)) for p in it.paths]
        return ('curve', kind, box(it.bbox), it.linewidth, colour(it.stroke), colour(it.fill), bool(it.evenodd), path)
    if isinstance(it, LTTextBlock):
        blocks, every = [], []
        for b in it:
            chars = [(c.get_text(), box(c.bbox)) for c in b]
            every += [c[1] for c in chars]
            if not near(box(b.bbox), union([c[1] for c in chars])):
                return ('box of a character block', box(b.bbox), 'around', chars)
            if b.get_text() != ''.join(c[0] for c in chars):
                return ('text of a character block', b.get_text(), chars)
            blocks.append((colour(b.color), b.fontname, chars))
        if every and not near(box(it.bbox), union(every)):
            return ('box of a text block', box(it.bbox), 'around', every)
        return ('text', blocks)
    if isinstance(it, LTXObject):
        return ('form', box(it.bbox), [canon(c) for c in it])
    if isinstance(it, LTImage):
        return ('image', box(it.bbox), tuple(it.srcsize), it.bits)
    return ('other', repr(type(it)))


def diff(got, want, path=''):
    """None when equal (numbers to 1e-6), else a description of the first difference."""
    if want is ANY or got is ANY:
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return '%s: %r instead of %r' % (path, got, want)
        if len(got) != len(want):
            return '%s: %d entries instead of %d: %s instead of %s' % (path, len(got), len(want), brief(got), brief(want))
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, '%s.%s' % (path, i))
            if d:
                return d
        return None
    num = (int, float)
    if isinstance(want, num) and isinstance(got, num) and not isinstance(want, bool) and not isinstance(got, bool):
        if abs(got - want) > 1e-6 * max(1, abs(want)):
            return '%s: %r instead of %r' % (path, got, want)
        return None
    if got != want or isinstance(got, bool) != isinstance(want, bool):
        return '%s: %r instead of %r' % (path, got, want)
    return None


def brief(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def page_items(path, **kw):
    """Canonical items of every page of a file."""
    from pdfmajor.interpreter import PDFInterpreter
    return [[canon(i) for i in p] for p in PDFInterpreter(path, **kw)]
