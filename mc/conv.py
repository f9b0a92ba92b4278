"""Converters: the documents they are run on, what the output must contain (taken from the items the interpreter delivers), and readers of the
output formats that do not share code with the writers (json, expat, PyYAML, html.parser)."""
import itertools
import json
import os
import re
from mc import fonts, items
from mc.pdfgen import N, R, S, Raw, simple, ser_name
from mc.sizes import sizes

# --- content units
FONT_U = 'FU'       # two-byte codes, ToUnicode
STRANGE = [('"', "\\"), ('<b>', '&amp;'), (': ', '\n'), ('\U0001f600', '\x00'), (' ', ' ')]
UNITS = {
    'rect': b'1 2 3 4 re S', 'fillrect': b'.1 .2 .3 rg 5 6 7.5 8 re f', 'line': b'0 0 m 5 9 l S', 'hline': b'1 1 m 6 1 l S', 'vline': b'2 3 m 2 8 l S',
    'curve': b'0 0 m 1 2 3 4 5 6 c S', 'cv': b'0 0 m 1 2 3 4 v 5 6 7 8 v S', 'cy': b'0 0 m 1 2 3 4 y S', 'closed': b'0 0 m 9 0 l 9 9 l h 3 3 l 4 5 6 7 v b*',
    'point': b'3 3 m 3 3 3 3 3 3 c S', 'flat': b'0 4 m 5 4 l 9 4 l S', 'upright': b'4 0 m 4 5 l 4 9 l S', 'multi': b'0 0 m 1 1 l 5 5 m 8 8 l 1 1 2 2 re B',
    'dotline': b'2 2 m 2 2 l S', 'tiny': b'0.00000012 0.0000004 m 3 0.00000012 l 5 5 l S', 'huge': b'123456789012345 1 m 3 99999999999999999999 l 7 7 l S',
    'gray': b'.5 g 0 G 1 2 3 4 re B', 'rgb': b'1 0 .5 rg /DeviceRGB CS .2 1 0 SC 1 2 3 4 re B BT /F1 3 Tf (r) Tj ET', 'cmyk': b'.1 .2 .3 .4 k 1 0 0 1 K 1 2 3 4 re B', 'icc': b'/CS4 cs .1 .2 .3 .4 sc /CS1 CS .5 SC 1 2 3 4 re B',
    'devn': b'/CSN cs .25 .5 sc /CSN CS 1 0 SC 0 0 m 3 4 l B', 'pattern': b'/Pattern cs /P#22x#27#26#3c scn 1 2 3 4 re f', 'patbytes': b'/Pattern cs /P#ff#00 scn 1 2 3 4 re f',
    'index': b'/CSI cs 3 sc 1 2 3 4 re f', 'csonly': b'/CS4 cs /CS4 CS 0 0 m 1 1 l B',
    'text': b'BT /F1 12 Tf 1 2 Td (a"b\\\\c<d>&e) Tj ET', 'texts': b'BT /F1 7 Tf (a) Tj 0 5 Td (b) Tj /FU 4 Tf 2 2 Td <00010002> Tj ET',
    'TJ': b'BT /F1 9 Tf [(a) -200 (b) 100 ( c)] TJ () Tj ET', 'emptytext': b'BT /F1 9 Tf () Tj [] TJ [5] TJ ET', 'BTET': b'BT ET',
    'coltext': b'BT /F1 3 Tf .5 g (x) Tj .1 .2 .3 .4 k (y) Tj /Pattern cs /P#22 scn (z) Tj ET',
    'strange': b'BT /FU 10 Tf <00010002000300040005000600070008> Tj <0009> Tj ET', 'space': b'BT /F1 5 Tf ( ) Tj (  ) Tj ET',
    'badchar': b'BT /FU 5 Tf <FFEE0001> Tj ET', 'vertical': b'BT /FV 5 Tf <00410042> Tj ET', 'keys': b'BT /FK 5 Tf (k) Tj ET', 'bytesfont': b'BT /FB 5 Tf (k) Tj ET',
    'numfont': b'BT /FN 5 Tf (k) Tj ET',
    'inline': b'BI /W 2 /H 1 /BPC 8 /CS /G ID ab EI', 'image': b'q 5 0 0 6 1 2 cm /Im Do Q', 'mask': b'BI /W 8 /H 1 /IM true ID x EI', 'jpeg': b'/Jp Do',
    'over': b'q ' + b' '.join([b'9' * 300 + b'.0', b'0 0', b'-' + b'9' * 300, b'0 0 cm'] * 3) + b' 1 1 m 2 3 l S 1 1 m 4 5 l 6 6 l S Q',
    'form': b'/Fm Do', 'emptyform': b'/Fe Do', 'nested': b'/Fn Do', 'state': b'q 2 0 0 3 1 1 cm 4 w', 'none': b'',
}
KEYS = ['text', 'Text', 'X0', 'x0', 'Color', 'color', 'colorType', 'size', 'type', 'children', 'Fo o', '1a', 'A:b', 'A"b', "A'b", '&', '<x>', 'A<', 'A&B', 'xmlns', 'xml:lang', 'XMLfoo',
        'é', '日本', 'yes', 'null', 'No', '-', '#a', '{', 'A\nb', 'A b=c', 'FooBar', 'foo-bar', 'foo_bar', 'Foo_Bar', '\\', '\x00', '~', '*x', 'x:y z', 'style', 'class', '1', '=', '<<']


def descriptor(extra):
    d = {'Type': N('FontDescriptor'), 'FontName': N('K'), 'Flags': 32, 'Ascent': 700, 'Descent': -200, 'FontBBox': [0, 0, 0, 0], 'ItalicAngle': 0}
    d.update(extra)
    return d


def font(extra=None, name='K'):
    d, f = fonts.simple(name=name, first=32, widths=[500] * 95)
    d['FontDescriptor'] = descriptor(dict({'FontName': N(name)}, **(extra or {})))
    return d


VALUES = [5, -1.5, True, None, b'str"\\&<', N('na"me<&'), [1, b'a\'b"', N('x')], {'a"': b'<'}, R(1), b'\xff\xfe\x00', b'', b'a\nb\tc\r: #', b'yes', .00000025]
ALPHABET = ['"', "'", '\\', '&', '<', '>', ':', '#', '-', '%', '@', '\n', '\t', '\r', '[', ']', '{', '}', ',', ' ', '?', '!', '|', '*', '`', '=', '~', 'a', '0', '.',
            '\x00', '\x08', '\x1b', '\x7f', '\x85', '\xa0', '\xad', '\u200b', '\u2028', '\ufeff', '\ufffe', '\ufffd', '\ue000', '\U0001f600', '\U0010ffff', 'é', '日',
            'true', 'null', 'yes', ']]>', '&amp;', '&#38', '&lt;', '</span>', '<!--', '-->', '\\n', '\\u0041', "''", '1e5', '0x1', '---', '...']
SMALL = ['"', "'", '\\', '&', '<', '>', ':', '#', '-', '\n', '\r', '\t', ' ', 'a', ';', '\x00', '\U0001f600', '[']


def resources(extra_fonts=None, chars=None, small=False):
    """Fonts and other resources every document has; chars: {code: text} of FU."""
    if chars is None:
        chars = dict(enumerate(['"', '\\', '<b>&amp;', ': ', '\n', '\U0001f600', '\x00', ' ', '\r'], 1))
    fu, ex, _ = fonts.cid(name='Uni', chars=chars, uni=900, sub=901, widths={1: 250, 2: 700})
    fv, ev, _ = fonts.cid(name='Vert', vertical=True, uni=902, sub=903, w2={65: (-500, 250, 800)})
    ex.update(ev)
    ex[910] = S({'N': 4}, b'p')
    ex[911] = S({'N': 1}, b'p')
    ex[912] = S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 2, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceGray')}, b'ab')
    ex[913] = S({'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 2, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceRGB'), 'Filter': N('DCTDecode')}, b'\xff\xd8jpeg')
    f1 = font()
    fres = {'F1': f1, 'FU': R(920), 'FV': R(921), 'FK': font({k: i for i, k in enumerate(KEYS)}, name='K"<&\';left:0'), 'FB': font({'FontName': N('x')}), 'FN': font({'FontName': 5})}
    if small:
        return {'Font': dict({'F1': f1}, **extra_fonts)}, {}
    fres['FB']['FontDescriptor']['FontName'] = Raw(b'/B#ff#22')
    ex[920], ex[921] = fu, fv
    fres.update(extra_fonts or {})
    cs = {'CS4': [N('ICCBased'), R(910)], 'CS1': [N('ICCBased'), R(911)], 'CSN': [N('DeviceN'), [N('A'), N('B')], N('DeviceRGB'), {}],
          'CSI': [N('Indexed'), N('DeviceRGB'), 1, b'abcdef']}
    base = {'Font': fres, 'ColorSpace': cs}
    at = {'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 10, 20]}
    ex[914] = S(dict(at, Resources=dict(base)), b'1 2 3 4 re S BT /F1 5 Tf (in) Tj ET')
    ex[915] = S(dict(at, BBox=[1, 2, 3, 4]), b'')
    ex[916] = S(dict(at, Matrix=[2, 0, 0, 2, 0, 0], Resources=dict(base, XObject={'Fm': R(914), 'Fe': R(915), 'Im': R(912)})),
                b'/Fm Do BT /F1 5 Tf (a) Tj ET /Fe Do /Im Do /Fm Do')
    return dict(base, XObject={'Im': R(912), 'Jp': R(913), 'Fm': R(914), 'Fe': R(915), 'Fn': R(916)}), ex


def wrap(prog, how, ex, res, num):
    """The program as page content: as it is, or inside of one or two forms."""
    if not how:
        return prog
    at = {'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 50, 60], 'Resources': {k: (dict(v) if k == 'XObject' else v) for k, v in res.items()}}
    ex[num] = S(at, prog)
    name = 'W%d' % num
    res['XObject'][name] = R(num)
    if how == 1:
        return b'/' + name.encode() + b' Do'
    at2 = dict(at, Resources={'XObject': {name: R(num)}})
    ex[num + 1] = S(at2, b'/%s Do' % name.encode())
    res['XObject']['V%d' % num] = R(num + 1)
    return b'/V%d Do /%s Do' % (num, name.encode())


# --- cases
FORMATS = ('json', 'xml', 'yaml', 'html', 'text')
CODECS = {'json': ['utf-8', 'ascii', 'latin-1'], 'xml': ['utf-8', 'ascii', 'latin-1'], 'yaml': ['utf-8', 'ascii', 'latin-1'], 'html': ['utf-8', 'ascii', 'latin-1'], 'text': ['utf-8']}


SIZED = {'chars': 1030, 'blocks': 260, 'texts': 260, 'items': 260, 'points': 520, 'pages': 130, 'forms': 60, 'name': 1030, 'spaces': 520}


def sized(w, n):
    """(pages, font name, text of the document)"""
    t = ('ab<c"d&e:f\'g' * n)[:n]
    e = b'\\'.join(re.split(b'(?=[()\\\\])', t.encode()))
    body = {'chars': b'BT /G0 5 Tf (%s) Tj ET' % e, 'blocks': b'BT /G0 5 Tf ' + b' '.join(b'(%c) Tj' % c for c in t.encode()) + b' ET',
            'texts': b'/G0 5 Tf ' + b' '.join(b'BT (%c) Tj ET' % c for c in t.encode()), 'items': b' '.join(b'%d 0 m 5 %d l S' % (i % 9, i) for i in range(n)),
            'points': b'0 0 m ' + b' '.join(b'%d %d l' % (i % 7, i) for i in range(n)) + b' S', 'forms': b'/W%d Do' % (n - 1),
            'name': b'BT /G0 5 Tf (x) Tj ET', 'spaces': b'BT /G0 5 Tf (a%sb) Tj ET' % (b' ' * n)}.get(w)
    pages = [b'BT /F1 5 Tf (%d) Tj ET' % i for i in range(n)] if w == 'pages' else [body]
    text = {'chars': t, 'blocks': t, 'texts': t, 'name': 'x', 'spaces': 'a' + ' ' * n + 'b', 'pages': ''.join(map(str, range(n))), 'forms': 'i' * n}.get(w, '')
    return pages, ('nam<e"' * n)[:n] if w == 'name' else 'x', text


def bounds(tier):
    return dict(units=2, strings=2, small=3, full=False) if tier == 'quick' else dict(units=3, strings=3, small=4, full=True)


def describe(tier):
    b = bounds(tier)
    return ('all sequences of up to %d of %d content units (curves of every kind, degenerate and extreme geometry, every kind of colour, text, images, nested and empty forms) '
            'as page content, up to %d inside of one and of two forms; all strings of up to %d of %d tokens and up to %d of %d special characters; %s as text; %d font descriptor keys x %d kinds of values; '
            'font and pattern names of up to 2 special characters; characters, blocks, items, points, pages, nested forms and names of all sizes around powers of 2 and 10 (up to 60 to 1030); documents of up to 3 pages x every set of empty pages x page selections and limits; codecs'
            % (b['units'], len(UNITS), b['units'] - 1, b['strings'], len(ALPHABET), b['small'], len(SMALL), 'every Unicode scalar value' if b['full'] else '12400 Unicode scalar values',
               len(KEYS), len(VALUES)))


def sweep(full):
    if full:
        return [c for c in range(0x110000) if not 0xd800 <= c < 0xe000]
    s = set(range(0x3000)) | set(range(0xfe00, 0xfe10)) | set(range(0xff00, 0x10000)) | set(range(0xfd00, 0xfdff))
    for b in [0xd800, 0xe000] + [p << 16 for p in range(1, 17)]:
        s |= {b - 2, b - 1, b, b + 1}
    s |= {0xe0001, 0x1f600, 0x10fffe, 0x10ffff, 0x2f800, 0x1d173, 0xf0000}
    return sorted(c for c in s if c < 0x110000 and not 0xd800 <= c < 0xe000)


def jobs(fmt, tier):
    b = bounds(tier)
    out = [('pages', 1, None), ('pages', 2, None)] + [('pages', 3, e) for e in (0, 1, 2)] + [('keys', 0), ('keys', 1), ('keys', 2), ('keys', 3), ('names',)]
    out += [('units', n, w, i, 8) for w in (0, 1, 2) for n in range(1, b['units'] + (w == 0)) for i in range(8)]
    out += [('strings', n, i, 8) for n in range(0, b['strings'] + 1) for i in range(8 if n > 1 else 1)]
    out += [('small', n, i, 8) for n in (range(3, b['small'] + 1)) for i in range(8)]
    out += [('size', w, t) for w, t in SIZED.items()]
    cs = len(sweep(b['full']))
    out += [('sweep', i, min(i + 4000, cs)) for i in range(0, cs, 4000)]
    return out


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def explore(fmt, job, ctx):
    b = bounds(ctx.tier)
    kind = job[0]
    if kind == 'size':
        for j, n in enumerate(sizes(job[2] * (1 if ctx.tier == 'quick' or job[1] == 'forms' else 4))):
            ctx.run({'f': fmt, 'k': 'size', 'w': job[1], 'n': n, 'c': CODECS[fmt][j % len(CODECS[fmt])]})
        return
    if kind == 'pages':
        for n in (job[1],):
            for empty in itertools.product((0, 1, 2), repeat=n):
                if job[2] not in (None, empty[0]):
                    continue
                for pagenos in [None] + [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)] + [[n], [0, 0]]:
                    for maxpages in (0, 1, n, n + 1):
                        ctx.run({'f': fmt, 'k': 'pages', 'e': empty, 'p': pagenos, 'm': maxpages, 'o': (n + sum(empty)) % 3})
    elif kind == 'keys':
        # every key alone with every value; pairs of keys
        own = [k for i, k in enumerate(KEYS) if i % 4 == job[1]]
        for k in own:
            for c in CODECS[fmt]:
                ctx.run({'f': fmt, 'k': 'keys', 's': [[[k, v]] for v in range(len(VALUES))], 'c': c})
            ctx.run({'f': fmt, 'k': 'keys', 's': [[[k, 0], [k2, 4]] for k2 in KEYS], 'c': 'utf-8'})
    elif kind == 'names':
        al = ['a', '"', "'", '<', '>', '&', ';', ':', '\\', '\n', '\x00', 'é', '\U0001f600', ' ', '/', '{', '}', None]
        for part in chunks((x for n in (1, 2) for x in itertools.product(al, repeat=n)), 20):
            for c in CODECS[fmt]:
                ctx.run({'f': fmt, 'k': 'names', 's': part, 'c': c})
    elif kind == 'units':
        n, w, i, parts = job[1:]
        seqs = (list(s) for j, s in enumerate(itertools.product(UNITS, repeat=n)) if j % parts == i)
        for j, part in enumerate(chunks(seqs, 40)):
            ctx.run({'f': fmt, 'k': 'units', 's': part, 'w': w, 'c': CODECS[fmt][j % len(CODECS[fmt])] if n < 3 else 'utf-8'})
    elif kind in ('strings', 'small'):
        n, i, parts = job[1:]
        al = ALPHABET if kind == 'strings' else SMALL
        seqs = (list(s) for j, s in enumerate(itertools.product(al, repeat=n)) if j % parts == i % parts or n < 2)
        for j, part in enumerate(chunks(seqs, 200)):
            for c in (CODECS[fmt] if n < 2 else CODECS[fmt][:1]):
                if fmt == 'html' and c != 'utf-8':
                    part = [x for x in part if not any(HTML_NO_REF.search(t) for t in x)]
                ctx.run({'f': fmt, 'k': 'text', 's': part, 'c': c})
    else:
        cs = sweep(b['full'])[job[1]:job[2]]
        for j, part in enumerate(chunks(cs, 500)):
            codec = CODECS[fmt][0] if b['full'] and j % 8 else CODECS[fmt][j % len(CODECS[fmt])]
            part = [[chr(c)] for c in part]
            if fmt == 'html' and codec != 'utf-8':
                part = [x for x in part if not HTML_NO_REF.search(x[0])]
            ctx.run({'f': fmt, 'k': 'text', 's': part, 'c': codec})


# characters HTML has no reference for: they cannot be expressed in other encodings than UTF-8
HTML_NO_REF = re.compile('[\x00-\x08\x0b\x0e-\x1f\x7f-\x9f\ufdd0-\ufdef' + ''.join(chr(p * 65536 + x) for p in range(17) for x in (0xfffe, 0xffff)) + ']')


# --- what the output must hold
def col(c):
    """(name, values as text) or None when no colour space is known."""
    if c.color_space is None:
        return None
    vs = []
    for v in c.values:
        v = getattr(v, 'name', v)
        vs.append(v.decode('latin-1') if isinstance(v, bytes) and not isinstance(v, str) else v if isinstance(v, str) else str(v))
    return (c.color_space.name, vs)


def tree(it):
    from pdfmajor.interpreter import LTTextBlock, LTCurve, LTLine, LTRect, LTImage, LTXObject
    b = items.box(it.bbox)
    if isinstance(it, LTCurve):
        kind = 'rect' if isinstance(it, LTRect) else 'line' if isinstance(it, LTLine) else 'curve'
        return {'k': kind, 'b': b, 'stroke': col(it.stroke), 'fill': col(it.fill),
                'paths': [(p.method.name, p.method.value, [(q.x, q.y) for q in p.points]) for p in it.paths]}
    if isinstance(it, LTXObject):
        return {'k': 'form', 'b': b, 'c': [tree(x) for x in it]}
    if isinstance(it, LTImage):
        return {'k': 'img', 'b': b, 'n': it.name}
    if isinstance(it, LTTextBlock):
        return {'k': 'text', 'b': b, 'c': [{'b': items.box(c.bbox), 'font': (c.fontname, c.font.font_weight, c.font.italic_angle), 'size': c.size, 'col': col(c.color),
                                            't': [(x.get_text(), items.box(x.bbox)) for x in c]} for c in it]}
    raise AssertionError(type(it))


def expected(fname, **kw):
    from pdfmajor.interpreter import PDFInterpreter
    return [{'id': p.page_num, 'w': p.width, 'h': p.height, 'c': [tree(x) for x in p]} for p in PDFInterpreter(fname, **kw)]


class Bad(Exception):
    pass


def want(cond, msg, *a):
    if not cond:
        raise Bad(msg % a)


def same(a, b, what):
    want(a == b and type(a) is not bool, '%s is %s instead of %s', what, items.brief(a), items.brief(b))


def num(x, y, what):
    """A number of the output."""
    if isinstance(x, str):
        try:
            x = float(x)
        except ValueError:
            raise Bad('%s is %r instead of %r' % (what, x, y))
    want(isinstance(x, (int, float)) and not isinstance(x, bool) and (x == y or abs(x - y) <= 1e-12 * abs(y)), '%s is %r instead of %r', what, x, y)


# --- JSON and YAML: the same structure
def unique(pairs):
    d = {}
    for k, v in pairs:
        want(k not in d, 'key %r twice', k)
        want(isinstance(k, str), 'key %r is no string', k)
        d[k] = v
    return d


def no_constant(c):
    raise Bad('%s is not JSON' % c)


def read_json(data, codec):
    return json.loads(data.decode(codec), object_pairs_hook=unique, parse_constant=no_constant)


_loader = []


def read_yaml(data, codec):
    import yaml
    if not _loader:
        base = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)

        class Loader(base):
            pass

        def mapping(loader, node):
            return unique([(loader.construct_object(k, deep=True), loader.construct_object(v, deep=True)) for k, v in node.value])
        Loader.add_constructor('tag:yaml.org,2002:map', mapping)
        _loader.append(Loader)
    return yaml.load(data.decode(codec), Loader=_loader[0])


def keys(d, must, may=(), what='object'):
    want(isinstance(d, dict), '%s is %r, not an object', what, items.brief(d))
    for k in must:
        want(k in d, '%s without %s: %s', what, k, items.brief(d))
    if may is not None:
        for k in d:
            want(k in must or k in may, '%s with %s', what, k)


def box4(d, b, what):
    for k, v in zip(('x0', 'y0', 'x1', 'y1'), b):
        num(d[k], v, what + ' ' + k)


XY = ['x0', 'x1', 'y0', 'y1']


def obj_colour(d, key, c, what):
    if c is None:
        want(key not in d, '%s has a %s', what, key)
        return
    want(key in d, '%s without %s', what, key)
    keys(d[key], ['type', 'value'], what=key)
    same(d[key]['type'], c[0], key)
    same(d[key]['value'], c[1], key)


def obj_children(got, exp, what):
    want(isinstance(got, list), '%s is %r instead of a list', what, got)
    want(len(got) == len(exp), '%s: %d entries instead of %d', what, len(got), len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        w = '%s.%d' % (what, i)
        k = e['k']
        want(isinstance(g, dict), '%s is %r', w, g)
        same(g.get('type'), {'form': 'xobject', 'text': 'text-block'}.get(k, k), w + ' type')
        if k in ('rect', 'line', 'curve'):
            keys(g, ['type'] + XY + (['paths'] if k == 'curve' else []), ['stroke', 'fill'], w)
            obj_colour(g, 'stroke', e['stroke'], w)
            obj_colour(g, 'fill', e['fill'], w)
            if k == 'curve':
                want(isinstance(g['paths'], list) and len(g['paths']) == len(e['paths']), '%s: path %r', w, items.brief(g['paths']))
                for p, (m, _, pts) in zip(g['paths'], e['paths']):
                    keys(p, ['type', 'points'], what=w)
                    same(p['type'], m, w + ' segment')
                    want(isinstance(p['points'], list) and len(p['points']) == len(pts), '%s: points %r', w, p['points'])
                    for q, (x, y) in zip(p['points'], pts):
                        keys(q, ['x', 'y'], what=w)
                        num(q['x'], x, w + ' x')
                        num(q['y'], y, w + ' y')
        elif k == 'form':
            keys(g, ['type', 'children'] + XY, what=w)
            obj_children(g['children'], e['c'], w)
        elif k == 'img':
            keys(g, ['type', 'src'] + XY, what=w)
            want(isinstance(g['src'], str) and g['src'], '%s src %r', w, g['src'])
        else:
            keys(g, ['type', 'char_blocks'] + XY, what=w)
            want(isinstance(g['char_blocks'], list) and len(g['char_blocks']) == len(e['c']), '%s blocks %r', w, items.brief(g['char_blocks']))
            for cb, ce in zip(g['char_blocks'], e['c']):
                keys(cb, ['size', 'text'] + XY, None, w)
                num(cb['size'], ce['size'], w + ' size')
                box4(cb, ce['b'], w + ' block')
                obj_colour(cb, 'color', ce['col'], w)
                t = ''.join(c for c, _ in ce['t'])
                want(cb['text'] == t, '%s: text %r instead of %r', w, cb['text'], t)
        box4(g, e['b'], w)


def check_objects(d, exp):
    keys(d, ['pages'], what='document')
    want(isinstance(d['pages'], list), 'pages are %r', d['pages'])
    same(len(d['pages']), len(exp), 'number of pages')
    for i, (p, e) in enumerate(zip(d['pages'], exp)):
        keys(p, ['id', 'width', 'height', 'children'], what='page')
        same(p['id'], e['id'], 'page id')
        num(p['width'], e['w'], 'width')
        num(p['height'], e['h'], 'height')
        obj_children(p['children'], e['c'], 'page %d' % i)


# --- XML
XML_BAD = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def check_xml(data, codec, exp):
    import xml.etree.ElementTree as ET
    m = re.match(rb'<\?xml version="1\.[0-9]"( encoding="([A-Za-z][A-Za-z0-9._-]*)")? *\?>', data)
    want(m, 'XML declaration %r', data[:60])
    if m.group(2):
        want(m.group(2).decode().lower() == codec, 'encoding %r', m.group(2))
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Bad('not well-formed: %s in %r' % (e, data[max(0, 0):0] + context(data, e.position)))
    same(root.tag, 'pages', 'root')
    no_text(root)
    same(len(root), len(exp), 'number of pages')
    for i, (p, e) in enumerate(zip(root, exp)):
        same(p.tag, 'page', 'page')
        no_text(p)
        same(p.get('id'), str(e['id']), 'page id')
        num(p.get('width'), e['w'], 'width')
        num(p.get('height'), e['h'], 'height')
        xml_children(p, e['c'], 'page %d' % i)


def context(data, pos):
    line = data.split(b'\n')[pos[0] - 1] if pos[0] <= data.count(b'\n') + 1 else b''
    return line[max(0, pos[1] - 60):pos[1] + 60]


def no_text(el):
    for t in [el.text] + [c.tail for c in el]:
        want(not (t or '').strip(), 'text %r in %s', t, el.tag)


def xml_colour(el, prefix, c, what):
    t, v = el.get(prefix + '-type'), el.get(prefix + '-values')
    if c is None:
        want(t is None and v is None, '%s has %s %r', what, prefix, t)
        return
    same(t, c[0], what + ' ' + prefix)
    same(v, XML_BAD.sub('', ','.join(c[1])), what + ' ' + prefix)


def xml_box(el, b, what):
    for k, v in zip(('x0', 'y0', 'x1', 'y1'), b):
        want(el.get(k) is not None, '%s without %s', what, k)
        num(el.get(k), v, what + ' ' + k)


def xml_children(el, exp, what):
    want(len(el) == len(exp), '%s: %d entries instead of %d', what, len(el), len(exp))
    no_text(el)
    for i, (g, e) in enumerate(zip(el, exp)):
        w = '%s.%d' % (what, i)
        k = e['k']
        same(g.tag, {'form': 'xobject', 'text': 'text-block'}.get(k, k), w)
        xml_box(g, e['b'], w)
        no_text(g)
        if k in ('rect', 'line', 'curve'):
            xml_colour(g, 'stroke', e['stroke'], w)
            xml_colour(g, 'fill', e['fill'], w)
            if k == 'curve':
                same(len(g), len(e['paths']), w + ' segments')
                for p, (m, _, pts) in zip(g, e['paths']):
                    same(p.tag, 'path', w)
                    same(p.get('type'), m, w)
                    no_text(p)
                    same(len(p), len(pts), w + ' points')
                    for q, (x, y) in zip(p, pts):
                        same(q.tag, 'point', w)
                        num(q.get('x'), x, w)
                        num(q.get('y'), y, w)
        elif k == 'form':
            xml_children(g, e['c'], w)
        elif k == 'img':
            want(g.get('src'), '%s without src', w)
        else:
            same(len(g), len(e['c']), w + ' blocks')
            for cb, ce in zip(g, e['c']):
                same(cb.tag, 'char-block', w)
                xml_box(cb, ce['b'], w)
                num(cb.get('size'), ce['size'], w + ' size')
                xml_colour(cb, 'color', ce['col'], w)
                no_text(cb)
                same(len(cb), len(ce['t']), w + ' characters')
                for c, (t, b) in zip(cb, ce['t']):
                    same(c.tag, 'char', w)
                    xml_box(c, b, w)
                    want(len(c) == 0, '%s: elements in a character', w)
                    want((c.text or '') == XML_BAD.sub('', t), '%s: character %r instead of %r', w, c.text, t)


# --- HTML
VOID = {'meta', 'img', 'path'}
WS = ' \t\r\n\f'


class El(object):
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids, self.text = tag, attrs, [], ''


def parse_html(text):
    from html.parser import HTMLParser
    root = El('', {})
    stack = [root]

    class P(HTMLParser):
        def handle_starttag(self, tag, attrs, empty=False):
            names = [k for k, _ in attrs]
            want(len(set(names)) == len(names), 'attribute twice in %s', tag)
            e = El(tag, dict(attrs))
            stack[-1].kids.append(e)
            if not empty and tag not in VOID:
                stack.append(e)

        def handle_startendtag(self, tag, attrs):
            want(tag in VOID, 'element %s as empty tag', tag)
            self.handle_starttag(tag, attrs, True)

        def handle_endtag(self, tag):
            want(len(stack) > 1 and stack[-1].tag == tag, 'end of %s inside of %s', tag, stack[-1].tag)
            stack.pop()

        def handle_data(self, data):
            stack[-1].text += data

        def handle_comment(self, data):
            raise Bad('comment %r' % data)

        def handle_decl(self, data):
            want(data.lower().startswith('doctype html'), 'declaration %r', data)

        def unknown_decl(self, data):
            raise Bad('declaration %r' % data)

        def handle_pi(self, data):
            raise Bad('instruction %r' % data)
    p = P(convert_charrefs=True)
    p.feed(text)
    p.close()
    want(len(stack) == 1, '%s is not closed', stack[-1].tag)
    return root


def css(style, what):
    """Declarations of a style attribute: {property: value}."""
    out = {}
    for part in re.findall(r'((?:"(?:[^"\\]|\\.)*"|[^;"])+)', style or '', re.S):
        if ':' not in part:
            raise Bad('%s: style %r' % (what, style))
        k, v = part.split(':', 1)
        want(k.strip() not in out, '%s: style %r', what, style)
        out[k.strip()] = v.strip()
    return out


def px(d, key, v, what):
    want(key in d, '%s without %s', what, key)
    t = d[key]
    num(t[:-2] if t.endswith('px') else t, v, '%s %s' % (what, key))


def check_html(data, codec, exp):
    root = parse_html(data.decode(codec))
    want([k.tag for k in root.kids] == ['html'] and not root.text.strip(WS), 'top: %r', [k.tag for k in root.kids])
    want([k.tag for k in root.kids[0].kids] == ['head', 'body'], 'html: %r', [k.tag for k in root.kids[0].kids])
    head, body = root.kids[0].kids
    for m in head.kids:
        if m.tag == 'meta' and 'charset' in m.attrs:
            same(m.attrs['charset'], codec, 'charset')
    want(not body.text.strip(WS), 'text %r', body.text)
    same(len(body.kids), len(exp), 'number of pages')
    for i, (p, e) in enumerate(zip(body.kids, exp)):
        same((p.tag, p.attrs.get('class')), ('div', 'page'), 'page')
        same(p.attrs.get('id'), 'page-%d' % e['id'], 'page id')
        st = css(p.attrs.get('style'), 'page')
        px(st, 'width', e['w'], 'page')
        px(st, 'height', e['h'], 'page')
        html_children(p, e['c'], e, 'page %d' % i)


def html_colour(got, c, what):
    """A device gray or RGB colour in CSS notation: 8-bit components may be rounded; gray may be black of an opacity."""
    if c is None or c[0] not in ('DeviceGray', 'DeviceRGB'):
        return
    try:
        vs = [float(v) / (255 if c[0] == 'DeviceRGB' else 1) for v in c[1]]
    except ValueError:
        return
    if len(vs) != (1 if c[0] == 'DeviceGray' else 3) or not all(0 <= v <= 1 for v in vs):
        return
    want(got is not None, '%s is missing instead of %r', what, c)
    m = re.fullmatch(r'(rgba?)\(([^()]*)\)', got.replace(' ', ''))
    want(m, '%s is %r instead of %r', what, got, c)
    parts = m.group(2).split(',')
    want(len(parts) == (4 if m.group(1) == 'rgba' else 3), '%s is %r instead of %r', what, got, c)
    try:
        ps = [float(x[:-1]) * 2.55 if x.endswith('%') else float(x) for x in parts[:3]]
        alpha = float(parts[3]) if parts[3:] else 1
    except ValueError:
        raise Bad('%s is %r instead of %r' % (what, got, c))
    for x, v in zip(ps, vs * 3 if len(vs) == 1 else vs):
        want(abs(255 - alpha * (255 - x) - 255 * v) < .51, '%s is %r instead of %r', what, got, c)   # seen on white paper


LETTER = {'m': ('M', 1), 'l': ('L', 1), 'c': ('C', 3), 'v': ('C', 3), 'y': ('C', 3), 'h': ('Z', 0)}


def css_text(v):
    """The text of an identifier or a string."""
    if v[:1] not in '"\'':
        return v
    return re.sub(r'\\(?:([0-9a-fA-F]{1,6})[ \n\t]?|(.))', lambda m: chr(int(m.group(1), 16)) if m.group(1) else m.group(2), v[1:-1], flags=re.S)


def html_font(st, name, weight, angle, what):
    name = name.decode('latin-1') if isinstance(name, bytes) else str(name)
    # references to C1 control characters stand for others in HTML
    other = lambda s: re.sub('[\x80-\x9f]', lambda m: m.group().encode('latin-1').decode('cp1252', 'replace'), s)
    want(other(css_text(st.get('font-family', ''))) == other(name), '%s: font %r instead of %r', what, st.get('font-family'), name)
    if weight is None:
        want(st.get('font-weight', 'normal') in ('normal', 'None', 'inherit', '400'), '%s: weight %r', what, st)
    elif isinstance(weight, (int, float)):
        num(st.get('font-weight', ''), weight, what + ' weight')
    m = re.search(r'skew\(\s*([-+.0-9e]+)deg', st.get('transform', 'skew(0deg'))
    want(m, '%s: %r', what, st)
    num(m.group(1), angle, what + ' angle')


def html_children(el, exp, page, what):
    want(not el.text.strip(WS), '%s: text %r', what, el.text)
    want(len(el.kids) == len(exp), '%s: %d entries instead of %d', what, len(el.kids), len(exp))
    for i, (g, e) in enumerate(zip(el.kids, exp)):
        w = '%s.%d' % (what, i)
        k, b = e['k'], e['b']
        same(g.tag, {'form': 'div', 'text': 'span', 'img': 'img'}.get(k, 'svg'), w)
        if k in ('rect', 'line', 'curve'):
            st = css(g.attrs.get('style'), w)
            px(st, 'left', b[0], w)
            px(st, 'right', b[2], w)
            px(st, 'bottom', page['h'] - b[1], w)
            px(st, 'top', page['h'] - b[3], w)
            px(st, 'width', b[2] - b[0], w)
            px(st, 'height', b[3] - b[1], w)
            same([x.tag for x in g.kids], ['path'], w)
            want(not g.text.strip(WS), '%s: text %r', w, g.text)
            d = g.kids[0].attrs.get('d', '')
            ps = dict(g.kids[0].attrs, **css(g.kids[0].attrs.get('style'), w))
            html_colour(ps.get('stroke'), e['stroke'], w + ' stroke')
            html_colour(ps.get('fill'), e['fill'], w + ' fill')
            segs = re.findall(r'([A-Za-z])([^A-Za-z]*(?:e[-+]?[0-9]+[^A-Za-z]*)*)', d)
            same(''.join(s[0] for s in segs), ''.join(LETTER[m][0] for _, m, _ in e['paths']), w + ' path')
            cur = start = None
            for (_, args), (_, m, pts) in zip(segs, e['paths']):
                args = [float(x) for x in args.split()]
                full = ([cur or pts[0]] + pts) if m == 'v' else pts + pts[-1:] if m == 'y' else pts
                same(len(args), 2 * len(full), w + ' points')
                ht, wd = b[3] - b[1], b[2] - b[0]
                if ht > .01 and wd > .01:       # otherwise the scale is undetermined
                    for j, (x, y) in enumerate(full):
                        want(abs(args[2 * j] * ht - (x - b[0])) <= 1e-6 * max(ht, wd, abs(x)), '%s: x %r', w, args)
                        want(abs(args[2 * j + 1] * ht - (b[3] - y)) <= 1e-6 * max(ht, wd, abs(y)), '%s: y %r', w, args)
                if m == 'm':
                    start = pts[-1]
                cur = start if m == 'h' else pts[-1]
        elif k == 'form':
            st = css(g.attrs.get('style'), w)
            px(st, 'left', b[0], w)
            px(st, 'bottom', b[1], w)
            px(st, 'width', b[2] - b[0], w)
            px(st, 'height', b[3] - b[1], w)
            html_children(g, e['c'], page, w)
        elif k == 'img':
            px(g.attrs, 'width', b[2] - b[0], w)
            px(g.attrs, 'height', b[3] - b[1], w)
            want(g.attrs.get('src'), '%s without src', w)
        else:
            same(g.attrs.get('class'), 'text-block', w)
            want(not g.text.strip(WS), '%s: text %r', w, g.text)
            same(len(g.kids), len(e['c']), w + ' blocks')
            for cb, ce in zip(g.kids, e['c']):
                same((cb.tag, cb.attrs.get('class')), ('span', 'char-block'), w)
                st = css(cb.attrs.get('style'), w)
                px(st, 'left', ce['b'][0], w)
                px(st, 'bottom', ce['b'][1], w)
                px(st, 'width', ce['b'][2] - ce['b'][0], w)
                px(st, 'height', ce['b'][3] - ce['b'][1], w)
                px(st, 'font-size', ce['size'], w)
                html_colour(st.get('color'), ce['col'], w + ' colour')
                html_font(st, *ce['font'], w)
                for d in ('width', 'height'):
                    for m in ('min-', 'max-'):
                        want(m + d not in st or st[m + d] == st[d], '%s: %s%s %r', w, m, d, st)
                want(not cb.text.strip(WS), '%s: text %r', w, cb.text)
                same(len(cb.kids), len(ce['t']), w + ' characters')
                for c, (t, bx) in zip(cb.kids, ce['t']):
                    same((c.tag, c.attrs.get('class')), ('span', 'char'), w)
                    want(not c.kids, '%s: elements in a character', w)
                    cs = css(c.attrs.get('style'), w)
                    px(cs, 'width', bx[2] - bx[0], w)
                    px(cs, 'height', bx[3] - bx[1], w)
                    for d in ('width', 'height'):
                        for m in ('min-', 'max-'):
                            want(m + d not in cs or cs[m + d] == cs[d], '%s: %s%s %r', w, m, d, cs)
                    want(c.text.strip(WS) == t.strip(WS), '%s: character %r instead of %r', w, c.text, t)


# --- text
def texts(exp):
    def rec(cs):
        for e in cs:
            if e['k'] == 'text':
                for b in e['c']:
                    for t, _ in b['t']:
                        yield t
            elif e['k'] == 'form':
                yield from rec(e['c'])
    return ''.join('========== [ page %d ] ==========\n%s\n' % (p['id'], ''.join(rec(p['c']))) for p in exp)


def verify(fmt, data, codec, exp):
    try:
        if fmt == 'json':
            check_objects(read_json(data, codec), exp)
        elif fmt == 'yaml':
            import yaml
            try:
                d = read_yaml(data, codec)
            except yaml.YAMLError as e:
                raise Bad('not YAML: %s' % ' '.join(str(e).split())[:300])
            check_objects(d, exp)
        elif fmt == 'xml':
            check_xml(data, codec, exp)
        elif fmt == 'html':
            check_html(data, codec, exp)
        else:
            g, w = data.decode(codec), texts(exp)
            if g != w:
                n = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
                raise Bad('text %r instead of %r' % (g[max(0, n - 30):n + 40], w[max(0, n - 30):n + 40]))
    except Bad as e:
        return str(e)
    except json.JSONDecodeError as e:
        return 'not JSON: %s in %r' % (e, data[max(0, e.pos - 60):e.pos + 60])
    except UnicodeDecodeError as e:
        return 'not %s: %s' % (codec, e)
    return None


def convert(fmt, data, codec='utf-8', out=None, **kw):
    """Writes the document, converts it; returns (output bytes)."""
    from pdfmajor.converters import convert_file
    with open('in.pdf', 'wb') as f:
        f.write(data)
    out = out or 'out.' + fmt
    if os.path.exists(out):
        os.remove(out)
    convert_file('in.pdf', output_file=out, out_type=fmt, codec=codec, **kw)
    with open(out, 'rb') as f:
        return f.read()


def build(case):
    """(document, keyword arguments)"""
    k = case['k']
    kw = {}
    if k == 'pages':
        res, ex = resources({}, small=True)
        body = [b'BT /F1 5 Tf (page %d) Tj ET 0 0 m 5 %d l S', b'', b'BT ET']
        pages = [body[e] % ((i, i) if e == 0 else ()) for i, e in enumerate(case['e'])]
        kw = {}
        if case['p'] is not None:
            kw['pagenos'] = case['p']
        if case['m']:
            kw['maxpages'] = case['m']
        return simple(pages, resources=res, extra=ex, mediabox=(0, 0, 300.5, 200), page_extra={'Rotate': 90 * (sum(case['e']) % 4)}), kw
    if k == 'keys':
        res, ex = resources({'D%d' % i: font({key: VALUES[v] for key, v in x}) for i, x in enumerate(case['s'])}, small=True)
        return simple([b'BT /D%d 5 Tf (ab) Tj ET .5 g BT /D%d 5 Tf (c) Tj ET' % (i, i) for i in range(len(case['s']))], resources=res, extra=ex), kw
    if k == 'names':
        fr, prog = {}, []
        for i, x in enumerate(case['s']):
            raw = b''.join(b'\xff' if c is None else c.encode() for c in x)
            fr['G%d' % i] = font({'FontName': Raw(ser_name(raw))}, name='x')
            fr['G%d' % i]['FontDescriptor']['FontName'] = Raw(ser_name(raw))
            prog.append(b'BT /G%d 5 Tf (a) Tj ET /Pattern cs %s scn /Pattern CS %s SCN 1 2 3 4 re B BT /F1 4 Tf (b) Tj ET' % (i, ser_name(raw), ser_name(raw)))
        res, ex = resources(fr, small=True)
        return simple(prog, resources=res, extra=ex), kw
    if k == 'size':
        pages, name, _ = sized(case['w'], case['n'])
        res, ex = resources({'G0': font({'FontName': Raw(ser_name(name.encode()))})}, small=True)
        for i in range(case['n'] if case['w'] == 'forms' else 0):
            ex[2000 + i] = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 50, 60], 'Resources': dict(res, XObject={'W%d' % (i - 1): R(1999 + i)} if i else {})},
                             b'BT /G0 5 Tf (i) Tj ET' + (b' /W%d Do' % (i - 1) if i else b''))
            res = dict(res, XObject={'W%d' % i: R(2000 + i)}) if i == case['n'] - 1 else res
        return simple(pages, resources=res, extra=ex), kw
    if k == 'units':
        res, ex = resources()
        progs = [wrap(b'\n'.join(UNITS[u] for u in s), case['w'], ex, res, 2000 + 2 * i) for i, s in enumerate(case['s'])]
        return simple(progs, resources=res, extra=ex, mediabox=(-10, -20, 590, 780)), {'ignore_bad_chars': True}
    # text: every string is one Tj; every token one character
    codes = {}
    for s in case['s']:
        for t in s:
            codes.setdefault(t, len(codes) + 1)
    res, ex = resources(chars={c: t for t, c in codes.items()})
    lines = [b'/FU 5 Tf'] + [b'BT <' + b''.join(b'%04x' % codes[t] for t in s) + b'> Tj ET' for s in case['s']]
    return simple([b'\n'.join(lines)], resources=res, extra=ex), kw


def run_case(case, obs):
    fmt = case['f']
    codec = case.get('c', 'utf-8')
    data, kw = build(case)
    ckw = dict(kw)
    ofmt, out = fmt, None
    if case['k'] == 'pages':
        if fmt == 'yaml' and case['o'] == 1:
            ofmt = 'yml'
        if case['o'] == 2:
            out = 'some.name.' + ofmt
    obs.count('traces')
    from pdfmajor.execptions import EmptyDocumentError
    exp = got = None
    try:
        got = convert(ofmt, data, codec, out=out, **ckw)
    except EmptyDocumentError:
        pass
    try:
        exp = expected('in.pdf', **kw)
    except EmptyDocumentError:
        pass
    if got is None or exp is None:
        return None if got is exp else 'only one of conversion and reading finds pages'
    if case['k'] == 'text':     # the environment model: the interpreter delivers the text asked for
        chars = [''.join(c for b in t['c'] for c, _ in b['t']) for t in exp[0]['c']]
        w = [''.join(s) for s in case['s']]
        if chars != w:
            n = [i for i, (a, b) in enumerate(zip(chars, w)) if a != b]
            return 'text shown is %r instead of %r' % (n and chars[n[0]], n and w[n[0]])
    if case['k'] == 'size':
        def shown(t):
            return ''.join(c for c, _ in t['t']) if 't' in t else ''.join(map(shown, t.get('c', ())))
        t = ''.join(''.join(map(shown, p['c'])) for p in exp)
        if t != sized(case['w'], case['n'])[2]:
            return 'text shown is %.200r' % t
    for p in exp:
        for x in p['c']:
            obs.trans()
            obs.state(repr(x))
    obs.outcome(len(got))
    return verify(fmt, got, codec, exp)


def finding_key(case, err):
    return re.sub(r'[\d.]+', '#', err)[:60]
