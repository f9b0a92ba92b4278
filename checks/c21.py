"""C21: inline images. All data strings over the bytes of the end marker, all placements against buffers and stream ends, all
notations of the attributes; each image is followed by a line that must still be drawn."""
import base64
import itertools
import zlib
from mc import progs
from mc.pdfgen import N, R, S, simple

ID = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = ['one white-space character follows ID; white space precedes and follows the end marker, and the data does not contain the '
               'end marker between white space', 'data that ends in a carriage return is not followed by a line feed alone',
               'an image lies in one content stream']
WS = b'\0\t\n\f\r '
SEPS = [b'\n', b' ', b'\r\n', b'\r', b'\t', b'\0', b'\f']
PRE = [b' ', b'\n', b'\r', b'\t', b'\0']
ALPHA = [b'E', b'I', b' ', b'\n', b'\r', b'x']


def BOUNDS(tier):
    return ('all data of up to %d bytes over {E, I, space, LF, CR, x} x %d separators x %d characters behind ID; all byte values and pairs with marker bytes; every alignment of every '
            'part against 4096 and 8192; all notations of keys, filters and attributes; places: page, form, divided and filtered streams, end of content' %
            (4 if tier == 'quick' else 6, len(SEPS), len(PRE)))


def jobs(tier):
    n = 4 if tier == 'quick' else 6
    out = [('data', k, i) for k in range(n + 1) for i in range(1 if k < 4 else 6)]
    out += [('bytes', i) for i in range(4)] + [('attrs', i) for i in range(len(FILTERS))] + [('align', i) for i in range(len(SHAPES))] + [('place',)]
    return out


def marker(d):
    """Where the first end marker between white space begins in d, or None."""
    i = d.find(b'EI')
    while i >= 0:
        if (i == 0 or d[i - 1] in WS) and i + 2 < len(d) and d[i + 2] in WS:
            return i
        i = d.find(b'EI', i + 1)


def good(data, sep):
    """Is data + sep + EI unambiguous?"""
    if sep == b'\n' and data.endswith(b'\r'):
        return False
    return marker(data + sep + b'EI\n') == len(data + sep)


SHAPES = [(d, sep) for d in (b'', b'x', b'abcEI', b'x EIx', b'a\r\nb', b'\r\r', b'E E E ', b'EI' * 20) for sep in (b'\n', b'\r\n', b' ') if good(d, sep)]


def explore(job, ctx):
    k = job[0]
    if k == 'data':
        it = (b''.join(x) for x in itertools.product(ALPHA, repeat=job[1]))
        if job[1] >= 4:
            it = (x for x in it if x[:1] == ALPHA[job[2]])
        for part in progs.chunks(it, 40 if job[1] < 5 else 200):
            for sep, pre in itertools.product(SEPS, PRE):
                if job[1] >= 4 and (SEPS.index(sep) + PRE.index(pre)) % 3:
                    continue
                s = [d.hex() for d in part if good(d, sep)]
                if s:
                    ctx.run({'k': k, 's': s, 'sep': sep.hex(), 'pre': pre.hex()})
    elif k == 'bytes':
        b = bytes(range(job[1], 256, 4))
        forms = [lambda x: x, lambda x: b'E' + x, lambda x: x + b'EI', lambda x: b'EI' + x, lambda x: b'\nEI' + x, lambda x: x + b'EI\n', lambda x: x + x,
                 lambda x: b'(' + x, lambda x: x + b' E', lambda x: b'xEI ' + x]
        for f in forms:
            for sep in (b'\n', b' '):
                s = [f(bytes([c])) for c in b]
                ctx.run({'k': k, 's': [d.hex() for d in s if good(d, sep)], 'sep': sep.hex(), 'pre': '20'})
    elif k == 'attrs':
        for keys, dp, cs, bpc, im, style in itertools.product((0, 1, 2), (0, 1, 2), range(len(CS)), (1, 8), (0, 1), (0, 1, 2)):
            ctx.run({'k': k, 'f': job[1], 's': [[keys, dp, cs, bpc, im, style]]})
    elif k == 'align':
        for at in (4096, 8192):
            for delta in range(-50, 4):
                ctx.run({'k': k, 'i': job[1], 's': [[at, delta]]})
    else:
        for p, data in itertools.product(PLACES, [b'', b'x', b'EI', b'Q EIQ\nEI', b'\xff\0(', b'abcEI', b'1 2 3 EIEI x']):
            for filt in (0, 1):
                if not filt and not good(data, b'\n'):
                    continue
                ctx.run({'k': k, 'p': p, 's': [data.hex()], 'f': filt})


FILTERS = [(), ('AHx',), ('A85',), ('LZW',), ('Fl',), ('RL',), ('ASCIIHexDecode',), ('ASCII85Decode', 'FlateDecode'), ('AHx', 'RL'), ('FlateDecode', ), ('DCT',)]
CS = ['G', 'RGB', 'DeviceGray', 'CMYK', 'Cs1', ['I', 'RGB', 1, b'\0\1\2\3\4\5'], None]
PLACES = ['page', 'form', 'second', 'first', 'filtered', 'last', 'adjacent', 'q', 'text', 'comment']


def enc(f, data):
    f = {'A': {'AHx': 'hex', 'A85': '85'}}.get('', {}).get(f, f)
    if f in ('AHx', 'ASCIIHexDecode'):
        return data.hex().encode() + b'>'
    if f in ('A85', 'ASCII85Decode'):
        return base64.a85encode(data, adobe=False) + b'~>'
    if f in ('Fl', 'FlateDecode'):
        return zlib.compress(data)
    if f == 'RL':
        return b''.join(bytes([len(data[i:i + 100]) - 1]) + data[i:i + 100] for i in range(0, len(data), 100)) + b'\x80'
    if f == 'LZW':
        from mc import filters
        bits = '100000000' + ''.join(format(c, '09b') for c in data[:200]) + '100000001'
        bits += '0' * (-len(bits) % 8)
        return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    return data


def image(data, sep=b'\n', pre=b' ', attrs=None):
    at = attrs or b'/W %d /H 1 /CS /G /BPC 8' % max(1, len(data))
    return b'BI ' + at + b' ID' + pre + data + sep + b'EI'


def line(i):
    return b'%d 0 m %d 5 l S ' % (i, i)


def walk(page):
    """Images and lines of a page in order, forms opened."""
    from pdfmajor.interpreter import LTImage, LTLine, LTXObject, LTHorizontalLine, LTVerticalLine
    out = []
    for it in page:
        if isinstance(it, LTImage):
            out.append(it)
        elif isinstance(it, LTXObject):
            out += walk(it)
        else:
            out.append(round(it.bbox.x0))
    return out


def pages(data):
    from pdfmajor.interpreter import PDFInterpreter
    with open('f.pdf', 'wb') as f:
        f.write(data)
    return [walk(p) for p in PDFInterpreter('f.pdf')]


def expect(got, datas, obs, srcsize=True):
    """got must be: image with datas[0], line 0, image with datas[1], line 1, ..."""
    for i, d in enumerate(datas):
        if len(got) < 2 * i + 2:
            return 'data %r: only %d items' % (d, len(got))
        im, ln = got[2 * i:2 * i + 2]
        if not hasattr(im, 'stream'):
            return 'data %r: no image but %r' % (d, im)
        g = im.stream.get_data()
        obs.outcome(g)
        if g != d:
            return 'data %r instead of %r' % (g[:200], d[:200])
        if srcsize and tuple(im.srcsize) != (max(1, len(d)), 1):
            return 'data %r: size %r' % (d, im.srcsize)
        if ln != i:
            return 'data %r: followed by %r instead of line %d' % (d, ln, i)
    if len(got) != 2 * len(datas):
        return 'more items than were drawn: %r' % (got[2 * len(datas):],)


def run_case(case, obs):
    k = case['k']
    obs.state(repr(case))
    if k in ('data', 'bytes'):
        sep, pre = bytes.fromhex(case['sep']), bytes.fromhex(case['pre'])
        datas = [bytes.fromhex(x) for x in case['s']]
        for d in datas:
            obs.state((d, sep, pre))
            obs.trans(len(d) + 2)
            obs.count('traces')
        body = b''.join(image(d, sep, pre) + WS[i % 6:i % 6 + 1] + line(i) for i, d in enumerate(datas))
        return expect(pages(simple([body]))[0], datas, obs)
    obs.count('traces')
    obs.trans()
    if k == 'attrs':
        return run_attrs(case, obs)
    if k == 'align':
        d, sep = SHAPES[case['i']]
        at, delta = case['s'][0]
        body = b'%' + b'p' * (at + delta - 2) + b'\n' + image(d, sep) + b'\n' + line(0) + image(b'second') + b' ' + line(1)
        # and with the data itself reaching up to there
        big = b'z' * (at + delta) + d
        body2 = image(big, sep) + b'\n' + line(0) + image(b'second') + b' ' + line(1)
        a, b = pages(simple([body, body2]))
        return expect(a, [d, b'second'], obs) or (expect(b, [big, b'second'], obs) if good(big, sep) else None)
    d = bytes.fromhex(case['s'][0])
    at = None
    raw = d
    if case['f']:
        at = b'/W %d /H 1 /CS /G /BPC 8 /F /AHx' % max(1, len(d))
        raw = d.hex().encode() + b'>'
    im = image(raw, attrs=at)
    p = case['p']
    res, extra, datas = {}, {}, [d]
    cont = [im + b' ' + line(0)]
    if p == 'form':
        res = {'XObject': {'Fm': R(1000)}}
        extra[1000] = S({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9]}, im + b'\n' + line(0))
        cont = [b'/Fm Do']
    elif p == 'second':
        cont = [b'q ', im + b' Q', line(0)]
    elif p == 'first':
        cont = [im, line(0)]
    elif p == 'last':
        cont = [line(9) + im]
        got = pages(simple([cont]))[0]
        return None if got[:1] == [9] and len(got) == 2 and got[1].stream.get_data() == d else 'image at the end of the content: %r' % (got,)
    elif p == 'adjacent':
        body = im + b' ' + im + b'\n' + line(0)
        got = pages(simple([body]))[0]
        return expect(got[:1] + [0], [d], obs) or expect(got[1:], [d], obs)
    elif p == 'q':
        cont = [b'q 1 0 0 1 0 7 cm ' + im + b'\tQ\r' + line(0)]
    elif p == 'text':
        cont = [im + b' 0 0 m n ' + line(0)]
    elif p == 'comment':
        cont = [b'% BI ID EI\n' + im + b' %EI BI\n(BI ID EI) pop ' + line(0)]
    return expect(pages(simple([cont] if p != 'filtered' else cont, resources=res, extra=extra, compress=p == 'filtered'))[0], datas, obs)


def run_attrs(case, obs):
    keys, dp, cs, bpc, im, style = case['s'][0]
    fl = FILTERS[case['f']]
    data = bytes(range(0, 120, 7)) * 2
    raw = data
    for f in reversed(fl):
        raw = enc(f, raw)
    full = {'W': 'Width', 'H': 'Height', 'CS': 'ColorSpace', 'BPC': 'BitsPerComponent', 'F': 'Filter', 'DP': 'DecodeParms', 'IM': 'ImageMask', 'D': 'Decode',
            'I': 'Interpolate'}
    key = lambda n, i=0: full[n] if keys == 1 or keys == 2 and i else n
    at = [(key('W'), 17), (key('H', 1), 2), (key('BPC', 1), bpc)]
    if CS[cs] is not None:
        at.append((key('CS'), [N(x) if isinstance(x, str) else x for x in CS[cs]] if isinstance(CS[cs], list) else N(CS[cs])))
    if im:
        at += [(key('IM', 1), True), (key('D'), [1, 0])]
    if fl:
        at.append((key('F', 1), N(fl[0]) if len(fl) == 1 and dp != 2 else [N(x) for x in fl]))
    if dp and fl:
        parms = {'Predictor': 1, 'Columns': 3}
        at.append((key('DP'), parms if len(fl) == 1 and dp == 1 else [None, parms][-len(fl):]))
    at.append((key('I', 1), False))
    from mc.pdfgen import ser
    if style == 1:
        at = at[::-1]
    sepd = b'\n%c /W 99 EI\n' if style == 2 else b' '
    body = image(raw, attrs=sepd.join(b'/' + k.encode() + b' ' + ser(v) for k, v in at)) + b'\n' + line(0)
    # the raw data may hold the marker by accident
    if not good(raw, b'\n'):
        return 'the checker made ambiguous data'
    got = pages(simple([body]))[0]
    e = expect(got, [data], obs, srcsize=False)
    if e:
        return e
    it = got[0]
    if tuple(it.srcsize) != (17, 2) or it.bits != bpc or bool(it.imagemask) != bool(im):
        return 'attributes %r %r %r' % (it.srcsize, it.bits, it.imagemask)
    abbr = {'G': 'DeviceGray', 'RGB': 'DeviceRGB', 'CMYK': 'DeviceCMYK', 'I': 'Indexed'}
    norm = lambda x: [abbr.get(getattr(y, 'name', y), getattr(y, 'name', y)) if not isinstance(y, bytes) else y for y in x]
    want = CS[cs] if isinstance(CS[cs], list) else [CS[cs]]
    if norm(it.colorspace) != norm(want):
        return 'colour space %r instead of %r' % (it.colorspace, want)
    return None


def finding_key(case, err):
    return err[:60]
