"""C22: exported images. Every small image (all sizes, all pixel patterns of the smallest, all ways of writing the dictionary), every JPEG wrapping and
every history of drawing, reading and exporting up to the bound; the files are read by an independent decoder (own reader, cross-checked by Pillow)."""
import gc
import io
import itertools
import os
import shutil
import struct
import zlib
from mc import filters
from mc.pdfcrypt import Crypt
from mc.pdfgen import N, R, S, simple, ser

ID = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = ['samples are compared as stored (no Decode arrays)', 'CMYK JPEG images are converted and only their size and kind are compared']
CASE_CPU_S = 60
SPACES = {   # name: (components, bits, how the dictionary says so)
    'g1': (1, 1), 'mask': (1, 1), 'cal1': (1, 1), 'g8': (1, 8), 'cal8': (1, 8), 'icc1': (1, 8), 'icc1b': (1, 1), 'rgb': (3, 8), 'calrgb': (3, 8), 'icc3': (3, 8)}
STYLES = ['plain', 'indirect', 'flate', 'a85flate', 'inline', 'inlineabbr', 'cut', 'long', 'rc4', 'aes', 'form', 'ahx', 'list1']


def BOUNDS(tier):
    w, h, px = bounds(tier)
    return ('all widths 1-%d x heights 1-%d of %d kinds of samples x %d ways of writing the image; all patterns of up to %d pixels; JPEG data behind every filter chain and encryption; '
            'all histories of %d operations (export, read, draw again, export under a name) of an image; all sequences of %d drawings of 8 images over pages, kept and released, '
            'with and without caching' % (w, h, len(SPACES), len(STYLES), px, 3 if tier == 'quick' else 4, 3 if tier == 'quick' else 4))


def bounds(tier):
    return (17, 3, 6) if tier == 'quick' else (40, 5, 10)


def jobs(tier):
    w, h, px = bounds(tier)
    return ([('size', s, st) for s in SPACES for st in STYLES] + [('pix', s, n) for s in SPACES for n in range(1, px + 1)] + [('jpeg', i, 4) for i in range(4)] +
            [('hist', i, 4) for i in range(4)] + [('names', c, k) for c in (0, 1) for k in (0, 1)])


def explore(job, ctx):
    wmax, hmax, px = bounds(ctx.tier)
    if job[0] == 'size':
        for h in range(1, hmax + 1):
            for lo in range(1, wmax + 1, 6):
                ctx.run({'k': 'size', 'p': job[1], 'y': job[2], 's': [[w, h] for w in range(lo, min(lo + 6, wmax + 1))]})
    elif job[0] == 'pix':
        comps, bits = SPACES[job[1]]
        n = job[2]
        vals = (0, 1) if bits == 1 else (0, 127, 255) if comps == 1 else (0, 200)
        k = n * comps
        if len(vals) ** k > (1100 if ctx.tier == 'quick' else 5000):
            return
        shapes = [(w, n // w) for w in range(1, n + 1) if n % w == 0]
        for w, h in shapes:
            buf = []
            for v in itertools.product(vals, repeat=k):
                buf.append([w, h, list(v)])
                if len(buf) == 50:
                    ctx.run({'k': 'size', 'p': job[1], 'y': 'plain', 's': buf})
                    buf = []
            if buf:
                ctx.run({'k': 'size', 'p': job[1], 'y': 'plain', 's': buf})
    elif job[0] == 'jpeg':
        chains = [c for n in (0, 1, 2) for c in itertools.product(('flate', 'a85', 'ahx', 'rl'), repeat=n)]
        for i, (ch, crypt, mode) in enumerate(itertools.product(chains, (None, 'r3', 'v4aes', 'r5'), ('L', 'RGB', 'junk', 'CMYK'))):
            if i % job[2] == job[1]:
                for pre in ('', 'd'):
                    ctx.run({'k': 'jpeg', 'c': ch, 'e': crypt, 'm': mode, 'o': pre})
    elif job[0] == 'hist':
        d = 3 if ctx.tier == 'quick' else 4
        for n in range(1, d + 1):
            for i, ops in enumerate(itertools.product('edrnxg', repeat=n)):
                if i % job[2] == job[1]:
                    for kind in ('rgb', 'g1', 'g8', 'jpeg', 'inline'):
                        ctx.run({'k': 'hist', 'h': ''.join(ops), 'p': kind})
    else:
        d = 3 if ctx.tier == 'quick' else 4
        for n in range(1, d + 1):
            for seq in itertools.product('ABCJijFp', repeat=n):
                ctx.run({'k': 'names', 'q': ''.join(seq), 'c': job[1], 'r': job[2]})


def pack(w, h, comps, bits, samples):
    """Sample data, rows on byte boundaries."""
    out = bytearray()
    it = iter(samples)
    for _ in range(h):
        row = [next(it) for _ in range(w * comps)]
        if bits == 8:
            out += bytes(row)
        else:
            row += [0] * (-len(row) % 8)
            for i in range(0, len(row), 8):
                out.append(int(''.join(map(str, row[i:i + 8])), 2))
    return bytes(out)


def pattern(w, h, comps, bits):
    """Samples that tell every position and component apart."""
    n = w * h * comps
    if bits == 1:
        return [(i * i // 3 + i) & 1 if i else 1 for i in range(n)]
    return [(37 * i + 11 * (i // (w * comps)) + 5) % 256 for i in range(n)]


def read_bmp(data):
    """Strict reader of uncompressed bitmaps; rows of (r, g, b)."""
    if data[:2] != b'BM':
        raise ValueError('signature %r' % data[:2])
    size, _, off = struct.unpack('<III', data[2:14])
    if size != len(data):
        raise ValueError('file of %d bytes says %d' % (len(data), size))
    hs, w, h, planes, bpp, comp, isize, _, _, ncol, _ = struct.unpack('<IiiHHIIIIII', data[14:54])
    if hs != 40 or planes != 1 or comp != 0:
        raise ValueError('header %r' % ((hs, planes, comp),))
    pal = []
    if bpp <= 8:
        n = ncol or 1 << bpp
        if off < 54 + 4 * n:
            raise ValueError('palette runs into pixels')
        pal = [tuple(data[54 + 4 * i:54 + 4 * i + 3][::-1]) for i in range(n)]
    line = (w * bpp + 31) // 32 * 4
    if off + line * abs(h) > len(data):
        raise ValueError('pixels run out')
    rows = []
    for y in range(abs(h)):
        r = data[off + y * line:off + (y + 1) * line]
        if bpp == 1:
            rows.append([pal[r[x // 8] >> (7 - x % 8) & 1] for x in range(w)])
        elif bpp == 8:
            rows.append([pal[r[x]] for x in range(w)])
        elif bpp == 24:
            rows.append([(r[3 * x + 2], r[3 * x + 1], r[3 * x]) for x in range(w)])
        else:
            raise ValueError('depth %d' % bpp)
    return rows[::-1] if h > 0 else rows


def want_rows(w, h, comps, bits, samples):
    m = 255 if bits == 1 else 1
    px = [tuple(v * m for v in samples[i:i + 3]) if comps == 3 else (samples[i] * m,) * 3 for i in range(0, len(samples), comps)]
    return [px[y * w:(y + 1) * w] for y in range(h)]


def check_bmp(path, w, h, comps, bits, samples):
    with open(path, 'rb') as f:
        data = f.read()
    if not path.endswith('.bmp'):
        return 'exported as %s' % os.path.basename(path)
    try:
        rows = read_bmp(data)
    except (ValueError, struct.error, IndexError) as e:
        return 'not a bitmap: %s' % e
    want = want_rows(w, h, comps, bits, samples)
    if (len(rows), len(rows and rows[0])) != (h, w):
        return 'bitmap of %d x %d instead of %d x %d' % (len(rows and rows[0]), len(rows), w, h)
    if rows != want:
        y = next(i for i in range(h) if rows[i] != want[i])
        return 'row %d is %r instead of %r' % (y, rows[y][:6], want[y][:6])
    from PIL import Image
    im = Image.open(io.BytesIO(data)).convert('RGB')
    flat = [tuple(im.getpixel((x, y))) for y in range(h) for x in range(w)]
    if flat != [p for r in want for p in r]:
        return 'Pillow reads other pixels'
    return None


CAL = {'WhitePoint': [.95, 1, 1.09]}
ICC = {920: S({'N': 1}, b'profile'), 921: S({'N': 3}, b'profile')}


def space(p):
    return {'g1': N('DeviceGray'), 'g8': N('DeviceGray'), 'mask': None, 'cal1': [N('CalGray'), CAL], 'cal8': [N('CalGray'), CAL], 'icc1': [N('ICCBased'), R(920)],
            'icc1b': [N('ICCBased'), R(920)], 'rgb': N('DeviceRGB'), 'calrgb': [N('CalRGB'), CAL], 'icc3': [N('ICCBased'), R(921)]}[p]


class Build(object):
    """Adds images to a document."""

    def __init__(self):
        self.ex, self.x, self.n = dict(ICC), {}, 1000

    def ref(self, v):
        self.n += 1
        self.ex[self.n] = v
        return R(self.n)

    def stream(self, at, data):
        r = self.ref(S(at, data))
        name = 'I%d' % r.num
        self.x[name] = r
        return b'/%s Do ' % name.encode()


def chain(data, names):
    """(encoded, filter names) with names[0] applied first when decoding."""
    fs = {'flate': (zlib.compress, 'FlateDecode'), 'a85': (filters.a85, 'ASCII85Decode'), 'ahx': (filters.ahx, 'ASCIIHexDecode'),
          'rl': (lambda d: b''.join(bytes([len(d[i:i + 128]) - 1]) + d[i:i + 128] for i in range(0, len(d), 128)) + b'\x80', 'RunLengthDecode')}
    for n in reversed(names):
        data = fs[n][0](data)
    return data, [N(fs[n][1]) for n in names]


def inline(w, h, bits, comps, data, abbr, mask=False):
    k = {'W': w, 'H': h, 'BPC': bits, 'CS': N('G' if comps == 1 else 'RGB')} if abbr else \
        {'Width': w, 'Height': h, 'BitsPerComponent': bits, 'ColorSpace': N('DeviceGray' if comps == 1 else 'DeviceRGB')}
    if mask:
        k = {'W': w, 'H': h, 'IM': True}
    enc = filters.ahx(data)     # no way to mistake data for the end marker
    k['F' if abbr or mask else 'Filter'] = N('AHx' if abbr or mask else 'ASCIIHexDecode')
    return b'BI ' + b' '.join(b'/' + a.encode() + b' ' + ser(v) for a, v in k.items()) + b' ID ' + enc + b' EI '


def draw(b, p, style, w, h, samples):
    comps, bits = SPACES[p]
    data = pack(w, h, comps, bits, samples)
    if style == 'cut' and not any(pack(w, h, comps, bits, samples)[-1:]):
        data = data[:-1]    # missing data stands for zeros here
    if style == 'long':
        data += b'\n\xff\xff'
    if style in ('inline', 'inlineabbr') and p in ('g1', 'mask', 'g8', 'rgb'):
        return inline(w, h, bits, comps, data, style == 'inlineabbr', p == 'mask')
    at = {'Type': N('XObject'), 'Subtype': N('Image'), 'Width': w, 'Height': h, 'BitsPerComponent': bits}
    if p == 'mask':
        at['ImageMask'] = True
    else:
        at['ColorSpace'] = space(p)
    if style == 'indirect':
        for k in ('Width', 'Height', 'BitsPerComponent', 'ColorSpace', 'ImageMask'):
            if k in at:
                v = at[k]
                at[k] = b.ref([b.ref(v[0])] + v[1:] if isinstance(v, list) else v)
    elif style == 'list1' and isinstance(at.get('ColorSpace'), N):
        at['ColorSpace'] = [at['ColorSpace']]
    elif style in ('flate', 'a85flate', 'ahx'):
        data, f = chain(data, {'flate': ['flate'], 'ahx': ['ahx'], 'a85flate': ['a85', 'flate']}[style])
        at['Filter'] = f if len(f) > 1 else f[0]
    op = b.stream(at, data)
    if style == 'form':
        fx = dict(b.x)
        op2 = b.stream({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9], 'Resources': {'XObject': fx}}, op)
        return op2
    return op


def document(b, pages, crypt=None):
    from mc.pdfgen import Doc
    objs = dict(b.ex)
    objs[1] = {'Type': N('Catalog'), 'Pages': R(2)}
    kids = []
    for i, c in enumerate(pages):
        objs[10 + 2 * i] = S({}, c)
        objs[11 + 2 * i] = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': [0, 0, 100, 100], 'Resources': {'XObject': dict(b.x)}, 'Contents': R(10 + 2 * i)}
        kids.append(R(11 + 2 * i))
    objs[2] = {'Type': N('Pages'), 'Kids': kids, 'Count': len(kids)}
    d = Doc(crypt=crypt)
    trailer = {}
    if crypt:
        objs[5] = crypt.dict
        trailer = {'Encrypt': R(5), 'ID': [crypt.docid, crypt.docid]}
    d.rev(objs, root=R(1), trailer=trailer, plain=(5,))
    return bytes(d)


def images(it):
    from pdfmajor.interpreter import LTImage, LTXObject
    for x in it:
        if isinstance(x, LTImage):
            yield x
        elif isinstance(x, LTXObject):
            yield from images(x)


def jpeg(mode):
    if mode == 'junk':
        return b'\xff\xd8\xff\xe0 not much of a JPEG >~ endstream \r\n\x00\xff\xd9'
    from PIL import Image
    im = Image.new(mode, (3, 2), {'L': 77, 'RGB': (1, 200, 30), 'CMYK': (10, 20, 200, 40)}[mode])
    f = io.BytesIO()
    im.save(f, 'JPEG')
    return f.getvalue()


def fresh():
    shutil.rmtree('img', ignore_errors=True)
    os.mkdir('img')
    return 'img'


def write(data):
    with open('in.pdf', 'wb') as f:
        f.write(data)


def run_case(case, obs):
    from pdfmajor.interpreter import PDFInterpreter
    out = fresh()
    k = case['k']
    obs.count('traces')
    if k == 'size':
        b = Build()
        p, style = case['p'], case['y']
        comps, bits = SPACES[p]
        members = []
        body = b''
        for x in case['s']:
            w, h = x[:2]
            samples = x[2] if len(x) > 2 else pattern(w, h, comps, bits)
            if style == 'cut':
                samples = samples[:-min(8 if bits == 1 else 1, w)] + [0] * min(8 if bits == 1 else 1, w)
            members.append((w, h, samples))
            body += b'q 7.5 0 0 2.25 1 1 cm ' + draw(b, p, style, w, h, samples) + b' Q '
        crypt = {'rc4': Crypt('r3', '', ''), 'aes': Crypt('v4aes', '', '')}.get(style)
        write(document(b, [body], crypt))
        n = 0
        for page in PDFInterpreter('in.pdf'):
            for img in images(page):
                w, h, samples = members[n]
                n += 1
                obs.trans()
                obs.state((p, style, w, h, samples))
                path = img.save_image(out)
                e = check_bmp(path, w, h, comps, bits, samples)
                obs.outcome((w, h, samples))
                if e:
                    return '%d x %d %s %s: %s' % (w, h, p, style, e)
        return None if n == len(members) else '%d of %d images delivered' % (n, len(members))
    if k == 'jpeg':
        b = Build()
        raw = jpeg(case['m'])
        data, f = chain(raw, case['c'])
        f.append(N('DCTDecode'))
        at = {'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 3, 'Height': 2, 'BitsPerComponent': 8,
              'ColorSpace': N({'L': 'DeviceGray', 'CMYK': 'DeviceCMYK'}.get(case['m'], 'DeviceRGB')), 'Filter': f if len(f) > 1 else f[0]}
        write(document(b, [b.stream(at, data)], case['e'] and Crypt(case['e'], '', '')))
        obs.state(repr(case))
        for page in PDFInterpreter('in.pdf'):
            for img in images(page):
                obs.trans()
                if case['o']:
                    img.stream.get_data()
                path = img.save_image(out, 'name')
                with open(path, 'rb') as fp:
                    got = fp.read()
                obs.outcome((got[:20], len(got)))
                if case['m'] == 'CMYK':
                    from PIL import Image
                    im = Image.open(io.BytesIO(got))
                    if im.size != (3, 2) or im.format != 'JPEG':
                        return 'CMYK image exported as %r %r' % (im.format, im.size)
                elif got != raw:
                    return 'JPEG %s exported as %r instead of %r' % (os.path.basename(path), got[:30], raw[:30])
                return None
        return 'no image'
    if k == 'hist':
        return history(case, obs, out)
    return names(case, obs, out)


def source(b, p, i=0):
    """(content, checker of an exported file)"""
    w, h = 5, 2
    if p == 'jpeg':
        raw = jpeg('RGB') + bytes([i])
        at = {'Type': N('XObject'), 'Subtype': N('Image'), 'Width': 3, 'Height': 2, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceRGB'), 'Filter': N('DCTDecode')}

        def check(path):
            with open(path, 'rb') as f:
                return None if f.read() == raw else 'JPEG data differ'
        return b.stream(at, raw), check
    kind = 'g8' if p == 'inline' else p
    comps, bits = SPACES[kind]
    samples = pattern(w, h, comps, bits)
    if bits == 8:
        samples = [(v + 17 * i) % 256 for v in samples]
    return draw(b, kind, 'inlineabbr' if p == 'inline' else 'plain', w, h, samples), lambda path: check_bmp(path, w, h, comps, bits, samples)


def history(case, obs, out):
    """e: export, d: read the data, r: read the page again, n: export under a name, x: raw data, g: release and collect."""
    from pdfmajor.interpreter import PDFInterpreter
    b = Build()
    content, check = source(b, case['p'])
    write(document(b, [content]))
    pages = list(PDFInterpreter('in.pdf'))
    img = next(images(pages[0]))
    for i, op in enumerate(case['h']):
        obs.trans()
        obs.state((case['p'], case['h'][:i + 1]))
        if op == 'e':
            e = check(img.save_image(out))
        elif op == 'n':
            path = img.save_image(out, 'n%d' % i)
            e = check(path) or (None if os.path.basename(path).startswith('n%d.' % i) else 'name %s' % path)
        elif op == 'd':
            img.stream.get_data()
            e = None
        elif op == 'x':
            img.stream.get_rawdata()
            e = None
        elif op == 'r':
            img = next(images(pages[0]))
            e = None
        else:
            img = None
            gc.collect()
            img = next(images(pages[0]))
            e = None
        if e:
            return 'after %s: %s' % (case['h'][:i + 1], e)
    obs.outcome(case['h'])
    return None


def names(case, obs, out):
    """A, B, C: images of one size; J: JPEG; i, j: inline images of the same size; F: a form with A and i in it; p: next page."""
    from pdfmajor.interpreter import PDFInterpreter
    b = Build()
    src = {'A': source(b, 'g8', 1), 'B': source(b, 'g8', 2), 'C': source(b, 'g8', 3), 'J': source(b, 'jpeg', 4), 'i': source(b, 'inline', 5), 'j': source(b, 'inline', 6)}
    form = b.stream({'Type': N('XObject'), 'Subtype': N('Form'), 'BBox': [0, 0, 9, 9], 'Resources': {'XObject': dict(b.x)}}, src['A'][0] + src['i'][0])
    pages, drawn = [b''], []
    for c in case['q']:
        if c == 'p':
            pages.append(b'')
        elif c == 'F':
            pages[-1] += form
            drawn += ['A', 'i']
        else:
            pages[-1] += src[c][0]
            drawn.append(c)
    write(document(b, pages))
    kept, paths = [], []
    for page in PDFInterpreter('in.pdf', caching=bool(case['c'])):
        for img in images(page):
            paths.append(img.save_image(out))
            if case['r']:
                kept.append(img)
            else:
                img = None
                gc.collect(0)
        page = None
    obs.trans(len(drawn))
    obs.state((case['q'], case['c'], case['r']))
    obs.outcome(len(set(paths)))
    if len(paths) != len(drawn):
        return '%d images instead of %d' % (len(paths), len(drawn))
    for c, path in zip(drawn, paths):
        e = src[c][1](path)
        if e:
            return 'after %s: image %s: %s' % (case['q'], c, e)
    for (a, p), (c, q) in itertools.combinations(zip(drawn, paths), 2):
        if a != c and p == q:
            return 'images %s and %s in one file' % (a, c)
    return None


def finding_key(case, err):
    import re
    return re.sub(r'\d+', '#', err)[:60]
