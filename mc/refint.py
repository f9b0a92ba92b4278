"""Reference interpreter of page content (ISO 32000-1, 8.4, 8.5, 9.3, 9.4, 8.10), written from the standard.

Programs are lists of (operator, operand, ...) with operands in pdfgen's notation; `text(prog)` writes them as
content stream bytes, `Ref(env).run(prog)` computes the items in the canonical form of items.py.
"""
from mc.items import ANY
from mc.pdfgen import N, ser

IDENT = (1, 0, 0, 1, 0, 0)


class RefError(Exception):
    """The program is not one the standard gives a meaning to."""


def text(prog, sep=b'\n'):
    return sep.join(b' '.join([ser(a) for a in op[1:]] + [op[0].encode()]) for op in prog) + sep


def mul(m, n):
    """m applied first, then n."""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D, e * A + f * C + E, e * B + f * D + F)


def pt(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def bounds(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (min(xs), min(ys), max(xs), max(ys))


class Font(object):
    """What a font dictionary declares: glyph widths (thousandths), the characters of the codes, the box heights."""

    def __init__(self, name, widths, chars, ascent=700, descent=-200, height=None, default=0, nbytes=1, vertical=False,
                 scale=.001, boxwidth=0, disp=None, default_disp=(None, 880)):
        self.name, self.widths, self.chars = name, widths, chars
        self.ascent, self.descent, self.default = ascent, descent, default
        self.height = ascent - descent if height is None else height
        self.nbytes, self.vertical, self.scale, self.vscale = nbytes, vertical, scale, scale
        self.boxwidth, self.disp, self.default_disp = boxwidth, disp or {}, default_disp

    def codes(self, s):
        n = self.nbytes
        return [int.from_bytes(s[i:i + n], 'big') for i in range(0, len(s) - n + 1, n)]


class State(object):
    def __init__(self, ctm):
        self.ctm = ctm
        self.sc = self.nc = (None, ())      # colours as set; unset at the start
        self.scs = self.ncs = ('DeviceGray', 1)
        self.lw = 0
        self.font = None
        self.size = self.Tc = self.Tw = self.TL = self.Ts = 0
        self.Tz = 100

    def copy(self):
        s = State(self.ctm)
        s.__dict__.update(self.__dict__)
        return s


def rgb(space, a):
    """RGB components are reported as multiples of 1/255."""
    return tuple(round(v * 255) for v in a) if space == 'DeviceRGB' else tuple(a)


SPACES = {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4, 'CalRGB': 3, 'CalGray': 1, 'Lab': 3, 'Pattern': 1,
          'Separation': 1, 'Indexed': 1}


class Ref(object):
    def __init__(self, fonts=None, xobjects=None, spaces=None):
        """fonts: {name: Font}; xobjects: {name: ('image', w, h, bits) or ('form', bbox, matrix, prog, env or None)};
        spaces: {name: (reported name, components)}"""
        self.fonts, self.xobjects, self.spaces = fonts or {}, xobjects or {}, dict((k, (k, n)) for k, n in SPACES.items())
        self.spaces.update(spaces or {})
        self.obs = None

    def run(self, prog, ctm=IDENT, state=None, obs=None):
        s = state or State(ctm)
        stack, out, path, block = [], [], [], None
        tm = tlm = IDENT
        for op in prog:
            o, a = op[0], op[1:]
            if obs is not None:
                obs.trans()
                obs.state((s.ctm, s.sc, s.nc, s.lw, s.size, s.Tc, s.Tw, s.Tz, s.TL, s.Ts, s.font and s.font.name, len(stack), tm, tlm,
                           tuple(path), block is None, o))
            if o == 'q':
                stack.append(s.copy())
            elif o == 'Q':
                if stack:
                    s = stack.pop()
            elif o == 'cm':
                s.ctm = mul(a, s.ctm)
            elif o == 'w':
                s.lw = a[0]
            elif o in ('J', 'j', 'M', 'd', 'ri', 'i', 'gs', 'BMC', 'BDC', 'EMC', 'MP', 'DP', 'BX', 'EX', 'Tr', 'W', 'W*', 'sh'):
                pass
            # --- colour
            elif o in ('CS', 'cs'):
                nm, n = self.spaces[a[0]]
                if o == 'CS':
                    s.scs, s.sc = (nm, n), ANY      # the initial colour of the space: not compared
                else:
                    s.ncs, s.nc = (nm, n), ANY
            elif o in ('SC', 'SCN'):
                s.sc = (s.scs[0], rgb(s.scs[0], a))
            elif o in ('sc', 'scn'):
                s.nc = (s.ncs[0], rgb(s.ncs[0], a))
            elif o == 'G':
                s.scs, s.sc = ('DeviceGray', 1), ('DeviceGray', tuple(a))
            elif o == 'g':
                s.ncs, s.nc = ('DeviceGray', 1), ('DeviceGray', tuple(a))
            elif o == 'RG':
                s.scs, s.sc = ('DeviceRGB', 3), ('DeviceRGB', tuple(round(v * 255) for v in a))
            elif o == 'rg':
                s.ncs, s.nc = ('DeviceRGB', 3), ('DeviceRGB', tuple(round(v * 255) for v in a))
            elif o == 'K':
                s.scs, s.sc = ('DeviceCMYK', 4), ('DeviceCMYK', tuple(a))
            elif o == 'k':
                s.ncs, s.nc = ('DeviceCMYK', 4), ('DeviceCMYK', tuple(a))
            # --- paths
            elif o in ('m', 'l', 'c', 'v', 'y'):
                path.append((o, tuple(pt(s.ctm, a[i], a[i + 1]) for i in range(0, len(a), 2))))
            elif o == 'h':
                path.append(('h', ()))
            elif o == 're':
                x, y, w, h = a
                path += [('m', (pt(s.ctm, x, y),)), ('l', (pt(s.ctm, x + w, y),)), ('l', (pt(s.ctm, x + w, y + h),)),
                         ('l', (pt(s.ctm, x, y + h),)), ('h', ())]
            elif o in ('S', 'f', 'F', 'B', 's', 'b', 'f*', 'B*', 'b*'):
                if o in ('s', 'b', 'b*'):
                    path.append(('h', ()))
                if any(p[1] for p in path):
                    out.append(self.curve(s, path, o.endswith('*')))
                path = []
            elif o == 'n':
                path = []
            # --- text
            elif o == 'BT':
                tm = tlm = IDENT
                block = []
            elif o == 'ET':
                out.append(('text', block))
                block = None
            elif o == 'Tc':
                s.Tc = a[0]
            elif o == 'Tw':
                s.Tw = a[0]
            elif o == 'Tz':
                s.Tz = a[0]
            elif o == 'TL':
                s.TL = a[0]
            elif o == 'Ts':
                s.Ts = a[0]
            elif o == 'Tf':
                s.font, s.size = self.fonts[a[0]], a[1]
            elif o in ('Td', 'TD'):
                if o == 'TD':
                    s.TL = -a[1]
                tm = tlm = mul((1, 0, 0, 1, a[0], a[1]), tlm)
            elif o == 'Tm':
                tm = tlm = tuple(a)
            elif o in ('T*', "'", '"', 'Tj', 'TJ'):
                if o == '"':
                    s.Tw, s.Tc = a[0], a[1]
                if o in ('T*', "'", '"'):
                    tm = tlm = mul((1, 0, 0, 1, 0, -s.TL), tlm)
                if o != 'T*':
                    tm, chars = self.show(s, tm, a[-1] if o == 'TJ' else [a[-1]])
                    if chars:
                        block.append((s.nc, s.font.name, chars))
            # --- external objects
            elif o == 'Do':
                x = self.xobjects[a[0]]
                if x[0] == 'image':
                    out.append(('image', bounds([pt(s.ctm, i, j) for i in (0, 1) for j in (0, 1)]), (x[1], x[2]), x[3]))
                elif x[0] == 'form':
                    _, bbox, matrix, sub, env = x
                    inner = s.copy()
                    inner.ctm = mul(matrix, s.ctm)
                    x0, y0, x1, y1 = bbox
                    b = bounds([pt(inner.ctm, i, j) for i in (x0, x1) for j in (y0, y1)])
                    out.append(('form', b, (env or self).run(sub, state=inner, obs=obs)))
            elif o == 'BI':     # (BI, dict, data)
                out.append(('image', bounds([pt(s.ctm, i, j) for i in (0, 1) for j in (0, 1)]),
                            (a[0]['W'], a[0]['H']), a[0].get('BPC', 1)))
            else:
                raise RefError(o)
        return out

    def curve(self, s, path, evenodd):
        shape = ''.join(p[0] for p in path)
        ends = [p[1][-1] for p in path if p[1]]
        kind = 'curve'
        if shape == 'ml':
            (x0, y0), (x1, y1) = ends
            kind = 'vline' if x0 == x1 else 'hline' if y0 == y1 else 'line'
        elif shape == 'mlllh':
            (a, b, c, d) = ends
            if (a[0] == b[0] and b[1] == c[1] and c[0] == d[0] and d[1] == a[1]) or \
               (a[1] == b[1] and b[0] == c[0] and c[1] == d[1] and d[0] == a[0]):
                kind = 'rect'
        return ('curve', kind, bounds(ends), s.lw, s.sc, s.nc, evenodd, path)

    def show(self, s, tm, seq):
        f = s.font
        th = 1 if f.vertical else s.Tz / 100.0
        chars = []
        for e in seq:
            if isinstance(e, (int, float)):
                t = -e / 1000.0 * s.size * th
                tm = mul((1, 0, 0, 1) + ((0, t) if f.vertical else (t, 0)), tm)
                continue
            for code in f.codes(bytes(e)):
                w = f.widths.get(code, f.default) * f.scale
                adv = w * s.size * th
                trm = mul(tm, s.ctm)
                if f.vertical:
                    bw = f.boxwidth * s.size * .001
                    vx, vy = f.disp.get(code, f.default_disp)
                    vx = bw / 2 if vx is None else vx * s.size * .001
                    top = (1000 - vy) * s.size * .001 + s.Ts
                    x0, x1, y0, y1 = -vx, -vx + bw, top + adv, top
                else:
                    y0 = f.descent * s.size * f.vscale + s.Ts
                    x0, x1, y1 = 0, adv, y0 + f.height * s.size * f.vscale
                b = bounds([pt(trm, i, j) for i in (x0, x1) for j in (y0, y1)])
                ch = f.chars.get(code)
                chars.append((ch, b))
                t = adv + (s.Tc + (s.Tw if code == 32 and f.nbytes == 1 else 0)) * th
                tm = mul((1, 0, 0, 1) + ((0, t) if f.vertical else (t, 0)), tm)
        return tm, chars


class NoRestore(Ref):
    """As Ref, but Q leaves colours and line width as they are (known finding C10 Q-keeps-colours)."""
    what = None

    def run(self, prog, **kw):
        out, live = [], []
        for op in prog:
            out.append(op)
            if op[0] in ('w', 'RG', 'rg', 'G', 'g', 'K', 'k', 'CS', 'cs', 'SC', 'sc', 'SCN', 'scn'):
                live.append(op)
            elif op[0] == 'Q':
                out += live
        return Ref.run(self, out, **kw)
