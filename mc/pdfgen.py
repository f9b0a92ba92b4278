"""An independent PDF writer: the environment model every check builds documents with.

Values: None, bool, int, float, bytes (string), N('name'), R(num[, gen]), list, dict (str keys),
Raw(bytes), S(dict, bytes) (stream).
"""
import struct
import zlib


class N(str):
    """A name object."""
    __slots__ = ()

    def __repr__(self):
        return '/' + str(self)


class R(object):
    __slots__ = ('num', 'gen')

    def __init__(self, num, gen=0):
        self.num, self.gen = num, gen

    def __repr__(self):
        return '%d %d R' % (self.num, self.gen)

    def __eq__(self, o):
        return isinstance(o, R) and (o.num, o.gen) == (self.num, self.gen)

    def __hash__(self):
        return hash((self.num, self.gen))


class Raw(bytes):
    """Bytes written as they are."""


class S(object):
    """A stream object. Length is added when absent (set None to leave it out)."""

    def __init__(self, attrs, data, eol=b'\n', before_end=b'\n'):
        self.attrs, self.data, self.eol, self.before_end = dict(attrs), data, eol, before_end

    def __repr__(self):
        return 'S(%r, %r)' % (self.attrs, self.data)


REGULAR = set(range(33, 127)) - set(b'()<>[]{}/%#')


def ser_name(s):
    b = s.encode('utf-8') if isinstance(s, str) else s
    return b'/' + b''.join(bytes([c]) if c in REGULAR else b'#%02x' % c for c in b)


def ser_str(b):
    out = bytearray(b'(')
    for c in b:
        if c in b'()\\':
            out += b'\\' + bytes([c])
        elif c == 13:
            out += b'\\r'
        else:
            out.append(c)
    return bytes(out + b')')


def ser_num(x):
    if isinstance(x, int):
        return b'%d' % x
    s = ('%.6f' % x).rstrip('0')
    return (s + '0' if s.endswith('.') else s).encode()


def ser(o, enc=None):
    """Serialises a value; enc(bytes)->bytes encrypts strings when given."""
    if o is None:
        return b'null'
    if o is True:
        return b'true'
    if o is False:
        return b'false'
    if isinstance(o, Raw):
        return bytes(o)
    if isinstance(o, N):
        return ser_name(o)
    if isinstance(o, R):
        return b'%d %d R' % (o.num, o.gen)
    if isinstance(o, (int, float)):
        return ser_num(o)
    if isinstance(o, (bytes, bytearray)):
        o = bytes(o)
        if enc:
            return b'<' + enc(o).hex().encode() + b'>'
        return ser_str(o)
    if isinstance(o, (list, tuple)):
        return b'[' + b' '.join(ser(x, enc) for x in o) + b']'
    if isinstance(o, dict):
        return b'<<' + b' '.join(ser_name(k) + b' ' + ser(v, enc) for k, v in o.items()) + b'>>'
    raise TypeError(repr(o))


class Doc(object):
    """Writes a file revision by revision.

    d = Doc(); d.rev({num: value}, root=R(1)); bytes(d)
    """

    def __init__(self, header=b'%PDF-1.7\n%\xe2\xe3\xcf\xd3\n', crypt=None):
        self.buf = bytearray(header)
        self.prev = None
        self.size = 1
        self.trailer_base = {}
        self.crypt = crypt      # object with .string(num, gen, b) and .stream(num, gen, b)
        self.maxnum = 0
        # how objects and trailers are laid out
        self.objfmt, self.endfmt, self.trfmt = b'%d %d obj\n', b'\nendobj\n', b'trailer\n'

    def _obj(self, num, val, gen=0, plain=False):
        pos = len(self.buf)
        c = self.crypt if not plain else None
        enc = (lambda b: c.string(num, gen, b)) if c else None
        self.buf += self.objfmt % (num, gen)
        if isinstance(val, S):
            data = val.data
            if c:
                data = c.stream(num, gen, data, val.attrs)
            at = dict(val.attrs)
            if 'Length' not in at:
                at['Length'] = len(data)
            elif at['Length'] is None:
                del at['Length']
            self.buf += ser(at, enc) + b'\nstream' + val.eol + data + val.before_end + b'endstream'
        else:
            self.buf += ser(val, enc)
        self.buf += self.endfmt
        return pos

    def rev(self, objs, root=None, trailer=None, mode='table', free=(), objstm=(), objstm_num=None,
            xref_num=None, gens=None, widths=(1, 4, 2), split=True, hybrid=False, plain=(), eol=b'\n',
            filt=True, startxref=True, extends=None, index=True):
        """Appends one revision.

        mode: 'table' or 'stream'.  objstm: numbers stored in an object stream (mode 'stream', or
        'table' with hybrid=True, where an additional cross-reference stream lists them).
        """
        gens = gens or {}
        ent = {}
        if self.prev is None:
            ent[0] = ('f', 0, 65535)
        for n in free:
            ent[n] = ('f', 0, gens.get(n, 1))
        for n in sorted(objs):
            if n in objstm:
                continue
            ent[n] = ('n', self._obj(n, objs[n], gens.get(n, 0), n in plain), gens.get(n, 0))
        inner = {}
        if objstm:
            body, head = b'', []
            for i, n in enumerate(sorted(objstm)):
                head.append(b'%d %d' % (n, len(body)))
                body += ser(objs[n]) + b' '
                inner[n] = ('c', objstm_num, i)
            h = b' '.join(head) + b' '
            at = {'Type': N('ObjStm'), 'N': len(objstm), 'First': len(h)}
            data = h + body
            if filt:
                at['Filter'] = N('FlateDecode')
                data = zlib.compress(data)
            ent[objstm_num] = ('n', self._obj(objstm_num, S(at, data)), 0)
        alln = list(objs) + list(free) + [x for x in (objstm_num, xref_num) if x]
        self.maxnum = max([self.maxnum] + alln)
        self.size = self.maxnum + 1
        tr = dict(self.trailer_base)
        tr.update(trailer or {})
        if root is not None:
            tr['Root'] = root
        self.trailer_base = dict(tr)
        tr['Size'] = self.size
        if self.prev is not None:
            tr['Prev'] = self.prev
        if mode == 'stream':
            ent.update(inner)
            pos = len(self.buf)
            ent[xref_num] = ('n', pos, 0)
            self._xref_stream(xref_num, ent, tr, widths, split, filt, index)
        else:
            if hybrid and inner:
                xpos = len(self.buf)
                e2 = dict(inner)
                t2 = dict(tr)
                if hybrid != 'prev':
                    t2.pop('Prev', None)
                self._xref_stream(xref_num, e2, t2, widths, split, filt, index)
                tr['XRefStm'] = xpos
                ent[xref_num] = ('n', xpos, 0)
                for n in inner:
                    ent[n] = ('f', 0, 0)
            pos = len(self.buf)
            self.buf += b'xref' + eol
            for start, run in runs(ent, split):
                self.buf += b'%d %d' % (start, len(run)) + eol
                for t, a, b in run:
                    e2 = b' \n' if eol == b'\n' else b'\r\n' if eol == b'\r\n' else b' \r'
                    self.buf += b'%010d %05d %s' % (a, b, t.encode()) + e2
            self.buf += (b'trailer' + eol if self.trfmt == b'trailer\n' else self.trfmt) + ser(tr) + eol
        self.prev = pos
        if startxref:
            self.buf += b'startxref' + eol + b'%d' % pos + eol + b'%%EOF' + eol
        return self

    def _xref_stream(self, num, ent, tr, widths, split, filt, index):
        at = dict(tr)
        at['Type'] = N('XRef')
        at['W'] = list(widths)
        data = b''
        idx = []
        size = tr['Size']
        if not index:       # whole range, no Index entry
            for n in range(size):
                if n not in ent:
                    ent[n] = ('f', 0, 0)
        for start, run in runs(ent, split):
            idx += [start, len(run)]
            for t, a, b in run:
                tt = {'f': 0, 'n': 1, 'c': 2}[t]
                for w, v in zip(widths, (tt, a, min(b, 256 ** widths[2] - 1) if t == 'f' else b)):
                    data += v.to_bytes(w, 'big') if w else b''
        if index:
            at['Index'] = idx
        if filt:
            at['Filter'] = N('FlateDecode')
            data = zlib.compress(data)
        self._obj(num, S(at, data), plain=True)

    def __bytes__(self):
        return bytes(self.buf)


def runs(ent, split=True):
    """Contiguous runs of object numbers (split=False: still contiguous, as the format demands)."""
    out = []
    for n in sorted(ent):
        if out and out[-1][0] + len(out[-1][1]) == n and split != 'single':
            out[-1][1].append(ent[n])
        else:
            out.append((n, [ent[n]]))
    return out


def simple(pages, resources=None, mediabox=(0, 0, 612, 792), extra=None, catalog=None, compress=False,
           trailer=None, page_extra=None, **kw):
    """A plain one-revision document. pages: list of content bytes (or list of bytes: content array)."""
    objs = {}
    nxt = [3]

    def add(v):
        n = nxt[0]
        nxt[0] += 1
        objs[n] = v
        return R(n)
    # fixed numbers chosen by the caller for extra objects start at 1000
    for n, v in (extra or {}).items():
        objs[n] = v
    res = add(resources or {})
    kids = []
    for i, c in enumerate(pages):
        if isinstance(c, (list, tuple)):
            cont = [add(S({}, x)) for x in c]
        elif c is None:
            cont = None
        elif compress:
            cont = add(S({'Filter': N('FlateDecode')}, zlib.compress(c)))
        else:
            cont = add(S({}, c))
        p = {'Type': N('Page'), 'Parent': R(2), 'MediaBox': list(mediabox), 'Resources': res}
        if cont is not None:
            p['Contents'] = cont
        if page_extra:
            p.update(page_extra(i) if callable(page_extra) else page_extra)
        kids.append(add(p))
    objs[1] = dict({'Type': N('Catalog'), 'Pages': R(2)}, **(catalog or {}))
    objs[2] = {'Type': N('Pages'), 'Kids': kids, 'Count': len(kids)}
    d = Doc()
    d.rev(objs, root=R(1), trailer=trailer, **kw)
    return bytes(d)
