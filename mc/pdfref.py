"""Reference reader for PDF object syntax (ISO 32000 7.2, 7.3), written from the standard.

lex(data) -> [(pos, token)]   parse(data, refs) -> [value]

Canonical values: None, bool, int, ('f', float), bytes, ('n', str|bytes) names, ('k', bytes) keywords,
('r', objid), list, dict.
"""
WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
HEXD = b'0123456789abcdefABCDEF'


class Bad(Exception):
    """The bytes are not valid PDF object syntax: the properties say nothing about them."""


def _name(raw):
    try:
        return ('n', raw.decode('utf-8'))
    except UnicodeDecodeError:
        return ('n', raw)


def lex(d):
    out, i, n = [], 0, len(d)
    while i < n:
        c = d[i]
        if c in WS:
            i += 1
            continue
        p = i
        ch = d[i:i + 1]
        if ch == b'%':
            while i < n and d[i] not in b'\r\n':
                i += 1
        elif ch == b'/':
            i += 1
            v = bytearray()
            while i < n and d[i] not in WS and d[i] not in DELIM:
                if d[i] == 35:
                    h = d[i + 1:i + 3]
                    if len(h) < 2 or h[0] not in HEXD or h[1] not in HEXD or h == b'00':
                        raise Bad('name escape')
                    v.append(int(h, 16))
                    i += 3
                else:
                    v.append(d[i])
                    i += 1
            out.append((p, _name(bytes(v))))
        elif ch == b'(':
            i += 1
            depth, v = 1, bytearray()
            while True:
                if i >= n:
                    raise Bad('unterminated string')
                c = d[i]
                if c == 0x5c:
                    i += 1
                    if i >= n:
                        raise Bad('unterminated string')
                    e = d[i:i + 1]
                    if e in b'nrtbf':
                        v.append({b'n': 10, b'r': 13, b't': 9, b'b': 8, b'f': 12}[e])
                        i += 1
                    elif e in b'01234567':
                        j = i
                        while j < n and j < i + 3 and d[j] in b'01234567':
                            j += 1
                        v.append(int(d[i:j], 8) & 255)
                        i = j
                    elif e == b'\r':
                        i += 1
                        if d[i:i + 1] == b'\n':
                            i += 1
                    elif e == b'\n':
                        i += 1
                    else:
                        v += e
                        i += 1
                    continue
                if c == 13:
                    raise Bad('bare CR in a string: not claimed')
                if c == 40:
                    depth += 1
                elif c == 41:
                    depth -= 1
                    if depth == 0:
                        i += 1
                        break
                v.append(c)
                i += 1
            out.append((p, bytes(v)))
        elif ch == b'<' and d[i + 1:i + 2] == b'<':
            out.append((p, ('k', b'<<')))
            i += 2
        elif ch == b'>' and d[i + 1:i + 2] == b'>':
            out.append((p, ('k', b'>>')))
            i += 2
        elif ch == b'<':
            i += 1
            v = bytearray()
            while True:
                if i >= n:
                    raise Bad('unterminated hex string')
                if d[i] == 62:
                    i += 1
                    break
                if d[i] in HEXD:
                    v.append(d[i])
                elif d[i] not in WS:
                    raise Bad('bad hex digit')
                i += 1
            if len(v) % 2:
                raise Bad('odd hex string: the shipped tests fix a different reading')
            out.append((p, bytes.fromhex(v.decode())))
        elif ch in b'[]{}':
            out.append((p, ('k', ch)))
            i += 1
        elif ch in b')>':
            raise Bad('stray delimiter')
        else:
            j = i
            while j < n and d[j] not in WS and d[j] not in DELIM:
                j += 1
            out.append((p, _regular(d[i:j])))
            i = j
    return out


def _regular(t):
    import re
    if re.fullmatch(rb'[+-]?[0-9]+', t):
        return int(t)
    if re.fullmatch(rb'[+-]?([0-9]+\.[0-9]*|\.[0-9]+)', t):
        return ('f', float(t))
    if t == b'true':
        return True
    if t == b'false':
        return False
    if t == b'null':
        return ('k', b'null')
    if re.fullmatch(rb"[A-Za-z][A-Za-z0-9*'\"_]*|['\"]", t):
        return ('k', t)
    raise Bad('token %r' % t)


def parse(d, refs=True, nulls=True):
    """The sequence of top-level objects; refs: 'n g R' is a reference."""
    toks = lex(d)
    stack = [[]]
    kinds = []
    for _, t in toks:
        if isinstance(t, tuple) and t[0] == 'k':
            k = t[1]
            if k in (b'[', b'<<', b'{'):
                stack.append([])
                kinds.append(k)
                continue
            if k in (b']', b'>>', b'}'):
                if not kinds or {b'[': b']', b'<<': b'>>', b'{': b'}'}[kinds[-1]] != k:
                    raise Bad('unbalanced')
                body = stack.pop()
                if kinds.pop() == b'<<':
                    if len(body) % 2:
                        raise Bad('odd dictionary')
                    dd = {}
                    for a, b in zip(body[::2], body[1::2]):
                        if not (isinstance(a, tuple) and a[0] == 'n') or a[1] in dd:
                            raise Bad('dictionary key')
                        if b is not None:
                            dd[a[1]] = b
                    stack[-1].append(dd)
                else:
                    stack[-1].append(body)
                continue
            if k == b'R' and refs:
                if len(stack[-1]) < 2:
                    raise Bad('reference')
                g = stack[-1].pop()
                o = stack[-1].pop()
                if type(o) is not int or type(g) is not int or o <= 0 or g < 0:
                    raise Bad('reference')
                stack[-1].append(('r', o))
                continue
            if k == b'null' and nulls:
                stack[-1].append(None)
                continue
            if kinds:
                raise Bad('keyword inside a composite object')
        stack[-1].append(t)
    if kinds:
        raise Bad('unbalanced')
    return stack[0]


def canon(x):
    """Canonical form of a value the implementation returned."""
    from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    if x is None or x is True or x is False:
        return x
    if type(x) is int:
        return x
    if type(x) is float:
        return ('f', x)
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, PSLiteral):
        return ('n', x.name)
    if isinstance(x, PSKeyword):
        return ('k', x.name)
    if isinstance(x, PDFObjRef):
        return ('r', x.objid)
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return ('?', repr(x))


def canon_gen(x):
    """Canonical form of a value of the writer (mc.pdfgen)."""
    from .pdfgen import N, R
    if x is None or x is True or x is False:
        return x
    if isinstance(x, N):
        return ('n', str(x))
    if isinstance(x, R):
        return ('r', x.num)
    if type(x) is int:
        return x
    if type(x) is float:
        return ('f', x)
    if isinstance(x, bytes):
        return bytes(x)
    if isinstance(x, list):
        return [canon_gen(v) for v in x]
    if isinstance(x, dict):
        return {k: canon_gen(v) for k, v in x.items() if v is not None}
    raise TypeError(repr(x))
