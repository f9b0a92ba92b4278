"""Font dictionaries with the facts they declare (refint.Font)."""
from mc.pdfgen import N, R, S
from mc.refint import Font


def simple(name='TestFont', first=32, widths=(250, 0, 300, 500, 700, 333), ascent=700, descent=-200, bbox=(0, 0, 0, 0),
           missing=0, subtype='Type1', chars=None):
    """A simple font whose codes first.. have the widths given; WinAnsi characters."""
    d = {'Type': N('Font'), 'Subtype': N(subtype), 'BaseFont': N(name), 'FirstChar': first,
         'LastChar': first + len(widths) - 1, 'Widths': list(widths), 'Encoding': N('WinAnsiEncoding'),
         'FontDescriptor': {'Type': N('FontDescriptor'), 'FontName': N(name), 'Flags': 32, 'Ascent': ascent,
                            'Descent': descent, 'FontBBox': list(bbox), 'MissingWidth': missing, 'ItalicAngle': 0}}
    h = bbox[3] - bbox[1]
    f = Font(name, {first + i: w for i, w in enumerate(widths)}, chars or {c: chr(c) for c in range(32, 127)}, ascent, descent,
             height=h or None, default=missing)
    return d, f


def type3(name='unknown', first=65, widths=(10, 20, 30), bbox=(0, -5, 40, 25), matrix=(.01, 0, 0, .02, 0, 0)):
    d = {'Type': N('Font'), 'Subtype': N('Type3'), 'FontBBox': list(bbox), 'FontMatrix': list(matrix), 'FirstChar': first,
         'LastChar': first + len(widths) - 1, 'Widths': list(widths), 'Encoding': {'Differences': [65, N('A'), N('B'), N('C')]},
         'CharProcs': {}, 'Resources': {}}
    return d


def tounicode(pairs, nbytes=2):
    """A ToUnicode CMap stream with the single mappings {code: text}."""
    lines = [b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def /CMapType 2 def',
             b'1 begincodespacerange <%s> <%s> endcodespacerange' % (b'00' * nbytes, b'FF' * nbytes)]
    items = sorted(pairs.items())
    for i in range(0, len(items), 100):
        part = items[i:i + 100]
        lines.append(b'%d beginbfchar' % len(part))
        for c, t in part:
            lines.append(b'<%s> <%s>' % (c.to_bytes(nbytes, 'big').hex().encode(), t.encode('utf-16-be').hex().encode()))
        lines.append(b'endbfchar')
    lines.append(b'endcmap CMapName currentdict /CMap defineresource pop end end')
    return S({}, b'\n'.join(lines))


def cid(name='CidFont', widths=None, dw=1000, vertical=False, chars=None, w2=None, dw2=(880, -1000), ascent=800, descent=-150,
        bbox=(0, 0, 0, 0), wlist=None, w2list=None, uni=900, sub=901):
    """A composite font with two-byte Identity codes; returns (dict, extra objects, Font)."""
    chars = chars or {c: chr(c) for c in range(32, 127)}
    widths = widths or {}
    if wlist is None:
        wlist = []
        for c, w in sorted(widths.items()):
            wlist += [c, [w]]
    desc = {'Type': N('FontDescriptor'), 'FontName': N(name), 'Flags': 4, 'Ascent': ascent, 'Descent': descent,
            'FontBBox': list(bbox), 'ItalicAngle': 0}
    s = {'Type': N('Font'), 'Subtype': N('CIDFontType2'), 'BaseFont': N(name),
         'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'FontDescriptor': desc,
         'W': wlist, 'DW': dw}
    if vertical:
        s['DW2'] = list(dw2)
        if w2list is None:
            w2list = []
            for c, (w, vx, vy) in sorted((w2 or {}).items()):
                w2list += [c, [w, vx, vy]]
        s['W2'] = w2list
    d = {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N(name), 'Encoding': N('Identity-V' if vertical else 'Identity-H'),
         'DescendantFonts': [R(sub)], 'ToUnicode': R(uni)}
    extra = {sub: s, uni: tounicode(chars)}
    if vertical:
        f = Font(name, {c: w for c, (w, _, _) in (w2 or {}).items()}, chars, ascent, descent, default=dw2[1], nbytes=2,
                 vertical=True, boxwidth=(bbox[2] - bbox[0]) or -dw2[1],
                 disp={c: (x, y) for c, (_, x, y) in (w2 or {}).items()}, default_disp=(None, dw2[0]))
    else:
        f = Font(name, widths, chars, ascent, descent, height=(bbox[3] - bbox[1]) or None, default=dw, nbytes=2)
    return d, extra, f
