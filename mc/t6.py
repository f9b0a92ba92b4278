"""A Group 4 (ITU-T T.6) encoder with every choice a valid encoder has. The tables are those of ITU-T T.4 (checked once
against libtiff: see DESIGN.md)."""

WHITE_T = '''00110101 000111 0111 1000 1011 1100 1110 1111 10011 10100 00111 01000 001000 000011 110100 110101 101010 101011
0100111 0001100 0001000 0010111 0000011 0000100 0101000 0101011 0010011 0100100 0011000 00000010 00000011 00011010 00011011
00010010 00010011 00010100 00010101 00010110 00010111 00101000 00101001 00101010 00101011 00101100 00101101 00000100 00000101
00001010 00001011 01010010 01010011 01010100 01010101 00100100 00100101 01011000 01011001 01011010 01011011 01001010 01001011
00110010 00110011 00110100'''.split()
BLACK_T = '''0000110111 010 11 10 011 0011 0010 00011 000101 000100 0000100 0000101 0000111 00000100 00000111 000011000 0000010111
0000011000 0000001000 00001100111 00001101000 00001101100 00000110111 00000101000 00000010111 00000011000 000011001010
000011001011 000011001100 000011001101 000001101000 000001101001 000001101010 000001101011 000011010010 000011010011
000011010100 000011010101 000011010110 000011010111 000001101100 000001101101 000011011010 000011011011 000001010100
000001010101 000001010110 000001010111 000001100100 000001100101 000001010010 000001010011 000000100100 000000110111
000000111000 000000100111 000000101000 000001011000 000001011001 000000101011 000000101100 000001011010 000001100110
000001100111'''.split()
WHITE_M = '''11011 10010 010111 0110111 00110110 00110111 01100100 01100101 01101000 01100111 011001100 011001101 011010010
011010011 011010100 011010101 011010110 011010111 011011000 011011001 011011010 011011011 010011000 010011001 010011010
011000 010011011'''.split()
BLACK_M = '''0000001111 000011001000 000011001001 000001011011 000000110011 000000110100 000000110101 0000001101100 0000001101101
0000001001010 0000001001011 0000001001100 0000001001101 0000001110010 0000001110011 0000001110100 0000001110101 0000001110110
0000001110111 0000001010010 0000001010011 0000001010100 0000001010101 0000001011010 0000001011011 0000001100100
0000001100101'''.split()
COMMON_M = '''00000001000 00000001100 00000001101 000000010010 000000010011 000000010100 000000010101 000000010110 000000010111
000000011100 000000011101 000000011110 000000011111'''.split()
VERT = {0: '1', 1: '011', 2: '000011', 3: '0000011', -1: '010', -2: '000010', -3: '0000010'}
EOFB = '000000000001' * 2
assert (len(WHITE_T), len(BLACK_T), len(WHITE_M), len(BLACK_M), len(COMMON_M)) == (64, 64, 27, 27, 13)


def run(n, black):
    out = ''
    while n > 2623:
        out += COMMON_M[-1]
        n -= 2560
    if n >= 64:
        m = n // 64
        out += COMMON_M[m - 28] if m > 27 else (BLACK_M if black else WHITE_M)[m - 1]
        n %= 64
    return out + (BLACK_T if black else WHITE_T)[n]


def changes(row):
    """Positions whose pixel differs from the one before (before the row: white). Pixels: 1 is black."""
    return [i for i in range(len(row)) if row[i] != (row[i - 1] if i else 0)]


def lines(ref, row):
    """Every encoding of row above which ref stands, each step in every mode that may be used there; the first one is the
    one a standard encoder writes."""
    w = len(row)
    cr, cc = changes(ref), changes(row)

    def go(a0, colour):
        if a0 >= w:
            yield ''
            return
        a1 = next((c for c in cc if c > a0 and row[c] != colour), w)
        a2 = next((c for c in cc if c > a1), w)
        b1 = next((c for c in cr if c > a0 and ref[c] != colour), w)
        b2 = next((c for c in cr if c > b1), w)
        if b2 < a1:
            for r in go(b2, colour):
                yield '0001' + r
        elif abs(a1 - b1) <= 3:
            for r in go(a1, 1 - colour):
                yield VERT[a1 - b1] + r
        st = max(a0, 0)
        for r in go(a2, colour):
            yield '001' + run(a1 - st, colour) + run(a2 - a1, 1 - colour) + r
    return go(-1, 0)


def pack(bits):
    bits += '0' * (-len(bits) % 8)
    return int(bits, 2).to_bytes(len(bits) // 8, 'big') if bits else b''


def encode(rows, align=False, eofb=True):
    """The standard encoding."""
    out, ref = '', [0] * len(rows[0]) if rows else []
    for row in rows:
        out += next(lines(ref, row))
        if align:
            out += '0' * (-len(out) % 8)
        ref = row
    return pack(out + (EOFB if eofb else ''))


def encodings(rows):
    """Every encoding of the rows (bit strings, without end of block)."""
    def go(i, ref):
        if i == len(rows):
            yield ''
            return
        for h in lines(ref, rows[i]):
            for t in go(i + 1, rows[i]):
                yield h + t
    return go(0, [0] * len(rows[0]))


def pixels(rows, black_is_1=False):
    out = b''
    for row in rows:
        bits = ''.join(str(b if black_is_1 else 1 - b) for b in row)
        out += pack(bits)
    return out
