"""Encoders for the standard stream filters (ISO 32000-1, 7.4), including every valid choice an encoder has."""
import zlib


def lzw_bits(codes, early=1):
    """Packs a code sequence the way an encoder does: tracks the table size to know the code length."""
    acc = nacc = 0
    out = bytearray()
    size, width, first = 258, 9, True
    for c in codes:
        acc = acc << width | c
        nacc += width
        while nacc >= 8:
            nacc -= 8
            out.append(acc >> nacc & 255)
            acc &= (1 << nacc) - 1
        if c == 256:
            size, width, first = 258, 9, True
        elif c != 257:
            # the decoder adds an entry for every code but the first one behind a clear code; the encoder is one ahead
            size += 1 if first else 1
            first = False
            n = size - (0 if early else 1)
            width = 9 if n < 512 else 10 if n < 1024 else 11 if n < 2048 else 12
    if nacc:
        out.append(acc << (8 - nacc) & 255)
    return bytes(out)


def lzw_greedy(data, clear_at=4093, start_clear=True):
    """The usual greedy encoder; clears when its table has clear_at entries."""
    codes = [256]
    table = {bytes([i]): i for i in range(256)}
    nxt = 258
    w = b''
    for i in range(len(data)):
        c = data[i:i + 1]
        if w + c in table:
            w += c
            continue
        codes.append(table[w])
        table[w + c] = nxt
        nxt += 1
        w = c
        if nxt > clear_at:
            codes.append(256)
            table = {bytes([i]): i for i in range(256)}
            nxt = 258
    if w:
        codes.append(table[w])
    return codes + [257]


def lzw_all(data, clears=1):
    """Every code sequence that decodes to data: any table entry may be used, up to `clears` extra clear codes."""
    def go(i, table, prev, left):
        if i == len(data):
            yield [257]
            return
        for code, s in list(enumerate(table)):
            if s and data.startswith(s, i):
                yield from ([code] + r for r in go(i + len(s), table + ([prev + s[:1]] if prev else []), s, left))
        if prev:      # the entry that is being defined
            s = prev + prev[:1]
            if data.startswith(s, i):
                yield from ([len(table)] + r for r in go(i + len(s), table + [s], s, left))
        if left and prev:
            yield from ([256] + r for r in go(i, base, b'', left - 1))
    base = [bytes([i]) for i in range(256)] + [None, None]
    for r in go(0, base, b'', clears):
        yield [256] + r


def a85(data, z=True, end=b'~>'):
    out = bytearray()
    for i in range(0, len(data), 4):
        g = data[i:i + 4]
        n = len(g)
        v = int.from_bytes(g + b'\0' * (4 - n), 'big')
        if n == 4 and v == 0 and z:
            out += b'z'
            continue
        d = []
        for _ in range(5):
            v, r = divmod(v, 85)
            d.append(33 + r)
        out += bytes(d[::-1][:n + 1])
    return bytes(out) + end


def ahx(data, upper=False, end=b'>', odd=False):
    h = data.hex().encode()
    if upper:
        h = h.upper()
    if odd and h.endswith(b'0'):
        h = h[:-1]
    return h + end


def rl_all(data):
    """Every run-length encoding of data without its end-of-data mark."""
    if not data:
        yield b''
        return
    n = len(data)
    for k in range(1, min(n, 128) + 1):
        for r in rl_all(data[k:]):
            yield bytes([k - 1]) + data[:k] + r
            if k > 1 and data[:k] == data[:1] * k:
                yield bytes([257 - k]) + data[:1] + r


def flate(data, level=6, strategy=0, wbits=15, split=None):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
    if split is None:
        return c.compress(data) + c.flush()
    return c.compress(data[:split]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(data[split:]) + c.flush()
