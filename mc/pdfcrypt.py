"""The standard security handlers as a writer sees them (ISO 32000-1, 7.6; Adobe extension level 3 for revision 5).
The RC4, AES, MD5 and SHA-256 primitives are library functions; everything above them is written from the standard."""
import hashlib
from Crypto.Cipher import AES
from mc.pdfgen import N

PAD = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for c in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(c ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


def md5(b):
    return hashlib.md5(b).digest()


def aes(key, data, iv):
    n = 16 - len(data) % 16
    return iv + AES.new(key, AES.MODE_CBC, IV=iv).encrypt(data + bytes([n]) * n)


class Crypt(object):
    """kind: 'r2', 'r3' (with bits), 'v4rc4', 'v4aes', 'v4id', 'r5'."""

    def __init__(self, kind, user, owner, p=-44, bits=128, meta=True, docid=b'0123456789abcdef', v1=False, pad5=b''):
        self.kind, self.p, self.meta, self.docid = kind, p, meta, docid
        self.count = 0
        self.n = {'r2': 5, 'r3': bits // 8, 'r5': 32}.get(kind, 16)
        if kind == 'r5':
            self._r5(user.encode('utf-8')[:127], (owner or user).encode('utf-8')[:127], pad5)
            return
        up, op = user.encode('latin1'), (owner or user).encode('latin1')
        rev = {'r2': 2, 'r3': 3}.get(kind, 4)
        # algorithm 3: the owner entry
        k = md5((op + PAD)[:32])
        if rev >= 3:
            for _ in range(50):
                k = md5(k)
        k = k[:self.n]
        o = rc4(k, (up + PAD)[:32])
        if rev >= 3:
            for i in range(1, 20):
                o = rc4(bytes(c ^ i for c in k), o)
        # algorithm 2: the key
        h = (up + PAD)[:32] + o + (p & 0xffffffff).to_bytes(4, 'little') + docid
        if rev >= 4 and not meta:
            h += b'\xff' * 4
        key = md5(h)
        if rev >= 3:
            for _ in range(50):
                key = md5(key[:self.n])
        self.key = key[:self.n]
        # algorithms 4 and 5: the user entry
        if rev == 2:
            u = rc4(self.key, PAD)
        else:
            u = rc4(self.key, md5(PAD + docid))
            for i in range(1, 20):
                u = rc4(bytes(c ^ i for c in self.key), u)
            u += b'\xa5' * 16        # arbitrary
        d = {'Filter': N('Standard'), 'R': rev, 'O': o, 'U': u, 'P': p}
        if kind == 'r2':
            d['V'] = 1
        elif kind == 'r3':
            d['V'] = 1 if v1 else 2
            if self.n != 5 or not v1:
                d['Length'] = 8 * self.n
        else:
            cfm = {'v4rc4': 'V2', 'v4aes': 'AESV2', 'v4id': None}[kind]
            d['V'] = 4
            d['Length'] = 128
            if cfm:
                d['CF'] = {'StdCF': {'CFM': N(cfm), 'AuthEvent': N('DocOpen'), 'Length': 16}}
                d['StmF'] = d['StrF'] = N('StdCF')
            else:
                d['CF'] = {}
                d['StmF'] = d['StrF'] = N('Identity')
            if not meta:
                d['EncryptMetadata'] = False
        self.dict = d

    def _r5(self, up, op, pad):
        self.key = hashlib.sha256(b'file key').digest()
        sha = lambda *x: hashlib.sha256(b''.join(x)).digest()
        enc = lambda k: AES.new(k, AES.MODE_CBC, IV=bytes(16)).encrypt(self.key)
        uv, uk, ov, ok = b'uservali', b'user-key', b'ownrvali', b'ownr-key'
        u = sha(up, uv) + uv + uk
        ue = enc(sha(up, uk))
        o = sha(op, ov, u) + ov + ok
        oe = enc(sha(op, ok, u))
        perms = (self.p & 0xffffffff).to_bytes(4, 'little') + b'\xff' * 4 + (b'T' if self.meta else b'F') + b'adbABCD'
        self.dict = {'Filter': N('Standard'), 'V': 5, 'R': 5, 'Length': 256, 'P': self.p, 'U': u + pad, 'O': o + pad, 'UE': ue, 'OE': oe,
                     'Perms': AES.new(self.key, AES.MODE_ECB).encrypt(perms), 'StmF': N('StdCF'), 'StrF': N('StdCF'),
                     'CF': {'StdCF': {'CFM': N('AESV3'), 'AuthEvent': N('DocOpen'), 'Length': 32}}}
        if not self.meta:
            self.dict['EncryptMetadata'] = False

    def string(self, num, gen, b):
        if self.kind == 'v4id':
            return b
        self.count += 1
        iv = md5(b'%d' % self.count)
        if self.kind == 'r5':
            return aes(self.key, b, iv)
        k = self.key + num.to_bytes(4, 'little')[:3] + gen.to_bytes(4, 'little')[:2]
        if self.kind == 'v4aes':
            return aes(md5(k + b'sAlT')[:min(16, self.n + 5)], b, iv)
        return rc4(md5(k)[:min(16, self.n + 5)], b)

    def stream(self, num, gen, b, attrs=None):
        if not self.meta and self.kind != 'r2' and self.kind != 'r3' and attrs and attrs.get('Type') == 'Metadata':
            return b
        return self.string(num, gen, b)
