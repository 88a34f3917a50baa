"""Standard security handler, the writing side (PDF 1.7 section 7.6, Adobe extension level 3)."""
import hashlib, struct
from Crypto.Cipher import AES
from .pdf import N, I, A, D

PAD = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    out = bytearray()
    i = j = 0
    for c in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(c ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


def md5(*xs):
    return hashlib.md5(b''.join(xs)).digest()


def aes(key, iv, data, pad=True):
    if pad:
        n = 16 - len(data) % 16
        data += bytes([n]) * n
    return AES.new(key, AES.MODE_CBC, iv=iv).encrypt(data)


class Security:
    """scheme: 'V1R2' 'V2R3' 'V1R3' 'V4V2' 'V4AES' 'V4Id' 'V5AES' ; bits: key length of V2R3"""
    def __init__(self, scheme, user, owner, perms, bits=128, docid=b'0123456789abcdef', metadata=True, noise=b'\x07' * 64):
        self.scheme, self.docid, self.metadata = scheme, docid, metadata
        self.noise, self.count = noise, 0
        v, r = {'V1R2': (1, 2), 'V1R3': (1, 3), 'V2R3': (2, 3), 'V4V2': (4, 4), 'V4AES': (4, 4), 'V4Id': (4, 4), 'V5AES': (5, 5)}[scheme]
        self.v, self.r = v, r
        self.perms = perms
        p = struct.pack('<L', perms & 0xffffffff)
        if r == 5:
            self.key = hashlib.sha256(noise + b'file key').digest()
            vs, ks, ovs, oks = noise[:8], noise[8:16], noise[16:24], noise[24:32]
            sha = lambda *x: hashlib.sha256(b''.join(x)).digest()
            u, o = user[:127], owner[:127]
            self.U = sha(u, vs) + vs + ks
            self.UE = aes(sha(u, ks), bytes(16), self.key, False)
            self.O = sha(o, ovs, self.U) + ovs + oks
            self.OE = aes(sha(o, oks, self.U), bytes(16), self.key, False)
            pad = (0, 0, 79, 1)[noise[32 % len(noise)] % 4]      # (Acrobat pads them)
            self.U += bytes(pad)
            self.O += bytes(pad)
            return
        n = {'V1R2': 5, 'V1R3': 5}.get(scheme, 16 if v == 4 else bits // 8)
        self.n = n
        up, op = (user + PAD)[:32], ((owner or user) + PAD)[:32]
        h = md5(op)
        if r >= 3:
            for _ in range(50):
                h = md5(h)
        k = h[:n]
        o = rc4(k, up)
        if r >= 3:
            for i in range(1, 20):
                o = rc4(bytes(c ^ i for c in k), o)
        self.O = o
        h = md5(up, o, p, docid, b'' if metadata or r < 4 else b'\xff\xff\xff\xff')
        if r >= 3:
            for _ in range(50):
                h = md5(h[:n])
        self.key = h[:n]
        if r == 2:
            self.U = rc4(self.key, PAD)
        else:
            x = rc4(self.key, md5(PAD, docid))
            for i in range(1, 20):
                x = rc4(bytes(c ^ i for c in self.key), x)
            self.U = x + noise[:16]

    def encrypt(self, data, objid, gen):
        if self.scheme == 'V4Id':
            return data
        if self.v == 5 or self.scheme == 'V4AES':
            self.count += 1
            iv = hashlib.md5(self.noise + struct.pack('<L', self.count)).digest()
        if self.v == 5:
            return iv + aes(self.key, iv, data)
        k = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', gen)[:2]
        if self.scheme == 'V4AES':
            return iv + aes(md5(k + b'sAlT')[:min(16, self.n + 5)], iv, data)
        return rc4(md5(k)[:min(16, self.n + 5)], data)

    def value(self, v, objid, gen=0):
        """The value with every string (and stream data) encrypted."""
        t = v[0]
        if t == 'str':
            return ('str', self.encrypt(v[1], objid, gen))
        if t == 'arr':
            return ('arr', [self.value(x, objid, gen) for x in v[1]])
        if t == 'dict':
            return ('dict', [(k, self.value(x, objid, gen)) for k, x in v[1]])
        if t == 'stream':
            plain = not self.metadata and self.v >= 4 and any(k == b'Type' and x == ('name', b'Metadata') for k, x in v[1])
            return ('stream', [(k, self.value(x, objid, gen)) for k, x in v[1]], v[2] if plain else self.encrypt(v[2], objid, gen))
        return v

    def dictionary(self, unsigned=False, explicit=True, cfname=b'StdCF'):
        p = self.perms & 0xffffffff
        if not unsigned and p >= 1 << 31:
            p -= 1 << 32
        d = [(b'Filter', N('Standard')), (b'V', I(self.v)), (b'R', I(self.r)), (b'O', ('str', self.O)), (b'U', ('str', self.U)), (b'P', I(p))]
        if self.v == 2 and (self.n != 5 or explicit):
            d.append((b'Length', I(self.n * 8)))
        if self.v >= 4:
            if explicit:
                d.append((b'Length', I(128 if self.v == 4 else 256)))
            cfm = {'V4V2': 'V2', 'V4AES': 'AESV2', 'V5AES': 'AESV3', 'V4Id': 'AESV2'}[self.scheme]
            use = N('Identity') if self.scheme == 'V4Id' else N(cfname)
            d.append((b'CF', ('dict', [(cfname, D(CFM=N(cfm), AuthEvent=N('DocOpen'), Length=I(16 if self.v == 4 else 32)))])))
            d += [(b'StmF', use), (b'StrF', use)]
            if not self.metadata or explicit:
                d.append((b'EncryptMetadata', ('bool', self.metadata)))
        if self.v == 5:
            perms = struct.pack('<l', self.perms if self.perms < 1 << 31 else self.perms - (1 << 32)) + b'\xff' * 4 + (b'T' if self.metadata else b'F') + b'adb' + b'rand'
            d += [(b'UE', ('str', self.UE)), (b'OE', ('str', self.OE)), (b'Perms', ('str', AES.new(self.key, AES.MODE_ECB).encrypt(perms)))]
        return ('dict', d)
