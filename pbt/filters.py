"""Encoders for the stream filters, written from the PDF reference (the inverse of what is under test).
Each takes the data and a Choices tape that picks among the legal encodings."""
import zlib, struct
from .pdf import Choices, N, I, A

WSPACE = [b'', b'', b'', b' ', b'\n', b'\r\n', b'\t', b'\r', b'\f', b'\0']


def sprinkle(b, ch, every=1):
    out = bytearray()
    for i in range(0, len(b), every):
        out += b[i:i + every]
        out += WSPACE[ch.pick(len(WSPACE))]
    return bytes(out)


def flate(data, ch):
    lvl = [6, 0, 9, 1][ch.pick(4)]
    strat = [zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE][ch.pick(4)]
    wbits = [15, 9, 12][ch.pick(3)]
    c = zlib.compressobj(lvl, zlib.DEFLATED, wbits, 8, strat)
    k = ch.pick(4)
    if k == 3 and data:
        m = len(data) // 2
        return c.compress(data[:m]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(data[m:]) + c.flush()
    return c.compress(data) + c.flush()


def a85(data, ch):
    out = bytearray()
    ws = ch.pick(3)
    for i in range(0, len(data), 4):
        q = data[i:i + 4]
        n = struct.unpack('>L', q + b'\0' * (4 - len(q)))[0]
        if n == 0 and len(q) == 4 and ch.pick(5) != 4:
            out += b'z'
        else:
            g = bytearray()
            for _ in range(5):
                n, r = divmod(n, 85)
                g.append(33 + r)
            out += bytes(reversed(g))[:len(q) + 1]
    out = bytes(out)
    if ws:
        out = sprinkle(out, ch, 3 if ws == 1 else 1)
    return out + b'~>'


def ahx(data, ch):
    s = data.hex().encode()
    k = ch.pick(3)
    if k:
        s = s.upper() if k == 1 else bytes(c - 32 if i % 3 == 0 and 97 <= c <= 102 else c for i, c in enumerate(s))
    if data and data[-1] & 15 == 0 and ch.pick(2):
        s = s[:-1]                       # a missing final digit reads as 0
    if ch.pick(3):
        s = sprinkle(s, ch, 1 + ch.pick(3))
    return s + b'>'


def rle(data, ch):
    out = bytearray()
    i = 0
    while i < len(data):
        run = 1
        while run < 128 and i + run < len(data) and data[i + run] == data[i]:
            run += 1
        if run >= 2 and ch.pick(4) != 3:
            if ch.pick(6) == 5:
                run = 2 + ch.pick(run - 1)
            out += bytes([257 - run, data[i]])
            i += run
        else:
            n = 1
            lim = 1 + (127 if ch.pick(3) != 2 else ch.pick(128))
            while n < lim and i + n < len(data) and not (i + n + 1 < len(data) and data[i + n] == data[i + n + 1] and ch.pick(4) != 3):
                n += 1
            out += bytes([n - 1]) + data[i:i + n]
            i += n
    return bytes(out) + b'\x80'


def lzw(data, ch, early=1):
    """Standard PDF LZW (EarlyChange 1 by default); the tape may insert extra Clear codes."""
    bits, nb = 0, 0
    out = bytearray()

    def put(code, width):
        nonlocal bits, nb
        bits = (bits << width) | code
        nb += width
        while nb >= 8:
            nb -= 8
            out.append((bits >> nb) & 255)
            bits &= (1 << nb) - 1
    table = {bytes([i]): i for i in range(256)}
    nxt, width = 258, 9
    put(256, 9)
    cur = b''
    force = 0
    for i in range(len(data)):
        c = data[i:i + 1]
        if cur + c in table:
            cur += c
            continue
        put(table[cur], width)
        table[cur + c] = nxt
        nxt += 1
        if nxt + early > (1 << width) and width < 12:
            width += 1
        cur = c
        if nxt >= 4094 or (i - force > 40 and ch.pick(40) == 39):
            put(256, width)
            table = {bytes([k]): k for k in range(256)}
            nxt, width = 258, 9
            force = i
    if cur:
        put(table[cur], width)
        nxt += 1
        if nxt + early > (1 << width) and width < 12:
            width += 1
    put(257, width)
    if nb:
        out.append((bits << (8 - nb)) & 255)
    return bytes(out)


ENC = {'FlateDecode': flate, 'LZWDecode': lzw, 'ASCII85Decode': a85, 'ASCIIHexDecode': ahx, 'RunLengthDecode': rle}


# what the first bytes of encoded data say by themselves: whole units only

def head_flate(data):
    d = zlib.decompressobj()
    try:
        return d.decompress(data)
    except zlib.error:
        return b''.join(head_steps(data))


def head_steps(data):
    d = zlib.decompressobj()
    try:
        for i in range(len(data)):
            yield d.decompress(data[i:i + 1])
    except zlib.error:
        pass


def head_rle(data):
    out, i = b'', 0
    while i < len(data) and data[i] != 128:
        if data[i] < 128:
            out += data[i + 1:i + 2 + data[i]]
            i += 2 + data[i]
        else:
            out += data[i + 1:i + 2] * (257 - data[i])
            i += 2
    return out


def head_a85(data):
    out, g = b'', []
    for c in data:
        if c == 0x7e:
            break
        if c == 0x7a and not g:
            out += bytes(4)
        elif 33 <= c <= 117:
            g.append(c - 33)
            if len(g) == 5:
                v = 0
                for x in g:
                    v = v * 85 + x
                if v >> 32:
                    break
                out += v.to_bytes(4, 'big')
                g = []
        elif c not in b' \t\r\n\f\0':
            break
    return out


def head_ahx(data):
    s = bytes(c for c in data.split(b'>')[0] if c not in b' \t\r\n\f\0')
    n = 0
    while n < len(s) and s[n] in b'0123456789abcdefABCDEF':
        n += 1
    return bytes.fromhex(s[:n // 2 * 2].decode())


def head_lzw(data, early=1):
    bits, nb, out = 0, 0, b''
    table, width, prev = None, 9, None
    for c in data:
        bits, nb = (bits << 8 | c) & 0xffffff, nb + 8
        if nb < width:
            continue
        code = bits >> (nb - width) & ((1 << width) - 1)
        nb -= width
        if code == 257:
            break
        if code == 256:
            table, width, prev = [bytes([i]) for i in range(256)] + [None] * 2, 9, None
            continue
        if table is None or code > len(table) or (code == len(table) and prev is None):
            break
        x = table[code] if code < len(table) else prev + prev[:1]
        out += x
        if prev is not None:
            table.append(prev + x[:1])
            if len(table) + early >= 1 << width and width < 12:
                width += 1
        prev = x
    return out


HEAD = {'FlateDecode': head_flate, 'LZWDecode': head_lzw, 'ASCII85Decode': head_a85, 'ASCIIHexDecode': head_ahx, 'RunLengthDecode': head_rle}
SHORT = {'FlateDecode': 'Fl', 'LZWDecode': 'LZW', 'ASCII85Decode': 'A85', 'ASCIIHexDecode': 'AHx', 'RunLengthDecode': 'RL'}


def rows_of(data, colors, columns, bpc):
    n = (colors * columns * bpc + 7) // 8
    return [data[i:i + n] for i in range(0, len(data), n)], n


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else (b if pb <= pc else c)


def png_predict(data, colors, columns, bpc, types):
    """types: filter type per row (cycled). A short last row is allowed."""
    rows, n = rows_of(data, colors, columns, bpc)
    bpp = (colors * bpc + 7) // 8
    prev = bytes(n)
    out = bytearray()
    for k, row in enumerate(rows):
        t = types[k % len(types)] if types else 0
        out.append(t)
        for i, x in enumerate(row):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            p = [0, a, b, (a + b) // 2, paeth(a, b, c)][t]
            out.append((x - p) & 255)
        prev = row + bytes(n - len(row))
    return bytes(out)


def tiff_predict(data, colors, columns, bpc):
    """8-bit (and 16-bit) horizontal differencing; whole rows only."""
    rows, n = rows_of(data, colors, columns, bpc)
    out = bytearray()
    for row in rows:
        if bpc == 8:
            out += bytes((x - (row[i - colors] if i >= colors else 0)) & 255 for i, x in enumerate(row))
        else:
            vals = []
            acc = int.from_bytes(row, 'big')
            tot = n * 8
            cnt = colors * columns
            for i in range(cnt):
                vals.append((acc >> (tot - bpc * (i + 1))) & ((1 << bpc) - 1))
            dif = [(v - (vals[i - colors] if i >= colors else 0)) & ((1 << bpc) - 1) for i, v in enumerate(vals)]
            acc = 0
            for v in dif:
                acc = (acc << bpc) | v
            acc <<= tot - bpc * cnt
            out += acc.to_bytes(n, 'big')
    return bytes(out)


def g4(rows, width, ch, bytealign=False, eofb=True, ends=None):
    """ITU-T T.6. rows are sequences of 0 (white) / 1 (black). Where several codings are legal the tape picks."""
    from .g4tables import WHITE, BLACK
    out = []

    def run(n, color):
        t = BLACK if color else WHITE
        s = ''
        while n >= 2624:
            s += t[2560]
            n -= 2560
        if n >= 64:
            s += t[n // 64 * 64]
            n %= 64
        return s + t[n]

    def change(row, start, color):
        """first changing element at or after start whose pixel colour differs from color"""
        x = start
        while x < width:
            if row[x] != color and (row[x - 1] if x else 0) != row[x]:
                return x
            x += 1
        return width

    ref = [0] * width
    used = set()
    for row in rows:
        bits = ''
        a0, color = -1, 0
        while a0 < width:
            s = max(a0, 0)
            a1 = s
            while a1 < width and row[a1] == color:
                a1 += 1
            b1 = change(ref, a0 + 1, color)
            b2 = b1
            while b2 < width and ref[b2] != color:
                b2 += 1
            legal = ['h']
            if b2 < a1:
                legal.insert(0, 'p')
            elif abs(a1 - b1) <= 3:
                legal.insert(0, 'v')
            m = legal[1 if len(legal) == 2 and ch.pick(4) == 3 else 0]
            if m == 'p':
                bits += '0001'
                a0 = b2
                used.add('pass')
            elif m == 'v':
                d = a1 - b1
                bits += {0: '1', 1: '011', 2: '000011', 3: '0000011', -1: '010', -2: '000010', -3: '0000010'}[d]
                used.add('v%d' % d)
                a0, color = a1, 1 - color
            else:
                a2 = a1
                while a2 < width and row[a2] != color:
                    a2 += 1
                bits += '001' + run(a1 - s, color) + run(a2 - a1, 1 - color)
                used.add('horizontal')
                a0 = a2
        if bytealign:
            bits += '0' * (-len(bits) % 8)
        out.append(bits)
        ref = row
        if ends is not None:
            ends.append((ends[-1] if ends else 0) + len(bits))
    s = ''.join(out)
    if eofb:
        s += '000000000001' * 2
    s += '0' * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)), used
