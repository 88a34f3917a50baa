"""One-off validation of the T.6 encoder used by P07 against libtiff (through Pillow)."""
import os, sys, io, random, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot
from pbt.filters import g4
from pbt.pdf import Choices
from PIL import Image


def tiff(data, w, h):
    ents = [(256, 4, w), (257, 4, h), (258, 3, 1), (259, 3, 4), (262, 3, 0), (273, 4, 8), (277, 3, 1), (278, 4, h), (279, 4, len(data))]
    pad = data + b'\0' * (len(data) % 2)
    out = b'II*\0' + struct.pack('<L', 8 + len(pad)) + pad + struct.pack('<H', len(ents))
    for t, k, v in ents:
        out += struct.pack('<HHLL', t, k, 1, v)
    return out + b'\0\0\0\0'


rnd = random.Random(1)
n = 0
for w, h in [(2700, 60), (100, 50), (3, 30), (1, 10), (8, 20), (6000, 5)]:
    for _ in range(40):
        rows = []
        for y in range(h):
            r, c = [], 0
            while len(r) < w:
                r += [c] * rnd.choice([1, 2, 3, rnd.randint(0, 70), rnd.randint(0, w)])
                c = 1 - c
            r = r[:w]
            if rows and rnd.random() < .5:
                r = rows[-1][:]
                for _ in range(3):
                    r[rnd.randrange(w)] ^= 1
            rows.append(r)
        d, _ = g4(rows, w, Choices([rnd.randint(0, 251) for _ in range(500)]))
        im = Image.open(io.BytesIO(tiff(d, w, h)))
        got = [[1 - (p // 255) for p in im.crop((0, y, w, y + 1)).convert('L').tobytes()] for y in range(h)]
        assert got == rows, (w, h)
        n += h
print('libtiff agrees on', n, 'rows')
