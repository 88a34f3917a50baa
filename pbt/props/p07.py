"""P07: CCITT Group 4 images decode to the bitmap that was encoded."""
import io
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, simple_file
from ..lib import open_doc

PID = 'P07'
RULE = '''a case is non-trivial when the encoded image has at least two rows and uses at least two coding modes
(pass, horizontal, or vertical with a displacement)'''

WIDTHS = st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([8, 16, 64, 65, 128, 200, 1728, 2560, 2700, 5300]))


@st.composite
def bitmap(draw):
    w = draw(WIDTHS)
    n = draw(st.integers(0, 8 if w < 300 else 3))
    seed = draw(st.lists(st.tuples(st.integers(0, 5), st.lists(st.integers(0, 2 ** 16), max_size=10)), min_size=n, max_size=n))
    return w, seed


def expand(w, seed):
    rows = []
    for kind, nums in seed:
        if kind <= 1 and rows:                         # the row above with a few edges moved
            r = list(rows[-1])
            for v in nums[:4]:
                x, k = v % w, (v >> 8) % 4
                for i in range(x, min(w, x + k)):
                    r[i] = 1 - r[i] if kind else r[max(0, i - 1)]
        elif kind == 2 and rows:                       # shifted by up to 4
            k = (nums[0] if nums else 0) % 9 - 4
            r = [rows[-1][i - k] if 0 <= i - k < w else 0 for i in range(w)]
        elif kind == 3:
            r = [(nums[0] if nums else 0) & 1] * w
        else:                                          # runs
            r, c = [], kind & 1
            for v in nums:
                r += [c] * (v % (w + 1) if v & 1 else v % 9)
                c = 1 - c
            r = (r + [c] * w)[:w]
        rows.append(r)
    return rows


def pack(rows, w, black_is_1):
    out = bytearray()
    for r in rows:
        line = bytearray((w + 7) // 8)
        for i, b in enumerate(r):
            if (b if black_is_1 else 1 - b):
                line[i // 8] |= 128 >> (i % 8)
        out += line
    return bytes(out)


def ccitt(case, cx):
    """every coding mode, byte alignment, end marker, polarity; own encoder or libtiff's; alone or in a chain"""
    (w, seed), tape = case
    ch = Choices(tape)
    rows = expand(w, seed)
    align, b1 = bool(ch.pick(3) == 1), bool(ch.pick(2))
    eofb = ch.pick(4) != 3
    if rows and ch.pick(5) == 4:
        from PIL import Image
        align = False
        im = Image.frombytes('1', (w, len(rows)), pack(rows, w, False))
        b = io.BytesIO()
        im.save(b, 'TIFF', compression='group4')
        t = Image.open(io.BytesIO(b.getvalue())).tag_v2
        if t[262] != 1 or len(t[273]) != 1:
            cx.tag('libtiff layout not used')
            return
        im2 = Image.open(io.BytesIO(b.getvalue()))
        off, n = t[273][0], t[279][0]
        data = b.getvalue()[off:off + n]
        # photometric 1 (0 = black): a set bit in the fax data is white for Pillow
        rows = [[1 - x for x in r] for r in rows]
        used = {'libtiff', 'x'}
        cx.tag('libtiff')
    else:
        data, used = F.g4(rows, w, ch, align, eofb)
    if eofb and ch.pick(3) == 2:
        data += b'\n'
    parms = [(b'K', I(-1))]
    if w != 1728 or ch.pick(2):
        parms.append((b'Columns', I(w)))
    if b1 or ch.pick(2):
        parms.append((b'BlackIs1', ('bool', b1)))
    if align or ch.pick(2):
        parms.append((b'EncodedByteAlign', ('bool', align)))
    if ch.pick(2):
        parms.append((b'Rows', I(len(rows))))
    if not eofb:
        parms.append((b'EndOfBlock', ('bool', False)))
    f, p = N(['CCITTFaxDecode', 'CCF'][ch.pick(2)]), ('dict', parms)
    k = ch.pick(4)
    if k == 1:
        f, p = A(f), A(p)
    elif k == 2:
        data = F.a85(data, ch)
        f, p = A(N('ASCII85Decode'), f), A(('null',), p)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0)),
            10: ('stream', [(b'Filter', f), (b'DecodeParms', p)], data)}
    cx.tag(*used)
    if align:
        cx.tag('byte aligned')
    cx.nontrivial(len(rows) >= 2 and len(used - {'v0'}) >= 2)
    got = open_doc(simple_file(objs)).getobj(10).get_data()
    cx.eq(got, pack(rows, w, b1), 'width %d, BlackIs1 %s, aligned %s, modes %s' % (w, b1, align, sorted(used)))


TESTS = [Test('ccitt', st.tuples(bitmap(), gen.tape), ccitt, quick=16000, thorough=120000)]
ASSUMPTIONS = ['the T.6 encoder of the harness (validated against libtiff on 7000 rows with tools/check_g4.py) is right']
