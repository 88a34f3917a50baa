"""P06: predictors are undone exactly."""
import zlib
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, simple_file
from ..lib import open_doc
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT

PID = 'P06'
RULE = '''a case is non-trivial when there are at least two rows and some row uses a filter type other than none'''

geometry = st.tuples(st.integers(1, 4), st.integers(1, 12), st.sampled_from([8, 8, 8, 1, 2, 4, 16]))
png_case = geometry.flatmap(lambda g: st.tuples(
    st.just(g),
    st.integers(0, 7).flatmap(lambda n: st.binary(min_size=n * ((g[0] * g[1] * g[2] + 7) // 8), max_size=n * ((g[0] * g[1] * g[2] + 7) // 8))),
    st.lists(st.integers(0, 4), min_size=1, max_size=8),
    st.integers(10, 15),
    st.sampled_from(['FlateDecode', 'LZWDecode']),
    gen.short_tape))


def png(case, cx):
    """every row filter type, component count, width and depth; the parameters written in every way"""
    (colors, columns, bpc), data, types, pred, filt, tape = case
    ch = Choices(tape)
    enc = F.ENC[filt](F.png_predict(data, colors, columns, bpc, types), ch)
    parms = [(b'Predictor', I(pred)), (b'Columns', I(columns))]
    if colors != 1 or ch.pick(2):
        parms.append((b'Colors', I(colors)))
    if bpc != 8 or ch.pick(2):
        parms.append((b'BitsPerComponent', I(bpc)))
    if columns == 1 and ch.pick(2):
        parms.pop(1)
    p = ('dict', parms)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    k = ch.pick(4)
    if k == 1:
        objs[20] = p
        p = R(20)
    elif k == 2:
        parms[0] = (b'Predictor', R(21))
        objs[21] = I(pred)
    f = N(filt)
    if k == 3 or ch.pick(2):
        f, p = ('arr', [f]), ('arr', [p])
    if ch.pick(4) == 3:                       # the predictor belongs to the inner filter of a chain
        enc = F.a85(enc, ch)
        f, p = A(N('ASCII85Decode'), N(filt)), A(('null',), p[1][0] if p[0] == 'arr' else p)
    objs[10] = ('stream', [(b'Filter', f), (b'DecodeParms', p)], enc)
    n = (colors * columns * bpc + 7) // 8
    rows = len(data) // n
    used = {types[i % len(types)] for i in range(rows)}
    cx.nontrivial(rows >= 2 and used - {0})
    cx.tag(*['row type %d' % t for t in used], 'bpc %d' % bpc, 'colors %d' % colors)
    s = open_doc(simple_file(objs)).getobj(10)
    cx.eq(s.get_data(), data, 'png predictor %r rows %r' % ((colors, columns, bpc), types))


def short_row(case, cx):
    """data whose last row is incomplete"""
    (colors, columns, bpc), data, types, cut = case
    if cut:
        data = data[:max(0, len(data) - cut)]
    enc = zlib.compress(F.png_predict(data, colors, columns, bpc, types))
    s = PDFStream({'Filter': LIT('FlateDecode'), 'DecodeParms': {'Predictor': 12, 'Colors': colors, 'Columns': columns, 'BitsPerComponent': bpc}}, enc)
    n = (colors * columns * bpc + 7) // 8
    cx.nontrivial(len(data) > n)
    cx.eq(s.get_data(), data, 'short last row %r' % ((colors, columns, bpc),))


TESTS = [
    Test('png', png_case, png, quick=9000, thorough=80000),
    Test('short_row', geometry.flatmap(lambda g: st.tuples(st.just(g), st.binary(max_size=80), st.lists(st.integers(0, 4), min_size=1, max_size=6), st.integers(0, 5))), short_row, quick=3000, thorough=20000),
]
