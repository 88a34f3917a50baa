"""P05: filter chains decode to the encoded data."""
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test
from ..pdf import Choices, Writer, N, I, R, A, D, simple_file
from ..lib import open_doc
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PSStackParser import LIT

PID = 'P05'
RULE = '''a case is non-trivial when the data is not empty and at least one real filter is applied to it'''

data = st.one_of(
    st.binary(max_size=40), st.binary(max_size=400),
    st.lists(st.tuples(st.integers(1, 300), st.sampled_from([b'\0', b'\xff', b'a', b'ab', b'\0\0\0\0'])), max_size=8).map(
        lambda xs: b''.join(c * n for n, c in xs)),
    st.text('abcdef \n', max_size=300).map(str.encode),
    st.lists(st.sampled_from(gen.NASTY), max_size=10).map(b''.join))
names = st.sampled_from(sorted(F.ENC))
chain_case = st.tuples(data, st.lists(names, max_size=4), gen.tape, st.integers(0, 6), st.integers(0, 3), st.integers(0, 4), st.booleans())

TRAIL = [b'', b'\n', b'\r\n', b' \n ', b'\n\n']


def encode(d, chain, ch, early=1):
    for f in reversed(chain):
        d = F.lzw(d, ch, early) if f == 'LZWDecode' else F.ENC[f](d, ch)
    return d


def in_file(case, cx):
    """stream objects of a file, with the filter entry written in every way"""
    d, chain, tape, how, parms, trail, jpeg = case
    ch = Choices(tape)
    early = 0 if 'LZWDecode' in chain and len(tape) % 3 == 1 else 1
    if not early:
        parms = parms or 1
    enc = encode(d, chain, ch, early)
    fl = [N(f) for f in chain]
    if jpeg:
        fl.append(N('DCTDecode'))        # image data is handed over as it is
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    pairs = []
    if fl or how >= 4:
        if len(fl) == 1 and how in (0, 1, 4):
            v = fl[0]
        else:
            v = ('arr', list(fl))
            if how in (2, 5) and fl:
                objs[30] = fl[0]
                v[1][0] = R(30)
        if how in (1, 3, 5):
            objs[31] = v
            v = R(31)
        if how == 6 and not fl:
            v = ('null',)
        pairs.append((b'Filter', v))
    none = [('null',), ('dict', []), D(Predictor=I(1)), D(Colors=I(1), Columns=I(1))][ch.pick(4)]
    if parms and fl:
        each = [D(EarlyChange=I(early)) if f == 'LZWDecode' and not (early and ch.pick(2)) else none for f in chain] + [none] * jpeg
        if len(fl) == 1 and how in (0, 1, 4):
            pv = each[0]
        else:
            pv = ('arr', list(each))
        if parms == 2:
            objs[32] = pv
            pv = R(32)
        elif parms == 3 and pv[0] == 'arr':
            objs.update({40 + i: x for i, x in enumerate(each)})
            pv = ('arr', [R(40 + i) for i in range(len(fl))])
        pairs.append((b'DecodeParms', pv))
    # white space after the end of data of the outermost filter is not data
    stored = enc + (TRAIL[trail] if chain else b'')
    objs[10] = ('stream', pairs, stored)
    f = simple_file(objs, ch=Choices(tape))
    cx.nontrivial(len(d) > 0 and len(chain) > 0)
    cx.tag('chain %d' % len(chain), *chain)
    for fb in (True, False):
        s = open_doc(f, fallback=fb).getobj(10)
        cx.eq(s.get_data(), d, 'filters %r of %r (recovery %s)' % (chain, stored[:300], fb))
        cx.eq(s.get_data(), d, 'second read')


def abbreviated(case, cx):
    """the short filter names and keys of inline images"""
    d, chain, tape, how, parms, trail, jpeg = case
    ch = Choices(tape)
    enc = encode(d, chain, ch) + (TRAIL[trail] if chain else b'')
    nm = [LIT(F.SHORT[f]) if (how + i) % 3 else LIT(f) for i, f in enumerate(chain)]
    if jpeg:
        nm.append(LIT('DCT'))
    attrs = {}
    if nm:
        attrs['F' if how % 2 else 'Filter'] = nm[0] if len(nm) == 1 and how < 4 else nm
        if parms == 1:
            attrs['DP'] = [{}] * len(nm)
        elif parms == 2:
            attrs['DecodeParms'] = {'Predictor': 1}
    cx.nontrivial(len(d) > 0 and len(chain) > 0)
    s = PDFStream(attrs, enc)
    cx.eq(s.get_data(), d, 'filters %r of %r' % (chain, enc[:300]))


big = st.tuples(st.integers(0, 255), st.integers(1, 60000), st.integers(1, 9))


def large(case, cx):
    """long inputs: table growth and reset of LZW, window of Flate, maximal runs"""
    (a, n, step), f, tape, early = case
    d = bytes((a + i * i // step + (i * 2654435761 >> 13)) & 255 for i in range(n)) if step % 2 else bytes((a + i // step) & 255 for i in range(n))
    ch = Choices(tape)
    lz = f == 'LZWDecode'
    enc = F.lzw(d, ch, early) if lz else F.ENC[f](d, ch)
    cx.nontrivial(n > 1000)
    cx.tag(f, 'over 4096 codes' if n > 8000 else 'short')
    got = PDFStream({'Filter': LIT(f), 'DecodeParms': {'EarlyChange': early}} if lz and (not early or n % 2) else {'Filter': LIT(f)}, enc).get_data()
    cx.check(got == d, 'filter %s of %d bytes differs at %r' % (f, n, next((i for i in range(min(len(d), len(got))) if d[i] != got[i]), 'length %d' % len(got))))


TESTS = [
    Test('in_file', chain_case, in_file, quick=5000, thorough=60000),
    Test('abbreviated', chain_case, abbreviated, quick=3000, thorough=30000),
    Test('large', st.tuples(big, st.sampled_from(sorted(F.ENC) + ['LZWDecode']), gen.short_tape, st.integers(0, 1)), large, quick=320, thorough=3000),
]
