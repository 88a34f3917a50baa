"""Hypothesis strategies shared by the properties. Everything they produce is a plain literal."""
import random
from hypothesis import strategies as st
from .pdf import WS, DELIM

def _spread(t):
    """a tape drawn from a seed: Hypothesis' own lists are a handful of elements long on average"""
    seed, n, often = t
    r = random.Random(seed)
    return [r.randrange(252) if r.random() < often else 0 for _ in range(n)]


def _tape(n):
    drawn = st.tuples(st.integers(0, 2 ** 32 - 1), st.sampled_from([n // 8, n, 4 * n]), st.sampled_from([1, .6, .2])).map(_spread)
    return st.one_of(st.lists(st.integers(0, 251), max_size=n), drawn, drawn.map(list))


tape = _tape(120)
short_tape = _tape(40)

NASTY = [b'endstream', b'endobj', b'obj', b'1 0 obj', b'stream', b'trailer', b'xref', b'startxref', b'R', b'<<', b'>>',
         b'%', b'\\', b'(', b')', b'\r', b'\n', b'\r\n', b'\\\r\n', b'EI', b'BI', b'ID ', b'\0', b'\x80', b'\xff', b'/']

str_bytes = st.one_of(
    st.binary(max_size=12),
    st.lists(st.sampled_from([b'a', b'8', b'0', b' '] + NASTY), max_size=8).map(b''.join),
    st.text('abcXYZ 019().,', max_size=14).map(str.encode),
    st.binary(max_size=200),
)

name_ascii = st.text('abcdefgxyzABCXYZ0189._-+*:@!$&', min_size=1, max_size=9).map(str.encode)
name_bytes = st.one_of(
    name_ascii,
    st.sampled_from([b'Type', b'Length', b'R', b'obj', b'endobj', b'true', b'null', b'F', b'12', b'-1', b'']),
    st.binary(min_size=1, max_size=6).map(lambda b: b.replace(b'\0', b'\1')),
    st.text('ab#()<>[]{}/% \t\n\xe9\u4e2d', min_size=1, max_size=6).map(lambda s: s.encode('utf-8')),
)

ints = st.one_of(st.integers(-20, 300), st.integers(-2 ** 31, 2 ** 31 - 1), st.sampled_from([0, -1, 1, 2 ** 31 - 1, -2 ** 31]))


@st.composite
def real_text(draw):
    sign = draw(st.sampled_from(['', '', '-', '+']))
    form = draw(st.integers(0, 4))
    a = draw(st.text('0123456789', min_size=1, max_size=6))
    b = draw(st.text('0123456789', min_size=1, max_size=6))
    if form == 0:
        s = a + '.'
    elif form == 1:
        s = '.' + b
    else:
        s = a + '.' + b
    return sign + s


def scalars(refs=(), null=True):
    xs = [st.booleans().map(lambda b: ('bool', b)),
          ints.map(lambda n: ('int', n)),
          real_text().map(lambda s: ('real', s)),
          name_bytes.map(lambda b: ('name', b)),
          str_bytes.map(lambda b: ('str', b)),
          str_bytes.map(lambda b: ('str', b))]
    if null:
        xs.append(st.just(('null',)))
    if refs:
        xs.append(st.sampled_from(list(refs)).map(lambda n: ('ref', n)))
    return st.one_of(*xs)


def values(refs=(), null=True, depth=8):
    return st.recursive(
        scalars(refs, null),
        lambda ch: st.one_of(
            st.lists(ch, max_size=5).map(lambda xs: ('arr', xs)),
            st.lists(st.tuples(name_bytes, ch), max_size=5, unique_by=lambda p: p[0]).map(lambda ps: ('dict', ps))),
        max_leaves=depth)


def containers(refs=(), null=True, depth=8):
    v = values(refs, null, depth)
    return st.one_of(
        st.lists(v, min_size=1, max_size=5).map(lambda xs: ('arr', xs)),
        st.lists(st.tuples(name_bytes, v), min_size=1, max_size=5, unique_by=lambda p: p[0]).map(lambda ps: ('dict', ps)))


def has(v, kinds):
    if v[0] in kinds:
        return True
    if v[0] == 'arr':
        return any(has(x, kinds) for x in v[1])
    if v[0] in ('dict', 'stream'):
        return any(has(x, kinds) for _, x in v[1])
    return False


def kinds_of(v, out=None):
    out = set() if out is None else out
    out.add(v[0])
    if v[0] == 'arr':
        for x in v[1]:
            kinds_of(x, out)
    elif v[0] in ('dict', 'stream'):
        for _, x in v[1]:
            kinds_of(x, out)
    return out


def choose(*strats):
    """one_of whose branches keep their weight (one_of flattens nested alternatives)"""
    @st.composite
    def pick(draw):
        return draw(strats[draw(st.integers(0, len(strats) - 1))])
    return pick()
