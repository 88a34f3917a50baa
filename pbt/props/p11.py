"""P11: a page's items depend on the operators and operands of its contents, not on how they are written down."""
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, page_file, tokens, join, sep, SEPS
from ..content import emit, items_of, check_items, simple_font, wide_font, operand, axis_cm, unit, nm
from pdfmajor.interpreter import PDFInterpreter
from .p13 import quads, line, free
from .p14 import text, wide

PID = 'P11'
RULE = '''a case is non-trivial when the plain page has at least two items and the rewritten contents differ from the plain ones in two or more ways
(split into streams, filters, token spelling, operators without effect on items)'''

# ------------------------------------------------------------------ what is on the page

inline_data = st.one_of(st.binary(max_size=40), st.lists(st.sampled_from([b'E', b'EI', b'I', b' ', b'\n', b'\r', b'x', b'\0', b'ID ', b'BI', b'EIE', b'(', b'%', b'>>']), max_size=8).map(b''.join),
                        st.binary(max_size=5).map(lambda b: b + b'E'))


def clean(b):
    """no EI followed by white space in the data (nothing could tell it from the end), no trailing CR (it would pair with the LF)"""
    for w in b'\0\t\n\v\f\r ':
        b = b.replace(b'EI' + bytes([w]), b'Ei' + bytes([w]))
    b = b.rstrip(b'\r')
    return b[:-2] + b'ei' if b.endswith(b'EI') else b


inline = st.tuples(st.just('inline'), st.booleans(), st.integers(1, 9), st.integers(1, 9), inline_data.map(clean), st.booleans())
part = gen.choose(
    st.tuples(st.just('path'), st.one_of(quads, line, free), st.sampled_from(['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'W n', 'W* f'])),
    st.tuples(st.just('text'), st.integers(0, 1), st.lists(st.one_of(
        st.tuples(st.just('Tj'), text), st.tuples(st.just("'"), text), st.tuples(st.just('"'), st.integers(0, 5), st.sampled_from(['1.5', 0, 2]), text),
        st.tuples(st.just('TJ'), st.lists(st.one_of(text, st.integers(-300, 300), st.sampled_from(['-12.5', '100.25'])), max_size=4).map(lambda l: ('arr', l))),
        st.tuples(st.just('Td'), st.integers(-9, 99), st.integers(-9, 99)), st.tuples(st.just('TL'), st.integers(-9, 20)),
        st.tuples(st.just('T*')), st.tuples(st.just('Ts'), st.sampled_from([0, '2.5', -3])), st.tuples(st.just('Tc'), st.sampled_from([0, '.25', 3])),
        st.tuples(st.just('Tm'), st.just(1), st.just(0), st.just(0), st.just(1), st.integers(0, 300), st.integers(0, 300))), max_size=5)),
    st.tuples(st.just('wide'), wide),
    inline,
    st.tuples(st.just('op'), st.one_of(
        st.tuples(st.sampled_from(['G', 'g']), unit), st.tuples(st.sampled_from(['RG', 'rg']), unit, unit, unit), st.tuples(st.sampled_from(['K', 'k']), unit, unit, unit, unit),
        st.tuples(st.just('w'), st.sampled_from([0, 1, '2.5', 7])), axis_cm.map(lambda m: ('cm',) + m), st.sampled_from([('q',), ('Q',), ('Do', nm('Im')), ('Do', nm('Fm'))]))),
)
# ------------------------------------------------------------------ how it is written
NOISE = [
    [('BMC', nm('Span')), ('EMC',)], [('BMC', nm('Artifact'))], [('EMC',)], [('BDC', nm('P'), ('dict', [(b'MCID', I(3))]))], [('BDC', nm('OC'), nm('MC0'))],
    [('MP', nm('pt'))], [('DP', nm('pt'), ('dict', [(b'K', ('str', b'Q q ET'))]))], [('DP', nm('pt'), nm('MC0'))],
    [('BX',)], [('EX',)], [('BX',), ('unknownop', 1, '2.5', nm('x'), ('str', b'(text) Tj')), ('EX',)], [('BX',), ('zz', ('arr', [1, ('str', b'ET')])), ('EX',)],
    [('gs', nm('GS0'))], [('ri', nm('Perceptual'))], [('i', 1)], [('J', 1)], [('j', 2)], [('M', '9.5')], [('d', ('arr', [3, 2]), 0)], [('d', ('arr', []), 0)],
    [('sh', nm('Sh0'))],
]
case = st.tuples(st.lists(part, min_size=1, max_size=7), st.lists(st.integers(0, 500), max_size=8), st.lists(st.tuples(st.integers(0, 500), st.integers(0, len(NOISE) - 1)), max_size=6),
                 st.lists(st.lists(st.sampled_from(sorted(F.ENC)), max_size=3), max_size=4), gen.tape, st.sampled_from([0, 0, 0, 0, 4000, 4080, 4090, 8150]), st.integers(0, 60), st.booleans())


def program(parts):
    prog = [('Tf', nm('F1'), 10)]
    for p in parts:
        if p[0] == 'path':
            prog += list(p[1]) + [(x,) for x in p[2].split()]
        elif p[0] == 'text':
            prog += [('BT',), ('Tf', nm('F%d' % (p[1] + 1)), 9)] + list(p[2]) + [('ET',)]
        elif p[0] == 'wide':
            prog += [('BT',), ('Tf', nm('H'), 12), ('Tj', p[1]), ('ET',), ('Tf', nm('F1'), 10)]
        elif p[0] == 'inline':
            _, full, w, h, data, mask = p
            keys = (b'Width', b'Height', b'BitsPerComponent', b'ColorSpace') if full else (b'W', b'H', b'BPC', b'CS')
            attrs = [(keys[0], w), (keys[1], h), (keys[2], 8), (keys[3], nm('DeviceGray' if full else 'G'))]
            if mask:
                attrs.append((b'D' if not full else b'Decode', ('arr', [0, '1.0'])))
            prog.append(('INLINE', attrs, data))
        else:
            prog.append(p[1])
    return prog


PATHOPS = {'m', 'l', 'c', 'v', 'y', 'h', 're', 'W', 'W*'}


def with_noise(prog, noise):
    gaps = []                    # positions between operations at which no path is open
    for i in range(len(prog) + 1):
        if i == 0 or prog[i - 1][0] not in PATHOPS:
            gaps.append(i)
    ins = {}
    for pos, k in noise:
        ins.setdefault(gaps[pos % len(gaps)], []).append(k)
    out = []
    intext = False
    for i in range(len(prog) + 1):
        for k in ins.get(i, ()):
            if not (intext and NOISE[k][0][0] == 'sh'):
                out += NOISE[k]
        if i < len(prog):
            intext = (intext or prog[i][0] == 'BT') and prog[i][0] != 'ET'
            out.append(prog[i])
    return out


def respell(v, ch):
    """another spelling of the same number"""
    t = v[0]
    if t == 'int' and ch.pick(8) == 7:
        return ('real', '%d.%s' % (v[1], ['0', '', '00'][ch.pick(3)]))
    if t == 'real' and ch.pick(6) == 5:
        s = v[1]
        k = ch.pick(3)
        if k == 0 and not s.startswith('-'):
            return ('real', '+' + s)
        if k == 1:
            return ('real', s + '00')
        if s[0] != '-':
            return ('real', '0' + s)
    if t == 'arr':
        return ('arr', [respell(x, ch) for x in v[1]])
    return v


def pieces(prog, ch):
    """lexical units of a program; an inline image's ID .. data .. EI is one unit"""
    out = []
    for op in prog:
        if op[0] == 'INLINE':
            out.append(b'BI')
            for k, v in op[1]:
                tokens(('name', k), ch, out)
                tokens(operand(v), ch, out)
            eol = [b'\n', b'\n', b'\r\n', b''][ch.pick(3 if op[2].endswith((b'\r', b'\n')) else 4)]
            out.append(b'ID' + [b' ', b'\n', b'\t'][ch.pick(3)] + op[2] + eol + b'EI')
            out.append(None)                    # white space must follow
        else:
            for v in op[1:]:
                tokens(respell(operand(v), ch), ch, out)
            out.append(op[0].encode())
    return out


def assemble(toks, cuts, ch, pad):
    """join the units, cut into streams at the given unit numbers"""
    n = len(toks)
    at = sorted({c % (n + 1) for c in cuts})
    groups = []
    last = 0
    for c in at + [n]:
        groups.append(toks[last:c])
        last = c
    if len(cuts) > 2 and len(set(cuts)) < len(cuts):
        groups.insert(cuts[0] % (len(groups) + 1), [])       # an empty stream somewhere
    out = []
    for i, g in enumerate(groups):
        b = bytearray()
        if i == 0 and pad:
            b += b' ' * (pad - 20) + b'% filler ( << [ /x\n'
        prev = None
        for t in g:
            if t is None:
                b += [b' ', b'\n', b'\r\n', b'\t'][ch.pick(4)]
                prev = None
                continue
            if prev is not None:
                b += sep(prev, t, ch)
            b += t
            prev = t
        if ch.pick(3) == 1:
            b += [b' ', b'\n', b'\r\n% end of stream\n'][ch.pick(3)]
        out.append(bytes(b))
    return out


def encode(data, chain, ch):
    """stream with a chain of filters, decoded in the given order"""
    names = list(chain)
    for f in reversed(names):
        data = F.ENC[f](data, ch)
    pairs = []
    if names:
        if len(names) == 1 and ch.pick(2):
            pairs.append((b'Filter', N(names[0])))
        else:
            pairs.append((b'Filter', A(*[N(f) for f in names])))
    return ('stream', pairs, data)


def resources():
    (v1, _), (v2, _) = simple_font('Alpha', 1), simple_font('Beta', 2, (0, -100, 500, 900))
    mk, cmap, _ = wide_font('Wide', 3)
    objs = {20: v1, 21: v2, 22: ('stream', [], cmap), 23: mk(22),
            24: ('stream', [(b'Subtype', N('Image')), (b'Width', I(1)), (b'Height', I(1)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], b'i')}
    res = D(Font=D(F1=R(20), F2=R(21), H=R(23)), XObject=D(Im=R(24), Fm=R(25)), ExtGState=D(GS0=D(Type=N('ExtGState'), CA=('real', '0.5'), SA=('bool', True))),
            Properties=D(MC0=D(Type=N('OCG'))), Shading=D(Sh0=D(ShadingType=I(2), ColorSpace=N('DeviceGray'), Coords=A(I(0), I(0), I(9), I(9)), Function=D(FunctionType=I(2), Domain=A(I(0), I(1)), N=I(1)))))
    return res, objs


def spelling(case, cx):
    """the same operators and operands, written differently, give equal items"""
    parts, cuts, noise, chains, tape, pad, shift, inform = case
    res, objs = resources()
    prog = program(parts)
    fm = [('re', 1, 2, 3, 4), ('f',), ('BT',), ('Tf', nm('F2'), 5), ('Tj', ('str', b'in')), ('ET',)]
    bb = [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(10), I(20)))]
    objs[25] = ('stream', bb, emit(fm))
    plain = emit(prog)
    a = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', page_file(plain, res, dict(objs)))))))
    ch = Choices(tape)
    noisy = with_noise(prog, noise)
    streams = assemble(pieces(noisy, ch), cuts, ch, pad + shift if pad else 0)
    if inform:
        body = with_noise(fm, noise)
        s = encode(assemble(pieces(body, ch), [], ch, 0)[0], chains[0] if chains else [], ch)
        objs[25] = ('stream', bb + s[1], s[2])
    coded = [encode(s, chains[i % len(chains)] if chains else [], ch) for i, s in enumerate(streams)]
    ways = (len(coded) > 1) + any(chains) + (ch.used > 2) + bool(noise) + bool(pad)
    cx.nontrivial(len(a) >= 2 and ways >= 2)
    cx.tag('%d streams' % min(len(coded), 4), 'filters' if any(chains) else 'plain', 'padded' if pad else 'short')
    if any(p[0] == 'inline' for p in parts):
        cx.tag('inline image')
    b = items_of(next(iter(PDFInterpreter(cx.write('b.pdf', page_file(coded if len(coded) > 1 else coded[0], res, objs, ch=Choices(tape[::-1])))))))
    check_items(cx, b, a, 'items of the rewritten contents', 0)
    # images of the plain page carry exactly the data that was written
    want = [op[2] for op in prog if op[0] == 'INLINE']
    got = [i[3] for i in a if i[0] == 'image' and i[2] != (1, 1) or i[0] == 'image' and i[3] != b'i']
    cx.eq(got, [d for d, op in zip(want, [o for o in prog if o[0] == 'INLINE'])
                if not (dict(op[1]).get(b'W', dict(op[1]).get(b'Width')) == 1 and dict(op[1]).get(b'H', dict(op[1]).get(b'Height')) == 1 and d == b'i')], 'data of the inline images')


TESTS = [Test('spelling', case, spelling, quick=8000, thorough=120000)]
