"""P12: every painted item carries the colours and line width in force."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test, known_findings
from ..pdf import Choices, N, I, R, A, D, page_file
from ..content import Model, emit, items_of, check_items, simple_font, unit, nm, same
from pdfmajor.interpreter import PDFInterpreter

PID = 'P12'
RULE = '''a case is non-trivial when at least two items are painted under different colours or line widths
and at least one q/Q pair or colour-space selection takes effect'''

NUM = st.one_of(st.integers(0, 9), st.sampled_from(['0.5', '2.25', '.1', '12.']))
KINDS = ['DeviceGray', 'DeviceRGB', 'DeviceCMYK', 'CalGray', 'CalRGB', 'Lab', 'Separation', 'Indexed', 'Pattern',
         'ICC1', 'ICC3', 'ICC4', 'N1', 'N2', 'N4', 'N5', 'NN3', 'ND4', 'patname', 'rgbname']
space = st.tuples(st.sampled_from(KINDS), st.booleans())
SIDE = [('G', 'RG', 'K', 'CS', 'SC', 'SCN'), ('g', 'rg', 'k', 'cs', 'sc', 'scn')]


def build_space(kind, objs, fresh, direct):
    """(writer value, expected (name, components))"""
    gray = A(N('CalGray'), D(WhitePoint=A(I(1), I(1), I(1))))
    if kind in ('DeviceGray', 'DeviceRGB', 'DeviceCMYK'):
        v, e = A(N(kind)), (kind, {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4}[kind])
    elif kind == 'CalGray':
        v, e = gray, (kind, 1)
    elif kind in ('CalRGB', 'Lab'):
        v, e = A(N(kind), D(WhitePoint=A(I(1), I(1), I(1)))), (kind, 3)
    elif kind == 'Separation':
        v, e = A(N(kind), N('Spot'), N('DeviceCMYK'), D(FunctionType=I(2), N=I(1))), (kind, 1)
    elif kind == 'Indexed':
        v, e = A(N(kind), N('DeviceRGB'), I(3), ('str', b'\0' * 12)), (kind, 1)
    elif kind == 'Pattern':
        v, e = A(N('Pattern'), N('DeviceRGB')), (kind, 1)
    elif kind == 'patname':
        v, e = N('Pattern'), ('Pattern', 1)
    elif kind == 'rgbname':
        v, e = N('DeviceRGB'), ('DeviceRGB', 3)
    elif kind.startswith('ICC'):
        k = fresh()
        objs[k] = ('stream', [(b'N', I(int(kind[3:])))], b'profile')
        v, e = A(N('ICCBased'), R(k)), ('ICCBased', int(kind[3:]))
    else:
        n = int(kind[-1])
        inks = ['None'] * n if kind[1] == 'N' else ['Ink0', 'None', 'None', 'Cyan'][:n] if kind[1] == 'D' else ['Ink%d' % i for i in range(n)]
        v, e = A(N('DeviceN'), ('arr', [N(x) for x in inks]), N('DeviceCMYK'), D(FunctionType=I(2), N=I(1))), ('DeviceN', n)
    if not direct:
        k = fresh()
        objs[k] = v
        v = R(k)
    return v, e


comps = st.lists(unit, min_size=5, max_size=5)
step = st.one_of(
    st.tuples(st.sampled_from(['gray', 'rgb', 'cmyk']), st.integers(0, 1), comps),
    st.tuples(st.just('space'), st.integers(0, 1), st.integers(0, 8), comps, st.booleans()),
    st.tuples(st.just('again'), st.integers(0, 1), comps, st.booleans()),
    st.tuples(st.just('device'), st.integers(0, 1), st.sampled_from(['DeviceGray', 'DeviceRGB', 'DeviceCMYK', 'Pattern']), comps, st.booleans()),
    st.tuples(st.just('w'), NUM),
    st.tuples(st.sampled_from(['q', 'Q', 'q', 'Q', 'other'])),
    st.tuples(st.just('paint'), st.sampled_from(['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*']), st.integers(0, 3)),
    st.tuples(st.just('text'), st.sampled_from([b'a', b'xyz'])),
)


def program(steps, names, spaces):
    """Program from the steps. A bare SC/sc is only written where the space of that side is certain on both readings of Q."""
    prog = []
    cur = [1, 1]
    sure = [True, True]
    stack = []
    pat = [False, False]
    intext = False
    for s in steps:
        k = s[0]
        if k in ('gray', 'rgb', 'cmyk'):
            i = s[1]
            n = {'gray': 1, 'rgb': 3, 'cmyk': 4}[k]
            prog.append((SIDE[i][{'gray': 0, 'rgb': 1, 'cmyk': 2}[k]],) + tuple(s[2][:n]))
            cur[i], sure[i], pat[i] = n, True, False
        elif k in ('space', 'device'):
            i = s[1]
            if k == 'space':
                if not names:
                    continue
                name = names[s[2] % len(names)]
                sp = spaces[name]
            else:
                name = s[2]
                sp = {'DeviceGray': ('DeviceGray', 1), 'DeviceRGB': ('DeviceRGB', 3), 'DeviceCMYK': ('DeviceCMYK', 4), 'Pattern': ('Pattern', 1)}[name]
            prog.append((SIDE[i][3], nm(name)))
            cur[i], sure[i], pat[i] = sp[1], True, sp[0] == 'Pattern'
            prog.append((SIDE[i][4 + s[4]],) + ((nm('P1'),) if pat[i] else tuple(s[3][:cur[i]])))
        elif k == 'again':
            i = s[1]
            if sure[i]:
                prog.append((SIDE[i][4 + s[3]],) + ((nm('P2'),) if pat[i] else tuple(s[2][:cur[i]])))
        elif k == 'w':
            prog.append(('w', s[1]))
        elif k == 'q':
            stack.append((list(cur), list(pat)))
            prog.append(('q',))
        elif k == 'Q':
            prog.append(('Q',))
            if stack:
                stack.pop()
                sure = [False, False]
        elif k == 'other':
            prog += [('J', 1), ('j', 2), ('M', '4.5'), ('d', ('arr', [3, 1]), 0), ('ri', nm('Perceptual')), ('i', 50)]
        elif k == 'paint':
            x = s[2]
            prog += [[('re', x, x, 10, 20)], [('m', x, 5), ('l', 5, 5)], [('m', 0, x), ('c', 1, 2, 3, 4, 5, 6)], [('m', 1, 1), ('l', 9, 2), ('l', 7, x), ('h',)]][x]
            prog.append((s[1],))
        elif k == 'text':
            prog += [('BT',), ('Tf', nm('F1'), 10), ('Tj', ('str', s[1])), ('ET',)]
    return prog


case = st.tuples(st.lists(space, max_size=4), st.lists(step, min_size=3, max_size=14), gen.short_tape)


def run(case, cx, strict=False):
    sp, steps, tape = case
    objs = {}
    ids = iter(range(20, 90))
    spaces, pairs, names = {}, [], []
    for i, (kind, direct) in enumerate(sp):
        v, e = build_space(kind, objs, lambda: next(ids), direct)
        name = 'Cs%d' % i
        names.append(name)
        spaces[name] = e
        pairs.append((name.encode(), v))
    font, f = simple_font('Alpha', 1)
    prog = program(steps, names, spaces)
    data = page_file(emit(prog, Choices(tape)), D(Font=D(F1=font), ColorSpace=('dict', pairs)), objs)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    want = Model({'F1': f}, spaces).run(prog)
    states = {repr((w[3], w[5], w[6])) if w[0] == 'curve' else repr(w[2][0][2]) for w in want}
    cx.nontrivial(len(states) >= 2 and any(s[0] in ('Q', 'space', 'device', 'again') for s in steps))
    if not strict and 'Q-graphics' in known_findings(PID) and same(got, want, 1e-9) is not None:
        # the listed finding: Q leaves colours, colour spaces and line width as they are
        other = Model({'F1': f}, spaces, restore_graphics=False).run(prog)
        if other != want:
            cx.tag('known finding: Q')
            want = other
    check_items(cx, got, want, 'items', 1e-9)


def colours(case, cx):
    """colour and line width of every painted path and shown string"""
    run(case, cx)


def strict(case, cx):
    run(case, cx, strict=True)


TESTS = [Test('colours', case, colours, quick=12000, thorough=200000)]
PROBES = [Test('strict', case, strict)]
KNOWN = {'Q-graphics': ('strict', ([], [('q',), ('rgb', 1, [1, 0, 0, 0, 0]), ('w', 3), ('Q',), ('paint', 'f', 0)], []))}
