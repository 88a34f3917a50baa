"""P14: shown text is placed where the text operators put it."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, page_file
from ..content import Model, emit, items_of, check_items, simple_font, wide_font, coord, factor, any_cm, nm
from pdfmajor.interpreter import PDFInterpreter

PID = 'P14'
RULE = '''a case is non-trivial when it shows at least two strings of which one follows another without a new matrix or position
(so that the advance counts), under at least one non-default text parameter'''

num = st.one_of(st.integers(-30, 30), st.sampled_from(['0.5', '-1.25', '2.75', '10.125', '.1']))
far = st.one_of(st.integers(-600, 600), st.integers(-6000, 6000), st.sampled_from([1000, -1000, '1500.5', 20000]))
size = st.one_of(st.integers(1, 30), st.sampled_from(['0.5', '11.25', -8, '7.5']))
text = st.text('ab cdXYZ 09.', max_size=7).map(lambda s: ('str', s.encode()))
anybytes = st.binary(max_size=6).map(lambda b: ('str', b))
wide = st.lists(st.integers(0, 60), max_size=5).map(lambda xs: ('str', bytes(b for x in xs for b in (0, x))))
FONTS = ['F1', 'F2', 'F3', 'H', 'V']


def op(name, *args):
    return st.tuples(st.just(name), *args)


param = st.one_of(op('Tc', num), op('Tw', num), op('Tz', st.sampled_from([100, 50, 200, '87.5', 150])), op('TL', num), op('Ts', num),
                  op('Tr', st.integers(0, 7)))
move = st.one_of(op('Td', coord, coord), op('Td', num, num), op('TD', num, num), op('T*'),
                 st.one_of(any_cm, st.tuples(st.just(1), st.just(0), st.just(0), st.just(1), coord, coord)).map(lambda m: ('Tm',) + m))
font = op('FONT', st.integers(0, 2), size)
show = st.one_of(op('Tj', st.just('t'), text), op('TJ', st.just('t'), st.lists(st.one_of(text, num, far), max_size=5)),
                 op("'", st.just('t'), text), op('"', num, num, text), op('Tj', st.just('t'), text))
item = gen.choose(show, show, show, show, move, param, param, font)
block = st.tuples(st.just('block'), st.lists(item, min_size=3, max_size=12))
outside = gen.choose(block, block, block, block, param.map(lambda o: ('op', o)), any_cm.map(lambda m: ('op', ('cm',) + m)),
                    st.sampled_from([('op', ('q',)), ('op', ('Q',))]), font.map(lambda o: ('op', o)))
horizontal = st.tuples(st.just('h'), st.lists(outside, min_size=1, max_size=5), gen.short_tape)


def ops_of(items, fonts):
    """FONT n size -> Tf; show operators keep only their operands"""
    out = []
    for o in items:
        if o[0] == 'FONT':
            out.append(('Tf', nm(fonts[o[1] % len(fonts)]), o[2]))
        elif o[0] in ('Tj', "'"):
            out.append((o[0], o[2]))
        elif o[0] == 'TJ':
            out.append(('TJ', ('arr', list(o[2]))))
        else:
            out.append(o)
    return out


def program(groups, fonts):
    prog = [('Tf', nm(fonts[0]), 12)]
    for g in groups:
        if g[0] == 'block':
            prog.append(('BT',))
            prog += ops_of(g[1], fonts)
            prog.append(('ET',))
        else:
            prog += ops_of([g[1]], fonts)
    return prog


def counts(prog):
    shows = ('Tj', 'TJ', "'", '"')
    run = best = 0
    for o in prog:
        if o[0] in ('Tj', 'TJ'):
            run += 1
        elif o[0] in ('BT', 'Td', 'TD', 'Tm', 'T*', "'", '"'):
            run = 1 if o[0] in ("'", '"') else 0
        best = max(best, run)
    return best >= 2 and any(o[0] in ('Tc', 'Tw', 'Tz', 'Ts', '"') for o in prog)


SIMPLE = [simple_font('Alpha', 1), simple_font('Beta', 2, (0, -250, 900, 700), 700, -250, 0), simple_font('Gamma', 3, (0, 0, 0, 0), 820, -180, 500,
                      {32: ('Z', 'Z'), 88: ('space', ' '), 97: ('parenright', ')')})]


def page(cx, prog, tape):
    objs = {}
    pairs = []
    fonts = {}
    for i, (v, f) in enumerate(SIMPLE):
        objs[20 + i] = v
        pairs.append((b'F%d' % (i + 1), R(20 + i) if i else v))
        fonts['F%d' % (i + 1)] = f
    for k, (name, vert) in enumerate([('H', False), ('V', True)]):
        mk, cmap, f = wide_font('Wide' + name, 5 + k, vert)
        objs[40 + k] = ('stream', [], cmap)
        objs[50 + k] = mk(40 + k)
        pairs.append((name.encode(), R(50 + k)))
        fonts[name] = f
    data = page_file(emit(prog, Choices(tape)), D(Font=('dict', pairs)), objs)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    want = Model(fonts).run(prog)
    check_items(cx, got, want, 'text blocks', 1e-7)
    return want


def simple(case, cx):
    """text shown in simple fonts: characters, font, boxes"""
    _, groups, tape = case
    prog = program(groups, ['F1', 'F2', 'F3'])
    cx.nontrivial(counts(prog))
    page(cx, prog, tape)


wshow = st.one_of(op('Tj', st.just('t'), wide), op('TJ', st.just('t'), st.lists(st.one_of(wide, num, far), max_size=4)),
                  op("'", st.just('t'), wide), op('"', num, num, wide))
vparam = st.one_of(op('Tc', num), op('Tz', st.sampled_from([100, 50, '87.5', 150])), op('Tw', num), op('TL', num), op('Ts', num))
comp_case = st.tuples(st.booleans(), st.lists(gen.choose(
    st.tuples(st.just('block'), st.lists(gen.choose(wshow, wshow, wshow, move, vparam, font), min_size=3, max_size=8)),
    any_cm.map(lambda m: ('op', ('cm',) + m))), min_size=1, max_size=4), st.sampled_from([100, 100, 50, 175]), gen.short_tape)


def composite(case, cx):
    """text shown in composite fonts, horizontal and vertical"""
    vert, groups, tz, tape = case
    prog = program(groups, ['V' if vert else 'H'])
    prog = [('Tz', tz)] + prog
    cx.tag('vertical' if vert else 'horizontal')
    cx.nontrivial(counts(prog))
    page(cx, prog, tape)


mixed_case = st.tuples(st.lists(st.tuples(st.integers(0, 4), size, st.one_of(st.none(), move), wide, text), min_size=2, max_size=6), num, num, st.sampled_from([100, 100, 60, '137.5']))


def mixed(case, cx):
    """fonts of all kinds within one text object"""
    parts, tc, tw, tz = case
    prog = [('Tz', tz), ('BT',), ('Tc', tc), ('Tw', tw)]
    for f, sz, mv, w, t in parts:
        prog.append(('Tf', nm(FONTS[f]), sz))
        if mv:
            prog.append(mv)
        prog.append(('Tj', w if f >= 3 else t))
    prog.append(('ET',))
    cx.nontrivial(len({p[0] >= 3 for p in parts}) == 2)
    page(cx, prog, [])


settings_ = st.lists(gen.choose(param, param, param, font), min_size=1, max_size=6)
level = st.tuples(settings_, block, st.one_of(st.none(), any_cm))
lines = st.tuples(st.just('block'), st.lists(gen.choose(op('T*'), op("'", st.just('t'), text), show, op('Td', num, num)), min_size=2, max_size=5))
saved_case = st.tuples(st.lists(level, min_size=2, max_size=4), st.lists(lines, min_size=4, max_size=4), gen.short_tape)


def saved(case, cx):
    """parameters set, saved, changed, used and restored, level by level"""
    levels, after, tape = case
    prog = []
    for i, (pars, b, cm) in enumerate(levels):
        if i:
            prog.append(('op', ('q',)))
        prog += [('op', p) for p in pars] + ([('op', ('cm',) + cm)] if cm else []) + [b]
    for i in range(len(levels)):
        if i:
            prog.append(('op', ('Q',)))
        prog.append(after[i])
    cx.nontrivial(counts(program(prog, ['F1', 'F2', 'F3'])))
    page(cx, program(prog, ['F1', 'F2', 'F3']), tape)


TESTS = [
    Test('saved', saved_case, saved, quick=1200, thorough=40000),
    Test('simple', horizontal, simple, quick=3500, thorough=120000),
    Test('composite', comp_case, composite, quick=1500, thorough=60000),
    Test('mixed', mixed_case, mixed, quick=800, thorough=20000),
]
