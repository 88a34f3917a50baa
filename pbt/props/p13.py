"""P13: painted paths come out with kind, segments and bounding box in page space."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, page_file
from ..content import Model, emit, items_of, check_items, coord, factor, axis_cm, any_cm, ID
from pdfmajor.interpreter import PDFInterpreter

PID = 'P13'
RULE = 'a case is non-trivial when it paints at least one path with three or more points under a matrix other than the identity'

coord = gen.choose(coord, coord, coord, coord, coord, coord, coord, st.sampled_from([2 ** 31 + 4, -2 ** 33, '4294967296.5', '-3000000000.25']))
c2, c4, c6 = [[coord] * n for n in (2, 4, 6)]
few = st.sampled_from([0, 10, 20, '20.5', -5])


def op(name, *args):
    return st.tuples(st.just(name), *args)


seg = st.one_of(op('l', *c2), op('l', few, few), op('c', *c6), op('v', *c4), op('y', *c4), op('h'), op('m', *c2), op('re', *c4))
# near-rectangles: four corners, some of them moved
corner = st.sampled_from([0, 0, 0, 7])


def quad(t):
    x, y, w, h, order, d = t
    pts = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    if order:
        pts = [pts[0]] + pts[:0:-1]
    pts = [(a + (d[2 * i]), b + d[2 * i + 1]) for i, (a, b) in enumerate(pts)]
    return [('m',) + pts[0]] + [('l',) + p for p in pts[1:]] + [('h',)]


quads = st.tuples(st.integers(-50, 300), st.integers(-50, 300), st.integers(-60, 60), st.integers(-60, 60), st.booleans(),
                  st.one_of(st.just([0] * 8), st.lists(corner, min_size=8, max_size=8))).map(quad)
line = st.tuples(coord, coord, coord, coord, st.integers(0, 3)).map(
    lambda t: [('m', t[0], t[1]), ('l', t[0] if t[4] == 1 else t[2], t[1] if t[4] == 2 else t[3])])
free = st.tuples(op('m', *c2), st.lists(seg, max_size=5)).map(lambda t: [t[0]] + t[1])
multi = st.tuples(quads, quads).map(lambda t: t[0] + t[1])
path = st.one_of(line, quads, op('re', *c4).map(lambda o: [o]), free, free, multi, st.just([]), st.just([('h',)]))
PAINT = ['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n', 'W n', 'W* n']
paint = st.sampled_from(PAINT)
cm = any_cm.map(lambda m: ('cm',) + m)
group = st.one_of(st.tuples(st.just('cm'), cm), st.tuples(st.just('q')), st.tuples(st.just('Q')),
                  st.tuples(st.just('path'), path, paint), st.tuples(st.just('path'), path, paint))
case = st.tuples(st.lists(group, min_size=1, max_size=8), gen.short_tape)


def program(groups):
    prog = []
    for g in groups:
        if g[0] == 'cm':
            prog.append(g[1])
        elif g[0] in ('q', 'Q'):
            prog.append((g[0],))
        else:
            prog += list(g[1])
            for p in g[2].split():
                prog.append((p,))
    return prog


def paths(case, cx):
    """kind, rule, line width, bounding box and segments of every painted path"""
    groups, tape = case
    prog = program(groups)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', page_file(emit(prog, Choices(tape))))))))
    m = Model()
    want = m.run(prog)
    cx.nontrivial(any(g[0] == 'cm' for g in groups) and any(sum(len(p) for _, p in w[7]) >= 3 for w in want))
    for w in want:
        cx.tag(w[1])
    check_items(cx, got, want, 'painted paths', 1e-9)


TESTS = [Test('paths', case, paths, quick=12000, thorough=300000)]
