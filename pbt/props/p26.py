"""P26: boxes, matrices, distances between items, and the search for items in an area."""
from fractions import Fraction
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from pdfmajor.utils import Bbox, Plane, mult_matrix, translate_matrix, apply_matrix_pt, apply_matrix_norm, MATRIX_IDENTITY
from pdfmajor.interpreter.commands.state.layout import LTComponent, LTContainer

PID = 'P26'
RULE = '''boxes: two boxes of which neither is a point. matrices: at least two different from the identity. planes: objects were removed or added again,
and some search finds some of the objects and not all. containers: at least two of them, filled from a list or each other twice'''

# dyadic numbers: sums and products below are exact in floating point
coord = st.one_of(st.integers(-120, 120), st.integers(-480, 480).map(lambda n: n / 4), st.sampled_from([0, -0.25, 0.25, 50, -50, 49.75, 50.25, 100, -0.5]))
far = st.one_of(coord, coord, coord, st.sampled_from([2 ** 31, -2 ** 31, 2 ** 40, -2 ** 40, 5e9, -3e9]))
box = st.tuples(coord, coord, coord, coord)


def order(b):
    x0, y0, x1, y1 = b
    return min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1)


def corners(o):
    return o.x0, o.y0, o.x1, o.y1


def boxes(case, cx):
    """corners, extent, points, overlap and distance"""
    a, b, pts, third = case
    A, B = LTComponent(Bbox(*a)), LTComponent(Bbox(*b))
    for o, src in ((A, a), (B, b)):
        want = order(src)
        cx.eq(corners(o), want, 'corners of the item with box %r' % (src,))
        cx.eq(corners(o.bbox), want, 'corners of the box %r' % (src,))
        cx.eq((o.width, o.height, o.bbox.width, o.bbox.height), (want[2] - want[0], want[3] - want[1]) * 2, 'width and height of %r' % (src,))
        cx.eq(o.is_empty(), want[2] == want[0] or want[3] == want[1], '%r is empty' % (src,))
    cx.nontrivial(not A.is_empty() and not B.is_empty())
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    cx.eq(corners(Bbox.from_points(pts)), (min(xs), min(ys), max(xs), max(ys)), 'box of the points %r' % (pts,))
    for k, over, dist in ((0, 'is_hoverlap', 'hdistance'), (1, 'is_voverlap', 'vdistance')):
        (a0, a1), (b0, b1) = order(a)[k::2], order(b)[k::2]
        gap = max(a0, b0) - min(a1, b1)
        for p, q in ((A, B), (B, A)):
            cx.eq(bool(getattr(p, over)(q)), gap <= 0, '%s of %r and %r' % (over, corners(p), corners(q)))
            cx.eq(getattr(p, dist)(q), max(gap, 0), '%s of %r and %r' % (dist, corners(p), corners(q)))


step = st.tuples(st.integers(0, 2), st.sampled_from(['add', 'add', 'list', 'list', 'iterator', 'tuple', 'container', 'grow', 'shrink']), st.integers(0, 5))


def containers(case, cx):
    """a history of three containers, filled one by one, from lists and from each other"""
    things = [LTComponent(Bbox(i, i, i + 1, i + 2)) for i in range(6)]
    boxes = [LTContainer(Bbox(0, 0, 5, 5)) for _ in range(3)]
    model = [[], [], []]
    lists, lmodel = [[things[0]], [], [things[1], things[2]]], [[0], [], [1, 2]]
    cx.nontrivial(len({k for k, op, _ in case}) > 1 and sum(op in ('list', 'container') for _, op, _ in case) > 1)
    for k, op, i in case:
        if op == 'add':
            boxes[k].add(things[i])
            model[k].append(i)
        elif op in ('list', 'iterator', 'tuple'):
            src = lists[i % 3]
            boxes[k].extend({'list': lambda: src, 'iterator': lambda: iter(src), 'tuple': lambda: tuple(src)}[op]())
            model[k] += lmodel[i % 3]
        elif op == 'container':
            if i % 3 != k:
                boxes[k].extend(boxes[i % 3])
                model[k] += model[i % 3]
        elif op == 'grow':
            lists[k].append(things[i])
            lmodel[k].append(i)
        elif lists[k]:
            lists[k].pop()
            lmodel[k].pop()
        if len(model[k]) > 200:
            return
        names = {id(t): j for j, t in enumerate(things)}
        for j in range(3):
            cx.eq(([names.get(id(x)) for x in boxes[j]], len(boxes[j])), (model[j], len(model[j])), 'children of container %d after %s %d %d' % (j, op, k, i))
            cx.eq([names.get(id(x)) for x in lists[j]], lmodel[j], 'list %d it was filled from, after %s %d %d' % (j, op, k, i))


entry = st.one_of(st.integers(-9, 9), st.integers(-20, 20).map(lambda n: n / 4))
matrix = st.one_of(st.tuples(*[entry] * 6), st.sampled_from([MATRIX_IDENTITY, (0, 1, -1, 0, 0, 0), (1, 0, 0, -1, 0, 792), (2, 0, 0, 3, 0, 0), (1, 0, 0, 1, 5, -7), (1, 2, 0, 1, 0, 0)]))


def matrices(case, cx):
    """products, translations and applications of matrices"""
    m, n, k, p = case
    cx.nontrivial(sum(x != MATRIX_IDENTITY for x in (m, n, k)) > 1)

    def at(m, p):
        a, b, c, d, e, f = map(Fraction, m)
        x, y = map(Fraction, p)
        return a * x + c * y + e, b * x + d * y + f
    fr = lambda t: tuple(map(Fraction, t))
    cx.eq(fr(apply_matrix_pt(m, p)), at(m, p), '%r applied to %r' % (m, p))
    z = at(m, (0, 0))
    cx.eq(fr(apply_matrix_norm(m, p)), tuple(u - v for u, v in zip(at(m, p), z)), '%r applied to the vector %r' % (m, p))
    cx.eq(fr(apply_matrix_pt(mult_matrix(m, n), p)), at(n, at(m, p)), '%r times %r applied to %r' % (m, n, p))
    cx.eq(fr(mult_matrix(mult_matrix(m, n), k)), fr(mult_matrix(m, mult_matrix(n, k))), 'product of three matrices')
    cx.eq(fr(mult_matrix(m, MATRIX_IDENTITY)), fr(m), 'times the identity')
    cx.eq(fr(mult_matrix(MATRIX_IDENTITY, m)), fr(m), 'identity times')
    cx.eq(fr(apply_matrix_pt(translate_matrix(m, p), (k[0], k[1]))), at(m, (Fraction(p[0]) + Fraction(k[0]), Fraction(p[1]) + Fraction(k[1]))), '%r after moving by %r' % (m, p))


class Thing:
    def __init__(self, name, box):
        self.name, (self.x0, self.y0, self.x1, self.y1) = name, order(box)

    def __repr__(self):
        return '<%s %r>' % (self.name, corners(self))


small = st.tuples(coord, coord, st.sampled_from([0, 0.25, 1, 10, 49.75, 50, 60, 130]), st.sampled_from([0, 0.25, 1, 10, 50, 51, 130])).map(lambda t: (t[0], t[1], t[0] + t[2], t[1] + t[3]))
shape = gen.choose(box, small)
pstep = st.tuples(st.sampled_from(['add', 'add', 'remove', 'remove', 'extend', 'find', 'find']), st.integers(0, 30), shape)
plane_case = st.tuples(st.lists(shape, min_size=1, max_size=8), st.sampled_from([(-200, -200, 200, 200), (0, 0, 100, 100), (-60.5, -10, 90, 70.25), (0, 0, 612, 792), (-1000, -1000, -0.25, 50)]),
                       st.sampled_from([50, 50, 1, 7, 100, 1000]), st.lists(pstep, min_size=3, max_size=25), st.booleans())


def overlap(a, b):
    return a[0] < b[2] and b[0] < a[2] and a[1] < b[3] and b[1] < a[3]


def clipped(b, p):
    return max(b[0], p[0]), max(b[1], p[1]), min(b[2], p[2]), min(b[3], p[3])


def planes(case, cx):
    """histories of a plane against an ordered list"""
    shapes, bounds, grid, steps, first = case
    things = [Thing('t%d' % i, b) for i, b in enumerate(shapes)]
    plane, model = Plane(bounds, gridsize=grid), []
    again = telling = False
    if first:
        plane.extend(things)
        model = list(things)

    def put(t):
        nonlocal again
        if t not in model:
            model.append(t)
        else:
            again = True
    for kind, i, b in steps:
        t = things[i % len(things)]
        if kind == 'add':
            plane.add(t)
            put(t)
        elif kind == 'extend':
            some = things[i % len(things):][:3]
            plane.extend(some)
            for x in some:
                put(x)
        elif kind == 'remove':
            if t in model:
                plane.remove(t)
                model.remove(t)
                again = True
        else:
            q = order(b)
            got = list(plane.find(q))
            if len(set(got)) != len(got):
                raise Violation('find(%r) gives an object twice: %r' % (q, got))
            for x in things:
                box_, found = corners(x), x in got
                if x not in model and found:
                    raise Violation('find(%r) gives %r which is not in the plane' % (q, x))
                # what overlaps only beyond the bounds of the plane may be found or not
                inside = overlap(q, box_) and overlap(clipped(q, bounds), clipped(box_, bounds)) and overlap(q, bounds) and overlap(box_, bounds)
                if x in model and inside and not found:
                    raise Violation('find(%r) in the plane %r, grid %r, misses %r' % (q, bounds, grid, x))
                if found and not overlap(q, box_):
                    raise Violation('find(%r) gives %r' % (q, x))
            telling = telling or 0 < len(got) < len(model)
        cx.eq([x.name for x in plane], [x.name for x in model], 'objects of the plane')
        cx.eq((len(plane), [x in plane for x in things]), (len(model), [x in model for x in things]), 'size and members of the plane')
    cx.nontrivial(again and telling)


TESTS = [Test('containers', st.lists(step, min_size=1, max_size=14), containers, quick=1500, thorough=40000),
         
    Test('boxes', st.tuples(box, box, st.lists(st.tuples(far, far), min_size=1, max_size=6), box), boxes, quick=4000, thorough=60000),
    Test('matrices', st.tuples(matrix, matrix, matrix, st.tuples(coord, coord)), matrices, quick=2000, thorough=30000),
    Test('planes', plane_case, planes, quick=6000, thorough=150000)]
