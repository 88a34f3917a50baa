"""P24: page space starts at the lower left corner of the page as displayed."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, num, page_file
from ..content import Model, emit, items_of, check_items, simple_font, any_cm, nm, operand
from pdfmajor.interpreter import PDFInterpreter
from .p13 import quads, line, free
from .p14 import text

PID = 'P24'
RULE = 'a case is non-trivial when the page is turned or its MediaBox does not start at the origin, and something is painted'

edge = st.one_of(st.integers(-400, 900), st.sampled_from(['10.5', '-20.25', '595.25', '841.75', '0.5']))
mediabox = st.tuples(edge, edge, edge, edge).filter(lambda b: float(b[0]) != float(b[2]) and float(b[1]) != float(b[3]))
part = gen.choose(
    st.tuples(st.just('path'), st.one_of(quads, line, free), st.sampled_from(['S', 'f', 'b*'])),
    st.tuples(st.just('text'), text, st.integers(1, 30), st.integers(-50, 600), st.integers(-50, 600)),
    st.tuples(st.just('op'), any_cm.map(lambda m: ('cm',) + m)),
    st.tuples(st.just('op'), st.sampled_from([('q',), ('Q',), ('Do', nm('Im')), ('Do', nm('Fm'))])))
case = st.tuples(mediabox, st.sampled_from([None, 0, 90, 180, 270, 360, 450, -90, -180, -270, 630]), st.booleans(),
                 st.one_of(st.none(), mediabox), st.lists(part, max_size=6), gen.short_tape)


def geometry(case, cx):
    """page size and the place of every item on it"""
    mb, rot, inherit, crop, parts, tape = case
    font, f = simple_font('Alpha', 1)
    prog = [('Tf', nm('F1'), 10)]
    x0, y0, x1, y1 = [float(v) for v in mb]
    # the whole MediaBox as a path
    prog += [('m', mb[0], mb[1]), ('l', mb[2], mb[3]), ('l', mb[0], mb[3]), ('S',)]
    for p in parts:
        if p[0] == 'path':
            prog += list(p[1]) + [(p[2],)]
        elif p[0] == 'text':
            prog += [('BT',), ('Tf', nm('F1'), p[2]), ('Td', p[3], p[4]), ('Tj', p[1]), ('ET',)]
        else:
            prog.append(p[1])
    inner = [('re', 1, 2, 3, 4), ('f',)]
    objs = {20: ('stream', [(b'Subtype', N('Image')), (b'Width', I(1)), (b'Height', I(1)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], b'i'),
            21: ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(10), I(20)))], emit(inner))}
    extra = []
    if rot is not None:
        extra.append((b'Rotate', I(rot)))
    if crop is not None:
        extra.append((b'CropBox', ('arr', [operand(v) for v in crop])))
    ch = Choices(tape)
    objs[1] = D(Type=N('Catalog'), Pages=R(2))
    box = ('arr', [operand(v) for v in mb])
    objs[2] = ('dict', [(b'Type', N('Pages')), (b'Kids', A(R(3))), (b'Count', I(1))] + ([(b'MediaBox', box)] + extra if inherit else []))
    objs[3] = ('dict', [(b'Type', N('Page')), (b'Parent', R(2)), (b'Resources', D(Font=D(F1=font), XObject=D(Im=R(20), Fm=R(21)))), (b'Contents', R(4))]
               + ([] if inherit else [(b'MediaBox', box)] + extra))
    objs[4] = ('stream', [], emit(prog, ch))
    from ..pdf import simple_file
    page = next(iter(PDFInterpreter(cx.write('a.pdf', simple_file(objs, ch=ch)))))
    lx, ly, hx, hy = min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1)
    w, h = hx - lx, hy - ly
    turn = (rot or 0) % 360
    ctm = {0: (1, 0, 0, 1, -lx, -ly), 90: (0, -1, 1, 0, -ly, hx), 180: (-1, 0, 0, -1, hx, hy), 270: (0, 1, -1, 0, hy, -lx)}[turn]
    cx.tag('turn %d' % turn)
    cx.nontrivial((turn or lx or ly) and bool(parts))
    size = (h, w) if turn in (90, 270) else (w, h)
    cx.eq((float(page.width), float(page.height)), size, 'size of a page turned by %d with MediaBox %r' % (turn, mb))
    cx.eq(page.page_num, 0, 'number of the page')
    got = items_of(page)
    want = Model({'F1': f}, {}, {'Im': {'kind': 'image', 'size': (1, 1), 'data': b'i'},
                                 'Fm': {'kind': 'form', 'matrix': (1, 0, 0, 1, 0, 0), 'bbox': (0, 0, 10, 20), 'resources': None, 'prog': inner}}, ctm).run(prog)
    if tuple(round(v, 6) for v in want[0][2]) != tuple(round(v, 6) for v in (0, 0) + size):
        raise AssertionError('model: %r' % (want[0][2],))
    check_items(cx, got, want, 'items', 1e-7)


TESTS = [Test('geometry', case, geometry, quick=12000, thorough=120000)]
