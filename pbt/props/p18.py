"""P18: form XObjects are drawn with their matrix, resources and the caller's state, and leave no trace behind."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation, known_findings
from ..pdf import Choices, N, I, R, A, D, num, page_file
from ..content import Model, emit, items_of, check_items, simple_font, wide_font, coord, factor, any_cm, axis_cm, unit, nm, operand, same
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import InvalidOperation, CommandProcessorError
from .p13 import quads, line, free
from .p14 import text

PID = 'P18'
RULE = 'a case is non-trivial when a form that is drawn has a Matrix or is drawn under a changed matrix, and itself paints or shows something'

size = st.integers(1, 20)
col = st.one_of(st.tuples(st.sampled_from(['G', 'g']), unit), st.tuples(st.sampled_from(['RG', 'rg']), unit, unit, unit))
tparam = st.one_of(st.tuples(st.just('Tc'), st.integers(-3, 9)), st.tuples(st.just('Tw'), st.integers(-3, 9)), st.tuples(st.just('TL'), st.integers(-3, 20)),
                   st.tuples(st.just('Tz'), st.sampled_from([100, 50, 200])), st.tuples(st.just('Ts'), st.integers(-5, 5)))
part = gen.choose(
    st.tuples(st.just('path'), st.one_of(quads, line, free), st.sampled_from(['S', 'f', 'B*', 'b'])),
    st.tuples(st.just('text'), st.booleans(), st.integers(0, 1), size, text),
    st.tuples(st.just('op'), col),
    st.tuples(st.just('space'), st.booleans(), unit),
    st.tuples(st.just('op'), tparam),
    st.tuples(st.just('op'), st.integers(0, 9).map(lambda w: ('w', w))),
    st.tuples(st.just('op'), any_cm.map(lambda m: ('cm',) + m)),
    st.tuples(st.just('do'), st.integers(0, 5)),
    st.tuples(st.just('do'), st.integers(0, 5)),
    st.tuples(st.just('q')), st.tuples(st.just('Q')))
box = st.tuples(coord, coord, coord, coord)
form = st.tuples(st.one_of(st.none(), axis_cm, axis_cm), box, st.sampled_from(['own', 'own', 'absent', 'empty']),
                 st.lists(part, max_size=5), st.booleans())
image = st.tuples(st.integers(1, 5), st.integers(1, 5))
case = st.tuples(st.lists(part, min_size=2, max_size=8), st.lists(form, min_size=1, max_size=5), image, gen.short_tape, st.booleans())


SPACES = [('CalGray', A(N('CalGray'), D(WhitePoint=A(num(.9), I(1), I(1))))), ('Separation', A(N('Separation'), N('Spot'), N('DeviceGray'), R(29))),
          ('ICCBased', A(N('ICCBased'), R(28))), ('Indexed', A(N('Indexed'), N('DeviceRGB'), I(1), ('str', b'abcdef')))]
SPACE_OBJS = {28: ('stream', [(b'N', I(1))], b'icc'), 29: D(FunctionType=I(2), Domain=A(I(0), I(1)), N=I(1))}


def program(parts, names, forms, have_fonts):
    """names: XObject names callable from here (acyclic). have_fonts: the fonts may be named here."""
    prog = []
    for p in parts:
        if p[0] == 'path':
            prog += list(p[1]) + [(p[2],)]
        elif p[0] == 'text':
            # a new font is selected unless the state already has one (inherited text state)
            prog.append(('BT',))
            if have_fonts and p[1]:
                prog.append(('Tf', nm('F%d' % (p[2] + 1)), p[3]))
            prog += [('Tj', p[4]), ('ET',)]
        elif p[0] == 'op':
            prog.append(p[1])
        elif p[0] == 'space':
            if have_fonts:             # the space of that name in the resources in force
                prog += [('CS' if p[1] else 'cs', nm('C')), ('SC' if p[1] else 'sc', p[2])]
        elif p[0] == 'do':
            if names:
                prog.append(('Do', nm(names[p[1] % len(names)])))
        else:
            prog.append((p[0],))
    return prog


def forms_case(case, cx):
    """pages drawing forms inside forms"""
    parts, forms, (iw, ih), tape, extra = case
    ch = Choices(tape)
    (v1, f1), (v2, f2) = simple_font('Alpha', 1), simple_font('Beta', 2, (0, -100, 500, 900))
    objs = {**SPACE_OBJS, 20: v1, 21: v2, 22: ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Image')), (b'Width', I(iw)), (b'Height', I(ih)),
                                            (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], b'i' * (iw * ih))}
    # form i may call forms with a larger number only
    model_forms = {}
    n = len(forms)
    fonts = {'F1': f1, 'F2': f2}
    swapped = {'F1': f2, 'F2': f1}
    xname = lambda i: 'Fm%d' % i
    img = {'kind': 'image', 'size': (iw, ih), 'data': b'i' * (iw * ih)}
    for i in reversed(range(n)):
        matrix, bb, res, body, direct = forms[i]
        later = [xname(j) for j in range(i + 1, n)]
        if res == 'absent':
            # the caller's resources: every caller has all names of later forms, and a font F1
            prog = program(body, later + ['Im'], forms, True)
            resources = None
        elif res == 'empty':
            prog = program(body, [], forms, False)
            resources = {'fonts': {}, 'spaces': {}, 'xobjects': {}}
        else:
            prog = program(body, later + ['Im'], forms, True)
            resources = {'fonts': swapped, 'spaces': {'C': (SPACES[i % 3][0], 1)}, 'xobjects': dict([(xname(j), model_forms[j]) for j in range(i + 1, n)] + [('Im', img)])}
        pairs = [(b'Type', N('XObject')), (b'Subtype', N('Form')), (b'BBox', ('arr', [operand(x) for x in bb]))]
        if matrix is not None:
            mv = ('arr', [operand(x) for x in matrix])
            if direct:
                pairs.append((b'Matrix', mv))
            else:
                objs[60 + i] = mv
                pairs.append((b'Matrix', R(60 + i)))
        if res == 'own':
            rv = D(Font=D(F1=R(21), F2=R(20)), ColorSpace=D(C=SPACES[i % 3][1]), XObject=('dict', [(xname(j).encode(), R(30 + j)) for j in range(i + 1, n)] + [(b'Im', R(22))]))
            if direct:
                pairs.append((b'Resources', rv))
            else:
                objs[70 + i] = rv
                pairs.append((b'Resources', R(70 + i)))
        elif res == 'empty':
            # an empty dictionary is a resource dictionary, too
            pairs.append((b'Resources', D(ProcSet=A(N('PDF'))) if direct else D()))
        if ch.pick(3) == 1:
            pairs.append((b'FormType', I(1)))
        objs[30 + i] = ('stream', pairs, emit(prog, ch))
        model_forms[i] = {'kind': 'form', 'matrix': matrix or (1, 0, 0, 1, 0, 0), 'bbox': bb, 'resources': resources, 'prog': prog}
    names = [xname(i) for i in range(n)] + ['Im']
    prog = [('Tf', nm('F1'), 10)] + program(parts, names, forms, True)
    data = page_file(emit(prog, ch), D(Font=D(F1=R(20), F2=R(21)), ColorSpace=D(C=SPACES[3][1]), XObject=('dict', [(xname(i).encode(), R(30 + i)) for i in range(n)] + [(b'Im', R(22))])), objs)
    def model(restore):
        return Model(fonts, {'C': (SPACES[3][0], 1)}, dict([(xname(i), model_forms[i]) for i in range(n)] + [('Im', img)]), restore_graphics=restore).run(prog)
    want = model(True)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    cx.nontrivial(any(w[0] == 'form' and w[2] for w in want) and (any(o[0] == 'cm' for o in prog) or any(f[0] for f in forms)))
    cx.tag('depth %d' % depth(want))
    if same(got, want, 1e-7) is not None and 'Q-graphics' in known_findings('P12'):
        other = model(False)           # finding of P12: Q leaves colours and line width
        if other != want:
            cx.tag('known finding of P12')
            want = other
    check_items(cx, got, want, 'items', 1e-7)


def depth(items):
    return max([0] + [1 + depth(i[2]) for i in items if i[0] == 'form'])


# ---------------------------------------------------------------- what a form's own resources do not have

own_case = st.tuples(st.sampled_from(['font', 'space', 'image', 'form']), st.sampled_from(['empty', 'no category', 'other entry', 'all but one']), st.booleans(), st.booleans(), st.integers(0, 2),
                     st.tuples(coord, coord), gen.short_tape)


def own_resources(case, cx):
    """a name that only the caller's resources have means nothing in a form with resources of its own"""
    what, kind, indirect, stroke, depth, (x, y), tape = case
    ch = Choices(tape)
    v1, _ = simple_font('Alpha', 1)
    v2, _ = simple_font('Beta', 2)
    objs = {20: v1, 21: v2, 22: ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Image')), (b'Width', I(2)), (b'Height', I(1)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], b'ii'),
            23: A(N('ICCBased'), R(24)), 24: ('stream', [(b'N', I(4))], b'icc'),
            25: ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(1), I(1)))], b'0 0 m 1 1 l S\n')}
    full = [(b'Font', [(b'F1', R(20)), (b'F2', R(21))]), (b'XObject', [(b'Im', R(22)), (b'Sub', R(25))]), (b'ColorSpace', [(b'C1', R(23)), (b'C2', N('DeviceCMYK'))])]
    cat, name = {'font': (b'Font', b'F2'), 'space': (b'ColorSpace', b'C1'), 'image': (b'XObject', b'Im'), 'form': (b'XObject', b'Sub')}[what]
    own = []
    for c, es in full:
        if kind == 'empty' or kind == 'no category' and c == cat:
            continue
        es = [e for e in es if c != cat or kind == 'all but one' and e[0] != name] if kind != 'other entry' or c != cat else [(b'Other', es[0][1])]
        own.append((c, ('dict', es)))
    use = {'font': [('BT',), ('Tf', ('name', name), 9), ('Tj', ('str', b'ab')), ('ET',)],
           'space': [('CS' if stroke else 'cs', ('name', name)), ('SCN' if stroke else 'scn', '.1', '.2', '.3', '.4'), ('m', x, y), ('l', 1, 2), ('S',)],
           'image': [('Do', ('name', name))], 'form': [('Do', ('name', name))]}[what]
    rv = ('dict', own)
    if indirect:
        objs[40] = rv
        rv = R(40)
    objs[30] = ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(9), I(9))), (b'Resources', rv)], emit(use, ch))
    top, res = b'X0', ('dict', [(c, ('dict', es + ([(b'X0', R(30))] if c == b'XObject' else []))) for c, es in full])
    for i in range(depth):             # through forms that have no resources themselves
        objs[31 + i] = ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(9), I(9)))], emit([('Do', ('name', top))], ch))
        top = b'X%d' % (i + 1)
        dict(res[1])[b'XObject'][1].append((top, R(31 + i)))
    data = page_file(emit([('Tf', nm('F1'), 10), ('Do', ('name', top))], ch), res, objs)
    cx.nontrivial()
    cx.tag('%s, %s' % (what, kind))
    try:
        got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    except (InvalidOperation, CommandProcessorError):
        return
    while got and got[0][0] == 'form' and depth >= 0:
        got, depth = got[0][2], depth - 1
    bad = {'font': lambda i: i[0] == 'text' and any(b[1] == 'Beta' for b in i[2]), 'space': lambda i: i[0] == 'curve' and any(c[0] == 'ICCBased' for c in i[5:7]),
           'image': lambda i: i[0] == 'image', 'form': lambda i: i[0] in ('form', 'curve')}[what]
    if any(bad(i) for i in got):
        raise Violation('a form with resources of its own used the %s %r of its caller: %r' % (what, name, got))


TESTS = [Test('forms', case, forms_case, quick=8000, thorough=150000), Test('own_resources', own_case, own_resources, quick=800, thorough=4000)]
