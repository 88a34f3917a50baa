PROP = dict(
    id='P13', title='Painted paths come out with kind, rule, segments and box in page space',
    statement='''Every path-painting operator (S s f F f* B B* b b*) that ends a path with at least one point gives exactly one item, in order: a horizontal, vertical or other line for one straight
    segment, a rectangle for an axis-parallel closed four-corner path (re or m l l l h), a curve for everything else, with the path's segments as constructed (re expanded, s and b
    closing it), every point carried to page space by the concatenated cm matrices (as scoped by q/Q), the bounding box of the segment end points, and the even-odd flag
    of the starred operators. n, W and W* paint nothing, each painting operator ends the path, and an empty path gives no item.''',
    quantifier=dict(over=['histories'], text='all sequences of path construction, painting, clipping, matrix and q/Q operators with arbitrary operands'),
    why_tests_cant='No test checks a path; shapes, matrices and operator orders combine without bound.',
    anchors=dict(files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py', 'pdfmajor/interpreter/commands/state/Curves.py', 'pdfmajor/utils/matrix.py'],
                 mechanism=[dict(name='path construction', where='pdfmajor/interpreter/commands/commands.py'),
                            dict(name='classification and box', where='pdfmajor/interpreter/commands/state/layout/__init__.py:make_curve')],
                 state=[dict(name='current path', meaning='segments since the last painting operator'), dict(name='current matrix', meaning='user to page space')],
                 observe_at='LTCurve items of a page'))
CHECK = dict(technique='model-based property testing: random path programs run through the interpreter and a reference interpreter',
             note='dyadic coordinates so that the classification does not depend on rounding; matrices are not changed while a path is under construction')
