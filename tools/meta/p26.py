PROP = dict(
    id='P26', title='Boxes, matrices, distances and area search agree with plain geometry',
    statement='''A box holds its corners in order and the box of some points is the smallest that holds them, wherever they lie; matrices multiply, translate and apply to points and vectors as in mathematics (the product m1, m0 applies m1 first).
    Layout items overlap horizontally or vertically exactly when these intervals share a point, their distance is the gap between them or 0, and containers list what was added to each of them, in order, and keep none of the lists they were extended with.
    After any history of add, extend and remove, a Plane lists the objects added and not removed since, in order and once each, and find gives of these, once each, exactly those that overlap the given box within the plane (meeting at an edge only is no overlap), at any coordinates.''',
    quantifier=dict(over=['inputs', 'histories'], text='all boxes, points, matrices; all histories of a plane, any grid size and bounds'),
    why_tests_cant='No test uses these; grids and borders fail at particular coordinates and after particular histories only.',
    anchors=dict(files=['pdfmajor/utils/generic.py', 'pdfmajor/utils/types.py', 'pdfmajor/utils/matrix.py', 'pdfmajor/interpreter/commands/state/layout/_base.py'],
                 mechanism=[dict(name='grid', where='pdfmajor/utils/generic.py:Plane'), dict(name='boxes', where='pdfmajor/utils/types.py:Bbox'),
                            dict(name='items', where='pdfmajor/interpreter/commands/state/layout/_base.py:LTComponent')],
                 state=[dict(name='grid of a Plane', meaning='which objects lie in which cell')], observe_at='Bbox, LTComponent, LTContainer, Plane and the matrix functions of pdfmajor.utils'))
CHECK = dict(technique='property-based testing against exact rational arithmetic and interval logic; stateful model-based testing of Plane against an ordered list',
             note='dyadic coordinates, so that every comparison is exact; objects that overlap the box only beyond the bounds of the plane may be found or not; integer grid sizes; hoverlap and voverlap are not claimed')
