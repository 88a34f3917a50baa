PROP = dict(
    id='P24', title='Page space starts at the lower left corner of the displayed page',
    statement='''For every MediaBox (any origin, corners in any order, own or inherited) and every Rotate that is a multiple of 90 degrees, items are reported in a space whose origin is the
    lower left corner of the MediaBox as displayed after turning it clockwise by Rotate, so that the MediaBox itself becomes (0, 0, width, height) with the
    page's reported width and height. Every path, character, image and form of the content is placed by that transformation.''',
    quantifier=dict(over=['inputs'], text='all media boxes, rotations and page contents'),
    why_tests_cant='No test looks at a turned page or a MediaBox that does not start at the origin.',
    anchors=dict(files=['pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/utils/matrix.py', 'pdfmajor/parser/PDFPage.py'],
                 mechanism=[dict(name='page matrix', where='pdfmajor/interpreter/PageInterpreter.py:__init__')],
                 observe_at='width, height and item boxes of PageInterpreter'))
CHECK = dict(technique='model-based property testing: random boxes, rotations and contents compared with a reference transformation',
             note='CropBox is ignored by the library, as the check confirms')
