PROP = dict(
    id='P06', title='Row predictors are undone exactly',
    statement='''Data stored with a PNG predictor is restored byte for byte, whichever row filter each row uses (none, sub, up, average, Paeth, in any mix), for
    any number of components, columns and bits per component, any rows count including an incomplete last row, and any way of
    writing the parameters, with Flate and LZW, alone or inside a longer chain.''',
    quantifier=dict(over=['inputs'], text='all sample data, row geometries, sequences of row filter types and ways of writing the decode parameters'),
    why_tests_cant='No test reaches predictors except through the fixed cross-reference streams of the samples, which use one row type and one component.',
    anchors=dict(files=['pdfmajor/utils/generic.py', 'pdfmajor/parser/PDFStream/__init__.py'],
                 mechanism=[dict(name='row reconstruction', where='pdfmajor/utils/generic.py:apply_png_predictor'),
                            dict(name='parameters', where='pdfmajor/parser/PDFStream/__init__.py:decode')],
                 observe_at='decoded stream data'))
CHECK = dict(technique='property-based round trip: an independent PNG row encoder with random row filter types, decoded by the library and compared',
             note='up to 4 components, 12 columns, 7 rows, depths 1 to 16; the TIFF predictor is refused by the library with an error and is out of scope')
