PROP = dict(
    id='P07', title='Group 4 fax data decodes to the encoded bitmap',
    statement='''A bi-level image of any width and height encoded with CCITT Group 4 (T.6) decodes to exactly its pixels, rows packed from the
    most significant bit: for every mix of pass, vertical and horizontal codes and run lengths, with or without byte-aligned
    rows and the end-of-block code, and with black written as 0 or 1 as the parameters ask.''',
    quantifier=dict(over=['inputs'], text='all bitmaps, all legal T.6 codings of each, all parameter combinations of Group 4'),
    why_tests_cant='The tests exercise three private step functions on a handful of reference lines and never decode encoded data.',
    anchors=dict(files=['pdfmajor/parser/PDFStream/ccitt.py'],
                 mechanism=[dict(name='code tables and modes', where='pdfmajor/parser/PDFStream/ccitt.py:CCITTG4Parser'),
                            dict(name='output', where='pdfmajor/parser/PDFStream/ccitt.py:CCITTFaxDecoder, ccittfaxdecode')],
                 observe_at='decoded stream data'))
CHECK = dict(technique='property-based round trip: an independent T.6 encoder choosing randomly among the legal codings (and libtiff through Pillow), decoded by the library and compared',
             note='widths to 5300, up to 8 rows per image; Group 3 and uncompressed mode are not supported by the library and not generated')
