PROP = dict(
    id='P34', title='Damaged stream data is read up to the damage',
    statement='''Stream data that is cut off or damaged anywhere - Flate, LZW, ASCII85, ASCIIHex and RunLength data in any chain, its check sums and end marks, rows below a predictor or of an unknown predictor type, Group 4 rows, RC4 and AES encrypted data -
    is read without an exception and begins with everything that lies before the damage; data of a single filter that is merely cut off gives nothing more (but the last bytes of an incomplete ASCII85 or ASCIIHex group).
    A damaged content stream paints what its first part says, and the other streams of the page and other pages are as ever; the objects of a damaged object stream that lie before the damage read as ever.''',
    quantifier=dict(over=['inputs'], text='all data, filter chains, encryption schemes, and damages (cut, overwritten, inserted, removed, zeroed bytes) at any place'),
    why_tests_cant='The tests read undamaged files only; where a decoder gives up depends on the byte that is hit.',
    anchors=dict(files=['pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFStream/ccitt.py', 'pdfmajor/utils/lzw.py', 'pdfmajor/utils/ascii85.py', 'pdfmajor/utils/generic.py', 'pdfmajor/parser/PDFDocument/__init__.py'],
                 mechanism=[dict(name='filter chain', where='pdfmajor/parser/PDFStream/PDFStream.py:PDFStream.decode'), dict(name='object streams', where='pdfmajor/parser/PDFDocument/__init__.py:PDFDocument._get_objects')],
                 observe_at='PDFStream.get_data, PDFDocument.getobj and the items of pages'))
CHECK = dict(technique='property-based testing with injected faults: generated encodings cut, overwritten, spliced or zeroed at generated places; oracle: independent incremental decoders give what lies before the damage',
             note='only what lies before the damage is compared (after it anything may come, but no exception); chains of up to three filters, pages of up to nine streams')
