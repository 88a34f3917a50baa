PROP = dict(
    id='P05', title='Stream filter chains decode to exactly the data that was encoded',
    statement='''Data encoded with any chain of the Flate, LZW, ASCII85, ASCIIHex and RunLength filters, by any conforming encoder, is
    returned byte for byte when the stream is read, for every data content and length; bytes after a filter's end-of-data marker are
    ignored and JPEG data is passed through untouched. The result does not depend on how the filter entry is written (a name, an array, through references, with null or
    neutral parameters, or with the abbreviated names of inline images).''',
    quantifier=dict(over=['inputs'], text='''all data, all chains of up to four filters (and a final JPEG filter), all legal encodings
    of each filter, all ways of writing the filter entries'''),
    why_tests_cant='''The tests decode one or two literal examples per filter; the guarantee is over all data, table resets,
    partial groups, white space and chains.''',
    anchors=dict(files=['pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFStream/util.py', 'pdfmajor/utils/lzw.py', 'pdfmajor/utils/ascii85.py'],
                 mechanism=[dict(name='filter dispatch', where='pdfmajor/parser/PDFStream/__init__.py:PDFStream.get_filters/decode'),
                            dict(name='decoders', where='pdfmajor/utils/lzw.py, pdfmajor/utils/ascii85.py, pdfmajor/parser/PDFStream/util.py:rldecode')],
                 observe_at='decoded stream data'))
CHECK = dict(technique='property-based round trip: independent encoders for each filter driven by a random choice tape, decoded by the library and compared',
             note='data up to 400 bytes in chains, up to 60000 bytes for single filters; EarlyChange 0 LZW is not generated')
