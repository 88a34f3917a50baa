PROP = dict(
    id='P02', title='What is read does not depend on where bytes fall in the file',
    statement='''Shifting content by padding never changes what is read: objects, cross-reference sections, trailers,
    stream operands and inline images read the same at every file offset, even when a token, an escape, a line end or
    the start marker of the cross-reference section straddles the boundary of the reader's buffer, and however long a single
    token is.''',
    quantifier=dict(over=['inputs'], text='''all values, all alignments relative to the 4096-byte read size, tokens longer
    than a buffer, all tail lengths after the end-of-file marker'''),
    why_tests_cant='''The parser tests use inputs smaller than one buffer, and the sample files hit only the alignments
    they happen to have; the guarantee is over every offset.''',
    anchors=dict(files=['pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/parser/PDFContentParser.py', 'pdfmajor/parser/PDFParser.py'],
                 mechanism=[dict(name='buffer refill and partial tokens', where='pdfmajor/parser/PSStackParser/PSBaseParser.py:fillbuf/nexttoken/nextline'),
                            dict(name='backward line search', where='pdfmajor/parser/PSStackParser/PSBaseParser.py:revreadlines'),
                            dict(name='inline image data', where='pdfmajor/parser/PDFContentParser.py:get_inline_data')],
                 observe_at='values returned by document object lookup and content-stream operands'))
CHECK = dict(technique='property-based testing (metamorphic): the same random content written at chosen alignments around multiples of the read size, compared with the written value',
             note='tokens up to 9000 bytes, boundary placed 0 to 160 bytes into the content, tails up to 8500 bytes')
