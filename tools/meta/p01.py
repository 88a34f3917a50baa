PROP = dict(
    id='P01', title='Every legal spelling of an object reads as the value it denotes',
    statement='''Any PDF value (boolean, number, name, string, array, dictionary, null, reference) written in any spelling the
    PDF syntax allows - escapes, octal codes, line continuations, hexadecimal strings and # names, comments, any white space and line ends,
    any signs and digits of a number - reads back as exactly the value it denotes. This holds wherever the value is
    stored: as an object of the file body, packed in an object stream, in a trailer, or as an operand of a content stream,
    and with cross-reference recovery on or off.''',
    quantifier=dict(over=['inputs'], text='''all PDF values of any nesting, all their legal spellings, four storage places,
    recovery on and off'''),
    why_tests_cant='''The tests tokenise one fixed 20-line sample; the guarantee is over every byte string, escape, nesting
    and adjacency of tokens, in four different readers.''',
    anchors=dict(files=['pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/parser/PSStackParser/__init__.py',
                        'pdfmajor/parser/PSStackParser/constants.py', 'pdfmajor/parser/PDFParser.py', 'pdfmajor/parser/PDFContentParser.py'],
                 mechanism=[dict(name='tokeniser state machine', where='pdfmajor/parser/PSStackParser/PSBaseParser.py:_parse_main and following'),
                            dict(name='container assembly', where='pdfmajor/parser/PSStackParser/__init__.py:PSStackParser.nextobject'),
                            dict(name='references, null, streams', where='pdfmajor/parser/PDFParser.py:do_keyword')],
                 observe_at='values returned by document object lookup, the document catalogue/info, and content-stream operands'))
CHECK = dict(technique='property-based testing: random value trees written by an independent PDF writer that picks random legal spellings, compared with the written value (round trip)',
             note='''value trees up to about 8 leaves, strings up to 200 bytes, one to five values per file; objects
             consisting only of a reference are not put in object streams''')
