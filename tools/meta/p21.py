PROP = dict(
    id='P21', title='XML output is well-formed and says exactly what is on the pages',
    statement='''convert_file(out_type='xml') writes one well-formed XML document whose declaration names the codec it is in, whatever characters, names, colours and boxes the PDF holds. Read back, it
    lists the pages in order with number, width and height, and on each page the items the interpreter yields, in order and nested as they are: text with box, size, colour and font entries of each character block and
    the character and box of every character; curves with box, kind, colours and, unless lines or rectangles, path operations with all points; images; form XObjects with their children. Characters XML cannot hold may be replaced or left out, all others come back unchanged.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all documents (pages, boxes, curves, colours, images, nested forms, text and font descriptor entries of any characters) and codecs that ASCII text survives in'),
    why_tests_cant='The tests only check that a conversion of a few samples does not raise.',
    anchors=dict(files=['pdfmajor/converters/xml.py', 'pdfmajor/converters/writers/xml.py'],
                 mechanism=[dict(name='items to XML', where='pdfmajor/converters/xml.py')],
                 observe_at='the file convert_file writes'))
CHECK = dict(technique='round trip: random whole documents converted, the output parsed by an independent XML parser and compared with what the interpreter yields',
             note='the reference for the items is the interpreter of the same tree (its own correctness is P09-P18)')
