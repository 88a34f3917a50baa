PROP = dict(
    id='P20', title='JSON output is valid JSON and says exactly what is on the pages',
    statement='''convert_file(out_type='json') writes one JSON document (as RFC 8259 has it, no object with a key twice) in the requested codec, whatever characters, names, colours and boxes
    the PDF holds. Read back, it lists the pages in order with number, width and height, and on each page the items the interpreter yields, in order and nested as they are: text blocks with
    the text, box, size, colour and font descriptor of every character block; curves with box, kind, stroke and fill colour and, unless lines or rectangles, their path operations with all points; images; form XObjects with their children.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all documents (pages, boxes, curves, colours, images, nested forms, text and font descriptor entries of any characters) and codecs that ASCII text survives in'),
    why_tests_cant='The tests only check that a conversion of a few samples does not raise, and the writer on a handful of hand-made elements.',
    anchors=dict(files=['pdfmajor/converters/json.py', 'pdfmajor/converters/writers/json.py'],
                 mechanism=[dict(name='items to JSON', where='pdfmajor/converters/json.py')],
                 observe_at='the file convert_file writes'))
CHECK = dict(technique='round trip: random whole documents converted, the output read by an independent strict JSON reader and compared with what the interpreter yields',
             note='the reference for the items is the interpreter of the same tree (its own correctness is P09-P18); descriptor keys that are not UTF-8 or that collide with the writer\'s own keys are left out')
