PROP = dict(
    id='P22', title='YAML output is valid YAML and says exactly what is on the pages',
    statement='''convert_file(out_type='yaml') writes one YAML document in the requested codec, no mapping with a key twice, whatever characters, names, colours and boxes the PDF holds. Read back by a standard loader,
    it lists the pages in order with number, width and height, and on each page the items the interpreter yields, in order and nested as they are: text blocks with the text, box, size, colour and font
    descriptor of every character block; curves with box, kind, stroke and fill colour and, unless lines or rectangles, their path operations with all points; images; form XObjects with their children.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all documents (pages, boxes, curves, colours, images, nested forms, text and font descriptor entries of any characters) and codecs that ASCII text survives in'),
    why_tests_cant='The tests look at the writer on a handful of hand-made elements; text that YAML reads as something else is not among them.',
    anchors=dict(files=['pdfmajor/converters/yaml.py', 'pdfmajor/converters/writers/yaml.py'],
                 mechanism=[dict(name='items to YAML', where='pdfmajor/converters/yaml.py')],
                 observe_at='the file convert_file writes'))
CHECK = dict(technique='round trip: random whole documents converted, the output read by PyYAML and compared with what the interpreter yields',
             note='the reference for the items is the interpreter of the same tree; a pattern name or number in colour values may come back as string or number')
