PROP = dict(
    id='P23', title='HTML output is well-formed, keeps all text and puts every item in its place',
    statement='''convert_file(out_type='html') writes one HTML document with the codec as charset in which every element is closed and no text of the PDF turns into markup. It has one element per page, with its number and
    size, holding one element per item the interpreter yields, in order and nested as they are: curves at their place (left, top, width, height) with a path through the right points and their gray or RGB stroke and fill; form
    XObjects and character blocks at theirs (left, bottom, width, height), with font size, font and gray or RGB colour; every character with its size; images with theirs. Text comes back unchanged up to white space and characters HTML cannot hold.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all documents (pages, boxes, curves, colours, images, nested forms, text and font names of any characters) and codecs that ASCII text survives in'),
    why_tests_cant='The tests only check that a conversion of a few samples does not raise.',
    anchors=dict(files=['pdfmajor/converters/html.py', 'pdfmajor/converters/writers/html.py'],
                 mechanism=[dict(name='items to HTML', where='pdfmajor/converters/html.py')],
                 observe_at='the file convert_file writes'))
CHECK = dict(technique='round trip: random whole documents converted, the output read by an independent HTML reader with style and SVG path interpretation and compared with what the interpreter yields',
             note='colours of other spaces than gray and RGB are only required to be present; positions to a relative 1e-6')
