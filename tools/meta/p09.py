PROP = dict(
    id='P09', title='Pages come once each, in order, with inherited attributes; selections are exact',
    statement='''Iterating a document gives every page of its page tree exactly once, depth first in Kids order, each with its own content streams and its own or nearest
    inherited Resources, MediaBox, CropBox and Rotate (reduced to 0-359 degrees; CropBox defaults to MediaBox), and the interpreter numbers pages
    consecutively from 0 with the width and height of the MediaBox as displayed (turned by Rotate). Zero-based page numbers select exactly those pages in document order, and a page limit of n the first n
    (both together: only selected pages, at most n).
    A document without a usable page tree gives every page object of the file exactly once.''',
    quantifier=dict(over=['inputs', 'configurations'], text='''all page trees (depth, empty nodes, attribute placement direct or indirect, object numbering), page selections, limits, caching on or off'''),
    why_tests_cant='Tests open a few samples with one flat level of pages; inheritance chains, empty nodes and selections combine without bound.',
    anchors=dict(files=['pdfmajor/parser/PDFPage.py', 'pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py'],
                 mechanism=[dict(name='tree walk and inheritance', where='pdfmajor/parser/PDFPage.py:create_pages'),
                            dict(name='selection', where='pdfmajor/parser/PDFPage.py:get_pages')],
                 observe_at='PDFPage.get_pages, PDFInterpreter iteration'))
CHECK = dict(technique='property-based testing: random page trees written to files, compared with the model that generated them',
             note='trees up to 14 leaves; acyclic')
