PROP = dict(
    id='P32', title='A reference means the object it refers to, wherever it stands',
    statement='''Replacing any direct object in the dictionaries and arrays of pages, page tree nodes, resources, fonts, font descriptors, encodings, colour spaces, forms, images and streams (filters and their
    parameters included) by a reference to an indirect object that holds it changes nothing, at any depth, in any combination, whether those objects stand in the file themselves or in object streams:
    the pages, their sizes and boxes, and the items with their texts, positions, fonts and colours stay the same.''',
    quantifier=dict(over=['inputs'], text='all documents and all sets of objects moved behind references'),
    why_tests_cant='A test file fixes one choice of what is indirect; producers differ in exactly this choice.',
    anchors=dict(files=['pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFStream/__init__.py', 'pdfmajor/parser/PDFPage.py', 'pdfmajor/interpreter/commands/utils.py',
                        'pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py'],
                 mechanism=[dict(name='reading through references', where='pdfmajor/parser/PDFStream/util.py:resolve1')],
                 observe_at='pages and items of PDFInterpreter'))
CHECK = dict(technique='metamorphic property testing: a random document against the same document with random objects moved behind references',
             note='references to references are not generated; Kids stay references; dictionaries of cross-reference and object streams, and the trailer, stay direct')
