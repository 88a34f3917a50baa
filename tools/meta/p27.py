PROP = dict(
    id='P27', title='Processing a document always ends, however its references lead',
    statement='''Whatever a document says, opening it, reading its pages, objects and names, and interpreting its pages comes to an end: with a result or an exception, never in a loop and never by
    exhausting the stack or memory. This holds for references in circles (objects that are only references to each other, stream lengths and object streams needed to read themselves, page tree nodes
    below themselves, forms that draw themselves, cross-reference sections, name trees, descendant fonts), for chains of thousands of sections, for page trees, name trees, outlines, references and arrays thousands of levels deep and forms hundreds deep, and for ranges and counts far beyond the file
    (CMap and width ranges, cross-reference ranges, predictor columns); what closes a circle counts as not there, and what lies beyond the end of a font or of the data is left out; all the rest is reported as ever.''',
    quantifier=dict(over=['inputs'], text='all documents, undamaged or damaged in any way, with circles and ranges of any size'),
    why_tests_cant='The tests read sound documents only; a circle or an absurd number may be anywhere in a document.',
    anchors=dict(files=['pdfmajor/parser/PDFStream/util.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py', 'pdfmajor/parser/PDFPage.py',
                        'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py'],
                 mechanism=[dict(name='following references', where='pdfmajor/parser/PDFStream/util.py:resolve1, pdfmajor/parser/PDFDocument/__init__.py:PDFDocument.getobj'),
                            dict(name='sections', where='pdfmajor/parser/PDFDocument/__init__.py:PDFDocument.read_xref_from'),
                            dict(name='page tree', where='pdfmajor/parser/PDFPage.py:PDFPage.create_pages'),
                            dict(name='forms', where='pdfmajor/interpreter/commands/__init__.py:process_command_stream'),
                            dict(name='ranges', where='pdfmajor/parser/cmapdb/__init__.py:CMapParser.do_keyword, util.py:get_widths, PDFXRef.py:PDFXRefStream.get_objids')],
                 observe_at='results of PDFPage.create_pages, PDFDocument.getobj and get_dest, and of iterating PDFInterpreter'))
CHECK = dict(technique='model-based and metamorphic property testing: trees, forms, sections and names with circles against models that cut them; a reference into a circle against one to a missing object; '
                       'absurd ranges against sensible ones; mutation fuzzing of whole documents with termination as the oracle',
             note='an end is expected within 60 s of CPU time and 3 GB for documents of a few kB; the expansion of compressed data is not bounded')
