PROP = dict(
    id='P04', title='Damaged cross-reference data loses no intact object',
    statement='''With recovery on (the default), a document whose cross-reference data is missing, truncated, overwritten or
    displaced - junk before the header, bytes inserted between objects, a wrong or missing start marker, wrong table entries, wrong stream lengths -
    still opens, and every object whose own text is intact and whose number, generation and "obj" stand at the start of a line resolves to its newest definition, including
    objects packed in object streams and objects added by later updates; where only the end of the last update is cut off, objects
    it redefines may also read as before it.''',
    quantifier=dict(over=['fault_sequences', 'inputs', 'histories'], text='''all documents and update histories; displacement by any amount, all start
    marker values and truncations after the last object, any set of edits of the table entries, counts and keyword'''),
    why_tests_cant='''All sample files have intact cross-reference data, so the recovery path is never the one that decides what is read.''',
    anchors=dict(files=['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py'],
                 mechanism=[dict(name='recovery scan', where='pdfmajor/parser/PDFDocument/PDFXRef.py:PDFXRefFallback'),
                            dict(name='fall through to the next section', where='pdfmajor/parser/PDFDocument/__init__.py:getobj, __init__')],
                 observe_at='document object lookup and catalogue on damaged files'))
CHECK = dict(technique='fault-injection property testing: random update histories, then generated damage to the cross-reference data, compared with the undamaged model',
             note='''entry-level damage and displacement inside the file use single-revision files; objects begin at a line start; a
             displaced offset never lands on another header of the same number (nothing could tell them apart)''')
