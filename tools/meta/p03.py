PROP = dict(
    id='P03', title='Objects resolve to their newest definition in any update history',
    statement='''For any history of incremental updates, each section being a cross-reference table, a cross-reference
    stream or a hybrid of both, with objects stored plainly or packed in object streams, every object in use resolves to its most
    recent definition and a number never defined resolves to nothing (a null reference). The answer does not depend
    on the order of lookups, on object caching, or on recovery being enabled, and the object numbers a section lists are exactly those it defines.''',
    quantifier=dict(over=['histories', 'inputs', 'configurations'], text='''all sequences of updates over all section forms, entry widths, index ranges,
    line ends and generation numbers; all access orders; caching and recovery on or off'''),
    why_tests_cant='''The sample files are fixed single histories and are only rendered; no test compares resolved objects with
    what an update history says they are.''',
    anchors=dict(files=['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFDocument/PDFXRef.py'],
                 mechanism=[dict(name='section chain', where='pdfmajor/parser/PDFDocument/__init__.py:read_xref_from'),
                            dict(name='lookup and caching', where='pdfmajor/parser/PDFDocument/__init__.py:getobj/_getobj_objstm'),
                            dict(name='table and stream entries', where='pdfmajor/parser/PDFDocument/PDFXRef.py:PDFXRef, PDFXRefStream')],
                 state=[dict(name='document object caches', meaning='objects and object streams already parsed')],
                 observe_at='document object lookup, listed object numbers'))
CHECK = dict(technique='model-based property testing: random update histories applied to a dictionary model and to a generated file, compared after every lookup',
             note='one to five revisions, up to seven updates each over 14 object numbers; deleting an object that stays deleted is not generated')
