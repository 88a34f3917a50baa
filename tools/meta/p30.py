PROP = dict(
    id='P30', title='A document cannot make the library open, write or run anything else',
    statement='''While a document is opened, decoded, interpreted or converted, the only files opened are the document itself, the output that was asked for, and CMap resources directly inside the CMap folders (the packaged one and CMAP_PATH);
    nothing is written elsewhere and no program, network or other system access happens. This holds whatever names, strings, file specifications and actions the document contains (encoding names, character collections, usecmap, paths with .., absolute paths, NUL bytes, URLs),
    and likewise for every name given to CMapDB.''',
    quantifier=dict(over=['inputs'], text='all documents and names'),
    why_tests_cant='A hostile name has to be aimed at a lookup; the samples are ordinary documents.',
    anchors=dict(files=['pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/converters/__init__.py'],
                 mechanism=[dict(name='CMap lookup', where='pdfmajor/parser/cmapdb/__init__.py:CMapDB._load_data')],
                 observe_at='file and process operations of the process (audit events)'))
CHECK = dict(technique='property-based fuzzing with an audit-hook monitor: documents full of hostile names are read and converted in a scratch world with decoy files; any file, process or network event outside the allowed set is a violation',
             note='the import system reading Python code outside the scratch world is allowed; the writing of images (which no converter asks for) is not included')
