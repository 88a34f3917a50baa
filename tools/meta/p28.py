PROP = dict(
    id='P28', title='Conversion options, output names and the command line mean what they say',
    statement='''For every format (html, json, xml, yaml, yml, text), convert_file, the convert_to_* functions and tools/pdfconvert.py convert the same pages: all, the first maxpages, or those whose index is in pagenos, numbered from 0
    in the output; with the given codec, password, caching and extraction check, raising for a wrong password, for a protected document that does not allow extraction, and when no page is left; pdfconvert.py counts pages from 1 and writes to stdout
    unless told otherwise. Without an output name, convert_file writes next to the input with the extension replaced by the type; it refuses unknown types and output names that do not end in the type, changes no other file, and never its input.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all combinations of format, entry point, page selection, codec, protection, password, caching and names'),
    why_tests_cant='The tests convert whole unprotected samples with the default options.',
    anchors=dict(files=['pdfmajor/converters/__init__.py', 'tools/pdfconvert.py', 'pdfmajor/interpreter/__init__.py'],
                 mechanism=[dict(name='convert_file', where='pdfmajor/converters/__init__.py'), dict(name='command line', where='tools/pdfconvert.py')],
                 observe_at='the file or stream written, exit status and exceptions'))
CHECK = dict(technique='model-based property testing: random documents and option combinations through every entry point; the output read back and compared with the selected pages of the interpreter\'s items',
             note='maxpages and pagenos are not combined; image_folder_path and dont_export_images are not covered')
