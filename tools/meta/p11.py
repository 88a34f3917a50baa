PROP = dict(
    id='P11', title='Page items depend on operators and operands, not on their spelling',
    statement='''Two page contents with the same sequence of operators and operands give the same items: it does not matter into how many streams the Contents array
    cuts them (between tokens), which filters each stream uses, how numbers, names, strings, white space and comments are written, or where a read buffer ends.
    Operators that mark content, set parameters without effect on items, or are unknown inside BX/EX change nothing, and inline images come out with exactly the data between ID and EI.''',
    quantifier=dict(over=['inputs'], text='all contents and all their equivalent spellings'),
    why_tests_cant='The sample files have one spelling each, and no two of them have the same contents.',
    anchors=dict(files=['pdfmajor/parser/PDFContentParser.py', 'pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/interpreter/commands/__init__.py'],
                 mechanism=[dict(name='content streams', where='pdfmajor/parser/PDFContentParser.py:fillfp'),
                            dict(name='inline images', where='pdfmajor/parser/PDFContentParser.py:get_inline_data'),
                            dict(name='operator dispatch', where='pdfmajor/interpreter/commands/__init__.py:process_command_stream')],
                 observe_at='items of PageInterpreter'))
CHECK = dict(technique='metamorphic property testing: random programs, written plainly and rewritten (split, filtered, respelled, padded, with operators without effect), must give equal items',
             note='inline data never contains EI followed by white space and does not end in CR (nothing could tell where it ends); gs only sets parameters without effect on items')
