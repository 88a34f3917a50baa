PROP = dict(
    id='P31', title='Text output is the text of the pages in drawing order',
    statement='''convert_file(out_type='text') writes, for each page in order, the line '========== [ page N ] ==========' followed by the characters of all text items of the page, in the order the interpreter yields them and including those inside form XObjects,
    followed by a line end: nothing lost, doubled, escaped or added, whatever the characters, encoded in the requested codec.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all documents and every codec that can hold their text'),
    why_tests_cant='The tests only check that a conversion of a few samples does not raise.',
    anchors=dict(files=['pdfmajor/converters/text.py'],
                 mechanism=[dict(name='items to text', where='pdfmajor/converters/text.py')],
                 observe_at='the file convert_file writes'))
CHECK = dict(technique='differential property testing: random whole documents converted, compared byte for byte with the text collected from the interpreter\'s items',
             note='UTF-8, ASCII, Latin-1, UTF-16-LE and GB18030; codecs that write a byte order mark are not covered')
