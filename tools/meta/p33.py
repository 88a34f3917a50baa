PROP = dict(
    id='P33', title='Documents can be read and converted in several threads at once',
    statement='''When several threads of one process each open, read or convert documents (the same file or different ones, plain or encrypted, with any filters, fonts and installed CMaps), each of them gets exactly the objects, pages, items and output, or the error, it gets alone,
    whatever moment any of them is held up at and in whatever order they take turns, also when none of the files was read before in the process.
    (Each thread has its own document or interpreter object; one such object is used by one thread only.)''',
    quantifier=dict(over=['inputs', 'schedules'], text='all documents, jobs, and interleavings of two or three threads at the lines of the library'),
    why_tests_cant='The tests read one document after another in one thread; an unlucky interleaving is one of millions.',
    anchors=dict(files=['pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/parser/PSStackParser/types.py', 'pdfmajor/parser/PSStackParser/PSBaseParser.py', 'pdfmajor/utils/lzw.py', 'pdfmajor/interpreter/__init__.py'],
                 mechanism=[dict(name='CMap cache', where='pdfmajor/parser/cmapdb/__init__.py:CMapDB'), dict(name='table of names', where='pdfmajor/parser/PSStackParser/types.py:PSSymbolTable'),
                            dict(name='lexer state', where='pdfmajor/parser/PSStackParser/PSBaseParser.py:PSBaseParser')],
                 state=[dict(name='process-wide tables', meaning='interned names, CMaps and Unicode maps loaded so far')],
                 observe_at='PDFInterpreter, PDFDocument.getobj and convert_file called from threads'))
CHECK = dict(technique='property-based testing over generated schedules: a trace function hands the turn from thread to thread after generated numbers of lines, or holds one thread at a generated line while another runs to its end; differential oracle: the same job alone in a fresh state',
             note='interleavings at the granularity of lines of Python in the library, two or three threads, documents of up to two pages; names of images in the output (memory addresses) are not compared')
