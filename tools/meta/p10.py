PROP = dict(
    id='P10', title='The items of a page do not depend on how or when it is read',
    statement='''Reading a page gives the same size and the same items whatever the caching and preload options, the pages selected with it, and whatever was read before:
    pages and items may be iterated in any order, repeatedly, interleaved with other pages or other files, abandoned half-way and started again, also after the iteration over
    pages has finished. Items already handed out do not change afterwards.''',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='all files, option sets and histories of iteration'),
    why_tests_cant='The tests read each file once, front to back, with the default options.',
    anchors=dict(files=['pdfmajor/interpreter/__init__.py', 'pdfmajor/interpreter/PageInterpreter.py', 'pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/parser/PDFDocument/__init__.py'],
                 mechanism=[dict(name='page list', where='pdfmajor/interpreter/__init__.py:__load_pages'),
                            dict(name='page state', where='pdfmajor/interpreter/PageInterpreter.py:__iter__'),
                            dict(name='object cache', where='pdfmajor/parser/PDFDocument/__init__.py:getobj')],
                 state=[dict(name='font cache', meaning='fonts of the pages read so far, by object number'), dict(name='object cache', meaning='objects read so far'),
                        dict(name='page list', meaning='pages found so far'), dict(name='state stack', meaning='graphics and text state while a page is interpreted')],
                 observe_at='iteration over PDFInterpreter and PageInterpreter'))
CHECK = dict(technique='stateful property testing: random histories of opening, iterating, abandoning and repeating over two files, each item compared with a fresh single-page reading and with a reference interpreter',
             note='two files of up to four pages sharing object numbers, fonts and forms, and a path that holds one document after another; single thread')
