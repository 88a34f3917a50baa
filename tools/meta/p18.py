PROP = dict(
    id='P18', title='Form XObjects are drawn with their matrix, resources and caller state',
    statement='''Do on a form XObject gives one container item at that point of the page whose children are the items of the form's content, recursively, in order; the content is
    interpreted under the form's Matrix concatenated with the current matrix, with the form's own Resources (fonts, colour spaces, XObjects; a name they lack is undefined there even if the caller has it), or its caller's when it has none, and starting
    from the caller's colours, line width and text state; the container's box is the form's BBox carried to page space by those matrices. Nothing the form does (matrices, colours,
    fonts, unbalanced q) changes what follows in the caller; Do on an image gives one image item whose box is the unit square under the current matrix.''',
    quantifier=dict(over=['histories'], text='all nestings of forms, matrices, boxes, resource dictionaries (own, shared, absent, indirect) and content programs around and inside them'),
    why_tests_cant='Samples contain few forms and no test looks at where their content ends up.',
    anchors=dict(files=['pdfmajor/interpreter/commands/__init__.py', 'pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/__init__.py'],
                 mechanism=[dict(name='Do', where='pdfmajor/interpreter/commands/commands.py:insert_xobject'),
                            dict(name='content of forms', where='pdfmajor/interpreter/commands/__init__.py:process_command_stream')],
                 state=[dict(name='state of the form', meaning='a copy of the caller state with its own matrix and resources')],
                 observe_at='LTXObject and LTImage items of a page'))
CHECK = dict(technique='model-based property testing: random form graphs (acyclic) and programs run through the interpreter and a reference interpreter',
             note='acyclic forms; matrices that keep axes where text is involved. The finding listed for P12 (Q) also shows here and is accounted for')
