PROP = dict(
    id='P12', title='Painted items carry the colours and line width in force',
    statement='''Every painted path carries the line width, stroking and non-stroking colour, and every run of shown characters the non-stroking colour, that the
    operators before it established: G/g, RG/rg and K/k select the device space and set the colour (RGB components scaled to 0-255, others as written), CS/cs select a space
    by name (device, Cal, Lab, ICCBased, Indexed, Separation, DeviceN, Pattern; direct or through resources) and SC/SCN/sc/scn set as many components
    as that space has. Stroking and non-stroking state never affect each other, colours are unset (no space) until first set, q/Q nest, and other operators change none of it.''',
    quantifier=dict(over=['histories'], text='all sequences of colour, line-width, save/restore, path and text operators; all colour space definitions'),
    why_tests_cant='Tests compare colours of three sample files, which use two device operators.',
    anchors=dict(files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py', 'pdfmajor/interpreter/commands/utils.py'],
                 mechanism=[dict(name='colour operators', where='pdfmajor/interpreter/commands/commands.py'),
                            dict(name='colour space resources', where='pdfmajor/interpreter/commands/utils.py:get_colorspace')],
                 state=[dict(name='graphics state', meaning='current colours, spaces and line width, saved by q')],
                 observe_at='stroke, fill, color and linewidth of the items of a page'))
CHECK = dict(technique='model-based property testing: random operator sequences run through the interpreter and a reference graphics-state machine',
             note='CS/cs are always followed by SC/sc before painting; gs is not supported by the library. Known finding: Q does not restore this state')
