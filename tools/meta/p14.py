PROP = dict(
    id='P14', title='Shown text is placed where the text operators put it',
    statement='''Each BT..ET that shows characters gives one text block holding, in order, one run per Tj, TJ, ' or " that shows any, with the font and the decoded characters, and each character
    box holds the glyph cell (advance width by font descent and height, or the vertical cell) tightly, at the position that Tm, Td, TD, T*, TL, Tc, Tw (code 32 of simple fonts), Tz (horizontal distances only),
    Ts, Tf size, TJ adjustments, the widths shown so far and the current matrix give it. Runs and blocks have the bounding box of their characters, the size of a run or character is its height (its width in vertical fonts), text parameters
    persist between text objects and are saved by q and restored by Q, ' moves to the next line and " also sets word and character spacing.''',
    quantifier=dict(over=['histories'], text='all sequences of text operators, strings and adjustments in simple and composite (horizontal, vertical) fonts'),
    why_tests_cant='No test checks a position of a character; spacing, scaling and line operators interact without bound.',
    anchors=dict(files=['pdfmajor/interpreter/commands/commands.py', 'pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py', 'pdfmajor/interpreter/commands/state/layout/LTTextBlock.py',
                        'pdfmajor/interpreter/commands/state/layout/LTCharBlock.py', 'pdfmajor/interpreter/commands/state/PDFTextState/__init__.py'],
                 mechanism=[dict(name='text operators', where='pdfmajor/interpreter/commands/commands.py'),
                            dict(name='glyph placement', where='pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py:decode_text_seq')],
                 state=[dict(name='text state', meaning='font, size, spacing, scaling, leading, rise, text matrix and advance within the line')],
                 observe_at='LTTextBlock, LTCharBlock and LTChar items of a page'))
CHECK = dict(technique='model-based property testing: random text programs run through the interpreter and a reference interpreter written from the PDF specification',
             note='text and current matrices scale, reflect or turn by quarters; vertical fonts with Tz 100')
