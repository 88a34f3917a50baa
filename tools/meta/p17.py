PROP = dict(
    id='P17', title='Character boxes and advances follow the metrics of the font',
    statement='''Every character is as wide as its font says: by Widths with MissingWidth (0) for codes outside, by the standard metrics for the standard Latin fonts unless the file gives Widths or a descriptor,
    by Widths scaled with FontMatrix for Type 3, by W with DW (1000), or vertically by W2 with DW2 (880 -1000), all of them whether written directly or through references.
    Its height is that of the FontBBox, or Ascent minus Descent when the box is empty, starting at Descent (Type 3: at the box).''',
    quantifier=dict(over=['inputs'], text='all width tables, descriptors, matrices and codes'),
    why_tests_cant='The tests look at no character position.',
    anchors=dict(files=['pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py',
                        'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py', 'pdfmajor/utils/fontmetrics.py', 'pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py'],
                 mechanism=[dict(name='width arrays', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py:get_widths'), dict(name='width of a code', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py:char_width')],
                 observe_at='boxes of the characters of a page'))
CHECK = dict(technique='model-based property testing: random metrics, direct and indirect, compared with a reference computation of every box',
             note='standard fonts: the twelve Latin ones; a vertical character without W2 entry is centred on the FontBBox as the library does; standard metrics are not combined with ToUnicode')
