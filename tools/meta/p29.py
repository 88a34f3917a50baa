PROP = dict(
    id='P29', title='Embedded font programs give the text that nothing else gives',
    statement='''In a composite font of the Adobe-Identity or Adobe-UCS collection without ToUnicode, the text of a code is a character that the Unicode cmap subtables
    (formats 0, 2 and 4) of the embedded TrueType program map to its glyph, the glyph being the CID itself or what a CIDToGIDMap stream says; subtables of other formats or character sets are ignored.
    In a Type 1 font with an embedded program and no Encoding, the text of a code not in ToUnicode is that of the glyph name in the encoding of the program's clear text (an array or StandardEncoding).
    Codes without a character raise UnicodeNotDefined, or are empty text with ignore_bad_chars.''',
    quantifier=dict(over=['inputs'], text='all cmap tables, CID maps, Type 1 encodings and codes'),
    why_tests_cant='The fonts of the sample files all come with ToUnicode maps or encodings; none is read for its text.',
    anchors=dict(files=['pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py',
                        'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py'],
                 mechanism=[dict(name='TrueType cmap', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py:TrueTypeFont.create_unicode_map'),
                            dict(name='Type 1 encoding', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/Type1FontHeaderParser.py:Type1FontHeaderParser'),
                            dict(name='use', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py:PDFType1Font, PDFCIDFont')],
                 observe_at='get_text() of the characters of a page'))
CHECK = dict(technique='model-based property testing: TrueType and Type 1 programs built from random character maps, the text of shown codes compared with these maps',
             note='Unicode subtables of one program agree on the characters they share; where several characters have one glyph any of them is accepted; CFF programs are not read by the library')
