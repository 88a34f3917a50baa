PROP = dict(
    id='P16', title='Composite fonts give each character code the right text',
    statement='''Strings shown in composite fonts are cut into the codes of the font's encoding (two bytes for Identity-H and Identity-V, of which an odd last byte is no code; any lengths for installed CMaps) and each code gets
    its text from the ToUnicode map (which is about codes, not CIDs), or else from the Unicode map of its character collection in the font's writing direction; a code with no text raises UnicodeNotDefined or, with ignore_bad_chars, is empty.
    CMap programs (cidchar, cidrange, bfchar, bfrange with string or array, usecmap, WMode) mean what they say, for codes of one to four bytes, and using one map in another leaves it unchanged.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all CMaps, ToUnicode maps, installed collections and strings'),
    why_tests_cant='No sample file has a predefined CMap, multi-length codes or vertical writing.',
    anchors=dict(files=['pdfmajor/parser/cmapdb/__init__.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py'],
                 mechanism=[dict(name='CMap programs', where='pdfmajor/parser/cmapdb/__init__.py:CMapParser'), dict(name='codes to CIDs', where='pdfmajor/parser/cmapdb/__init__.py:CMap.decode'),
                            dict(name='composite fonts', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py:PDFCIDFont')],
                 observe_at='get_text() of the characters of a page; CMap.decode and get_unichr of parsed CMaps'))
CHECK = dict(technique='model-based property testing: random CMap programs and installed collections compared with the dictionary they were written from',
             note='codes mapped once per map; CMaps embedded as the Encoding stream of a font are not supported by the library and not generated; the predefined CMap files are not part of the repository, generated ones stand in for them')
