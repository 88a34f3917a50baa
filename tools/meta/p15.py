PROP = dict(
    id='P15', title='Codes shown in simple fonts come out as the right text',
    statement='''For every simple font (Type 1, MMType1, TrueType, Type 3) the text of a code is what the font's ToUnicode map says (bfchar, bfrange with a string or an array, one or several characters),
    else the character of the glyph name that Differences gives it (Adobe Glyph List names, uniXXXX, uXXXXX, suffixes and underscores included; names that say nothing count for their place in the array only), else that of the base encoding (Standard when none is named, WinAnsi, MacRoman).
    A code with no text raises UnicodeNotDefined, or with ignore_bad_chars comes out as empty text.''',
    quantifier=dict(over=['inputs', 'configurations'], text='all encodings, Differences arrays, ToUnicode maps and codes'),
    why_tests_cant='The sample files use a handful of fonts and mostly ASCII codes.',
    anchors=dict(files=['pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py', 'pdfmajor/interpreter/commands/state/PDFTextState/__init__.py', 'pdfmajor/parser/EncodingDB.py',
                        'pdfmajor/utils/encoding/__init__.py', 'pdfmajor/utils/encoding/latin_enc.py', 'pdfmajor/parser/cmapdb/__init__.py'],
                 mechanism=[dict(name='encodings', where='pdfmajor/parser/EncodingDB.py:get_encoding'),
                            dict(name='glyph names', where='pdfmajor/utils/encoding/__init__.py:name2unicode'),
                            dict(name='text of a code', where='pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py:PDFSimpleFont.to_unichr')],
                 observe_at='get_text() of the characters of a page'))
CHECK = dict(technique='model-based property testing: random encodings, Differences and ToUnicode maps against reference tables (Python codecs, Adobe Glyph List rules)',
             note='glyph names from the Adobe Latin set and half of the Greek, Cyrillic, Hebrew and Latin names of the glyph list; names outside the lists are generated when they have no digits (what digits in such a name mean is left open); embedded font programs are P29')
