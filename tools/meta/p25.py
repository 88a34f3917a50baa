PROP = dict(
    id='P25', title='Outlines and named destinations are those of the document',
    statement='''get_outlines gives every outline entry that has a title and a destination or action, in reading order with its nesting level, its decoded title (PDFDocEncoding or UTF-16 with
    byte order mark), destination, action and structure element, for any number of entries; PDFNoOutlines when there is none, and circular chains of a damaged file end without loss.
    get_dest finds every name of a name tree of any shape and of the older Dests dictionary, lookup_name every name of any name tree; what is not there raises PDFDestinationNotFound and KeyError.
    References and encryption make no difference to this.''',
    quantifier=dict(over=['inputs'], text='all outline trees, titles, name trees and names looked up'),
    why_tests_cant='No test reads an outline or a name tree.',
    anchors=dict(files=['pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/utils/text.py'],
                 mechanism=[dict(name='outlines', where='pdfmajor/parser/PDFDocument/__init__.py:PDFDocument.get_outlines'),
                            dict(name='names', where='pdfmajor/parser/PDFDocument/__init__.py:PDFDocument.lookup_name, get_dest'),
                            dict(name='text strings', where='pdfmajor/utils/text.py:decode_text')],
                 observe_at='results of get_outlines, get_dest and lookup_name'))
CHECK = dict(technique='model-based property testing: outlines and name trees built from random trees and mappings, read back and compared with them',
             note='up to 2000 entries on a level and 60 levels; control characters other than tab and line ends are not used in PDFDocEncoding titles; entries leading nowhere may be given or left out')
