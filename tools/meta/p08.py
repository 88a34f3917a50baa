PROP = dict(
    id='P08', title='Encrypted documents decrypt exactly, for the right password only',
    statement='''A document protected with the standard security handler (RC4 with 40 to 128 bit keys, AES-128, or AES-256 of revision 5) and opened with its user
    or owner password gives exactly the strings and stream data of the unprotected document in every object, whether stored plainly or
    in an object stream, and its permission flags (print, modify, extract) are those of the file. Any other password is refused with the password
    error, and an unsupported handler, version, revision or crypt filter with the encryption error. When asked to honour permissions, page
    listing is refused exactly when the extract permission is off.''',
    quantifier=dict(over=['inputs', 'configurations'], text='''all schemes, key lengths, passwords, permission words, file identifiers, object numbers and generations, object trees and
    storage forms; caching and recovery on or off'''),
    why_tests_cant='No test opens an encrypted document at all.',
    anchors=dict(files=['pdfmajor/parser/PDFDocument/PDFSecurityHandler.py', 'pdfmajor/parser/PDFDocument/__init__.py', 'pdfmajor/parser/PDFPage.py'],
                 mechanism=[dict(name='key derivation and authentication', where='pdfmajor/parser/PDFDocument/PDFSecurityHandler.py:authenticate'),
                            dict(name='decryption of objects', where='pdfmajor/parser/PDFDocument/__init__.py:getobj, pdfmajor/parser/PDFStream/__init__.py:decode'),
                            dict(name='extraction permission', where='pdfmajor/parser/PDFPage.py:get_pages')],
                 state=[dict(name='document key', meaning='set once the password is accepted')],
                 observe_at='object lookup, stream data, exceptions on opening'))
CHECK = dict(technique='property-based testing: an independent encrypting writer applied to random documents, compared with the unprotected model; random wrong passwords and unsupported dictionaries',
             note='passwords in Latin-1 (RC4/AES-128) or UTF-8 without SASLprep (AES-256); revision 6 and public-key handlers are only checked to be refused')
