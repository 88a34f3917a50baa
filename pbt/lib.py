"""Thin access layer to the public API of the code under test, and normal forms of what it returns."""
from io import BytesIO
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument import PDFDocument
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword, literal_name


def open_doc(data, **kw):
    return PDFDocument(PDFParser(BytesIO(data)), **kw)


def _b(name):
    return name if isinstance(name, bytes) else name.encode('utf-8', 'surrogatepass')


def norm(x):
    """Library object -> tagged normal form, comparable with expect()."""
    if x is None:
        return ('null',)
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, float):
        return ('real', x)
    if isinstance(x, bytes):
        return ('str', x)
    if isinstance(x, PSLiteral):
        return ('name', _b(x.name))
    if isinstance(x, PSKeyword):
        return ('kwd', _b(x.name))
    if isinstance(x, (list, tuple)):
        return ('arr', [norm(y) for y in x])
    if isinstance(x, dict):
        return ('dict', sorted((_b(k), norm(v)) for k, v in x.items()))
    if isinstance(x, PDFObjRef):
        return ('ref', x.objid)
    if isinstance(x, PDFStream):
        return ('stream', norm(x.attrs)[1])
    return ('other', repr(x))


def expect(v):
    """Writer value -> the same normal form. A null dictionary value equals an absent key."""
    t = v[0]
    if t == 'real':
        return ('real', float(v[1]))
    if t == 'arr':
        return ('arr', [expect(x) for x in v[1]])
    if t == 'dict':
        return ('dict', sorted((k, expect(x)) for k, x in v[1] if x[0] != 'null'))
    if t == 'stream':
        return ('stream', expect(('dict', v[1]))[1])
    return tuple(v)
