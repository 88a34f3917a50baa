"""P31: text output."""
from hypothesis import strategies as st
from .. import docs
from ..core import Test, eq
from pdfmajor.converters import convert_file
from .p20 import tell

PID = 'P31'
RULE = 'a case is non-trivial when the document shows text with characters outside letters, digits and blanks, and has at least three items'
case = st.tuples(docs.document, st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'ascii', 'iso-8859-1', 'utf-16-le', 'gb18030']))


def wanted(want):
    out = ''
    for num, _, _, items in want:
        out += '========== [ page %d ] ==========\n' % num
        for it in docs.flat(items):
            if it[0] == 'text':
                out += ''.join(c for b in it[2] for c, _ in b[5])
        out += '\n'
    return out


def verify(raw, want, codec):
    eq(raw, wanted(want).encode(codec), 'text output in %s' % codec)


def fits(want, codec):
    try:
        wanted(want).encode(codec)
    except UnicodeEncodeError:
        return False
    return True


def as_text(case, cx):
    """convert_file(out_type='text') against the interpreter"""
    doc, codec = case
    path = cx.write('a.pdf', docs.build(doc))
    want = docs.tree(path)
    tell(cx, want)
    if not fits(want, codec):
        codec = 'utf-8'
    out = cx.path('a.text')
    convert_file(path, out, out_type='text', codec=codec)
    verify(open(out, 'rb').read(), want, codec)


TESTS = [Test('text', case, as_text, quick=5000, thorough=60000)]
