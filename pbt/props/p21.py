"""P21: XML output."""
import re
from xml.etree import ElementTree
from .. import docs, readback as RB
from ..core import Test, Violation, eq
from pdfmajor.converters import convert_file
from .p20 import case, tell, means

PID = 'P21'
RULE = 'a case is non-trivial when the document shows text with characters outside letters, digits and blanks, and has at least three items'

BAD = re.compile('[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]')
DECL = re.compile(rb'<\?xml\s+version="1\.[0-9]+"(\s+encoding="([A-Za-z][A-Za-z0-9._-]*)")?\s*\?>')


class Any:
    """what stands for a character XML cannot hold: one other character, or nothing"""
    def __init__(self, text):
        self.rx = re.compile('.?'.join(map(re.escape, BAD.split(text))), re.S)

    def __eq__(self, other):
        return self.rx.fullmatch(other) is not None

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'like %r' % self.rx.pattern


class Color:
    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        if o is None or self.c is None:
            return o is None and self.c is None
        name, vals = self.c
        if o[0] != name:
            return False
        if all(isinstance(v, float) for v in vals):
            try:
                return [float(x) for x in o[1].split(',')] == list(vals) if vals else o[1] == ''
            except ValueError:
                return False
        return o[1] == Any(','.join(str(v) for v in vals))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.c)


def attr(d, k, v):
    if not re.fullmatch('[A-Z][A-Za-z]+', str(k)):
        return True                      # how such a key becomes an attribute name is left open
    d = {a.replace('-', '').lower(): x for a, x in d.items()}
    return k.lower() in d and means(d[k.lower()], v)


def verify(raw, want, codec):
    m = DECL.match(raw)
    if not m:
        raise Violation('XML declaration is malformed: %r' % raw[:80])
    eq((m.group(2) or b'').decode(), codec, 'encoding of the XML declaration')
    try:
        root = ElementTree.fromstring(raw)
    except ElementTree.ParseError as e:
        raise Violation('not well-formed (%s): %s\n   %r' % (codec, e, raw[:3000]))
    r = RB.differs(RB.xml_pages(root), want, lambda cs: [(Any(c), b) for c, b in cs], attr, Color)
    if r:
        raise Violation('the XML document differs from the items: ' + r)


def as_xml(case, cx):
    """convert_file(out_type='xml') against the interpreter"""
    doc, codec = case
    path = cx.write('a.pdf', docs.build(doc))
    want = docs.tree(path)
    tell(cx, want)
    out = cx.path('a.xml')
    convert_file(path, out, out_type='xml', codec=codec)
    verify(open(out, 'rb').read(), want, codec)


TESTS = [Test('xml', case, as_xml, quick=5000, thorough=60000)]
