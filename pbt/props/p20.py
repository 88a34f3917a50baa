"""P20: JSON output."""
import json
from hypothesis import strategies as st
from .. import docs, readback as RB
from ..core import Test, Violation
from pdfmajor.converters import convert_file

PID = 'P20'
RULE = 'a case is non-trivial when the document shows text with characters outside letters, digits and blanks, and has at least three items'

codecs = st.sampled_from(['utf-8', 'utf-8', 'ascii', 'iso-8859-1', 'cp1252'])
case = st.tuples(docs.document, codecs)


def same_entry(d, k, v):
    """the entry is there; a number has its value, a name or string of letters shows these letters"""
    d = {str(a): x for a, x in d.items()}           # YAML may take a key for a number
    if not isinstance(k, str):          # a name that is not UTF-8 has no one form
        return True
    return k in d and means(d[k], v)


def means(x, v):
    if isinstance(v, float):
        try:
            return float(x) == v
        except (TypeError, ValueError):
            return False
    return v is None or v in str(x)


def tell(cx, want):
    n = sum(1 for p in want for _ in docs.flat(p[3]))
    cx.nontrivial(docs.spicy(want) and n >= 3)
    cx.tag('%d pages' % len(want))
    if any(i[0] == 'xobject' and i[2] for p in want for i in p[3]):
        cx.tag('nested')
    if not all(p[3] for p in want):
        cx.tag('empty page')


def pairs(ps):
    keys = [k for k, _ in ps]
    if len(set(keys)) != len(keys):
        raise Violation('a JSON object has a key twice: %r' % keys)
    return dict(ps)


def constant(x):
    raise Violation('%s is not JSON' % x)


def verify(raw, want, codec):
    try:
        o = json.loads(raw.decode(codec), object_pairs_hook=pairs, parse_constant=constant)
    except ValueError as e:
        raise Violation('not JSON in %s: %s\n   %r' % (codec, e, raw[:3000]))
    r = RB.differs(RB.obj_pages(o), want, lambda cs: ''.join(c for c, _ in cs), same_entry, RB.plain_color)
    if r:
        raise Violation('the JSON document differs from the items: ' + r)


def as_json(case, cx):
    """convert_file(out_type='json') against the interpreter"""
    doc, codec = case
    path = cx.write('a.pdf', docs.build(doc))
    want = docs.tree(path)
    tell(cx, want)
    out = cx.path('a.json')
    convert_file(path, out, out_type='json', codec=codec)
    verify(open(out, 'rb').read(), want, codec)


TESTS = [Test('json', case, as_json, quick=5000, thorough=60000)]
