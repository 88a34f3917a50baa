"""P22: YAML output."""
import yaml
from .. import docs, readback as RB
from ..core import Test, Violation
from pdfmajor.converters import convert_file
from .p20 import case, tell, same_entry

PID = 'P22'
RULE = 'a case is non-trivial when the document shows text with characters outside letters, digits and blanks, and has at least three items'

Loader = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)


class Unique(Loader):
    pass


def mapping(loader, node, deep=False):
    keys = [loader.construct_object(k, deep=True) for k, _ in node.value]
    if len({repr(k) for k in keys}) != len(keys):
        raise Violation('a YAML mapping has a key twice: %r' % keys)
    return {k: loader.construct_object(v, deep=True) for k, (_, v) in zip(keys, node.value)}


Unique.add_constructor('tag:yaml.org,2002:map', mapping)


def verify(raw, want, codec):
    try:
        o = yaml.load(raw.decode(codec), Loader=Unique)
    except (yaml.YAMLError, ValueError) as e:
        raise Violation('not YAML in %s: %s\n   %r' % (codec, e, raw[:3000]))
    r = RB.differs(RB.obj_pages(o), want, lambda cs: ''.join(c for c, _ in cs), same_entry, RB.plain_color)
    if r:
        raise Violation('the YAML document differs from the items: ' + r)


def as_yaml(case, cx):
    """convert_file(out_type='yaml') against the interpreter"""
    doc, codec = case
    path = cx.write('a.pdf', docs.build(doc))
    want = docs.tree(path)
    tell(cx, want)
    out = cx.path('a.yaml')
    convert_file(path, out, out_type='yaml', codec=codec)
    verify(open(out, 'rb').read(), want, codec)


TESTS = [Test('yaml', case, as_yaml, quick=5000, thorough=60000)]
