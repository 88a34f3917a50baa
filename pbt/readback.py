"""Readers of the converters' output formats, giving the tree of docs.tree() as far as the format records it."""
import re
from .core import Violation


def num(x, what):
    if isinstance(x, bool) or not isinstance(x, (int, float, str)):
        raise Violation('%s is %r, not a number' % (what, x))
    try:
        return float(x)
    except ValueError:
        raise Violation('%s is %r, not a number' % (what, x))


def get(o, key):
    if not isinstance(o, dict) or key not in o:
        raise Violation('%r missing in %.200r' % (key, o))
    return o[key]


def box(o):
    return tuple(num(get(o, k), k) for k in ('x0', 'y0', 'x1', 'y1'))


def colval(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return v


def plain_color(c):
    """a colour of docs.tree() as JSON and YAML show it: names of patterns that look like numbers count as such"""
    return None if c is None else (c[0], tuple(colval(v) for v in c[1]))


def color(o, key):
    if key not in o:
        return None
    c = o[key]
    return (get(c, 'type'), tuple(colval(v) for v in get(c, 'value')))


def children(o, key='children'):
    v = get(o, key)
    if v is None:                       # an empty YAML sequence in block style
        return []
    if not isinstance(v, list):
        raise Violation('%r is not a list: %.200r' % (key, v))
    return v


def obj_item(o):
    """item of a JSON or YAML document"""
    t = get(o, 'type')
    if t == 'text-block':
        blocks = []
        for b in children(o, 'char_blocks'):
            text = get(b, 'text')
            if not isinstance(text, str):
                raise Violation('text is %r, not a string' % (text,))
            blocks.append((box(b), num(get(b, 'size'), 'size'), color(b, 'color'), b, str(b.get('FontName')), text))
        return ('text', box(o), blocks)
    if t == 'img':
        get(o, 'src')
        return ('img', box(o))
    if t == 'xobject':
        return ('xobject', box(o), [obj_item(c) for c in children(o)])
    if t in ('rect', 'line', 'curve'):
        paths = None
        if t == 'curve':
            paths = [(get(p, 'type'), [(num(get(q, 'x'), 'x'), num(get(q, 'y'), 'y')) for q in children(p, 'points')]) for p in children(o, 'paths')]
        return ('curve', box(o), t, color(o, 'stroke'), color(o, 'fill'), paths)
    raise Violation('item of unknown type %r' % (t,))


def obj_pages(o):
    return [(get(p, 'id'), num(get(p, 'width'), 'width'), num(get(p, 'height'), 'height'), [obj_item(c) for c in children(p)]) for p in children(o, 'pages')]


# ---------------------------------------------------------------- XML

def xattr(e, k):
    v = e.get(k)
    if v is None:
        raise Violation('attribute %s missing on <%s %r>' % (k, e.tag, dict(e.attrib)))
    return v


def xbox(e):
    return tuple(num(xattr(e, k), k) for k in ('x0', 'y0', 'x1', 'y1'))


def xcolor(e, prefix):
    t, v = e.get(prefix + '-type'), e.get(prefix + '-values')
    if t is None:
        return None
    return (t, v)


def xml_item(e):
    if e.tag == 'text-block':
        return ('text', xbox(e), [(xbox(b), num(xattr(b, 'size'), 'size'), xcolor(b, 'color'), dict(b.attrib), str(b.get('font-name')),
                                  [(c.text or '', xbox(c)) for c in only(b, 'char')]) for b in only(e, 'char-block')])
    if e.tag == 'img':
        xattr(e, 'src')
        return ('img', xbox(e))
    if e.tag == 'xobject':
        return ('xobject', xbox(e), [xml_item(c) for c in e])
    if e.tag in ('rect', 'line', 'curve'):
        paths = None
        if e.tag == 'curve':
            paths = [(xattr(p, 'type'), [(num(xattr(q, 'x'), 'x'), num(xattr(q, 'y'), 'y')) for q in only(p, 'point')]) for p in only(e, 'path')]
        return ('curve', xbox(e), e.tag, xcolor(e, 'stroke'), xcolor(e, 'fill'), paths)
    raise Violation('element <%s> where an item should be' % e.tag)


def only(e, tag):
    for c in e:
        if c.tag != tag:
            raise Violation('<%s> inside <%s>' % (c.tag, e.tag))
    return list(e)


def xml_pages(root):
    if root.tag != 'pages':
        raise Violation('root element <%s>' % root.tag)
    return [(int(xattr(p, 'id')), num(xattr(p, 'width'), 'width'), num(xattr(p, 'height'), 'height'), [xml_item(c) for c in p]) for p in only(root, 'page')]


# ---------------------------------------------------------------- comparison

def differs(got, want, text, meta, col):
    """None or the place where a tree read back differs from the interpreter's. text(chars) is the expected form of a block's
    text, meta(dict, name, value) says whether a number of the font descriptor is there, col(color) the expected form of a colour"""
    if len(got) != len(want):
        return '%d pages instead of %d' % (len(got), len(want))
    for g, w in zip(got, want):
        where = 'page %r' % (w[0],)
        if g[:3] != w[:3]:
            return '%s: number and size %r instead of %r' % (where, g[:3], w[:3])
        r = items_differ(g[3], w[3], text, meta, col, where)
        if r:
            return r
    return None


def items_differ(got, want, text, meta, col, where):
    if [x[0] for x in got] != [x[0] for x in want]:
        return '%s: items %r instead of %r' % (where, [x[0] for x in got], [x[0] for x in want])
    for i, (g, w) in enumerate(zip(got, want)):
        at = '%s item %d (%s)' % (where, i, w[0])
        if g[1] != w[1]:
            return '%s: box %r instead of %r' % (at, g[1], w[1])
        if w[0] == 'curve':
            if g[2] != w[2]:
                return '%s: %r instead of %r' % (at, g[2], w[2])
            if (g[3], g[4]) != (col(w[3]), col(w[4])):
                return '%s: stroke and fill %r instead of %r' % (at, (g[3], g[4]), (col(w[3]), col(w[4])))
            if w[2] == 'curve' and g[5] != w[5]:
                return '%s: path %r instead of %r' % (at, g[5], w[5])
        elif w[0] == 'xobject':
            r = items_differ(g[2], w[2], text, meta, col, at)
            if r:
                return r
        elif w[0] == 'text':
            if len(g[2]) != len(w[2]):
                return '%s: %d blocks instead of %d' % (at, len(g[2]), len(w[2]))
            for gb, wb in zip(g[2], w[2]):
                if gb[:2] != wb[:2]:
                    return '%s: box and size %r instead of %r' % (at, gb[:2], wb[:2])
                if gb[2] != col(wb[2]):
                    return '%s: colour %r instead of %r' % (at, gb[2], col(wb[2]))
                for k, v in wb[3].items():
                    if not meta(gb[3], k, v):
                        return '%s: font attribute %s=%r missing or wrong in %r' % (at, k, v, gb[3])
                if gb[5] != text(wb[5]):
                    return '%s: text %r instead of %r' % (at, gb[5], text(wb[5]))
    return None
