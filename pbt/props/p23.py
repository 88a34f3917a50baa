"""P23: HTML output."""
import re
from html.parser import HTMLParser
from .. import docs
from ..core import Test, Violation, eq
from pdfmajor.converters import convert_file
from .p20 import case, tell

PID = 'P23'
RULE = 'a case is non-trivial when the document shows text with characters outside letters, digits and blanks, and has at least three items'

# what a character reference cannot name in HTML: C0 and C1 controls, surrogates, noncharacters
BAD = re.compile('[\0-\x08\x0b\x0c\x0e-\x1f\x7f-\x9f\ufdd0-\ufdef\ufffe\uffff\r]|[%s]' % ''.join(chr(0x10000 * p + x) for p in range(1, 17) for x in (0xfffe, 0xffff)))
VOID = {'meta', 'img', 'br', 'hr', 'link', 'input'}


class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids, self.text = tag, attrs, [], ''

    def css(self):
        out = {}
        for d in (self.attrs.get('style') or '').split(';'):
            if ':' in d:
                k, v = d.split(':', 1)
                out[k.strip()] = v.strip()
        return out

    def classes(self):
        return (self.attrs.get('class') or '').split()

    def __repr__(self):
        return '<%s %r>' % (self.tag, self.attrs)


class Reader(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = Node('', {})
        self.stack = [self.root]

    def start(self, tag, attrs):
        names = [k for k, _ in attrs]
        if len(set(names)) != len(names):
            raise Violation('attribute twice on <%s>: %r' % (tag, attrs))
        n = Node(tag, dict(attrs))
        self.stack[-1].kids.append(n)
        return n

    def handle_starttag(self, tag, attrs):
        n = self.start(tag, attrs)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        self.start(tag, attrs)

    def handle_endtag(self, tag):
        if self.stack[-1].tag != tag:
            raise Violation('</%s> inside <%s>' % (tag, self.stack[-1].tag))
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1].text += data

    def handle_comment(self, data):
        raise Violation('text became a comment: %r' % data)

    def handle_decl(self, d):
        if d.lower() != 'doctype html':
            raise Violation('text became a declaration: %r' % d)

    unknown_decl = handle_pi = handle_comment


def like(text, got):
    """white space aside; a character HTML cannot hold may come as another or be missing"""
    rx = ''.join('.?' if BAD.match(c) else re.escape(c) for c in text if not c.isspace() or BAD.match(c))
    return re.fullmatch(rx, ''.join(c for c in got if not c.isspace())) is not None or text == got


def px(s, what):
    m = re.fullmatch(r'(-?[0-9.]+(?:e[-+]?[0-9]+)?)(px)?', s or '')
    if not m:
        raise Violation('%s is %r' % (what, s))
    return float(m.group(1))


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b) + scale)


def place(n, page_h, where, **want):
    css = n.css()
    for k, v in want.items():
        k = k.replace('_', '-')
        if k not in css or not near(px(css[k], k), v):
            raise Violation('%s: %s is %r instead of %r' % (where, k, css.get(k), v))


def check_color(got, want, where):
    if want is None:
        if got is not None:
            raise Violation('%s: colour %r where none is set' % (where, got))
        return
    name, vals = want
    if name == 'DeviceGray' and len(vals) == 1:
        m = re.fullmatch(r'rgba\(0,0,0,([-+0-9.e]+)\)', got or '')
        if not m or not near(float(m.group(1)), 1 - vals[0]):
            raise Violation('%s: colour %r instead of gray %r' % (where, got, vals))
    elif name == 'DeviceRGB' and len(vals) == 3:
        m = re.fullmatch(r'rgb\(([-+0-9.e]+), ?([-+0-9.e]+), ?([-+0-9.e]+)\)', got or '')
        if not m or not all(near(float(m.group(i + 1)), vals[i]) for i in range(3)):
            raise Violation('%s: colour %r instead of RGB %r' % (where, got, vals))
    elif not got:
        raise Violation('%s: no colour for %r' % (where, want))


def check_path(n, it, where):
    _, (x0, y0, x1, y1), _, stroke, fill, path = it
    if len(n.kids) != 1 or n.kids[0].tag != 'path':
        raise Violation('%s: <svg> holds %r' % (where, n.kids))
    p = n.kids[0]
    check_color(p.attrs.get('stroke'), stroke, where + ' stroke')
    check_color(p.attrs.get('fill'), fill, where + ' fill')
    want = []
    cur = start = None
    for method, pts in path:
        if method == 'MOVE_TO':
            want.append(('M', pts))
            start = pts[-1]
        elif method == 'LINE_TO':
            want.append(('L', pts))
        elif method == 'CLOSE_PATH':
            want.append(('Z', []))
        elif method == 'CURVE_BOTH_TO':
            want.append(('C', pts))
        elif method == 'CURVE_NEXT_TO':
            want.append(('C', [cur or pts[0]] + pts))
        elif method == 'CURVE_FIRST_TO':
            want.append(('C', pts + [pts[-1]]))
        cur = pts[-1] if pts else start
    got = []
    d = p.attrs.get('d') or ''
    for c, nums in re.findall(r'([MLCZ])([^MLCZ]*)', d):
        v = [float(x) for x in nums.split()]
        got.append((c, list(zip(v[::2], v[1::2]))))
    if [(c, len(v)) for c, v in got] != [(c, len(v)) for c, v in want]:
        raise Violation('%s: path %r instead of %r' % (where, d, want))
    w, h = x1 - x0, y1 - y0
    vb = [float(x) for x in (n.attrs.get('viewbox') or '').split()]
    if len(vb) != 4 or vb[:2] != [0, 0]:
        raise Violation('%s: viewBox %r' % (where, n.attrs.get('viewbox')))
    if w < 0.01:
        return                                # no width to draw in
    for (_, gs), (_, ws) in zip(got, want):
        for (gx, gy), (wx, wy) in zip(gs, ws):
            x = x0 + gx / vb[2] * w
            y = y1 - gy / vb[3] * (h or 1)
            if not (near(x, wx, w) and near(y, wy, h)):
                raise Violation('%s: point %r of the path lies at %r instead of %r' % (where, (gx, gy), (x, y), (wx, wy)))


def check_items(nodes, items, page_h, where):
    kinds = []
    for n in nodes:
        c = n.classes()
        kinds.append('curve' if n.tag == 'svg' else 'img' if n.tag == 'img' else 'xobject' if n.tag == 'div' and 'xobject' in c
                     else 'text' if n.tag == 'span' and 'text-block' in c else repr(n))
    if kinds != [i[0] for i in items]:
        raise Violation('%s: elements %r instead of %r' % (where, kinds, [i[0] for i in items]))
    for k, (n, it) in enumerate(zip(nodes, items)):
        at = '%s item %d (%s)' % (where, k, it[0])
        x0, y0, x1, y1 = it[1]
        w, h = x1 - x0, y1 - y0
        if it[0] == 'curve':
            place(n, page_h, at, left=x0, top=page_h - y1, width=w, height=h)
            check_path(n, it, at)
        elif it[0] == 'img':
            if not near(px(n.attrs.get('width'), 'width'), w) or not near(px(n.attrs.get('height'), 'height'), h):
                raise Violation('%s: size %r' % (at, n.attrs))
        elif it[0] == 'xobject':
            place(n, page_h, at, left=x0, bottom=y0, width=w, height=h)
            check_items(n.kids, it[2], page_h, at)
        else:
            if len(n.kids) != len(it[2]) or any('char-block' not in b.classes() for b in n.kids):
                raise Violation('%s: %r instead of %d blocks' % (at, n.kids, len(it[2])))
            for b, (bb, size, col, _, font, chars) in zip(n.kids, it[2]):
                place(b, page_h, at, left=bb[0], bottom=bb[1], width=bb[2] - bb[0], height=bb[3] - bb[1], font_size=size)
                if re.fullmatch('[A-Za-z0-9+ -]+', font) and b.css().get('font-family') != font.strip():
                    raise Violation('%s: font %r instead of %r' % (at, b.css().get('font-family'), font))
                if col is None or col[0] in ('DeviceGray', 'DeviceRGB'):
                    if col is None:
                        if b.css().get('color') != 'black':
                            raise Violation('%s: colour %r instead of black' % (at, b.css().get('color')))
                    else:
                        check_color(b.css().get('color'), col, at)
                if len(b.kids) != len(chars) or any(c.tag != 'span' or c.kids or 'char' not in c.classes() for c in b.kids):
                    raise Violation('%s: %r instead of %d characters' % (at, b.kids, len(chars)))
                for c, (t, cb) in zip(b.kids, chars):
                    if not like(t, c.text):
                        raise Violation('%s: character %r instead of %r' % (at, c.text, t))
                    place(c, page_h, at, width=cb[2] - cb[0], height=cb[3] - cb[1])


def verify(raw, want, codec):
    rd = Reader()
    rd.feed(raw.decode(codec))
    rd.close()
    if len(rd.stack) != 1:
        raise Violation('elements left open: %r' % rd.stack)
    root = rd.root.kids
    if len(root) != 1 or root[0].tag != 'html' or [k.tag for k in root[0].kids] != ['head', 'body']:
        raise Violation('top level of the document is %r' % [(k, k.kids) for k in root])
    head, body = root[0].kids
    eq([m.attrs.get('charset') for m in head.kids if m.tag == 'meta'], [codec], 'charset of the document')
    if len(body.kids) != len(want):
        raise Violation('%d pages instead of %d' % (len(body.kids), len(want)))
    for n, (num, w, h, items) in zip(body.kids, want):
        eq((n.tag, n.classes(), n.attrs.get('id')), ('div', ['page'], 'page-%d' % num), 'element of a page')
        place(n, h, 'page %d' % num, width=w, height=h)
        check_items(n.kids, items, h, 'page %d' % num)


def as_html(case, cx):
    """convert_file(out_type='html') against the interpreter"""
    doc, codec = case
    path = cx.write('a.pdf', docs.build(doc))
    want = docs.tree(path)
    tell(cx, want)
    out = cx.path('a.html')
    convert_file(path, out, out_type='html', codec=codec)
    verify(open(out, 'rb').read(), want, codec)


TESTS = [Test('html', case, as_html, quick=5000, thorough=60000)]
