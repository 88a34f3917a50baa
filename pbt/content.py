"""Content streams: programs as plain literals, their bytes, and a reference interpreter written from the PDF specification.

A program is a list of operations (name, operand, ...). Operands: int, float text as str ('1.5'),
('name', b'..'), ('str', b'..'), ('arr', [...]), ('inline', {...}, data) for inline images.
The reference interpreter gives the expected items in the normal form of items_of().
"""
from hypothesis import strategies as st
from .pdf import Choices, tokens, join, N, I, R, A, D
from .core import Violation, clip

ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def mul(m, n):
    """the matrix that applies m first, then n (row vectors)"""
    a, b, c, d, e, f = m
    A_, B_, C_, D_, E_, F_ = n
    return (a * A_ + b * C_, a * B_ + b * D_, c * A_ + d * C_, c * B_ + d * D_, e * A_ + f * C_ + E_, e * B_ + f * D_ + F_)


def at(m, x, y):
    a, b, c, d, e, f = m
    return (a * x + c * y + e, b * x + d * y + f)


def hull(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return (min(xs), min(ys), max(xs), max(ys))


# ---------------------------------------------------------------- writing

def operand(v):
    """program operand -> writer value"""
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, int):
        return ('int', v)
    if isinstance(v, str):
        return ('real', v)
    if v[0] == 'arr':
        return ('arr', [operand(x) for x in v[1]])
    return tuple(v)


def op_tokens(op, ch):
    name = op[0]
    if name == 'INLINE':
        raise ValueError('inline images are written by emit()')
    out = []
    for v in op[1:]:
        tokens(operand(v), ch, out)
    out.append(name.encode())
    return out


def emit(prog, ch=None):
    """bytes of a program; inline images get the fixed frame BI .. ID <data> EI"""
    ch = ch or Choices()
    parts = []
    toks = []
    for op in prog:
        if op[0] == 'INLINE':
            if toks:
                parts.append(join(toks, ch))
                toks = []
            head = [b'BI']
            for k, v in op[1]:
                tokens(('name', k), ch, head)
                tokens(operand(v), ch, head)
            parts.append(join(head, ch) + b' ID ' + op[2] + b'\nEI')
        else:
            toks += op_tokens(op, ch)
    if toks:
        parts.append(join(toks, ch))
    return b'\n'.join(parts) + b'\n'


def fl(v):
    return float(v)


# ---------------------------------------------------------------- reference interpreter

class G:
    """graphics state"""
    def __init__(self):
        self.ctm = ID
        self.lw = 0.0
        self.color = [(None, ()), (None, ())]           # stroke, fill
        self.space = [('DeviceGray', 1), ('DeviceGray', 1)]
        self.Tc = self.Tw = self.TL = self.Ts = 0.0
        self.Tz = 1.0
        self.font = None
        self.size = 0.0

    def copy(self):
        g = G()
        g.__dict__.update(self.__dict__)
        g.color = list(self.color)
        g.space = list(self.space)
        return g


class Font:
    """What the interpreter needs of a font: decode bytes to (code, text, width, (vx, vy)) in thousandths."""
    vertical = False
    name = 'F'

    def __init__(self, name, decode, bbox=(0, -200, 1000, 800), ascent=0, descent=-200, vertical=False, simple=True):
        self.name, self.decode, self.bbox, self.ascent, self.descent = name, decode, bbox, ascent, descent
        self.vertical, self.simple = vertical, simple

    @property
    def height(self):
        h = self.bbox[3] - self.bbox[1]
        return (h or self.ascent - self.descent) / 1000.0


PREDEF = {'DeviceGray': 1, 'CalRGB': 3, 'CalGray': 1, 'Lab': 3, 'DeviceRGB': 3, 'DeviceCMYK': 4, 'Separation': 1, 'Indexed': 1, 'Pattern': 1}


class Model:
    """Expected items of a program. restore_graphics=False is the known finding about Q (see known_findings.txt)."""
    def __init__(self, fonts=None, spaces=None, xobjects=None, ctm=ID, restore_graphics=True, g=None):
        self.fonts = fonts or {}
        self.spaces = dict(PREDEF_SPACES)
        self.spaces.update(spaces or {})
        self.xobjects = xobjects or {}
        self.restore_graphics = restore_graphics
        self.g = g or G()
        self.g.ctm = ctm
        self.stack = []
        self.path = []
        self.cur = None
        self.items = []
        self.block = None
        self.Tm = self.Tlm = ID

    def run(self, prog):
        for op in prog:
            getattr(self, 'op_' + NAMES.get(op[0], op[0]), self.ignore)(*op[1:])
        return self.items

    def ignore(self, *a):
        pass

    # state
    def op_q(self):
        self.stack.append(self.g.copy())

    def op_Q(self):
        if self.stack:
            old = self.stack.pop()
            if not self.restore_graphics:
                old.lw, old.color, old.space = self.g.lw, self.g.color, self.g.space
            self.g = old

    def op_cm(self, *m):
        self.g.ctm = mul(tuple(map(fl, m)), self.g.ctm)

    def op_w(self, x):
        self.g.lw = fl(x)

    # colour
    def setcol(self, i, space, vals):
        self.g.space[i] = space
        self.g.color[i] = (space[0], tuple(vals))

    def op_G(self, x):
        self.setcol(0, ('DeviceGray', 1), [fl(x)])

    def op_g(self, x):
        self.setcol(1, ('DeviceGray', 1), [fl(x)])

    def op_RG(self, *v):
        self.setcol(0, ('DeviceRGB', 3), [round(255 * fl(x)) for x in v])

    def op_rg(self, *v):
        self.setcol(1, ('DeviceRGB', 3), [round(255 * fl(x)) for x in v])

    def op_K(self, *v):
        self.setcol(0, ('DeviceCMYK', 4), [fl(x) for x in v])

    def op_k(self, *v):
        self.setcol(1, ('DeviceCMYK', 4), [fl(x) for x in v])

    def op_CS(self, name):
        self.g.space[0] = self.spaces[name[1].decode()]

    def op_cs(self, name):
        self.g.space[1] = self.spaces[name[1].decode()]

    def vals(self, i, v):
        n = self.g.space[i][1]
        out = [x[1].decode() if isinstance(x, tuple) else fl(x) for x in v]
        return out[len(out) - n:]

    def op_SC(self, *v):
        self.setcol(0, self.g.space[0], self.vals(0, v))

    def op_sc(self, *v):
        self.setcol(1, self.g.space[1], self.vals(1, v))

    # paths, in page space
    def pts(self, *v):
        v = list(map(fl, v))
        return [at(self.g.ctm, v[i], v[i + 1]) for i in range(0, len(v), 2)]

    def op_m(self, *v):
        self.path.append(('MOVE_TO', self.pts(*v)))

    def op_l(self, *v):
        self.path.append(('LINE_TO', self.pts(*v)))

    def op_c(self, *v):
        self.path.append(('CURVE_BOTH_TO', self.pts(*v)))

    def op_v(self, *v):
        self.path.append(('CURVE_NEXT_TO', self.pts(*v)))

    def op_y(self, *v):
        self.path.append(('CURVE_FIRST_TO', self.pts(*v)))

    def op_h(self):
        self.path.append(('CLOSE_PATH', []))

    def op_re(self, x, y, w, h):
        x, y, w, h = map(fl, (x, y, w, h))
        self.path += [('MOVE_TO', self.pts(x, y)), ('LINE_TO', self.pts(x + w, y)), ('LINE_TO', self.pts(x + w, y + h)),
                      ('LINE_TO', self.pts(x, y + h)), ('CLOSE_PATH', [])]

    def paint(self, evenodd):
        path, self.path = self.path, []
        ends = [p[-1] for _, p in path if p]
        if not ends:
            return
        shape = ''.join({'MOVE_TO': 'm', 'LINE_TO': 'l', 'CLOSE_PATH': 'h'}.get(m, 'c') for m, _ in path)
        kind = 'LTCurve'
        if shape == 'ml':
            (x0, y0), (x1, y1) = ends
            kind = 'LTVerticalLine' if x0 == x1 else 'LTHorizontalLine' if y0 == y1 else 'LTLine'
        elif shape == 'mlllh':
            (x0, y0), (x1, y1), (x2, y2), (x3, y3) = ends
            if (x0 == x1 and y1 == y2 and x2 == x3 and y3 == y0) or (y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0):
                kind = 'LTRect'
        self.items.append(('curve', kind, hull(ends), self.g.lw, evenodd, self.g.color[0], self.g.color[1], path))

    def op_S(self):
        self.paint(False)

    op_f = op_F = op_B = op_S

    def op_fa(self):
        self.paint(True)

    op_Ba = op_fa

    def op_s(self):
        self.op_h()
        self.paint(False)

    op_b = op_s

    def op_ba(self):
        self.op_h()
        self.paint(True)

    def op_n(self):
        self.path = []

    # text
    def op_BT(self):
        self.Tm = self.Tlm = ID
        self.block = []

    def op_ET(self):
        blk, self.block = self.block, None
        if blk:
            self.items.append(('text', hull([p for b in blk for p in (b[0][:2], b[0][2:])]), blk))

    def op_Tc(self, x):
        self.g.Tc = fl(x)

    def op_Tw(self, x):
        self.g.Tw = fl(x)

    def op_Tz(self, x):
        self.g.Tz = fl(x) / 100

    def op_TL(self, x):
        self.g.TL = fl(x)

    def op_Ts(self, x):
        self.g.Ts = fl(x)

    def op_Tf(self, name, size):
        self.g.font = self.fonts[name[1].decode()]
        self.g.size = fl(size)

    def op_Td(self, x, y):
        self.Tlm = mul((1, 0, 0, 1, fl(x), fl(y)), self.Tlm)
        self.Tm = self.Tlm

    def op_TD(self, x, y):
        self.g.TL = -fl(y)
        self.op_Td(x, y)

    def op_Tm(self, *m):
        self.Tm = self.Tlm = tuple(map(fl, m))

    def op_Ta(self):
        self.op_Td(0, -self.g.TL)

    def op_Tj(self, s):
        self.show([s])

    def op_quote(self, s):
        self.op_Ta()
        self.show([s])

    def op_dquote(self, aw, ac, s):
        self.g.Tw, self.g.Tc = fl(aw), fl(ac)
        self.op_quote(s)

    def op_TJ(self, arr):
        self.show(arr[1])

    def show(self, seq):
        g, f = self.g, self.g.font
        chars = []
        for x in seq:
            if not isinstance(x, (tuple, list)):
                d = -fl(x) / 1000 * g.size
                self.advance(0, d) if f.vertical else self.advance(d * g.Tz, 0)
                continue
            for code, text, w, v in f.decode(x[1]):
                m = mul((1, 0, 0, 1, 0, g.Ts), mul(self.Tm, g.ctm))
                adv = w / 1000.0 * g.size
                if f.vertical:
                    fw = (f.bbox[2] - f.bbox[0]) / 1000.0 * g.size
                    vx = fw * 0.5 if v[0] is None else v[0] / 1000.0 * g.size
                    top = (1000 - v[1]) / 1000.0 * g.size
                    box = hull([at(m, x * g.Tz, y) for x in (-vx, fw - vx) for y in (top + adv, top)])
                else:
                    lo = f.descent / 1000.0 * g.size
                    box = hull([at(m, x, y) for x in (0, adv * g.Tz) for y in (lo, lo + f.height * g.size)])
                chars.append((text, box))
                extra = g.Tc + (g.Tw if f.simple and code == 32 else 0)
                self.advance(0, adv + extra) if f.vertical else self.advance((adv + extra) * g.Tz, 0)
        if chars:
            self.block.append((hull([p for _, b in chars for p in (b[:2], b[2:])]), f.name, g.color[1], chars))

    def advance(self, x, y):
        self.Tm = mul((1, 0, 0, 1, x, y), self.Tm)

    # images and forms
    def op_Do(self, name):
        x = self.xobjects[name[1].decode()]
        if x['kind'] == 'image':
            self.items.append(('image', hull([at(self.g.ctm, *p) for p in ((0, 0), (1, 0), (0, 1), (1, 1))]), x['size'], x['data']))
        elif x['kind'] == 'form':
            m = mul(tuple(map(fl, x['matrix'])), self.g.ctm)
            x0, y0, x1, y1 = map(fl, x['bbox'])
            g = self.g.copy()
            res = x['resources'] or {'fonts': self.fonts, 'spaces': self.spaces, 'xobjects': self.xobjects}
            sub = Model(res.get('fonts'), res.get('spaces'), res.get('xobjects'), m, self.restore_graphics, g)
            items = sub.run(x['prog'])
            self.items.append(('form', hull([at(m, *p) for p in ((x0, y0), (x0, y1), (x1, y0), (x1, y1))]), items))

    def op_INLINE(self, attrs, data):
        d = dict(attrs)
        w = d.get(b'W', d.get(b'Width'))
        h = d.get(b'H', d.get(b'Height'))
        if w is not None and h is not None:
            self.items.append(('image', hull([at(self.g.ctm, *p) for p in ((0, 0), (1, 0), (0, 1), (1, 1))]), (w, h), data))


PREDEF_SPACES = {k: (k, n) for k, n in PREDEF.items()}
NAMES = {'f*': 'fa', 'B*': 'Ba', 'b*': 'ba', 'T*': 'Ta', "'": 'quote', '"': 'dquote', 'SCN': 'SC', 'scn': 'sc'}


# ---------------------------------------------------------------- items of the code under test

def _bbox(b):
    return (b.x0, b.y0, b.x1, b.y1)


def _color(c):
    return (None if c.color_space is None else c.color_space.name,
            tuple(v.name if hasattr(v, 'name') else v for v in c.values))


def consistent(run):
    """what a run says of its text, font, colour and size is what its characters say"""
    chars = list(run)
    extent = lambda b: b.bbox.x1 - b.bbox.x0 if run.font.is_vertical() else b.bbox.y1 - b.bbox.y0
    if run.get_text() != ''.join(c.get_text() for c in chars):
        raise Violation('the text of a run is %r, that of its characters %r' % (run.get_text(), [c.get_text() for c in chars]))
    for c in chars:
        if c.fontname != run.fontname or c.font is not run.font or _color(c.color) != _color(run.color):
            raise Violation('the font or colour of character %r is %r %r, that of its run %r %r' % (c.get_text(), c.fontname, _color(c.color), run.fontname, _color(run.color)))
    for x in [run] + chars:
        if abs(x.size - extent(x)) > 1e-6 * (1 + abs(x.size)):
            raise Violation('the size of %r is %r, its box %r' % (x.get_text(), x.size, _bbox(x.bbox)))


def item_of(it):
    from pdfmajor.interpreter import LTTextBlock, LTCurve, LTImage, LTXObject
    if isinstance(it, LTTextBlock):
        for b in it:
            consistent(b)
        return ('text', _bbox(it.bbox), [(_bbox(b.bbox), b.fontname, _color(b.color), [(c.get_text(), _bbox(c.bbox)) for c in b])
                                         for b in it])
    if isinstance(it, LTCurve):
        return ('curve', type(it).__name__, _bbox(it.bbox), it.linewidth, it.evenodd, _color(it.stroke), _color(it.fill),
                [(p.method.name, [(q.x, q.y) for q in p.points]) for p in it.paths])
    if isinstance(it, LTImage):
        return ('image', _bbox(it.bbox), tuple(it.srcsize), it.stream.get_data())
    if isinstance(it, LTXObject):
        return ('form', _bbox(it.bbox), [item_of(x) for x in it])
    return ('other', repr(it))


def items_of(page):
    return [item_of(x) for x in page]


def same(a, b, tol):
    """None, or the path of the first difference between two normal forms"""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else ''
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if a == b or abs(a - b) <= tol * (1 + max(abs(a), abs(b))) else ''
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return ' (length %d instead of %d)' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            p = same(x, y, tol)
            if p is not None:
                return '[%d]%s' % (i, p)
        return None
    return None if a == b else ''


def check_items(cx, got, want, what, tol=1e-6):
    if len(got) != len(want):
        raise Violation('%s: %d items instead of %d\n   got      %s\n   expected %s' % (
            what, len(got), len(want), clip([x[:3] for x in got]), clip([x[:3] for x in want])))
    for i, (g, w) in enumerate(zip(got, want)):
        p = same(g, w, tol)
        if p is not None:
            raise Violation('%s: item %d differs at %s\n   got      %s\n   expected %s' % (what, i, p, clip(g), clip(w)))


# ---------------------------------------------------------------- a ready-made font

def ascii_widths(seed):
    return {c: 200 + (c * 37 + seed * 101) % 700 for c in range(32, 127)}


def simple_font(name, seed, bbox=(0, -200, 1000, 800), ascent=750, descent=-200, missing=333, diffs=None):
    """(writer value, Font) of a Type 1 font over ASCII with a descriptor and widths of its own"""
    w = ascii_widths(seed)
    v = D(Type=N('Font'), Subtype=N('Type1'), BaseFont=N(name), Encoding=N('WinAnsiEncoding'), FirstChar=I(32), LastChar=I(126),
          Widths=A(*[I(w[c]) for c in range(32, 127)]),
          FontDescriptor=D(Type=N('FontDescriptor'), FontName=N(name), Flags=I(32), Ascent=I(ascent), Descent=I(descent),
                           FontBBox=A(*map(I, bbox)), MissingWidth=I(missing), ItalicAngle=I(0)))

    if diffs:                                   # {code: (glyph name, its text)}
        v = ('dict', [(k, D(Type=N('Encoding'), BaseEncoding=N('WinAnsiEncoding'), Differences=('arr', [x for c in sorted(diffs) for x in (I(c), N(diffs[c][0]))]))
                       if k == b'Encoding' else x) for k, x in v[1]])
    texts = {c: t for c, (_, t) in (diffs or {}).items()}

    def decode(s):
        return [(c, texts.get(c, chr(c)), w.get(c, missing), None) for c in s]
    return v, Font(name, decode, bbox, ascent, descent)


def wide_font(name, seed, vertical=False, bbox=(0, -200, 1000, 800), dw=900):
    """(writer value, [extra objects], Font) of a composite font: two-byte codes = CIDs, text = chr(0x4e00 + cid)"""
    ws = {c: 300 + (c * 53 + seed * 11) % 800 for c in range(1, 40)}
    vs = {c: (-(300 + (c * 53 + seed * 11) % 800), 200 + c, 600 + c) for c in range(1, 40)}
    dw2 = (880, -1000)
    cmap = (b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapType 2 def 1 begincodespacerange <0000> <ffff> endcodespacerange '
            b'1 beginbfrange <0000> <00ff> <4e00> endbfrange endcmap end end')
    if vertical:
        warr = A(I(1), ('arr', [I(x) for c in range(1, 40) for x in vs[c]]))
        extra = [(b'W2', warr), (b'DW2', A(I(dw2[0]), I(dw2[1])))]
    else:
        warr = A(I(1), ('arr', [I(ws[c]) for c in range(1, 40)]))
        extra = [(b'W', warr), (b'DW', I(dw))]
    desc = ('dict', [(b'Type', N('Font')), (b'Subtype', N('CIDFontType2')), (b'BaseFont', N(name)),
                     (b'CIDSystemInfo', D(Registry=('str', b'Adobe'), Ordering=('str', b'Identity'), Supplement=I(0))),
                     (b'FontDescriptor', D(Type=N('FontDescriptor'), FontName=N(name), Flags=I(4), Ascent=I(750), Descent=I(-200),
                                           FontBBox=A(*map(I, bbox))))] + extra)
    font = lambda stm: D(Type=N('Font'), Subtype=N('Type0'), BaseFont=N(name), Encoding=N('Identity-V' if vertical else 'Identity-H'),
                         DescendantFonts=A(desc), ToUnicode=R(stm))

    def decode(s):
        out = []
        for i in range(0, len(s) - 1, 2):
            c = s[i] * 256 + s[i + 1]
            if vertical:
                w, vx, vy = vs.get(c, (dw2[1], None, dw2[0]))
                out.append((c, chr(0x4e00 + c), w, (vx, vy)))
            else:
                out.append((c, chr(0x4e00 + c), ws.get(c, dw), None))
        return out
    return font, cmap, Font(name, decode, bbox, 750, -200, vertical=vertical, simple=False)


# ---------------------------------------------------------------- strategies

small = st.integers(-40, 40)
coord = st.one_of(st.integers(-300, 900), st.sampled_from(['0.5', '-1.25', '100.125', '.75', '33.25', '250.']))
factor = st.sampled_from([1, 2, -1, '0.5', 3, '1.25', '-2.5'])
# axis-preserving matrices: scaling, reflection and quarter turns
axis_cm = st.one_of(
    st.tuples(factor, st.just(0), st.just(0), factor, coord, coord),
    st.tuples(st.just(0), factor, factor, st.just(0), coord, coord),
    st.tuples(st.just(1), st.just(0), st.just(0), st.just(1), coord, coord))
any_cm = st.one_of(axis_cm, st.tuples(factor, factor, factor, factor, coord, coord))
unit = st.one_of(st.sampled_from([0, 1, '0.5', '.25', '0.75', '1.0', '0.0', '0.2', '0.8', '0.12345678', '.33333334', '0.0000152', '0.999996']), st.integers(0, 100).map(lambda n: '%.2f' % (n / 100)))


def ops(name, *args):
    return st.tuples(st.just(name), *args)


def nm(s):
    return ('name', s.encode())
