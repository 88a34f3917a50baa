"""Whole documents for the checks of the converters: several pages with curves, colours, text of any characters, images and
nested forms; and what the interpreter says is in them, as one plain tree."""
import re
from hypothesis import strategies as st
from . import gen, cmaps as CM
from .pdf import Choices, N, I, R, A, D, num, simple_file
from .content import emit, simple_font, axis_cm, unit, nm, operand, Font
from .props.p13 import quads, line, free
from .props.p14 import text as ascii_text

# characters that mean something to one of the formats
SPICE = ['a', 'b', 'Z', '0', '9', ' ', '"', "'", '\\', '&', '<', '>', ':', '#', '-', '[', ']', '{', '}', ',', '%', '@', '`', '!', '|', '?', '*', '~', '=',
         '&amp;', '&lt;', '<br>', '\\n', '\\u0041', '\n', '\r', '\t', '\0', '\x01', '\x1b', '\x7f', '\x85', '\xa0', '\xe9', '\xff', '\u2028', '\u2029', '\ufeff',
         '\ufffd', '\u4e00', '\u3042', '\u03b1', '\ufb01', '\U0001f600', '\U00020000', '\ufffe', 'null', 'true', '1.5', '1e3', '- ', ': ', ' #', '</span>', ']]>', '-->']
glyph = st.one_of(st.sampled_from(SPICE), st.sampled_from(SPICE), st.lists(st.sampled_from(SPICE), min_size=1, max_size=4).map(''.join),
                  st.characters(codec='utf-8', exclude_categories=('Cs',)))
odd_bytes = st.lists(st.sampled_from([b'A', b'b', b'0', b' ', b'"', b"'", b'\\', b'&', b'<', b'>', b':', b'#', b'-', b'{', b']', b',', b'\n', b'\r', b'\x01', b'\xe9', b'%']),
                     max_size=7).map(b''.join)
odd_name = st.lists(st.sampled_from([b'A', b'b', b'0', b'"', b"'", b'&', b'<', b'>', b':', b'#', b'-', b' ', b',', b'(', b'\\', b'\n', b'\t', '\xe9'.encode()]), min_size=1, max_size=6).map(b''.join)

part = gen.choose(
    st.tuples(st.just('path'), st.one_of(quads, line, free), st.sampled_from(['S', 'f', 'b*', 'B'])),
    st.tuples(st.just('text'), ascii_text),
    st.tuples(st.just('uni'), st.lists(st.lists(st.integers(0, 11), max_size=4), min_size=1, max_size=3), st.integers(1, 30), st.integers(-50, 600), st.integers(-50, 800)),
    st.tuples(st.just('uni'), st.lists(st.lists(st.integers(0, 11), max_size=4), min_size=1, max_size=3), st.integers(1, 30), st.integers(-50, 600), st.integers(-50, 800)),
    st.tuples(st.just('op'), gen.choose(
        st.tuples(st.sampled_from(['G', 'g']), unit), st.tuples(st.sampled_from(['RG', 'rg']), unit, unit, unit), st.tuples(st.sampled_from(['K', 'k']), unit, unit, unit, unit),
        st.tuples(st.just('w'), st.integers(0, 9)), axis_cm.map(lambda m: ('cm',) + m), st.sampled_from([('q',), ('Q',)]))),
    st.tuples(st.just('op'), st.just(('Do', nm('Im')))),
    st.tuples(st.just('op'), st.just(('Do', nm('Fm')))),
    st.tuples(st.just('pattern'), st.booleans(), odd_name),
    st.tuples(st.just('flat'), st.integers(-20, 500), st.integers(-20, 500), st.integers(0, 2), st.integers(1, 90)))
extra = st.one_of(
    st.tuples(st.just('str'), st.sampled_from([b'FontFamily', b'CharSet', b'Vendor', b'Panose']), odd_bytes),
    st.tuples(st.just('name'), st.sampled_from([b'FontStretch', b'Vendor', b'Owner']), odd_name),
    st.tuples(st.just('num'), st.sampled_from([b'StemV', b'XHeight', b'CapHeight', b'Leading', b'FontWeight', b'AvgWidth']), st.sampled_from([0, 1, 80, 400, 700, -5, '0.5', '12.25'])),
    st.tuples(st.just('ref'), st.sampled_from([b'CIDSet', b'Style', b'Vendor'])),
    st.tuples(st.just('dict'), st.sampled_from([b'Style', b'FD'])),
    st.tuples(st.just('arr'), st.sampled_from([b'Vendor', b'Numbers']), st.lists(st.one_of(st.integers(-9, 9).map(lambda n: ('int', n)), odd_name.map(lambda b: ('name', b)),
                                                                                     odd_bytes.map(lambda b: ('str', b))), max_size=3)),
    st.tuples(st.just('odd key'), st.one_of(odd_name, odd_name, st.sampled_from([b'\xff', b'A\xe9b', b'\x80<"'])), odd_bytes),
    st.tuples(st.just('ref to'), st.sampled_from([b'FontWeight', b'StemV', b'Vendor', b'FontStretch', b'CapHeight']), st.sampled_from([('int', 0), ('int', 700), ('name', b'Condensed'), ('str', b'Some one')])))
fontspec = st.tuples(st.one_of(st.sampled_from([b'Alpha', b'ABCDEF+Alpha-Bold', b'Times New Roman']), odd_name), st.lists(extra, max_size=4))
mediabox = st.sampled_from([(0, 0, 600, 800), (0, 0, 612, 792), (10, 20, 300, 400), ('0.5', 0, '595.25', '841.75'), (-100, -50, 200, 500)])
page = st.tuples(mediabox, st.sampled_from([0, 0, 0, 90, 180, 270]), st.lists(part, max_size=7))
document = st.tuples(st.lists(page, min_size=1, max_size=4), st.lists(glyph, min_size=12, max_size=12), fontspec, st.lists(part, max_size=4), gen.short_tape)


def small(pages=3, parts=4):
    return st.tuples(st.lists(st.tuples(mediabox, st.sampled_from([0, 90]), st.lists(part, max_size=parts)), min_size=1, max_size=pages),
                     st.lists(glyph, min_size=12, max_size=12), fontspec, st.lists(part, max_size=2), gen.short_tape)


def program(parts, level):
    """level 0 may draw the form Fm, level 1 the form Gm, level 2 none"""
    prog = [('Tf', nm('F1'), 10)]
    for p in parts:
        if p[0] == 'path':
            prog += list(p[1]) + [(p[2],)]
        elif p[0] == 'text':
            prog += [('BT',), ('Tf', nm('F1'), 11), ('Tj', p[1]), ('ET',)]
        elif p[0] == 'uni':
            prog += [('BT',), ('Tf', nm('U'), p[2]), ('Td', p[3], p[4])]
            prog += [('Tj', ('str', bytes(c + 1 for c in s))) for s in p[1]] + [('ET',)]
        elif p[0] == 'pattern':
            prog += [('CS' if p[1] else 'cs', nm('Pattern')), ('SCN' if p[1] else 'scn', ('name', p[2]))]
        elif p[0] == 'flat':                 # no width, no height, or neither
            _, x, y, k, d = p
            prog += [('m', x, y), ('l', x, y + d) if k == 0 else ('l', x + d, y) if k == 1 else ('l', x, y), ('h',), ('S',)]
        elif p[1] != ('Do', nm('Fm')):
            prog.append(p[1])
        elif level < 2:
            prog.append(('Do', nm(('Fm', 'Gm')[level])))
    return prog


BBOXES = [(0, 0, 10, 20), (0, 0, 0, 0), (5, 5, 5, 30), (-40, 7, 60, 7), (9, 9, 1, 1), (-5, 0, 30, 20)]


def objects(doc):
    """{number: value} of the document; its catalog is object 1"""
    pages, glyphs, (fontname, extras), inner, tape = doc
    ch = Choices(tape)
    bb1, bb2 = BBOXES[ch.pick(len(BBOXES))], BBOXES[-1 - ch.pick(len(BBOXES))]
    v1, _ = simple_font('Alpha', 1)
    desc = [(b'Type', N('FontDescriptor')), (b'FontName', ('name', fontname)), (b'Flags', I(32)), (b'Ascent', I(750)), (b'Descent', I(-200)),
            (b'FontBBox', A(I(0), I(-200), I(1000), I(800))), (b'ItalicAngle', I(-12)), (b'MissingWidth', I(333))]
    have = {k for k, _ in desc}
    for e in extras:
        k = e[1]
        if k in have or k in (b'text', b'size', b'color', b'x0', b'x1', b'y0', b'y1') or b'FontFile' in k or not k.strip(b'0b-,') and b'0' in k:       # (YAML reads 0, 00 and 0b0 as one key)
            continue
        have.add(k)
        desc.append((k, {'str': lambda: ('str', e[2]), 'name': lambda: ('name', e[2]), 'num': lambda: operand(e[2]), 'ref': lambda: R(26),
                         'dict': lambda: D(Panose=('str', b'\0\1<"'), Deep=A(N('x'), I(1))), 'arr': lambda: ('arr', list(e[2])), 'odd key': lambda: ('str', e[2]), 'ref to': lambda: R(28)}[e[0]]()))
    cmap = CM.tounicode([('char', i + 1, g) for i, g in enumerate(glyphs)], Choices())
    objs = {20: v1,
            21: D(Type=N('Font'), Subtype=N('TrueType'), BaseFont=('name', fontname), Encoding=N('WinAnsiEncoding'), FirstChar=I(1), LastChar=I(12),
                  Widths=A(*[I(400 + 20 * i) for i in range(12)]), FontDescriptor=R(22), ToUnicode=R(23)),
            22: ('dict', desc), 23: ('stream', [], cmap),
            24: ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Image')), (b'Width', I(2)), (b'Height', I(2)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], b'abcd'),
            25: ('stream', [(b'Subtype', N('Form')), (b'BBox', A(*map(I, bb1))), (b'Matrix', A(*map(I, (1, 0, 0, 1, 5, 7))))], emit(program(inner, 1))),
            27: ('stream', [(b'Subtype', N('Form')), (b'BBox', A(*map(I, bb2)))], emit(program(inner[::-1], 2))),
            26: D(A=('str', b'<"&')), 28: next((e[2] for e in extras if e[0] == 'ref to'), I(0)),
            1: D(Type=N('Catalog'), Pages=R(2)),
            2: ('dict', [(b'Type', N('Pages')), (b'Kids', A(*[R(30 + 2 * i) for i in range(len(pages))])), (b'Count', I(len(pages)))])}
    for i, (box, rot, parts) in enumerate(pages):
        objs[30 + 2 * i] = ('dict', [(b'Type', N('Page')), (b'Parent', R(2)), (b'MediaBox', ('arr', [operand(v) for v in box])), (b'Rotate', I(rot)),
                                    (b'Resources', D(Font=D(F1=R(20), U=R(21)), XObject=D(Im=R(24), Fm=R(25), Gm=R(27))))])
        if parts or i % 2:                   # a blank page may have no contents at all
            objs[30 + 2 * i][1].append((b'Contents', R(31 + 2 * i)))
        objs[31 + 2 * i] = ('stream', [], emit(program(parts, 0)))
    return objs, ch


def build(doc, sec=None):
    """bytes of the document; sec: a crypt.Security that protects it"""
    objs, ch = objects(doc)
    if sec is None:
        return simple_file(objs, ch=ch)
    objs = {k: sec.value(v, k) for k, v in objs.items()}
    objs[90] = sec.dictionary()
    return simple_file(objs, ch=ch, trailer_extra=[(b'Encrypt', R(90)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))])


# ---------------------------------------------------------------- what the interpreter says

def bx(it):
    return (float(it.x0), float(it.y0), float(it.x1), float(it.y1))


def color(c):
    if c.color_space is None:
        return None
    return (c.color_space.name, tuple(str(v.name) if hasattr(v, 'name') else float(v) for v in c.values))


def plain(v):
    """descriptor value: a number, the letters of a name or string that has nothing else, or None for what has no one form"""
    from pdfmajor.parser.PDFStream import resolve1
    v = resolve1(v)
    v = getattr(v, 'name', v)
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, bytes):
        v = v.decode('latin-1')
    return v if isinstance(v, str) and re.fullmatch('[A-Za-z]+([-+][A-Za-z]+)*', v) else None


def item(it):
    from pdfmajor.interpreter import LTTextBlock, LTCurve, LTImage, LTXObject, LTRect, LTLine
    if isinstance(it, LTTextBlock):
        return ('text', bx(it), [(bx(b), float(b.size), color(b.color), {k: plain(v) for k, v in b.font.descriptor.items() if k != 'Type' and 'FontFile' not in str(k)},
                                 str(b.fontname), [(c.get_text(), bx(c)) for c in b]) for b in it])
    if isinstance(it, LTCurve):
        kind = 'rect' if isinstance(it, LTRect) else 'line' if isinstance(it, LTLine) else 'curve'
        return ('curve', bx(it), kind, color(it.stroke), color(it.fill), [(p.method.name, [(float(q.x), float(q.y)) for q in p.points]) for p in it.paths])
    if isinstance(it, LTImage):
        return ('img', bx(it))
    if isinstance(it, LTXObject):
        return ('xobject', bx(it), [item(x) for x in it])
    return ('other', repr(it))


def tree(path, **kw):
    from pdfmajor.interpreter import PDFInterpreter
    return [(p.page_num, float(p.width), float(p.height), [item(x) for x in p]) for p in PDFInterpreter(path, **kw)]


def flat(items):
    for it in items:
        yield it
        if it[0] == 'xobject':
            yield from flat(it[2])


def texts(pages):
    return [''.join(c for c, _ in b[5]) for p in pages for it in flat(p[3]) if it[0] == 'text' for b in it[2]]


def spicy(pages):
    """some text or name has characters one of the formats must escape"""
    import re
    return any(re.search(r'[^A-Za-z0-9 .]', t) for t in texts(pages))
