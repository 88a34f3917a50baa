"""P32: a reference means the object it refers to, wherever it stands."""
import zlib
from hypothesis import strategies as st
from .. import gen, docs, filters as F
from ..core import Test
from ..pdf import Choices, Writer, N, I, R, A, D, num, simple_file
from ..content import emit, nm, items_of, same, check_items, wide_font
from ..lib import open_doc
from pdfmajor.interpreter import PDFInterpreter

PID = 'P32'
RULE = '''a case is non-trivial when at least one object is moved behind a reference inside a page, font, colour space, form or stream dictionary and the document yields at least one item'''

# ---------------------------------------------------------------- documents with every kind of dictionary

SHOW = [('BT',), ('Tf', nm('W'), 10), ('Tj', ('str', b'\0\1\0\2\0\x25')), ('Tf', nm('V'), 10), ('Td', 50, 60), ('Tj', ('str', b'\0\3\0\4')),
        ('Tf', nm('T3'), 10), ('Tj', ('str', b'abc')), ('Tf', nm('Df'), 10), ('Tj', ('str', b'abcdef\x80\x8e\xd0')), ('Tf', nm('Std'), 10), ('Tj', ('str', b'Hello')), ('ET',),
        ('CS', nm('Icc')), ('SCN', '.1', '.2', '.3', '.4'), ('cs', nm('DevN')), ('scn', '.5', '.25'), ('m', 1, 2), ('l', 30, 40), ('S',),
        ('cs', nm('Sep')), ('scn', '.5'), ('re', 1, 2, 30, 40), ('f',), ('Do', nm('Fax')), ('Do', nm('Fo'))]


def whole(case):
    doc, mode = case
    objs, ch = docs.objects(doc)
    wide, wmap, _ = wide_font('Wide', 1)
    vert, vmap, _ = wide_font('Vert', 2, vertical=True)
    rows = [[(i * r) & 1 for i in range(20)] for r in range(4)]
    fax, _ = F.g4(rows, 20, Choices(), bytealign=mode)
    cmap = b'1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <61> <0391> endbfchar'
    objs.update({
        40: wide(41), 41: ('stream', [(b'Filter', N('FlateDecode'))], zlib.compress(wmap)), 42: vert(43), 43: ('stream', [(b'Filter', A(N('ASCIIHexDecode')))], F.ahx(vmap, Choices())),
        44: D(Type=N('Font'), Subtype=N('Type3'), FontBBox=A(I(0), I(-100), I(700), I(900)), FontMatrix=A(('real', '.002'), I(0), I(0), ('real', '.001'), I(0), I(0)), CharProcs=D(a=R(48)),
              FirstChar=I(97), LastChar=I(99), Widths=A(I(100), I(200), I(300)), Encoding=D(Type=N('Encoding'), Differences=A(I(97), N('alpha'), N('beta'), I(99), N('uni00410042'))), Resources=D()),
        45: D(Type=N('Font'), Subtype=N('Type1'), BaseFont=N('Diff'), FirstChar=I(97), LastChar=I(102), Widths=A(*map(I, (111, 222, 333, 444, 555, 666))),
              Encoding=D(Type=N('Encoding'), BaseEncoding=N('MacRomanEncoding'), Differences=A(I(98), N('Aacute'), N('germandbls'), I(100), N('fi'))), ToUnicode=R(46),
              FontDescriptor=D(Type=N('FontDescriptor'), FontName=N('Diff'), Flags=I(4), Ascent=I(700), Descent=I(-100), FontBBox=A(I(0), I(-100), I(900), I(700)), MissingWidth=I(99), StemV=I(80))),
        46: ('stream', [(b'Filter', A(N('ASCII85Decode'), N('FlateDecode'))), (b'DecodeParms', A(('null',), D(Predictor=I(12), Columns=I(5))))],
             F.a85(zlib.compress(F.png_predict(cmap, 1, 5, 8, [2])), Choices())),
        47: D(Type=N('Font'), Subtype=N('Type1'), BaseFont=N('Helvetica-Bold'), Encoding=N('WinAnsiEncoding')),
        48: ('stream', [], b'500 0 d0'),
        49: ('stream', [(b'N', I(4)), (b'Alternate', N('DeviceCMYK'))], b'profile'),
        50: ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Image')), (b'Width', I(20)), (b'Height', I(4)), (b'BitsPerComponent', I(1)), (b'ColorSpace', N('DeviceGray')),
                        (b'Filter', N('CCITTFaxDecode')), (b'DecodeParms', D(K=I(-1), Columns=I(20), Rows=I(4), BlackIs1=('bool', not mode), EncodedByteAlign=('bool', mode)))], fax),
        51: ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Form')), (b'BBox', A(I(1), I(2), I(33), I(44))), (b'Matrix', A(I(2), I(0), I(0), ('real', '.5'), I(3), I(4))),
                        (b'Resources', D(Font=D(F=R(45)), ColorSpace=D(C=A(N('ICCBased'), R(49))), XObject=D(Sub=R(52))))],
             emit([('cs', nm('C')), ('sc', '.1', '.2', '.3', '.4'), ('BT',), ('Tf', nm('F'), 8), ('Tj', ('str', b'abcd')), ('ET',), ('Do', nm('Sub'))])),
        52: ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(3), I(4)))], emit([('re', 1, 2, 3, 4), ('S',)])),
        53: D(FunctionType=I(2), Domain=A(I(0), I(1)), N=I(1)),
        54: ('stream', [(b'Filter', N('LZWDecode')), (b'DecodeParms', D(EarlyChange=I(1)))], F.lzw(emit(SHOW), Choices()))})
    resources = {b'Font': [(b'W', R(40)), (b'V', R(42)), (b'T3', R(44)), (b'Df', R(45)), (b'Std', R(47))], b'XObject': [(b'Fax', R(50)), (b'Fo', R(51))],
                 b'ColorSpace': [(b'Icc', A(N('ICCBased'), R(49))), (b'DevN', A(N('DeviceN'), A(N('a'), N('b')), N('DeviceRGB'), R(53))), (b'Sep', A(N('Separation'), N('Spot'), N('DeviceGray'), R(53)))]}
    pages = [k for k, v in objs.items() if v[0] == 'dict' and dict(v[1]).get(b'Type') == N('Page')]
    for i, k in enumerate(sorted(pages)):
        pairs = dict(objs[k][1])
        if i % 2 == 0:
            res = dict(pairs[b'Resources'][1])
            for cat, es in resources.items():
                res[cat] = ('dict', res.get(cat, ('dict', []))[1] + es)
            pairs[b'Resources'] = ('dict', list(res.items()))
            pairs[b'Contents'] = A(*([pairs[b'Contents']] if b'Contents' in pairs else []), R(54))
        pairs[b'CropBox'] = A(I(1), I(1), I(50), I(50))
        objs[k] = ('dict', list(pairs.items()))
    if mode and len(pages) > 1:             # a deeper tree, with attributes to inherit
        root = dict(objs[2][1])
        kids = root[b'Kids'][1]
        first = dict(objs[kids[0][1]][1])
        objs[55] = ('dict', [(b'Type', N('Pages')), (b'Parent', R(2)), (b'Kids', A(*kids[1:])), (b'Count', I(len(kids) - 1)), (b'Rotate', I(90)), (b'MediaBox', A(*map(I, (0, 0, 70, 80))))])
        root[b'Kids'] = A(kids[0], R(55))
        root[b'Resources'] = first[b'Resources']
        objs[2] = ('dict', list(root.items()))
        for r in kids[1:]:
            p = [(k, v) for k, v in objs[r[1]][1] if k not in ((b'Rotate', b'MediaBox', b'Resources') if r[1] % 4 else (b'MediaBox',))]
            objs[r[1]] = ('dict', [(k, R(55) if k == b'Parent' else v) for k, v in p])
        objs[kids[0][1]] = ('dict', [(k, v) for k, v in objs[kids[0][1]][1] if k != b'Resources'])
    return objs, ch


# ---------------------------------------------------------------- moving objects behind references

def sites(v, path=()):
    """paths of the direct objects inside v"""
    if v[0] == 'arr':
        for i, x in enumerate(v[1]):
            if x[0] != 'ref':
                yield path + (i,)
            yield from sites(x, path + (i,))
    elif v[0] in ('dict', 'stream'):
        for i, (k, x) in enumerate(v[1]):
            if x[0] != 'ref':
                yield path + (i,)
            yield from sites(x, path + (i,))


def move(v, path, chosen, take):
    if v[0] == 'arr':
        out = ('arr', [move(x, path + (i,), chosen, take) for i, x in enumerate(v[1])])
    elif v[0] == 'dict':
        out = ('dict', [(k, move(x, path + (i,), chosen, take)) for i, (k, x) in enumerate(v[1])])
    elif v[0] == 'stream':
        out = ('stream', [(k, move(x, path + (i,), chosen, take)) for i, (k, x) in enumerate(v[1])], v[2])
    else:
        out = v
    return take(out) if path in chosen else out


def hoist(objs, picks, everything):
    """objs with some direct objects replaced by references to new objects"""
    all_sites = [(k, p) for k in sorted(objs) for p in sites(objs[k])]
    chosen = set(all_sites) if everything else {all_sites[n % len(all_sites)] for n in picks}
    out, nxt = {}, [200]

    def take(v):
        out[nxt[0]] = v
        nxt[0] += 1
        return R(nxt[0] - 1)
    for k in sorted(objs):
        mine = {p for j, p in chosen if j == k}
        out[k] = move(objs[k], (), mine, take)
    return out, [(k, where(objs[k], p)) for k, p in sorted(chosen)]


def where(v, p):
    """readable form of a path"""
    s = ''
    for i in p:
        if v[0] == 'arr':
            s += '[%d]' % i
            v = v[1][i]
        else:
            s += '/' + v[1][i][0].decode('latin-1')
            v = v[1][i][1]
    return s


def packed(objs, ch):
    """the document with everything but streams in object streams"""
    w = Writer(ch=ch)
    ent = {0: ('f',)}
    free = [k for k in sorted(objs) if objs[k][0] != 'stream']
    for k in sorted(objs):
        if objs[k][0] == 'stream':
            w.obj(k, objs[k])
            ent[k] = ('n', w.offsets[k], 0)
    top = max(objs) + 1
    size = 1 + ch.pick(60)
    for i in range(0, len(free), size):
        part = free[i:i + size]
        w.objstm(top, [(k, objs[k]) for k in part])
        ent[top] = ('n', w.offsets[top], 0)
        ent.update((k, ('c', top, j)) for j, k in enumerate(part))
        top += 1
    w.end(w.xref_stream(top, ent, [(b'Root', R(1))]))
    return w.bytes()


def look(path):
    return [(p.page_num, float(p.width), float(p.height), items_of(p), [float(x) for x in p.page.cropbox]) for p in PDFInterpreter(path, ignore_bad_chars=True)]


picks = st.one_of(st.lists(st.integers(0, 100000), min_size=1, max_size=3), st.lists(st.integers(0, 100000), min_size=1, max_size=60))
case = st.tuples(st.tuples(docs.small(3, 3), st.booleans()), picks, st.integers(0, 11).map(lambda n: n == 11), st.booleans(), gen.short_tape)


def moved(case, cx):
    """any objects moved behind references, in plain objects or object streams"""
    base, picks, everything, pack, tape = case
    ch = Choices(tape)
    objs, _ = whole(base)
    want = look(cx.write('a.pdf', simple_file(objs)))
    other, places = hoist(objs, picks, everything)
    cx.nontrivial(bool(places) and any(p[3] for p in want))
    cx.tag('packed' if pack else 'plain')
    got = look(cx.write('b.pdf', packed(other, ch) if pack else simple_file(other)))
    what = 'with references at %s' % ', '.join('%d%s' % p for p in places[:12])
    cx.eq([p[:3] + p[4:] for p in got], [p[:3] + p[4:] for p in want], 'pages ' + what)
    for g, w in zip(got, want):
        check_items(cx, g[3], w[3], 'page %d %s' % (w[0], what), 0)


TESTS = [Test('moved', case, moved, quick=2400, thorough=40000)]
