"""P19: images saved to files."""
import io, os, struct, tempfile, shutil
from hypothesis import strategies as st
from PIL import Image
from .. import gen, filters as F
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, simple_file
from ..content import emit, nm
from ..crypt import Security
from pdfmajor.interpreter import PDFInterpreter, LTImage, LTXObject

PID = 'P19'
RULE = '''a case is non-trivial when at least two images were saved, one of them to a BMP file of at least two rows or to a JPEG file'''

# the colour space (name, components), bits per component; the first ones are written as BMP
BMP = {'mask': (None, 1, 1), 'gray1': ('DeviceGray', 1, 1), 'gray8': ('DeviceGray', 1, 8), 'rgb8': ('DeviceRGB', 3, 8),
       'indexed1': ('Indexed', 1, 1), 'sep1': ('Separation', 1, 1), 'calgray1': ('CalGray', 1, 1), 'icc1': ('ICC1', 1, 1), 'devn1': ('DeviceN1', 1, 1)}
RAW = {'gray2': ('DeviceGray', 1, 2), 'gray4': ('DeviceGray', 1, 4), 'gray16': ('DeviceGray', 1, 16), 'rgb4': ('DeviceRGB', 3, 4), 'rgb16': ('DeviceRGB', 3, 16),
       'cmyk8': ('DeviceCMYK', 4, 8), 'indexed8': ('Indexed', 1, 8), 'indexed4': ('Indexed', 1, 4), 'icc8': ('ICC', 3, 8), 'lab8': ('Lab', 3, 8), 'sep8': ('Separation', 1, 8),
       'rgb1': ('DeviceRGB', 3, 1), 'cmyk1': ('DeviceCMYK', 4, 1), 'calrgb1': ('CalRGB', 3, 1), 'lab1': ('Lab', 3, 1), 'icc31': ('ICC', 3, 1), 'devn21': ('DeviceN2', 2, 1)}
SHORTNAMES = {'DeviceGray': 'G', 'DeviceRGB': 'RGB', 'DeviceCMYK': 'CMYK'}
INLINE_KINDS = ['gray1', 'gray8', 'mask', 'rgb8'] * 3 + ['gray2', 'gray4', 'rgb4', 'cmyk8', 'rgb1', 'cmyk1', 'jpeg', 'jpeg']

CMYK = []


def cmyk_jpegs():
    """(width, height, data, colours per pixel) of some four-component JPEG images without a colour transform"""
    if not CMYK:
        for k, (w, h, cols) in enumerate([(16, 16, [(0, 0, 0, 0)]), (32, 16, [(255, 0, 0, 0), (0, 255, 0, 0)]), (16, 48, [(0, 0, 255, 0), (0, 0, 0, 255), (0, 0, 0, 128)]), (32, 16, [(200, 60, 30, 20)])]):
            im = Image.new('CMYK', (w, h))
            want = []
            for y in range(h):
                for x in range(w):
                    c = cols[(x * len(cols) // w) if w > h else (y * len(cols) // h)]
                    im.putpixel((x, y), tuple(255 - v for v in c))          # (Pillow stores them inverted)
                    want.append(c)
            b = io.BytesIO()
            im.save(b, 'JPEG', quality=100, subsampling=0)
            CMYK.append((w, h, b.getvalue(), want))
    return CMYK


jpeg_bytes = st.one_of(st.binary(min_size=1, max_size=60).map(lambda b: b'\xff\xd8\xff\xe0' + b + b'\xff\xd9'), st.binary(max_size=30))
filters = st.lists(st.sampled_from(sorted(F.ENC)), max_size=2)
kinds = st.one_of(st.sampled_from(sorted(BMP)), st.sampled_from(['gray1', 'gray8', 'mask', 'rgb8', 'gray1', 'jpeg', 'cmyk jpeg']), st.sampled_from(sorted(RAW)))
size = st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 40), st.sampled_from([31, 32, 33, 64, 65])), st.integers(1, 6))
image = gen.choose(
    st.tuples(st.just('object'), kinds, size, st.one_of(st.binary(min_size=1, max_size=60), st.sampled_from([b'\0', b'\xff', b'\1\2\3'])), filters, st.booleans(), gen.short_tape),
    st.tuples(st.just('inline'), st.sampled_from(INLINE_KINDS), size, st.one_of(st.binary(min_size=1, max_size=60), st.sampled_from([b'\0', b'\xff', b'\1\2\3'])), filters, st.booleans(), gen.short_tape))
CTMS = [(10, 0, 0, 20, 30, 40), ('3.5', 0, 0, '7.25', 0, 0), (0, 15, -25, 0, 100, 100), (-40, 0, 0, -9, 200, 300), (8, 4, -4, 8, 10, 10), (300, 0, 0, 1, 5, 5), (0, 0, 0, 0, 7, 7)]
draw = st.tuples(st.integers(0, 9), st.integers(0, len(CTMS) - 1), st.booleans())                 # image, matrix, inside a form
pages = st.lists(st.lists(draw, max_size=4), min_size=1, max_size=4)
case = st.tuples(st.lists(image, min_size=1, max_size=4), pages, st.booleans(), st.booleans(), st.sampled_from([None, None, None, 'V1R2', 'V2R3', 'V4AES', 'V5AES']), gen.tape)


def samples(kind, wh, seed):
    """(samples, pixel colours for the BMP kinds)"""
    w, h = wh
    cs, n, bpc = {**BMP, **RAW}[kind]
    row = (w * n * bpc + 7) // 8
    data = (seed * (row * h // len(seed) + 1))[:row * h]
    if kind not in BMP:
        return data, None
    px = []
    for y in range(h):
        line = data[y * row:(y + 1) * row]
        for x in range(w):
            if bpc == 1:
                v = 255 * (line[x // 8] >> (7 - x % 8) & 1)
                px.append((v, v, v))
            elif n == 1:
                px.append((line[x],) * 3)
            else:
                px.append(tuple(line[3 * x:3 * x + 3]))
    return data, px


def clean(b):
    """bytes that an inline image can hold: no EI before white space, and not ending in something that would make one"""
    for w in b'\0\t\n\v\f\r ':
        b = b.replace(b'EI' + bytes([w]), b'Ei' + bytes([w]))
    while b[-1:] in (b'\r', b'\n', b'I', b'E'):
        b = b[:-1] + b'x'
    return b


def make(image):
    """(attributes with full names, stored data, what the file must be)"""
    how, kind, wh, seed, fl, short, tape = image
    ch = Choices(tape)
    inline = how == 'inline'
    fl = list(fl)
    parms = []
    if kind == 'cmyk jpeg':
        w, h, data, want = cmyk_jpegs()[seed[0] % 4]
        wh, cs, bpc, what = (w, h), N('DeviceCMYK'), 8, ('cmyk', want)
        stored, names = data, ['DCTDecode']
    elif kind == 'jpeg':
        data = b'\xff\xd8\xff\xe0' + seed + b'\xff\xd9'
        if inline and not fl:
            data = clean(data)
        cs, bpc, what = N(['DeviceGray', 'DeviceRGB'][ch.pick(2)]), 8, ('jpg', data)
        stored, names = data, ['DCTDecode']
    else:
        data, px = samples(kind, wh, seed)
        if inline and not fl and clean(data) != data:
            data, px = samples(kind, wh, b'\x55')
        what = ('bmp', px) if px is not None else ('img', data)
        csn, n, bpc = {**BMP, **RAW}[kind]
        cs = {None: None, 'Indexed': A(N('Indexed'), N('DeviceRGB'), I(1), ('str', b'\0\1\2\3\4\5')), 'ICC': A(N('ICCBased'), R(8)),
              'Lab': A(N('Lab'), D(WhitePoint=A(I(1), I(1), I(1)))), 'Separation': A(N('Separation'), N('Spot'), N('DeviceGray'), R(8)),
              'CalGray': A(N('CalGray'), D(WhitePoint=A(I(1), I(1), I(1)))), 'CalRGB': A(N('CalRGB'), D(WhitePoint=A(I(1), I(1), I(1)))), 'ICC1': A(N('ICCBased'), R(9)),
              'DeviceN1': A(N('DeviceN'), A(N('Spot')), N('DeviceGray'), R(8)), 'DeviceN2': A(N('DeviceN'), A(N('Spot'), N('All')), N('DeviceGray'), R(8))}.get(csn) or (N(csn) if csn else None)
        stored, names = data, []
        if bpc == 1 and n == 1 and ch.pick(3) == 2:
            w, h = wh
            row = (w + 7) // 8
            rows = [[data[y * row + x // 8] >> (7 - x % 8) & 1 for x in range(w)] for y in range(h)]
            black = bool(ch.pick(2))
            stored, _ = F.g4([[v if black else 1 - v for v in r] for r in rows], w, ch)
            names, parms = ['CCITTFaxDecode'], [D(K=I(-1), Columns=I(w), Rows=I(h), BlackIs1=('bool', black))]
    if not parms:
        parms = [('null',)] * len(names)
    if inline and (fl or names == ['CCITTFaxDecode']):
        fl.append('ASCIIHexDecode')
    for f in fl:
        stored = F.ENC[f](stored, ch)
        names, parms = [f] + names, [('null',)] + parms
    w, h = wh
    attrs = [(b'Width', I(w)), (b'Height', I(h))]
    if kind == 'mask':
        attrs.append((b'ImageMask', ('bool', True)))
    if cs is not None:
        attrs.append((b'ColorSpace', cs))
    if bpc != 1 or ch.pick(2):
        attrs.append((b'BitsPerComponent', I(bpc)))
    if names:
        one = len(names) == 1 and ch.pick(2)
        attrs.append((b'Filter', N(names[0]) if one else A(*map(N, names))))
        if any(p != ('null',) for p in parms):
            attrs.append((b'DecodeParms', parms[0] if one else A(*parms)))
    if inline and short:
        attrs = [(INLINE_KEYS[k], shorten(v)) for k, v in attrs]
    return attrs, stored, wh, what


INLINE_KEYS = {b'Width': b'W', b'Height': b'H', b'ImageMask': b'IM', b'ColorSpace': b'CS', b'BitsPerComponent': b'BPC', b'Filter': b'F', b'DecodeParms': b'DP'}
INLINE_NAMES = {b'DeviceGray': b'G', b'DeviceRGB': b'RGB', b'DeviceCMYK': b'CMYK', b'DCTDecode': b'DCT', b'CCITTFaxDecode': b'CCF', **{k.encode(): v.encode() for k, v in F.SHORT.items()}}


def shorten(v):
    if v[0] == 'name':
        return ('name', INLINE_NAMES.get(v[1], v[1]))
    if v[0] == 'arr':
        return ('arr', [shorten(x) for x in v[1]])
    return v


def build(case):
    """(file, images in painting order per page: (number of the image, size, what its file must be))"""
    images, pages, caching, named, scheme, tape = case
    made = [make(i) for i in images]
    xo = [(b'Im%d' % k, R(100 + k)) for k, i in enumerate(images) if i[0] == 'object']
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(*[R(10 + 2 * i) for i in range(len(pages))]), Count=I(len(pages))),
            7: D(XObject=('dict', xo)), 8: ('stream', [(b'N', I(3)), (b'FunctionType', I(0))], b'profile'), 9: ('stream', [(b'N', I(1))], b'profile')}
    for k, (i, m) in enumerate(zip(images, made)):
        if i[0] == 'object':
            objs[100 + k] = ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Image'))] + m[0], m[1])
    want = []
    nf = 0
    for p, draws in enumerate(pages):
        prog, forms = [], []
        seen = []
        for k, c, inform in draws:
            k %= len(images)
            one = [('q',), ('cm',) + CTMS[c]] + ([('Do', nm('Im%d' % k))] if images[k][0] == 'object' else [('INLINE', made[k][0], made[k][1])]) + [('Q',)]
            # an inline image is a different image each time
            seen.append((k if images[k][0] == 'object' else (p, len(seen)), made[k][2], made[k][3]))
            if inform:
                objs[300 + nf] = ('stream', [(b'Type', N('XObject')), (b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(9), I(9))), (b'Resources', R(7))], emit(one))
                forms.append((b'Fm%d' % nf, R(300 + nf)))
                one = [('Do', nm('Fm%d' % nf))]
                nf += 1
            prog += one
        objs[10 + 2 * p] = D(Type=N('Page'), Parent=R(2), MediaBox=A(I(0), I(0), I(600), I(800)), Contents=R(11 + 2 * p), Resources=D(XObject=('dict', xo + forms)))
        objs[11 + 2 * p] = ('stream', [], emit(prog))
        want.append(seen)
    ch = Choices(tape)
    if scheme is None:
        return simple_file(objs, ch=ch), want
    sec = Security(scheme, b'', b'o', 0xffffffff, 128)
    objs = {k: sec.value(v, k) for k, v in objs.items()}
    objs[90] = sec.dictionary()
    return simple_file(objs, ch=ch, trailer_extra=[(b'Encrypt', R(90)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]), want


def all_images(items):
    for it in items:
        if isinstance(it, LTImage):
            yield it
        elif isinstance(it, LTXObject):
            yield from all_images(it)


def bitmap(raw):
    """(width, height, pixels) of a whole BMP file"""
    if raw[:2] != b'BM' or len(raw) < 54:
        raise Violation('not a BMP file: %r' % raw[:60])
    total, off = struct.unpack('<I4xI', raw[2:14])
    if total != len(raw):
        raise Violation('the BMP header says %d bytes, the file has %d' % (total, len(raw)))
    if struct.unpack('<HH', raw[26:28] + raw[30:32]) != (1, 0) or raw[32:34] != b'\0\0':
        raise Violation('BMP header: planes and compression are %r' % raw[26:34])
    try:
        im = Image.open(io.BytesIO(raw))
        im.load()
        rgb = im.convert('RGB')
    except Exception as e:
        raise Violation('the BMP file cannot be read: %s: %s' % (type(e).__name__, e))
    return rgb.size, [rgb.getpixel((x, y)) for y in range(rgb.size[1]) for x in range(rgb.size[0])]


def check_file(path, size, what, cx):
    raw = open(path, 'rb').read()
    if what[0] == 'bmp':
        if not path.endswith('.bmp'):
            raise Violation('an image that BMP can hold went to %s' % path)
        cx.eq(bitmap(raw), (size, what[1]), 'size and pixels of %s' % path)
    elif what[0] == 'img':
        if path.endswith(('.bmp', '.jpg')):
            raise Violation('an image that neither BMP nor JPEG is made for went to %s' % path)
        cx.eq(raw, what[1], 'samples in %s' % path)
    else:
        if not path.endswith('.jpg'):
            raise Violation('JPEG data went to %s' % path)
        if what[0] == 'jpg':
            cx.eq(raw, what[1], 'data of %s' % path)
            return
        try:
            im = Image.open(io.BytesIO(raw))
            im.load()
        except Exception as e:
            raise Violation('the JPEG file cannot be read: %s: %s' % (type(e).__name__, e))
        cx.eq((im.size, im.mode), (size, 'RGB'), 'size and mode of %s' % path)
        for n, (c, m, y, k) in enumerate(what[1]):
            if n % size[0] % 16 != 8 or n // size[0] % 16 != 8:      # (colours blend at the edges)
                continue
            want = tuple((255 - v) * (255 - k) / 255 for v in (c, m, y))
            got = im.getpixel((n % size[0], n // size[0]))
            if max(abs(a - b) for a, b in zip(got, want)) > 40:
                raise Violation('pixel %d of %s is %r, the inks %r give %r' % (n, path, got, (c, m, y, k), want))


def save(case, cx):
    """images as objects and inline, in forms, filtered, encrypted; with given and default file names"""
    data, want = build(case)
    path = cx.write('a.pdf', data)
    out = tempfile.mkdtemp(dir=cx.scratch)
    try:
        run(case, cx, path, want, out)
    finally:
        shutil.rmtree(out)


def run(case, cx, path, want, out):
    images, pages, caching, named, scheme, tape = case
    saved = []
    n = 0
    for pno, pg in enumerate(PDFInterpreter(path, caching=caching), 1):
        got = 0
        seen = want[pno - 1]
        for it in all_images(pg):
            if got >= len(seen):
                raise Violation('page %d has more than %d images' % (pno, len(seen)))
            key, size, what = seen[got]
            cx.eq(tuple(it.srcsize), size, 'srcsize')
            name = 'pic %d.x' % n if named else None
            p = it.save_image(out, file_name=name) if named else it.save_image(out)
            if os.path.dirname(p) != out or not os.path.isfile(p):
                raise Violation('save_image() returned %r' % p)
            if named and not os.path.basename(p).startswith(name):
                raise Violation('save_image(file_name=%r) returned %r' % (name, p))
            saved.append((key, p, size, what))
            got += 1
            n += 1
        cx.eq(got, len(seen), 'number of images on page %d' % pno)
    files = {}
    for key, p, size, what in saved:
        if files.setdefault(p, key) != key:
            raise Violation('two images went to the same file %s' % p)
    for key, p, size, what in saved:
        check_file(p, size, what, cx)
        cx.tag(what[0])
    if set(os.path.join(out, f) for f in os.listdir(out)) != set(files):
        raise Violation('files %r for the paths %r' % (os.listdir(out), files))
    if scheme and saved:
        cx.tag('encrypted')
    cx.nontrivial(len(saved) >= 2 and any(w[0] in ('jpg', 'cmyk') or w[0] == 'bmp' and s[1] >= 2 for _, _, s, w in saved))


TESTS = [Test('save', case, save, quick=12000, thorough=100000)]
