"""P27: processing always ends: references in circles and ranges without measure neither loop nor exhaust the stack."""
import re, sys
from io import BytesIO
from hypothesis import strategies as st
from .. import gen, docs
from ..core import Test, Violation, eq
from ..pdf import Choices, N, I, R, A, D, num, simple_file, page_file, Writer
from ..lib import open_doc, norm
from ..crypt import Security
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import resolve1
from pdfmajor.execptions import PDFMajorException
from pdfmajor.interpreter import PDFInterpreter, LTXObject, LTCurve

PID = 'P27'
RULE = '''a case is non-trivial when the document has a circle of references on a path that is followed (pages, forms, sections, names,
itself), a document that still has items differs from the undamaged one or ends in an error of the library (missing, bytes),
or a range of more than a million codes or objects (ranges)'''
GONE = 999999


# ---------------------------------------------------------------- page trees

leaf = st.just(('page',))
tree = st.recursive(leaf, lambda ch: st.tuples(st.just('node'), st.lists(st.one_of(ch, ch, st.tuples(st.just('up'), st.integers(0, 5))), max_size=4)), max_leaves=10)
root = st.tuples(st.just('node'), st.lists(st.one_of(tree, tree, st.tuples(st.just('up'), st.integers(0, 5))), min_size=1, max_size=5))


def fn_pages(case, cx):
    """page trees some nodes of which are listed below themselves"""
    root, caching, tape = case
    ch = Choices(tape)
    objs, want, ups = {1: D(Type=N('Catalog'), Pages=R(2))}, [], 0
    fresh = iter(range(3, 500))

    def go(node, me, above):
        nonlocal ups
        if node[0] == 'page':
            objs[me] = D(Type=N('Page'), Parent=R(above[-1]), MediaBox=A(I(0), I(0), I(100 + len(want)), I(50)))
            want.append(me)
            return
        kids = []
        for c in node[1]:
            if c[0] == 'up':
                ups += 1
                line = above + [me]
                kids.append(R(line[-1 - c[1] % len(line)]))
            else:
                k = next(fresh)
                kids.append(R(k))
                go(c, k, above + [me])
        v = ('arr', kids)
        if ch.pick(3) == 2:
            k = next(fresh)
            objs[k] = v
            v = R(k)
        objs[me] = ('dict', [(b'Type', N('Pages')), (b'Kids', v), (b'Count', I(len(kids)))] + ([(b'Parent', R(above[-1]))] if above else []))
    go(root, 2, [])
    if not want:
        return
    data = simple_file(objs, ch=ch)
    if ups:
        cx.nontrivial()
    pages = list(PDFPage.create_pages(open_doc(data, caching=caching)))
    cx.eq([p.pageid for p in pages], want, 'pages of a tree with %d circles' % ups)
    got = [(p.page_num, p.width) for p in PDFInterpreter(cx.write('c.pdf', data), caching=caching)]
    cx.eq(got, [(i, 100 + i) for i in range(len(want))], 'pages and their widths')


# ---------------------------------------------------------------- forms

NAMES = ['Fa', 'Fb', 'Fc', 'Fd']
step = st.one_of(st.just('r'), st.integers(0, 3))
forms = st.tuples(st.lists(step, min_size=1, max_size=5), st.lists(st.tuples(st.lists(step, max_size=4), st.booleans()), min_size=1, max_size=4), st.booleans(), gen.tape)


def fn_forms(case, cx):
    """forms that draw themselves, directly or through other forms; with their own resources or those of the page"""
    page, fs, caching, tape = case
    ch = Choices(tape)
    serial = iter(range(1, 10000))
    fs = [(steps, own) for steps, own in fs]
    rects = {}

    def program(i, steps):
        out = []
        for j, s in enumerate(steps):
            if s == 'r':
                rects[i, j] = k = next(serial)
                out.append(b'%d 5 1 1 re f' % k)
            elif s < len(fs):
                out.append(b'/%s Do' % NAMES[s].encode())
        return b'\n'.join(out)
    count = [0]
    cut = [0]

    def model(i, steps, drawing):
        out = []
        for j, s in enumerate(steps):
            count[0] += 1
            if count[0] > 400:
                return out
            if s == 'r':
                out.append(rects[i, j])
            elif s < len(fs):
                if s in drawing:
                    cut[0] += 1
                else:
                    out.append([s] + model(s, fs[s][0], drawing + (s,)))
        return out
    xo = ('dict', [(NAMES[i].encode(), R(40 + i)) for i in range(len(fs))])
    objs = {30: D(XObject=xo)}
    for i, (steps, own) in enumerate(fs):
        pairs = [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(10 + i), I(9)))]
        if own:
            pairs.append((b'Resources', R(30) if ch.pick(2) else D(XObject=xo)))
        objs[40 + i] = ('stream', pairs, program(i, steps))
    want = None
    body = program(-1, page)
    want = model(-1, page, ())
    if count[0] > 400:
        return
    if cut[0]:
        cx.nontrivial()
    path = cx.write('f.pdf', page_file(body, D(XObject=xo), objs, ch=ch))

    def seen(items):
        out = []
        for it in items:
            if isinstance(it, LTXObject):
                out.append([int(it.x1 - it.x0) - 10] + seen(it))
            elif isinstance(it, LTCurve):
                out.append(int(round(it.x0)))
        return out
    for n in range(2):
        (p,) = PDFInterpreter(path, caching=caching)
        cx.eq(seen(p), want, 'what is drawn, forms in brackets')
        cx.eq(seen(p), want, 'what is drawn the second time')


# ---------------------------------------------------------------- references that lead nowhere

def spots(objs):
    """all places of a value: (object, path)"""
    out = []

    def go(v, k, path):
        if v[0] in ('dict', 'stream'):
            for i, (_, x) in enumerate(v[1]):
                out.append((k, path + (i,)))
                go(x, k, path + (i,))
        elif v[0] == 'arr':
            for i, x in enumerate(v[1]):
                out.append((k, path + (i,)))
                go(x, k, path + (i,))
    for k in sorted(objs):
        if objs[k][0] == 'stream':
            out.append((k, ('Length',)))
        go(objs[k], k, ())
    return out


def put(v, path, new):
    if not path:
        return new
    if path == ('Length',):
        return ('stream', list(v[1]) + [(b'Length', new)], v[2])
    i = path[0]
    if v[0] == 'arr':
        return ('arr', [put(x, path[1:], new) if j == i else x for j, x in enumerate(v[1])])
    pairs = [(k, put(x, path[1:], new) if j == i else x) for j, (k, x) in enumerate(v[1])]
    return ('dict', pairs) if v[0] == 'dict' else ('stream', pairs, v[2])


def outcome(path, **kw):
    """the items of the document, or the type of the error; never an exhausted stack"""
    try:
        return docs.tree(path, **kw)
    except (RecursionError, MemoryError) as e:
        raise Violation('%s: %s' % (type(e).__name__, e))
    except Exception as e:
        return type(e).__name__


def sealed(objs, sec):
    if sec is None:
        return dict(objs), []
    objs = {k: sec.value(v, k) for k, v in objs.items()}
    objs[90] = sec.dictionary()
    return objs, [(b'Encrypt', R(90)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]


LOOPS = {'self': {80: 80}, 'two': {80: 81, 81: 80}, 'three': {80: 81, 81: 82, 82: 80}, 'lasso': {80: 81, 81: 82, 82: 81}}
missing = st.tuples(docs.small(pages=2, parts=3), st.integers(0, 10 ** 6), st.sampled_from(sorted(LOOPS)), st.sampled_from([None, None, 'V2R3', 'V4AES']), st.booleans())


def fn_missing(case, cx):
    """a value of the document becomes a reference to references in a circle: the same as a reference to an object that does not exist"""
    doc, pick, loop, scheme, caching = case
    objs, ch = docs.objects(doc)
    places = spots(objs)
    k, path = places[pick % len(places)]
    sec = Security(scheme, b'', b'', -4) if scheme else None
    both = []
    for name, target in (('circle', 80), ('missing', GONE)):
        o = dict(objs)
        o, extra = sealed(o, sec)
        o[k] = put(o[k], path, R(target))
        for a, b in LOOPS[loop].items():
            o[a] = R(b)
        both.append(outcome(cx.write(name + '.pdf', simple_file(o, trailer_extra=extra)), caching=caching))
    o, extra = sealed(objs, sec)
    whole = outcome(cx.write('whole.pdf', simple_file(o, trailer_extra=extra)), caching=caching)
    if both[1] != whole:
        cx.nontrivial()
    cx.tag('error' if isinstance(both[1], str) else 'items')
    cx.eq(both[0], both[1], 'document with a circle of references (%s) in object %d at %r, and with a reference to a missing object there' % (loop, k, path))


# ---------------------------------------------------------------- objects that are needed to read themselves

itself = st.tuples(st.sampled_from(['length', 'length 2', 'objstm', 'objstm 2', 'font', 'font 2', 'filter', 'parms']), docs.small(pages=2, parts=3),
                   st.sampled_from(['V2R3', 'V4AES']), st.booleans(), st.integers(0, 3))


def fn_itself(case, cx):
    """stream lengths, object streams, filters and descendant fonts that refer to the object they belong to"""
    kind, doc, scheme, caching, pick = case
    objs, ch = docs.objects(doc)
    results = []
    streams = [k for k in objs if objs[k][0] == 'stream']
    me = streams[pick % len(streams)]
    cx.nontrivial()
    for closing in (True, False):
        o = dict(objs)
        extra = []
        entries = {}
        if kind.startswith('length'):
            o, extra = sealed(o, Security(scheme, b'', b'', -4))
            other = streams[(pick + 1) % len(streams)]
            o[me] = put(o[me], ('Length',), R((me if kind == 'length' else other) if closing else GONE))
            if kind == 'length 2' and other != me:
                o[other] = put(o[other], ('Length',), R(me if closing else GONE))
        elif kind in ('filter', 'parms'):
            key = b'Filter' if kind == 'filter' else b'DecodeParms'
            v = o[me]
            o[me] = ('stream', [(b'Filter', N('ASCIIHexDecode'))] * (kind == 'parms') + list(v[1]) + [(key, R(me if closing else GONE))], v[2].hex().encode() + b'>' if kind == 'parms' else v[2])
            if not closing:
                continue
        elif kind.startswith('font'):
            o[20] = D(Type=N('Font'), Subtype=N('Type0'), BaseFont=N('X'), Encoding=N('Identity-H'), DescendantFonts=A(R(20 if kind == 'font' else 21)))
            if kind == 'font 2':
                o[21] = D(Type=N('Font'), Subtype=N('Type0'), BaseFont=N('X'), Encoding=N('Identity-H'), DescendantFonts=A(R(20)))
            if not closing:
                continue
        else:
            # the fonts' dictionaries are said to be in object streams that are in themselves or in each other
            entries = {20: ('c', 70, 0), 21: ('c', 70, 1)}
            entries[70] = ('c', 70 if kind == 'objstm' else 71, 0) if closing else ('f',)
            if kind == 'objstm 2':
                entries[71] = ('c', 70, 1) if closing else ('f',)
        w = Writer()
        for k in sorted(o):
            if k not in entries:
                w.obj(k, o[k])
        table = {k: ('n', w.offsets[k], 0) for k in o if k not in entries}
        table.update(entries)
        w.end(w.xref_stream(75, table, [(b'Root', R(1))] + extra))
        results.append(outcome(cx.write('i%d.pdf' % closing, w.bytes()), caching=caching))
    if len(results) == 2:
        cx.eq(results[0], results[1], 'document with a %s that leads back to itself, and with a missing one' % kind)


# ---------------------------------------------------------------- cross-reference sections

section = st.tuples(st.sampled_from(['table', 'stream']), st.lists(st.integers(10, 17), max_size=4), st.one_of(st.none(), st.integers(0, 5)), st.one_of(st.none(), st.integers(0, 5)))
sections = st.tuples(st.one_of(st.lists(section, min_size=1, max_size=6), st.lists(section, min_size=1, max_size=6), st.tuples(st.just('chain'), st.sampled_from([900, 1500, 2600, 4000]))), st.booleans())


def fn_sections(case, cx):
    """chains of sections in circles or shared by two sections; chains of more than a thousand sections"""
    secs, caching = case
    if secs[0] == 'chain':
        secs = [('table', [10 + i % 8], i - 1 if i else None, None) for i in range(secs[1])]
        cx.nontrivial()
    n = len(secs)
    w = Writer()
    WIDTH = 10
    w.obj(1, D(Type=N('Catalog'), Mark=I(1)))
    bodies = []
    for s, (form, nums, prev, stm) in enumerate(secs):
        offs = {}
        for k in nums:
            w.obj(k, I(1000 * s + k))
            offs[k] = w.offsets[k]
        bodies.append(offs)
    # positions: all numbers are of one width, so a first pass knows the positions
    streams = [i for i, x in enumerate(secs) if x[0] == 'stream']
    where = [0] * n
    for final in (False, True):
        mark = len(w.buf)
        for s, (form, nums, prev, stm) in enumerate(secs):
            tr = [(b'Root', R(1)), (b'Size', I(90000))]
            if prev is not None:
                tr.append((b'Prev', ('raw', b'%010d' % where[prev % n])))
            if stm is not None and streams:
                tr.append((b'XRefStm', ('raw', b'%010d' % where[streams[stm % len(streams)]])))
            ents = {1: w.offsets[1], **bodies[s]}
            if form == 'table':
                pos = w.xref_table({k: (o, 0) for k, o in ents.items()}, tr)
            else:
                pos = w.xref_stream(20000 + s, {k: ('n', o, 0) for k, o in ents.items()}, tr)
            where[s] = pos
        if not final:
            del w.buf[mark:]
    w.end(where[-1])
    want, seen, todo, again = {}, set(), [n - 1], 0
    while todo:
        s = todo.pop()
        if s in seen:
            again += 1
            continue
        seen.add(s)
        form, nums, prev, stm = secs[s]
        for k in nums:
            want.setdefault(k, 1000 * s + k)
        if prev is not None:
            todo.append(prev % n)
        if stm is not None and streams:
            todo.append(streams[stm % len(streams)])
    if again:
        cx.nontrivial()
    doc = open_doc(w.bytes(), fallback=False, caching=caching)
    got = {}
    for k in range(10, 18):
        try:
            got[k] = doc.getobj(k)
        except PDFMajorException:
            pass
    cx.eq(got, want, 'objects of the sections')


# ---------------------------------------------------------------- name trees

words = st.lists(st.sampled_from([b'a', b'b', b'c', b'd', b'e', b'f', b'g', b'h']), min_size=1, max_size=8, unique=True)
names = st.tuples(words, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.booleans()), max_size=5), st.integers(1, 4), st.booleans())


def fn_names(case, cx):
    """name trees with nodes below themselves or below two nodes"""
    keys, edges, nleaf, caching = case
    keys = sorted(keys)
    # 10 is the root, 11 and 12 are nodes, 20.. leaves
    inner = {10: [11, 12], 11: [], 12: []}
    for i in range(nleaf):
        inner[11 + i % 2].append(20 + i)
    every = [10, 11, 12] + [20 + i for i in range(nleaf)]
    for a, b, first in edges:
        a = 10 + a % 3
        b = every[b % len(every)]
        inner[a].insert(0 if first else len(inner[a]), b)
        cx.nontrivial()
    objs = {1: D(Type=N('Catalog'), Names=D(Dests=R(10)))}
    for k, kids in inner.items():
        objs[k] = D(Kids=('arr', [R(x) for x in kids]))
    for i in range(nleaf):
        mine = keys[i::nleaf]
        objs[20 + i] = ('dict', [(b'Names', A(*[x for k in mine for x in (('str', k), I(100 + keys.index(k)))]))])
    doc = open_doc(simple_file(objs), caching=caching)
    from pdfmajor.execptions import PDFDestinationNotFound
    for k in (b'', b'a', b'b', b'c', b'd', b'e', b'f', b'g', b'h', b'zz'):
        try:
            got = doc.get_dest(k)
        except PDFDestinationNotFound:
            got = None
        cx.eq(got, 100 + keys.index(k) if k in keys else None, 'destination %r' % k)


# ---------------------------------------------------------------- ranges

BIG = st.sampled_from([70000, 10 ** 6, 0x7fffffff, 0xffffffff])
ranges = st.tuples(st.sampled_from(['bfrange', 'bfrange', 'cidrange', 'W', 'W', 'W2', 'index', 'table', 'columns', 'colors', 'count', 'N']), st.integers(0, 300), BIG, st.lists(st.integers(0, 400), min_size=1, max_size=6), gen.short_tape)


def text_doc(tounicode, extra, codes, enc='Identity-H'):
    objs = {20: ('dict', [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', N('X')), (b'Encoding', N(enc)), (b'DescendantFonts', A(R(21))), (b'ToUnicode', R(22))]),
            21: ('dict', [(b'Type', N('Font')), (b'Subtype', N('CIDFontType2')), (b'BaseFont', N('X')), (b'CIDSystemInfo', D(Registry=('str', b'Adobe'), Ordering=('str', b'Identity'), Supplement=I(0))),
                          (b'FontDescriptor', D(Type=N('FontDescriptor'), FontName=N('X'), FontBBox=A(I(0), I(-200), I(1000), I(800)), Ascent=I(800), Descent=I(-200)))] + extra),
            22: ('stream', [], tounicode)}
    body = b'BT /F1 10 Tf (' + b''.join(b'\\%03o\\%03o' % divmod(c, 256) for c in codes) + b') Tj ET'
    return page_file(body, D(Font=D(F1=R(20))), objs)


def fn_ranges(case, cx):
    """ranges of codes, widths, objects and columns far larger than the file: as the part of them that can be meant"""
    kind, first, size, codes, tape = case
    if size > 10 ** 6:
        cx.nontrivial()
    last = first + size
    one = b'/CIDInit /ProcSet findresource begin begincmap 1 begincodespacerange <0000> <ffff> endcodespacerange 1 beginbfrange <0000> <ffff> <0020> endbfrange endcmap'

    def show(data, **kw):
        r = outcome(cx.write('r.pdf', data), **kw)
        return r
    if kind in ('bfrange', 'cidrange'):
        hexs = lambda a: b'<%08x>' % min(a, 0xffffffff)
        docs_ = []
        for end in (last, 0xffff):
            if kind == 'bfrange':
                cm = b'begincmap 1 beginbfrange ' + hexs(first) + b' ' + hexs(end) + b' <0020> endbfrange endcmap'
            else:
                cm = one.replace(b'endcmap', b'1 begincidrange ' + hexs(first) + b' ' + hexs(end) + b' 5 endcidrange endcmap')
            docs_.append(show(text_doc(cm, [], codes)))
        cx.eq(docs_[0], docs_[1], 'text with a %s of %d codes, and with one that ends at the last code' % (kind, size))
    elif kind in ('W', 'W2'):
        tail = [I(500)] if kind == 'W' else [I(-500), I(250), I(700)]
        a, b = [show(text_doc(one, [(kind.encode(), ('arr', [I(first), I(end)] + tail))], codes, 'Identity-H' if kind == 'W' else 'Identity-V')) for end in (last, 0xffff)]
        cx.eq(a, b, 'text with a width range of %d characters, and with one that ends at the last character' % size)
    elif kind in ('columns', 'colors'):
        import zlib
        data = bytes([0]) + bytes(codes[0] % 256 for _ in range(20))
        parms = D(Predictor=I(12), **({'Columns': I(size)} if kind == 'columns' else {'Colors': I(size), 'Columns': I(50)}))
        doc = open_doc(simple_file({1: D(Type=N('Catalog')), 5: ('stream', [(b'Filter', N('FlateDecode')), (b'DecodeParms', parms)], zlib.compress(data))}))
        cx.eq(doc.getobj(5).get_data(), data[1:], 'one row of a predicted stream with %d columns' % size)
    else:
        w = Writer()
        w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
        w.obj(2, D(Type=N('Pages'), Kids=A(R(3) if kind != 'index' or first % 2 else R(GONE)), Count=I(size if kind == 'count' else 1)))
        w.obj(3, D(Type=N('Page'), MediaBox=A(I(0), I(0), I(77), I(9))))
        if kind == 'N':
            w.objstm(7, [(8, I(5)), (9, N('x'))])
            at = bytes(w.buf).rindex(b'/N ')
            w.buf[at:at + 4] = b'/N %d' % size
        ents = {k: ('n', w.offsets[k], 0) for k in w.offsets}
        if kind == 'index':
            pos = w.xref_stream(6, ents, [(b'Root', R(1))])
            tail = bytes(w.buf[pos:])
            tail = re.sub(rb'/Index\s*\[[^]]*\]', b'/Index [1 3 6 %d]' % size, tail)
            w.buf[pos:] = tail
        else:
            pos = w.xref_table({k: (o, 0) for k, (_, o, _) in ents.items()}, [(b'Root', R(1)), (b'Size', I(size))])
            if kind == 'table':
                tail = bytes(w.buf[pos:])
                w.buf[pos:] = re.sub(rb'xref\n1 3\n', b'xref\n1 %d\n' % size, tail)
        if kind == 'table' and first % 3 == 0:
            # the file ends within the table; startxref is written before it
            del w.buf[pos:]
            at = pos + 24
            w.buf += b'startxref\n%07d\n%%%%EOF\n' % at
            w.buf += b'xref\n1 %d\n' % size + b''.join(b'%010d 00000 n \n' % ents[k][1] for k in sorted(ents)[:first % 4])
        else:
            w.end(pos)
        pages = [p.mediabox[2] for p in PDFPage.create_pages(open_doc(w.bytes()))]
        cx.eq(pages, [77], 'pages of a document with a %s of %d' % (kind, size))


# ---------------------------------------------------------------- damage of any kind

TOKEN = re.compile(rb'\d+ 0 R|/\w+|\(.*?\)|<[0-9a-f]*>|<<|>>|\[|\]|-?\d+|\w+')
NUMBERS = [b'0', b'1', b'2', b'3', b'20', b'21', b'22', b'24', b'25', b'27', b'30', b'-1', b'99', b'1000', b'65536', b'2147483648', b'99999999999']
edit = st.tuples(st.sampled_from(['ref', 'ref', 'ref', 'num', 'num', 'swap', 'byte', 'cut', 'paste', 'end']), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6))
damaged = st.tuples(docs.small(pages=2, parts=3), st.lists(edit, min_size=1, max_size=5), st.booleans(), st.booleans())


def mangle(data, edits):
    for how, i, j in edits:
        if not data:
            return data
        if how in ('ref', 'num', 'swap'):
            toks = list(TOKEN.finditer(data)) if how != 'num' else list(re.finditer(rb'-?\d+', data))
            if how == 'ref':
                toks = [t for t in toks if t.group().endswith(b' R')] or toks
            if not toks:
                continue
            t = toks[i % len(toks)]
            new = {'ref': lambda: [b'1 0 R', b'2 0 R', b'20 0 R', b'21 0 R', b'22 0 R', b'23 0 R', b'24 0 R', b'25 0 R', b'27 0 R', b'30 0 R', b'31 0 R', b'32 0 R'][j % 12],
                   'num': lambda: NUMBERS[j % len(NUMBERS)], 'swap': lambda: toks[j % len(toks)].group()}[how]()
            data = data[:t.start()] + new + data[t.end():]
        else:
            k = i % len(data)
            data = {'byte': lambda: data[:k] + bytes([j % 256]) + data[k + 1:], 'cut': lambda: data[:k] + data[k + 1 + j % 20:],
                    'paste': lambda: data[:k] + data[j % len(data):][:1 + i % 30] + data[k:], 'end': lambda: data[:k] if j % 4 == 0 else data}[how]()
    return data


def fn_bytes(case, cx):
    """documents with a few references, numbers, tokens or bytes changed: whatever comes of it, it comes to an end"""
    doc, edits, caching, refs_only = case
    if refs_only:
        edits = [('ref', i, j) for _, i, j in edits]
    whole = docs.build(doc)
    data = mangle(whole, edits)
    a, b = outcome(cx.write('w.pdf', whole)), outcome(cx.write('m.pdf', data), caching=caching)
    if a != b:
        cx.nontrivial()
    cx.tag('items' if isinstance(b, list) else 'error')


# ---------------------------------------------------------------- depth

deep = st.tuples(st.sampled_from(['pages', 'names', 'outlines', 'refs', 'direct', 'contents', 'forms', 'dag', 'q', 'strings']), st.one_of(st.integers(1, 60), st.integers(400, 6000)), st.integers(0, 9), gen.tape)


class Limit:
    """the recursion limit of a plain interpreter, counted from here"""
    def __enter__(self):
        self.old = sys.getrecursionlimit()
        n, f = 0, sys._getframe()
        while f:
            n, f = n + 1, f.f_back
        sys.setrecursionlimit(n + 970)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.old)


def fn_deep(case, cx):
    """trees, chains and nested objects of great depth are read as ever"""
    kind, n, k, tape = case
    if kind == 'forms':
        n = min(n, 400)
    cx.nontrivial(n > 300 or kind == 'dag')
    cx.tag(kind)
    ch = Choices(tape)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(R(3)), Count=I(1)),
            3: D(Type=N('Page'), Parent=R(2), MediaBox=A(I(0), I(0), I(77), I(9)))}
    side = [ch.pick(3) for _ in range(n)]          # where the deep branch stands among its siblings

    def order(i, branch, other):
        return [[branch], [other, branch], [branch, other]][side[i]]
    with Limit():
        if kind == 'pages':
            want, after = [], []
            objs[2] = ('dict', [(b'Type', N('Pages')), (b'Kids', A(R(10))), (b'Count', I(1)), (b'MediaBox', A(I(0), I(0), I(50), I(7)))])
            for i in range(n):
                p = D(Type=N('Page'), Parent=R(10 + i), Rotate=I(90 * (i % 4)))
                if side[i]:
                    objs[10 + n + 1 + i] = p
                    (want if side[i] == 1 else after).append((10 + n + 1 + i, 90 * (i % 4), 50))
                objs[10 + i] = D(Type=N('Pages'), Kids=('arr', order(i, R(11 + i), R(10 + n + 1 + i))), Count=I(1))
            objs[10 + n] = D(Type=N('Page'), Parent=R(9 + n), Rotate=I(90))
            want += [(10 + n, 90, 50)] + after[::-1]
            pages = [(p.pageid, p.rotate, p.mediabox[2]) for p in PDFPage.create_pages(open_doc(simple_file(objs)))]
            cx.eq(pages, want, 'pages of a tree of %d levels' % n)
        elif kind == 'dag':
            n = min(n, 60)
            objs[2] = D(Type=N('Pages'), Kids=A(R(10)), Count=I(1))
            for i in range(n):
                objs[10 + i] = D(Type=N('Pages'), Kids=('arr', [R(11 + i)] * (1 + side[i])), Count=I(1))
            objs[10 + n] = D(Type=N('Page'), Parent=R(9 + n), MediaBox=A(I(0), I(0), I(77), I(9)))
            pages = {(p.pageid, p.mediabox[2]) for p in PDFPage.create_pages(open_doc(simple_file(objs)))}
            cx.eq(pages, {(10 + n, 77)}, 'pages below %d nodes some of which are listed again' % n)
        elif kind == 'names':
            objs[1] = D(Type=N('Catalog'), Pages=R(2), Names=D(Dests=R(10)))
            for i in range(n):
                objs[10 + n + 1 + i] = D(Names=A(('str', b'n%04d' % i), I(i)))
                objs[10 + i] = D(Kids=('arr', order(i, R(11 + i), R(10 + n + 1 + i))))
            objs[10 + n] = D(Names=A(('str', b'end'), I(7)))
            doc = open_doc(simple_file(objs))
            cx.eq(doc.get_dest(b'end'), 7, 'name at level %d' % n)
            for i in (0, n // 2, n - 1):
                if side[i]:
                    cx.eq(doc.get_dest(b'n%04d' % i), i, 'name beside level %d of %d' % (i, n))
        elif kind == 'outlines':
            objs[1] = D(Type=N('Catalog'), Pages=R(2), Outlines=D(First=R(10), Last=R(10)))
            want, after = [], []
            for i in range(n):
                more = [(b'Next', R(10 + n + 1 + i))] if side[i] else []
                objs[10 + i] = ('dict', [(b'Title', ('str', b't%d' % i)), (b'Dest', N('x')), (b'First', R(11 + i)), (b'Last', R(11 + i))] + more)
                want.append((i + 1, 't%d' % i))
                if side[i]:
                    objs[10 + n + 1 + i] = D(Title=('str', b's%d' % i), Dest=N('x'))
                    after.append((i + 1, 's%d' % i))
            objs[10 + n] = D(Title=('str', b'last'), Dest=N('x'))
            got = [(x[0], x[1]) for x in open_doc(simple_file(objs)).get_outlines()]
            cx.eq(got, want + [(n + 1, 'last')] + after[::-1], 'outline of %d levels' % n)
        elif kind == 'refs':
            for i in range(n):
                objs[10 + i] = R(11 + i)
            objs[10 + n] = [I(90), N('x'), A(I(4))][k % 3]
            doc = open_doc(simple_file(objs))
            cx.eq(norm(resolve1(doc.getobj(10))), [('int', 90), ('name', b'x'), ('arr', [('int', 4)])][k % 3], 'end of %d references to references' % n)
        elif kind == 'direct':
            word = [(b'[', b']'), (b'<</A ', b'>>'), (b'[/a ', b' 3]')][k % 3]
            # (put in by hand: the writer of the harness is recursive)
            w = Writer()
            w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
            w.obj(2, D(Type=N('Pages'), Kids=A(R(3)), Count=I(1)))
            w.obj(3, D(Type=N('Page'), MediaBox=A(I(0), I(0), I(77), I(9)), Deep=R(10)))
            w.obj(10, N('@@@'))
            i = bytes(w.buf).index(b'/@@@')
            w.buf[i:i + 4] = word[0] * n + b'5' + word[1] * n
            pos = w.xref_table({j: (o, 0) for j, o in w.offsets.items()}, [(b'Root', R(1)), (b'Size', I(11))])
            w.end(pos)
            doc = open_doc(w.bytes())
            x, levels = doc.getobj(10), 0
            while isinstance(x, (list, dict)):
                x = x['A'] if isinstance(x, dict) else x[1 if k % 3 == 2 else 0]
                levels += 1
            cx.eq((levels, x), (n, 5), 'an object of %d levels' % n)
            cx.eq([p.mediabox[2] for p in PDFPage.create_pages(doc)], [77], 'pages of the document')
        else:
            body = {'contents': b'[' * n + b'3' + b']' * n + b' 0 d', 'q': b'q ' * n + b'Q ' * n, 'strings': b'(' * n + b')' * n + b' pop', 'forms': b'/Fm Do'}[kind]
            res = D()
            if kind == 'forms':
                res = D(XObject=D(Fm=R(1000)))
                for i in range(n):
                    objs[1000 + i] = ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(50), I(9))), (b'Resources', D(XObject=D(Fm=R(1001 + i))) if i < n - 1 else D())],
                                    (b'/Fm Do ' if i < n - 1 else b'') + b'3 4 5 6 re f')
            data = page_file(body + b' 1 2 30 40 re f', res, {i: v for i, v in objs.items() if i >= 1000})
            pages = list(PDFInterpreter(cx.write('d.pdf', data)))
            its, levels = list(pages[0]), 0
            cx.eq([type(x).__name__ for x in its], (['LTXObject'] if kind == 'forms' else []) + ['LTRect'], 'items of the page')
            while isinstance(its[0], LTXObject):
                levels += 1
                its = list(its[0])
            cx.eq(levels, n if kind == 'forms' else 0, 'levels of forms')


TESTS = [
    Test('deep', deep, fn_deep, quick=160, thorough=4000),
    Test('pages', st.tuples(root, st.booleans(), gen.tape), fn_pages, quick=1500, thorough=60000),
    Test('forms', forms, fn_forms, quick=1500, thorough=60000),
    Test('missing', missing, fn_missing, quick=1500, thorough=60000),
    Test('itself', itself, fn_itself, quick=400, thorough=15000),
    Test('sections', sections, fn_sections, quick=1200, thorough=40000),
    Test('names', names, fn_names, quick=1500, thorough=60000),
    Test('ranges', ranges, fn_ranges, quick=600, thorough=20000),
    Test('bytes', damaged, fn_bytes, quick=1500, thorough=80000),
]
BUDGET = {'quick': 240, 'thorough': 2400}
ASSUMPTIONS = '''a reference to an object that no section lists stands for null (P03); what a document with damage of any other kind
is read as is not judged, only that reading it ends; an end is expected within 60 s of CPU time and 3 GB for documents of a few kB'''
