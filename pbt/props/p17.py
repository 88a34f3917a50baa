"""P17: the width, height and advance of every character come from the metrics of its font."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, N, I, R, A, D, page_file
from ..afm import AFM
from ..glyphs import ENCODINGS
from ..content import Model, Font, emit, items_of, check_items, nm, operand
from ..cmaps import tounicode
from pdfmajor.interpreter import PDFInterpreter

PID = 'P17'
RULE = '''a case is non-trivial when at least three characters are shown in a font of which some have widths of their own and some the default'''

width = st.one_of(st.integers(0, 1500), st.sampled_from(['0.0', '333.5', '1000.', '249.75', 0]))
bbox = st.one_of(st.tuples(st.integers(-300, 0), st.integers(-400, 0), st.integers(300, 1500), st.integers(400, 1200)),
                 st.sampled_from([(0, 0, 0, 0), (-10, '-210.5', 990, '705.25'), (0, -250, 1000, 750)]))
vert = st.tuples(st.integers(-300, 1000), st.integers(-1200, 0))
codes = st.lists(st.one_of(st.integers(32, 126), st.integers(0, 255)), min_size=1, max_size=8)
asc = st.one_of(st.integers(300, 1100), st.sampled_from(['718.5', 0]))
desc = st.one_of(st.integers(-400, 0), st.sampled_from(['-207.5']))


def refs(v, ch, objs):
    """some numbers of an array through references"""
    out = []
    for x in v:
        if ch.pick(9) == 8:
            k = 300 + len(objs)
            objs[k] = x
            out.append(R(k))
        else:
            out.append(x)
    return ('arr', out)


def maybe_ref(v, ch, objs):
    if ch.pick(3) == 2:
        k = 300 + len(objs)
        objs[k] = v
        return R(k)
    return v


def descriptor(name, vert, bb, missing, ch, objs):
    pairs = [(b'Type', N('FontDescriptor')), (b'FontName', N(name)), (b'Flags', I(32)), (b'Ascent', maybe_ref(operand(vert[0]), ch, objs)),
             (b'Descent', operand(vert[1])), (b'ItalicAngle', I(0))]
    if bb is not None:
        pairs.append((b'FontBBox', maybe_ref(refs([operand(x) for x in bb], ch, objs), ch, objs)))
    if missing is not None:
        pairs.append((b'MissingWidth', maybe_ref(operand(missing), ch, objs)))
    return maybe_ref(('dict', pairs), ch, objs)


TOUNI = tounicode([('range', 0, 256, '\u4e00')], Choices(), 1)
LIGATURES = tounicode([('char', c, 'W%d' % c) for c in range(256)], Choices(), 1)
fl = float
F6 = lambda b: tuple(map(float, b))


def show(cx, fv, font, groups, objs, ch, size):
    prog = [('BT',), ('Tf', nm('F'), size)] + [('Tj', ('str', g)) for g in groups] + [('ET',)]
    data = page_file(emit(prog, ch), D(Font=D(F=maybe_ref(fv, ch, objs))), objs, ch=ch)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    check_items(cx, got, Model({'F': font}).run(prog), 'characters', 1e-9)


# ------------------------------------------------------------------ simple fonts
simple_case = st.tuples(st.sampled_from(['Type1', 'TrueType', 'MMType1', 'std', 'std', 'std-widths']), st.sampled_from(sorted(AFM)), st.integers(0, 255), st.lists(width, max_size=60),
                        st.one_of(st.none(), width), bbox, asc, desc, st.lists(codes, min_size=1, max_size=3), st.sampled_from([1, 12, '7.5', 1000]), gen.short_tape,
                        st.sampled_from([None, 'WinAnsiEncoding', 'StandardEncoding', 'MacRomanEncoding']), st.sampled_from(['-Bold', 'X', '']))


def simple(case, cx):
    """Type 1 and TrueType fonts, with their own or the standard metrics"""
    kind, std, first, ws, missing, bb, a, d, groups, size, tape, enc, suffix = case
    ch = Choices(tape)
    objs = {}
    groups = [bytes(g) for g in groups]
    if kind == 'std':
        asc_, desc_, box_, widths = AFM[std]
        enc = enc or 'StandardEncoding'
        table = dict(ENCODINGS[enc])
        encv = N(enc) if enc != 'StandardEncoding' or ch.pick(2) else None
        if ws:
            # some codes stand for other glyphs
            named = sorted(c for c in widths if len(c) == 1)
            diff = [I(first)]
            for k, w in enumerate(ws[:256 - first]):
                c = named[int(fl(w)) % len(named)]
                table[first + k] = c
                diff.append(N('uni%04X' % ord(c)))
            encv = ('dict', ([(b'BaseEncoding', encv)] if encv else []) + [(b'Differences', ('arr', diff))])
        groups = [bytes(c for c in g if c in table) for g in groups]
        pairs = [(b'Type', N('Font')), (b'Subtype', N('Type1')), (b'BaseFont', N(std))] + ([(b'Encoding', maybe_ref(encv, ch, objs))] if encv else [])
        text = table
        if ch.pick(3) == 2:
            # the text is not that of the glyphs
            text = {c: chr(0x4e00 + c) for c in range(256)} if ch.pick(2) else {c: 'W%d' % c for c in range(256)}
            objs[299] = ('stream', [], TOUNI if text[0] == '\u4e00' else LIGATURES)
            pairs.append((b'ToUnicode', R(299)))
        fv = ('dict', pairs)
        font = Font(std, lambda s: [(c, text[c], widths.get(table[c], 0), None) for c in s], box_, asc_, desc_)
        cx.nontrivial(sum(map(len, groups)) >= 3)
    else:
        name = std if kind == 'std-widths' else 'My' + std + suffix
        ws = ws[:256 - first]
        table = {first + i: fl(w) for i, w in enumerate(ws)}
        pairs = [(b'Type', N('Font')), (b'Subtype', N('Type1' if kind == 'std-widths' else kind)), (b'BaseFont', N(name)), (b'FirstChar', maybe_ref(I(first), ch, objs)),
                 (b'LastChar', I(first + len(ws) - 1)), *([(b'Widths', maybe_ref(refs([operand(w) for w in ws], ch, objs), ch, objs))] if ws or kind == 'std-widths' else []),
                 (b'FontDescriptor', descriptor(name, (a, d), bb, missing, ch, objs)), (b'ToUnicode', R(299))]
        objs[299] = ('stream', [], TOUNI)
        if enc:
            pairs.append((b'Encoding', N(enc)))
        fv = ('dict', pairs)
        font = Font(name, lambda s: [(c, chr(0x4e00 + c), table.get(c, fl(missing or 0)), None) for c in s], F6(bb), fl(a), fl(d))
        shown = {c for g in groups for c in g}
        cx.nontrivial(sum(map(len, groups)) >= 3 and bool(shown & set(table)) and bool(shown - set(table)))
    cx.tag(kind)
    show(cx, fv, font, groups, objs, ch, size)


# ------------------------------------------------------------------ Type 3
scale = st.sampled_from(['.001', '0.01', '.0005', '-0.001', 1, '.002'])
t3_case = st.tuples(st.integers(0, 255), st.lists(width, max_size=60), bbox, scale, scale, st.sampled_from(['none', 'bare', 'full']), st.lists(codes, min_size=1, max_size=3),
                    st.sampled_from([1, 12, '7.5']), gen.short_tape)


def type3(case, cx):
    """Type 3 fonts measure in their own glyph space"""
    first, ws, bb, sx, sy, desc_, groups, size, tape = case
    ch = Choices(tape)
    objs = {299: ('stream', [], TOUNI)}
    ws = ws[:256 - first]
    hs, vs = fl(sx), fl(sy)
    table = {first + i: fl(w) * hs * 1000 for i, w in enumerate(ws)}
    pairs = [(b'Type', N('Font')), (b'Subtype', N('Type3')), (b'FontBBox', maybe_ref(refs([operand(x) for x in bb], ch, objs), ch, objs)),
             (b'FontMatrix', maybe_ref(('arr', [operand(x) for x in (sx, 0, 0, sy, 0, 0)]), ch, objs)), (b'FirstChar', I(first)), (b'LastChar', I(first + len(ws) - 1)),
             (b'Widths', maybe_ref(refs([operand(w) for w in ws], ch, objs), ch, objs)), (b'CharProcs', ('dict', [])), (b'Encoding', D(Differences=A())), (b'ToUnicode', R(299))]
    missing = 0
    name = 'unknown'
    if desc_ != 'none':
        name = 'T3'
        missing = 250 if desc_ == 'full' else 0
        pairs.append((b'FontDescriptor', descriptor(name, (700, -200), bb if desc_ == 'full' else None, missing or None, ch, objs)))
    x0, y0, x1, y1 = F6(bb)
    lo = y0 * vs * 1000
    hi = y1 * vs * 1000
    font = Font(name, lambda s: [(c, chr(0x4e00 + c), table.get(c, missing * hs * 1000), None) for c in s], (x0, lo, x1, hi), hi, lo)
    groups = [bytes(g) for g in groups]
    shown = {c for g in groups for c in g}
    cx.nontrivial(sum(map(len, groups)) >= 3 and bool(shown & set(table)) and bool(shown - set(table)))
    cx.tag(desc_)
    # the name of a Type 3 font is not part of the property
    prog = [('BT',), ('Tf', nm('F'), size)] + [('Tj', ('str', g)) for g in groups] + [('ET',)]
    data = page_file(emit(prog, ch), D(Font=D(F=maybe_ref(('dict', pairs), ch, objs))), objs, ch=ch)
    got = items_of(next(iter(PDFInterpreter(cx.write('a.pdf', data)))))
    got = [(k, b, [(bb_, name, c, chars) for bb_, _, c, chars in blk]) for k, b, blk in got]
    check_items(cx, got, Model({'F': font}).run(prog), 'characters', 1e-9)


# ------------------------------------------------------------------ composite fonts
wentry = st.one_of(st.tuples(st.just('list'), st.integers(0, 120), st.lists(width, min_size=1, max_size=6)),
                   st.tuples(st.just('range'), st.integers(0, 120), st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(100, 600)), width))
w2 = st.tuples(st.integers(-1500, 0), st.integers(-300, 900), st.integers(-200, 1100))
w2entry = st.one_of(st.tuples(st.just('list'), st.integers(0, 120), st.lists(w2, min_size=1, max_size=5)),
                    st.tuples(st.just('range'), st.integers(0, 120), st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(100, 600)), w2))
cids = st.lists(st.one_of(st.integers(0, 140), st.integers(0, 140), st.integers(0, 750)), min_size=1, max_size=8)
comp_case = st.tuples(st.one_of(st.tuples(st.just(False), st.lists(wentry, max_size=8), st.one_of(st.none(), width)),
                                st.tuples(st.just(True), st.lists(w2entry, max_size=8), st.one_of(st.none(), st.tuples(st.integers(300, 1000), st.integers(-1500, -200))))),
                      bbox.filter(lambda b: b[0] != b[2]), asc, desc, st.one_of(st.none(), st.integers(1, 900)), st.lists(cids, min_size=1, max_size=3), st.sampled_from([1, 12, '7.5']), gen.short_tape)
TOUNI2 = tounicode([('range', 256 * i, 256, chr(0x4e00 + 256 * i)) for i in range(3)], Choices(), 2)


def composite(case, cx):
    """W and DW, W2 and DW2 of composite fonts"""
    (vertical, ents, default), bb, a, d, missing, groups, size, tape = case
    ch = Choices(tape)
    objs = {299: ('stream', [], TOUNI2)}
    table, arr, edges = {}, [], []
    for kind, first, *rest in ents:
        vals = rest[0] if kind == 'list' else [rest[1]] * rest[0]
        if any(first + i in table for i in range(len(vals))):
            continue
        for i, v in enumerate(vals):
            table[first + i] = v
        edges += [first, first + len(vals) - 1, first + len(vals)]
        arr.append(I(first))
        flat = lambda v: [operand(x) for x in v] if vertical else [operand(v)]
        if kind == 'list':
            arr.append(maybe_ref(refs([x for v in vals for x in flat(v)], ch, objs), ch, objs))
        else:
            arr += [I(first + len(vals) - 1)] + flat(rest[1])
    pairs = [(b'Type', N('Font')), (b'Subtype', N('CIDFontType2')), (b'BaseFont', N('Comp')), (b'CIDSystemInfo', D(Registry=('str', b'Adobe'), Ordering=('str', b'Identity'), Supplement=I(0))),
             (b'FontDescriptor', descriptor('Comp', (a, d), bb, missing, ch, objs))]
    if arr or ch.pick(2):
        pairs.append((b'W2' if vertical else b'W', maybe_ref(refs(arr, ch, objs), ch, objs)))
    if default is not None:
        pairs.append((b'DW2', maybe_ref(refs([operand(x) for x in default], ch, objs), ch, objs)) if vertical else (b'DW', maybe_ref(operand(default), ch, objs)))
    fv = ('dict', [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', N('Comp')), (b'Encoding', N('Identity-V' if vertical else 'Identity-H')),
                   (b'DescendantFonts', A(maybe_ref(('dict', pairs), ch, objs))), (b'ToUnicode', R(299))])
    vy, w1 = (default or (880, -1000)) if vertical else (None, None)

    def decode(s):
        out = []
        for i in range(0, len(s), 2):
            c = s[i] * 256 + s[i + 1]
            if vertical:
                w, vx, y = table.get(c, (w1, None, vy))
                out.append((c, chr(0x4e00 + c), w, (vx, y)))
            else:
                out.append((c, chr(0x4e00 + c), fl(table.get(c, 1000 if default is None else default)), None))
        return out
    font = Font('Comp', decode, F6(bb), fl(a), fl(d), vertical=vertical, simple=False)
    if edges and ch.pick(2):           # the first, the last and the next one after the CIDs of an entry
        groups = groups + [[e for e in edges if ch.pick(2)] or edges[:3]]
    shown = {c for g in groups for c in g}
    cx.nontrivial(sum(map(len, groups)) >= 3 and bool(shown & set(table)) and bool(shown - set(table)))
    cx.tag('vertical' if vertical else 'horizontal')
    show(cx, fv, font, [b''.join(c.to_bytes(2, 'big') for c in g) for g in groups], objs, ch, size)


TESTS = [Test('simple', simple_case, simple, quick=8000, thorough=100000),
         Test('type3', t3_case, type3, quick=3000, thorough=30000),
         Test('composite', comp_case, composite, quick=6000, thorough=80000)]
