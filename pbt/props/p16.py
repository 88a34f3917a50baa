"""P16: composite fonts split strings into character codes and give each the right text."""
from io import BytesIO
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, page_file
from ..cmaps import entry, fit, meaning, tounicode, hx, ws, texts
from ..content import emit, nm
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import UnicodeNotDefined
from pdfmajor.parser.cmapdb import CMapParser, FileCMap, FileUnicodeMap, CMapDB
from ..fresh import forget

PID = 'P16'
RULE = '''a case is non-trivial when at least three different mapped codes are shown or decoded and the map has at least two entries of which one is a range'''

font = st.tuples(st.booleans(), st.lists(entry, min_size=1, max_size=6), st.integers(0, 2))
show = st.lists(st.tuples(st.integers(0, 10 ** 6), st.booleans()), min_size=1, max_size=10)
case = st.tuples(st.lists(st.tuples(font, st.lists(show, min_size=1, max_size=3)), min_size=1, max_size=2), st.booleans(), st.booleans(), gen.short_tape)


def identity(case, cx):
    """Identity-H and Identity-V fonts with a ToUnicode map"""
    parts, ignore, odd, tape = case
    ch = Choices(tape)
    objs, prog, want, fpairs, seen = {}, [], [], [], set()
    missing = False
    rich = False
    for k, ((vert, ents, share), shows) in enumerate(parts):
        ents = fit(ents, 65535)
        table = meaning(ents)
        rich = rich or len(ents) >= 2 and any(e[0] != 'char' for e in ents)
        keys = sorted(table)
        cid = [(b'Type', N('Font')), (b'Subtype', N(['CIDFontType2', 'CIDFontType0'][ch.pick(2)])), (b'BaseFont', N('Comp')),
               (b'CIDSystemInfo', D(Registry=('str', b'Adobe'), Ordering=('str', [b'Identity', b'UCS'][ch.pick(2)]), Supplement=I(0))),
               (b'FontDescriptor', D(Type=N('FontDescriptor'), FontName=N('Comp'), Flags=I(4), Ascent=I(750), Descent=I(-200), FontBBox=A(I(0), I(-200), I(1000), I(800))))]
        cv = ('dict', cid)
        if ch.pick(2):
            objs[200 + k] = cv
            cv = R(200 + k)
        dv = A(cv)
        if ch.pick(3) == 1:
            objs[210 + k] = dv
            dv = R(210 + k)
        ev = N('Identity-V' if vert else 'Identity-H')
        if ch.pick(4) == 3:
            objs[220 + k] = ev
            ev = R(220 + k)
        objs[230 + k] = ('stream', [], tounicode(ents, ch, 2))
        v = ('dict', [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', N('Comp')), (b'Encoding', ev), (b'DescendantFonts', dv), (b'ToUnicode', R(230 + k))])
        if ch.pick(2):
            objs[240 + k] = v
            v = R(240 + k)
        fpairs.append((b'F%d' % k, v))
        prog += [('BT',), ('Tf', nm('F%d' % k), 10)]
        for s in shows:
            b = b''
            for n, mapped in s:
                c = keys[n % len(keys)] if keys and (mapped or not ignore and ch.pick(8) != 7) else n % 65536
                b += c.to_bytes(2, 'big')
                seen.add((k, c) if c in table else None)
                missing = missing or c not in table
                want.append(table.get(c, ''))
            if odd:
                b += b'\x41'                   # half a code
            prog.append(('Tj', ('str', b)))
        prog.append(('ET',))
    data = page_file(emit(prog, ch), D(Font=('dict', fpairs)), objs, ch=ch)
    page = next(iter(PDFInterpreter(cx.write('a.pdf', data), ignore_bad_chars=ignore)))
    cx.nontrivial(len(seen - {None}) >= 3 and rich)
    try:
        got = [c.get_text() for block in page for cb in block for c in cb]
    except UnicodeNotDefined:
        if missing and not ignore:
            cx.tag('undefined code reported')
            return
        raise
    if missing and not ignore:
        raise Violation('a code without text was shown, but UnicodeNotDefined was not raised: %r' % got)
    cx.eq(got, want, 'text of the characters shown')


# ------------------------------------------------------------------ CMap programs

# (length of codes, first bytes) spaces that no other space's codes can begin with
lead = st.lists(st.integers(0, 3), min_size=256, max_size=256)
cid_entry = st.tuples(st.booleans(), st.integers(0, 255), st.binary(min_size=3, max_size=3), st.integers(1, 30), st.integers(0, 30000))
cmap_case = st.tuples(st.integers(0, 255), st.lists(cid_entry, min_size=1, max_size=8), st.lists(cid_entry, max_size=3), st.lists(st.integers(0, 10 ** 6), max_size=12),
                      st.sampled_from([None, 0, 1]), gen.short_tape)


def code_length(first, pivot):
    """the code space: the first byte alone decides how long a code is"""
    return 1 + (first ^ pivot) % 4


def cid_entries(raw, pivot):
    out, used = [], {}
    for is_char, first, rest, n, cid in raw:
        L = code_length(first, pivot)
        code = bytes([first]) + rest[:L - 1]
        if L == 1:
            n = min(n, next((i for i in range(1, 256 - first) if code_length(first + i, pivot) != 1), 256 - first))
        n = 1 if is_char else min(n, 256 - code[-1])
        codes = [code[:-1] + bytes([code[-1] + i]) for i in range(n)]
        if any(c in used for c in codes):
            continue
        used.update((c, cid + i) for i, c in enumerate(codes))
        out.append(('char' if is_char else 'range', code, n, cid))
    return out, used


def cmap_text(ents, ch, wmode):
    out = ['/CIDInit /ProcSet findresource begin 12 dict begin begincmap\n/CMapName /Test def\n']
    if wmode is not None:
        out.append('/WMode %d def\n' % wmode)
    out.append('1 begincodespacerange <00> <ff> endcodespacerange\n')
    i = 0
    while i < len(ents):
        j = i + 1
        while j < len(ents) and ents[j][0] == ents[i][0] and ch.pick(4) != 3:
            j += 1
        out.append('%d begincid%s%s' % (j - i, ents[i][0], ws(ch)))
        for kind, code, n, cid in ents[i:j]:
            out.append(hx(code, ch) + ws(ch))
            if kind == 'range':
                out.append(hx(code[:-1] + bytes([code[-1] + n - 1]), ch) + ws(ch))
            out.append('%d ' % cid)
        out.append('endcid%s\n' % ents[i][0])
        i = j
    out.append('endcmap CMapName currentdict /CMap defineresource pop end end\n')
    return ''.join(out).encode('latin-1')


def cmaps(case, cx):
    """CMapParser: codes of any length to CIDs, on top of another map"""
    pivot, raw, raw2, picks, wmode, tape = case
    ch = Choices(tape)
    ents, table = cid_entries(raw, pivot)
    m = FileCMap()
    CMapParser(m, BytesIO(cmap_text(ents, ch, wmode))).run()
    cx.eq(m.is_vertical(), wmode == 1, 'is_vertical with WMode %r' % wmode)
    codes = sorted(table)
    text = [codes[p % len(codes)] for p in picks]
    cx.nontrivial(len(set(text)) >= 3 and len(ents) >= 2 and any(e[0] == 'range' for e in ents))
    for c in {len(c) for c in text}:
        cx.tag('%d-byte codes' % c)
    cx.eq(list(m.decode(b''.join(text))), [table[c] for c in text], 'CIDs of %r' % (b''.join(text),))
    # a map that uses this one and redefines some codes
    ents2, table2 = cid_entries(raw2, pivot)
    d = FileCMap()
    d.use_cmap(m)
    CMapParser(d, BytesIO(cmap_text(ents2, ch, None))).run()
    both = dict(table)
    both.update(table2)
    codes = sorted(both)
    text2 = [codes[p % len(codes)] for p in picks]
    cx.eq(list(d.decode(b''.join(text2))), [both[c] for c in text2], 'CIDs of %r with usecmap' % (b''.join(text2),))
    cx.eq(list(m.decode(b''.join(text))), [table[c] for c in text], 'CIDs of %r in the used map' % (b''.join(text),))


umap_case = st.tuples(st.lists(entry, min_size=1, max_size=8), st.integers(1, 3), gen.short_tape)


def unicode_maps(case, cx):
    """CMapParser: bfchar and bfrange sections"""
    raw, width, tape = case
    ents = fit(raw, 256 ** min(width, 2) - 1)
    table = meaning(ents)
    m = FileUnicodeMap()
    CMapParser(m, BytesIO(tounicode(ents, Choices(tape), width))).run()
    cx.nontrivial(len(table) >= 3 and len(ents) >= 2 and any(e[0] != 'char' for e in ents))
    cx.eq({c: m.get_unichr(c) for c in m.cid2unichr}, table, 'code to text')


ident_case = st.tuples(st.booleans(), st.binary(max_size=20))


def identity_cmap(case, cx):
    """Identity-H and -V: two bytes are one code, half a code is none"""
    vert, b = case
    m = CMapDB.get_cmap('Identity-V' if vert else 'Identity-H')
    cx.eq(m.is_vertical(), vert, 'is_vertical')
    cx.nontrivial(len(b) >= 6)
    cx.eq(list(m.decode(b)), [b[i] * 256 + b[i + 1] for i in range(0, len(b) - 1, 2)], 'codes of %r' % b)


def tounicode_codes(table, ch):
    out = ['begincmap\n']
    for c, t in sorted(table.items(), key=lambda p: (len(p[0]), p[0])):
        if ch.pick(3) == 2:
            out.append('1 beginbfrange ' + hx(c, ch) + ws(ch) + hx(c, ch) + ws(ch) + '[' + hx(t.encode('utf-16-be'), ch) + '] endbfrange\n')
        else:
            out.append('1 beginbfchar ' + hx(c, ch) + ws(ch) + hx(t.encode('utf-16-be'), ch) + ' endbfchar\n')
    return ''.join(out + ['endcmap\n']).encode('latin-1')


def code_key(code):
    return int.from_bytes(code, 'big')


inst_case = st.tuples(st.integers(0, 255), st.lists(cid_entry, min_size=1, max_size=6), st.lists(st.tuples(texts, texts), min_size=1, max_size=6),
                      st.booleans(), st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=10), st.booleans(), st.booleans(), st.none() | st.tuples(st.booleans(), gen.short_tape))


def plus(d, more):
    return 'dict', d[1] + more


def metrics(cids):
    """widths, which have nothing to do with the text"""
    k = sum(cids) % 4
    c = cids[0]
    return [[], [(b'W', A(I(c), A(I(500))))], [(b'W2', A(I(c), I(c + 3), I(-900), I(500), I(880)))], [(b'DW', I(800)), (b'DW2', A(I(900), I(-950))), (b'W2', A(I(c), A(I(-700), I(400), I(800))))]][k]


def installed(case, cx):
    """CMaps and CID collections installed in a folder of their own (CMAP_PATH)"""
    import gzip, pickle, os, hashlib
    pivot, raw, uni, vert, picks, ignore, both, touni = case
    ents, table = cid_entries(raw, pivot)
    tree = {}
    for code, cid in table.items():
        d = tree
        for b in code[:-1]:
            d = d.setdefault(b, {})
        d[code[-1]] = cid
    tag = 'T' + hashlib.sha256(repr(case).encode('utf-8', 'surrogatepass')).hexdigest()[:20]
    cids = sorted(set(table.values()))
    h = {c: uni[i % len(uni)][0] for i, c in enumerate(cids) if i % 5 != 4}
    v = {c: uni[i % len(uni)][1] for i, c in enumerate(cids) if i % 5 != 4}
    os.environ['CMAP_PATH'] = cx.scratch
    files = []
    for name, obj in [(tag + '-H', dict(CODE2CID=tree, IS_VERTICAL=False)), (tag + '-V', dict(CODE2CID=tree, IS_VERTICAL=True)), ('to-unicode-Adobe-' + tag, dict(CID2UNICHR_H=h, CID2UNICHR_V=v))]:
        files.append(cx.path(name + '.pickle.gz'))
        with gzip.open(files[-1], 'wb') as f:
            f.write(pickle.dumps(obj))
    try:
        codes = sorted(table)
        if not ignore:
            codes = [c for c in codes if table[c] in h] or codes
        text = [codes[p % len(codes)] for p in picks]
        # the collection in one direction, or in both by two fonts of a page, and once more by the first
        dirs = [vert, not vert, vert] if both else [vert]
        want = [(v if d else h).get(table[c], '') for d in dirs for c in text]
        missing = bool([c for c in text if table[c] not in h])
        objs, extra = {}, []
        if touni:
            # a ToUnicode map is about the codes, whatever their CIDs are
            bycode = {c: uni[(3 * i + 1) % len(uni)][touni[0]] for i, c in enumerate(sorted(table)) if i % 4 != 3 and len({len(k) for k in table if code_key(k) == code_key(c)}) == 1}
            if not ignore:
                text = [c for c in text if c in bycode] or text
            missing = bool([c for c in text if c not in bycode])
            want = [bycode.get(c, '') for d in dirs for c in text]
            ch = Choices(touni[1])
            objs = {20: ('stream', [], tounicode_codes(bycode, ch))}
            extra = [(b'ToUnicode', R(20))]
            cx.tag('ToUnicode')
        font = lambda d: ('dict', [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', N('Comp')), (b'Encoding', N(tag + ('-V' if d else '-H')))] + extra + [(b'DescendantFonts', A(plus(D(
            Type=N('Font'), Subtype=N('CIDFontType0'), BaseFont=N('Comp'), CIDSystemInfo=D(Registry=('str', b'Adobe'), Ordering=('str', tag.encode()), Supplement=I(0)),
            FontDescriptor=D(Type=N('FontDescriptor'), FontName=N('Comp'), Flags=I(4), Ascent=I(750), Descent=I(-200), FontBBox=A(I(0), I(-200), I(1000), I(800)))), metrics(cids))))])
        prog = [op for d in dirs for op in [('BT',), ('Tf', nm('V' if d else 'H'), 10), ('Tj', ('str', b''.join(text))), ('ET',)]]
        page = next(iter(PDFInterpreter(cx.write('a.pdf', page_file(emit(prog), D(Font=D(H=font(False), V=font(True))), objs)), ignore_bad_chars=ignore)))
        cx.nontrivial(len(set(text)) >= 3 and len(ents) >= 2 and any(e[0] == 'range' for e in ents))
        try:
            got = [c.get_text() for block in page for cb in block for c in cb]
        except UnicodeNotDefined:
            if missing and not ignore:
                return
            raise
        if missing and not ignore:
            raise Violation('a CID without text was shown, but UnicodeNotDefined was not raised: %r' % got)
        cx.eq(got, want, 'text of the characters shown')
    finally:
        for f in files:
            os.remove(f)
        forget()


TESTS = [Test('identity', case, identity, quick=6000, thorough=80000),
         Test('cmaps', cmap_case, cmaps, quick=6000, thorough=80000),
         Test('installed', inst_case, installed, quick=3000, thorough=40000),
         Test('unicode_maps', umap_case, unicode_maps, quick=4000, thorough=50000),
         Test('identity_cmap', ident_case, identity_cmap, quick=800, thorough=5000)]
