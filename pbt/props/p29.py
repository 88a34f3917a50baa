"""P29: text from embedded font programs."""
import struct
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, page_file
from ..glyphs import GLYPHS, ENCODINGS, LATIN
from ..cmaps import tounicode
from ..content import emit, nm
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import UnicodeNotDefined

PID = 'P29'
RULE = '''a case is non-trivial when at least three different codes are shown that have text, and this text comes from the font program'''

# ---------------------------------------------------------------- TrueType

chars = st.one_of(st.integers(0x20, 0x7e), st.integers(0xa0, 0x17f), st.integers(0x391, 0x3c9), st.integers(0x4e00, 0x4e40), st.integers(0xe000, 0xfffd), st.sampled_from([1, 0xff, 0x100, 0xffef]))
gids = st.one_of(st.integers(1, 40), st.integers(1, 300), st.sampled_from([255, 256, 257, 1000, 65534]))
runs = st.lists(st.tuples(chars, st.integers(1, 6), gids, st.sampled_from(['delta', 'delta', 'array', 'array+delta', 'shared'])), min_size=1, max_size=6)
byte_map = st.lists(st.tuples(st.integers(0x20, 0x7e), st.integers(1, 255)), min_size=1, max_size=8)
subtable = gen.choose(
    st.tuples(st.just('f4'), st.sampled_from([(3, 1), (0, 3), (0, 0), (0, 1), (3, 10), (0, 4)]), runs),
    st.tuples(st.just('f4'), st.sampled_from([(3, 1), (0, 3)]), runs),
    st.tuples(st.just('f0'), st.sampled_from([(0, 0), (0, 3), (3, 1)]), byte_map),
    st.tuples(st.just('f2'), st.sampled_from([(0, 0), (0, 3), (3, 1)]), st.tuples(
        st.tuples(st.integers(0, 255), st.integers(0, 40), gids),
        st.lists(st.tuples(st.lists(st.sampled_from([1, 3, 4, 0x4e, 0x81, 0xe0, 0xff]), min_size=1, max_size=3), st.integers(0, 255), st.integers(0, 12), gids), max_size=4))),
    st.tuples(st.just('other'), st.sampled_from(['mac0', 'sym4', 'f6', 'f12', 'big5']), runs))


def format4(rs, ch):
    """(subtable, {char: glyph}): one segment per run, its glyphs by a delta or a glyph array"""
    segs, seen = [], set()
    for c, n, g, how in sorted(rs, key=lambda r: r[:3]):
        if segs and c <= segs[-1][1]:
            c = segs[-1][1] + 1
        e = c + n - 1
        if e > 0xfffd:
            continue
        segs.append([c, e, g, how])
    m = {}
    ecs, scs, idds, idrs, arr = [], [], [], [], []
    total = len(segs) + 1
    last = None
    for i, (c, e, g, how) in enumerate(segs):
        n = e - c + 1
        ecs.append(e)
        scs.append(c)
        if how == 'delta':
            idds.append((g - c) & 0xffff)
            idrs.append(0)
            got = [(g + k) & 0xffff for k in range(n)]
        else:
            delta = 0 if how == 'array' else (ch.pick(7) * 11 - 30) & 0xffff
            if how == 'shared' and last is not None and last[1] >= n:
                at = last[0]
            else:
                at = len(arr)
                for k in range(n):
                    arr.append(0 if ch.pick(7) == 6 else ((g + (k * 3 if ch.pick(2) else -k)) % 65533 + 1))
                last = (at, n)
            idds.append(delta)
            idrs.append(2 * (total - i) + 2 * at)
            got = [(x + delta) & 0xffff if x else 0 for x in arr[at:at + n]]
        for k in range(n):
            if got[k]:
                m[c + k] = got[k]
    ecs.append(0xffff)
    scs.append(0xffff)
    idds.append(1)
    idrs.append(0)
    n = total
    p2 = 1
    while p2 * 2 <= n:
        p2 *= 2
    body = struct.pack('>HHHH', 2 * n, 2 * p2, p2.bit_length() - 1, 2 * n - 2 * p2)
    body += struct.pack('>%dH' % n, *ecs) + b'\0\0' + struct.pack('>%dH' % n, *scs) + struct.pack('>%dH' % n, *idds) + struct.pack('>%dH' % n, *idrs) + struct.pack('>%dH' % len(arr), *arr)
    return struct.pack('>HHH', 4, 6 + len(body), 0) + body, m


def format2(single, doubles, ch):
    """(subtable, {char: glyph}): single bytes by subheader 0, and one subheader per group of first bytes"""
    keys, hdrs, m = [0] * 256, [], {}
    arr = []

    def subheader(first, n, g):
        n = min(n, 256 - first)
        delta = (ch.pick(7) * 11 - 30) if ch.pick(2) else 0
        if arr and ch.pick(4) == 3 and len(arr) >= n:
            at = ch.pick(len(arr) - n + 1)                  # glyphs of an earlier one again
        else:
            at = len(arr)
            for k in range(n):
                arr.append(0 if ch.pick(7) == 6 else (g + (k * 3 if ch.pick(2) else -k)) % 65533 + 1)
        hdrs.append((first, n, delta, at))
        return {first + k: (x + delta) & 0xffff for k, x in enumerate(arr[at:at + n]) if x}
    s0 = subheader(*single)
    for highs, first, n, g in doubles:
        highs = [h for h in highs if not keys[h]]
        got = subheader(first, min(n, 255 - first) if 255 in highs else n, g)     # U+FFFF ends every format 4 table
        for h in highs:
            keys[h] = 8 * (len(hdrs) - 1)
            m.update((h << 8 | c, x) for c, x in got.items())
    m.update((c, x) for c, x in s0.items() if not keys[c])
    body = struct.pack('>256H', *keys)
    for i, (first, n, delta, at) in enumerate(hdrs):
        body += struct.pack('>HHhH', first, n, delta, 8 * (len(hdrs) - i) - 6 + 2 * at)
    body += struct.pack('>%dH' % len(arr), *arr)
    return struct.pack('>HHH', 2, 6 + len(body), 0) + body, {c: x for c, x in m.items() if x}


def format0(pairs):
    t = [0] * 256
    for c, g in pairs:
        t[c] = g
    return struct.pack('>HHH', 0, 262, 0) + bytes(t), {c: g for c, g in enumerate(t) if g}


def truetype(subs, ch):
    """(font program, {glyph: set of characters}); all subtables for Unicode of a font say the same of a character"""
    parts, chars_of = [], {}
    used = {}
    for s in subs:
        if s[0] == 'f4':
            rs = [r for r in s[2]]
            data, m = format4(rs, ch)
            key = s[1]
        elif s[0] == 'f0':
            data, m = format0(s[2])
            key = s[1]
        elif s[0] == 'f2':
            data, m = format2(s[2][0], s[2][1], ch)
            key = s[1]
        else:
            m = {}
            if s[1] == 'mac0':
                key, data = (1, 0), format0([(0x41 + k, 7 + k) for k in range(20)])[0]
            elif s[1] == 'sym4':
                key, data = (3, 0), format4([(0xf020, 90, 1, 'delta')], ch)[0]
            elif s[1] == 'big5':
                key, data = (3, 4), format4([(0xa440, 50, 1, 'delta')], ch)[0]
            elif s[1] == 'f6':
                key, data = (0, 3), struct.pack('>HHHHH', 6, 14, 0, 65, 2) + struct.pack('>HH', 60001, 60002)
                m = None
            else:
                key, data = (3, 10), struct.pack('>HHLLL', 12, 0, 28, 0, 1) + struct.pack('>LLL', 0x1f600, 0x1f601, 60003)
                m = None
        if m and any(used.get(c, g) != g for c, g in m.items()):
            continue                                # it would contradict another one
        parts.append((key, data))
        if m:
            used.update(m)
    for c, g in used.items():
        chars_of.setdefault(g, set()).add(chr(c))
    head = struct.pack('>HH', 0, len(parts))
    off = 4 + 8 * len(parts)
    order = list(range(len(parts)))
    if ch.pick(2):
        order.reverse()                             # the data need not follow the order of the directory
    at = {}
    body = b''
    for i in order:
        pad = b'\0\0' * ch.pick(3)
        body += pad
        at[i] = off + len(body)
        body += parts[i][1]
    for i, (key, d) in enumerate(parts):
        head += struct.pack('>HHL', key[0], key[1], at[i])
    cmap = head + body
    tables = [(b'head', b'\0' * 54), (b'cmap', cmap), (b'maxp', b'\0\1\0\0\1\0'), (b'glyf', b'cmap\0\0')]
    if ch.pick(2):
        tables.sort()
    n = len(tables)
    out = [b'\0\1\0\0', b'true'][ch.pick(2)] + struct.pack('>HHHH', n, 64, 2, n * 16 - 64)
    off = 12 + 16 * n
    data = b''
    for t, d in tables:
        out += struct.pack('>4sLLL', t, 0, off + len(data), len(d))
        data += d + b'\0' * (-len(d) % 4)
    return out + data, chars_of


tt = st.tuples(st.lists(subtable, min_size=1, max_size=3), st.sampled_from([None, None, 'Identity', 'map']), st.sampled_from(['Identity', 'Identity', 'Identity', 'UCS']),
               st.booleans(), st.lists(st.integers(0, 400), min_size=1, max_size=10), st.lists(st.sampled_from(sorted(F.ENC)), max_size=2), st.booleans(), gen.tape)


def stored(data, fl, ch):
    """dictionary entries and data of a stream with filters"""
    names = []
    for f in fl:
        data = F.ENC[f](data, ch)
        names = [f] + names
    return ([(b'Filter', A(*map(N, names)))] if names else []), data


def shown(data, ignore):
    """texts of all characters of the page, or 'undefined'"""
    try:
        out = []
        for page in PDFInterpreter(data, ignore_bad_chars=ignore):
            for it in page:
                for b in it:
                    out += [c.get_text() for c in b]
        return out
    except UnicodeNotDefined:
        return 'undefined'


def run(cx, objs, font, codes, texts, wide, ignore):
    """texts: code -> set of possible texts or None"""
    s = b''.join(struct.pack('>H', c) if wide else bytes([c]) for c in codes)
    data = page_file(emit([('BT',), ('Tf', nm('F1'), 10), ('Td', 10, 10), ('Tj', ('str', s)), ('ET',)]), D(Font=D(F1=font)), objs)
    got = shown(cx.write('a.pdf', data), ignore)
    want = [texts(c) for c in codes]
    if not ignore and any(w is None for w in want):
        cx.eq(got, 'undefined', 'text of codes of which %r have none' % [c for c, w in zip(codes, want) if w is None])
        return
    if got == 'undefined' or len(got) != len(want):
        raise Violation('%r for the codes %r, whose texts are %r' % (got, codes, want))
    for c, g, w in zip(codes, got, want):
        if g not in (w or {''}):
            raise Violation('code %d has the text %r instead of %r' % (c, g, sorted(w or [''])))


def composite(case, cx):
    """Identity-H over a TrueType program: cmap formats 0, 2 and 4, other subtables beside them, CIDToGIDMap"""
    subs, cidmap, ordering, tu, codes, fl, ignore, tape = case
    ch = Choices(tape)
    prog, chars_of = truetype(subs, ch)
    ents, data = stored(prog, fl, ch)
    objs = {50: ('stream', ents + [(b'Length1', I(len(prog)))], data)}
    desc = [(b'FontName', N('Deja')), (b'Ascent', I(800)), (b'Descent', I(-200)), (b'FontBBox', A(I(0), I(0), I(1), I(1))), (b'FontFile2', R(50))]
    sub = [(b'Type', N('Font')), (b'Subtype', N('CIDFontType2')), (b'BaseFont', N('Deja')), (b'CIDSystemInfo', D(Registry=('str', b'Adobe'), Ordering=('str', ordering.encode()), Supplement=I(0))),
           (b'FontDescriptor', ('dict', desc)), (b'DW', I(500))]
    have = sorted(chars_of)
    cid2gid = None
    if cidmap == 'Identity':
        sub.append((b'CIDToGIDMap', N('Identity')))
    elif cidmap == 'map':
        cid2gid = [have[ch.pick(len(have))] if have and ch.pick(4) else ch.pick(300) for _ in range(ch.pick(40) + 1)]
        if ch.pick(2):
            cid2gid[0] = 0
        ents, d = stored(b''.join(struct.pack('>H', g) for g in cid2gid), fl[:1], ch)
        objs[51] = ('stream', ents, d)
        sub.append((b'CIDToGIDMap', R(51)))
    font = D(Type=N('Font'), Subtype=N('Type0'), BaseFont=N('Deja'), Encoding=N('Identity-H'), DescendantFonts=A(('dict', sub)))
    # the codes: glyphs of the font, and some that have no character
    pool = [c for c, g in enumerate(cid2gid) if g in chars_of] if cid2gid else have
    codes = [pool[c % len(pool)] if pool and c < 380 else c for c in codes]

    def texts(c):
        if cid2gid is not None:
            if not chars_of:
                return None
            return chars_of.get(cid2gid[c]) if c < len(cid2gid) else None
        return chars_of.get(c)
    named = None
    if tu:                                          # a ToUnicode map replaces what the program says
        m = {c: chr(0x410 + i) for i, c in enumerate(sorted(set(codes))) if c % 3}
        if ch.pick(2) and m:
            font[1].append((b'ToUnicode', R(52)))
            objs[52] = ('stream', [], tounicode([('char', c, t) for c, t in sorted(m.items())], Choices(), 2))
            named = m
            cx.tag('ToUnicode')
    cx.tag(cidmap or 'no CIDToGIDMap')
    run(cx, objs, font, codes, texts if named is None else lambda c: {named[c]} if c in named else None, True, ignore)
    for s in subs:
        cx.tag(s[0] if s[0] != 'other' else s[1])
    cx.nontrivial(named is None and len({c for c in codes if texts(c)}) >= 3)


# ---------------------------------------------------------------- Type 1

names = st.one_of(st.sampled_from(sorted(LATIN)), st.sampled_from(sorted(LATIN)), st.sampled_from(sorted(GLYPHS)), st.integers(0x391, 0x3c9).map(lambda c: 'uni%04X' % c))
puts = st.lists(st.tuples(st.one_of(st.integers(0, 255), st.integers(32, 126)), names), min_size=1, max_size=12)
t1 = st.tuples(st.one_of(puts, puts, puts, st.just('StandardEncoding')), st.lists(st.integers(0, 255), min_size=1, max_size=10), st.sampled_from(['Type1', 'Type1', 'MMType1']),
               st.booleans(), st.lists(st.sampled_from(sorted(F.ENC)), max_size=2), st.booleans(), gen.tape)


def type1(enc, ch):
    """(font program, length of its clear text)"""
    eol = [b'\n', b'\r', b'\r\n'][ch.pick(3)]
    head = [b'%!PS-AdobeFont-1.0: Deja 001.005', b'%%CreationDate: Tue dup 65 /B put', b'%%EndComments', b'11 dict begin', b'/FontInfo 9 dict dup begin',
            b'/version (001.005) readonly def', b'/Notice (Copyright \\(c\\) dup 66 /C put) readonly def', b'/FullName (Deja) readonly def', b'/ItalicAngle 0 def', b'/isFixedPitch false def',
            b'/UnderlinePosition -100 def', b'end readonly def', b'/FontName /Deja def', b'/PaintType 0 def', b'/FontType 1 def', b'/FontMatrix [0.001 0 0 0.001 0 0] readonly def']
    head += [b'%% a comment of no importance: dup %d /Z put' % (k % 256) for k in range([0, 0, 0, 20, 130, 1500][ch.pick(6)])]
    if enc == 'StandardEncoding':
        head.append(b'/Encoding StandardEncoding def')
    else:
        head.append(b'/Encoding 256 array')
        k = ch.pick(3)
        if k:
            head.append(b'0 1 255 {1 index exch /.notdef put} for' if k == 1 else b'0 1 255 { 1 index exch' + eol + b'/.notdef put } for')
        tight = ch.pick(3) == 2
        for c, n in enc:
            head.append((b'dup %d/%s put' if tight else b'dup %d /%s put') % (c, n.encode()))
        head.append([b'readonly def', b'def'][ch.pick(2)])
    head += [b'/FontBBox {-12 -237 650 811} readonly def', b'/UniqueID 5000793 def', b'currentdict end', b'currentfile eexec']
    clear = eol.join(head) + eol
    return clear + bytes((k * 37 + 11) & 255 for k in range(60)) + b'\ndup 65 /Z put\n' + b'0' * 64 + b'\ncleartomark\n', len(clear)


def simple(case, cx):
    """a Type 1 program of which the clear text portion gives the encoding"""
    enc, codes, sub, tu, fl, ignore, tape = case
    ch = Choices(tape)
    if enc != 'StandardEncoding':
        enc = list({c: (c, n) for c, n in enc}.values())
    prog, n1 = type1(enc, ch)
    ents, data = stored(prog, fl, ch)
    objs = {50: ('stream', ents + [(b'Length1', R(53) if ch.pick(3) == 2 else I(n1)), (b'Length2', I(len(prog) - n1)), (b'Length3', I(0))], data), 53: I(n1)}
    desc = [(b'FontName', N('Deja')), (b'Ascent', I(800)), (b'Descent', I(-200)), (b'FontBBox', A(I(0), I(0), I(1), I(1))), (b'FontFile', R(50))]
    font = D(Type=N('Font'), Subtype=N(sub), BaseFont=N('Deja'), FontDescriptor=('dict', desc), FirstChar=I(0), LastChar=I(255), Widths=A(*[I(500)] * 256))
    if enc == 'StandardEncoding':
        m = dict(ENCODINGS['StandardEncoding'])
        have = sorted(m)
    else:
        m = {c: text_of(n) for c, n in enc}
        have = sorted(m)
    codes = [have[c % len(have)] if c < 240 else c for c in codes]
    own = set()
    if tu and ch.pick(2):
        over = {c: chr(0x410 + i) for i, c in enumerate(sorted(set(codes))) if c % 3 == 0}
        if over:
            font[1].append((b'ToUnicode', R(52)))
            objs[52] = ('stream', [], tounicode([('char', c, t) for c, t in sorted(over.items())], Choices()))
            m = {**m, **over}
            own = set(over)
            cx.tag('ToUnicode')
    run(cx, objs, font, codes, lambda c: {m[c]} if c in m else None, False, ignore)
    cx.tag('StandardEncoding' if enc == 'StandardEncoding' else 'array')
    cx.nontrivial(len({c for c in codes if c in m and c not in own}) >= 3)


def text_of(n):
    return GLYPHS[n] if n in GLYPHS else chr(int(n[3:], 16))


TESTS = [Test('truetype', tt, composite, quick=6000, thorough=60000), Test("type1", t1, simple, quick=5000, thorough=40000)]
