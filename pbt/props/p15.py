"""P15: codes shown in simple fonts come out as the right text."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, num, page_file
from ..glyphs import GLYPHS, ENCODINGS, LATIN
from ..cmaps import entry, fit, meaning, tounicode
from ..content import emit, nm
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import UnicodeNotDefined

PID = 'P15'
RULE = '''a case is non-trivial when at least three different codes are shown and at least one of them gets its text from Differences or ToUnicode'''

latin_names = sorted(LATIN)
other_names = sorted(GLYPHS)
hex4 = st.integers(0x20, 0xffff).filter(lambda c: not 0xd800 <= c <= 0xdfff)
UNKNOWN = ['unheardof', 'foo', 'Anything', 'cid', 'notaglyph.alt', 'uniXYZ', 'glyph_name', '.notdef']      # names no list has
glyph = gen.choose(
    st.sampled_from(latin_names), st.sampled_from(latin_names), st.sampled_from(other_names),
    hex4.map(lambda c: 'uni%04X' % c), st.lists(hex4, min_size=2, max_size=3).map(lambda l: 'uni' + ''.join('%04X' % c for c in l)),
    st.one_of(hex4, st.integers(0x10000, 0x10ffff)).map(lambda c: 'u%04X' % c),
    st.tuples(st.sampled_from(latin_names), st.sampled_from(['.sc', '.alt', '.oldstyle', '.a.b'])).map(lambda t: t[0] + t[1]),
    st.lists(st.sampled_from(latin_names), min_size=2, max_size=3).map('_'.join),
    st.sampled_from(UNKNOWN))


def text_of_name(name):
    """Adobe Glyph List rules; None for the names that mean nothing"""
    if name in GLYPHS:
        return GLYPHS[name]
    if name in UNKNOWN:
        return None
    base = name.split('.')[0]
    out = ''
    for part in base.split('_'):
        if part in GLYPHS:
            out += GLYPHS[part]
        elif part.startswith('uni'):
            out += ''.join(chr(int(part[i:i + 4], 16)) for i in range(3, len(part), 4))
        else:
            out += chr(int(part[1:], 16))
    return out


diffs = st.lists(st.tuples(st.integers(0, 255), st.lists(glyph, min_size=1, max_size=4)), max_size=4)
encoding = gen.choose(
    st.just(('none',)),
    st.sampled_from(sorted(ENCODINGS)).map(lambda n: ('name', n)),
    st.tuples(st.just('dict'), st.one_of(st.none(), st.sampled_from(sorted(ENCODINGS))), diffs),
    st.tuples(st.just('dict'), st.one_of(st.none(), st.sampled_from(sorted(ENCODINGS))), diffs))
font = st.tuples(st.sampled_from(['Type1', 'Type1', 'MMType1', 'TrueType', 'Type3']), encoding, st.one_of(st.none(), st.lists(entry, max_size=5)), st.integers(1, 2))
codes = st.lists(st.one_of(st.integers(0, 255), st.integers(32, 126), st.integers(0, 80)), min_size=1, max_size=14)
case = st.tuples(st.lists(st.tuples(font, st.lists(codes, min_size=1, max_size=3)), min_size=1, max_size=3), st.booleans(), gen.short_tape)


def make(font, k, ch, objs):
    """(font value, {code: text}, source of each code)"""
    sub, enc, tu, width = font
    put = lambda n, v: objs.__setitem__(n, v) or R(n)
    widths = [100 + (c * 7 + k) % 400 for c in range(256)]
    pairs = [(b'Type', N('Font')), (b'Subtype', N(sub)), (b'BaseFont', N('Test%d' % k)), (b'FirstChar', I(0)), (b'LastChar', I(255)),
             (b'Widths', A(*map(I, widths)))]
    if sub == 'Type3':
        pairs = [p for p in pairs if p[0] != b'BaseFont'] + [(b'FontBBox', A(I(0), I(0), I(1000), I(1000))), (b'FontMatrix', A(('real', '.001'), I(0), I(0), ('real', '.001'), I(0), I(0))),
                                                            (b'CharProcs', ('dict', []))]
    else:
        pairs.append((b'FontDescriptor', D(Type=N('FontDescriptor'), FontName=N('Test%d' % k), Flags=I(32), Ascent=I(700), Descent=I(-200), FontBBox=A(I(0), I(-200), I(1000), I(800)))))
    base = None if enc[0] == 'none' else enc[1]
    table = dict(ENCODINGS[base or 'StandardEncoding'])
    src = {c: 'base' for c in table}
    if enc[0] == 'name':
        v = N(enc[1])
        pairs.append((b'Encoding', v if ch.pick(3) < 2 else put(200 + k, v)))
    elif enc[0] == 'dict':
        ep = []
        if ch.pick(2):
            ep.append((b'Type', N('Encoding')))
        if enc[1]:
            ep.append((b'BaseEncoding', N(enc[1])))
        arr = []
        for start, names in enc[2]:
            arr.append(I(start))
            for i, g in enumerate(names):
                if start + i > 255:
                    break
                arr.append(N(g))
                if g in UNKNOWN:            # leaves the code with what it had
                    continue
                table[start + i] = text_of_name(g)
                src[start + i] = 'differences'
        if enc[2] or ch.pick(2):
            av = ('arr', arr)
            ep.append((b'Differences', av if ch.pick(3) < 2 else put(210 + k, av)))
        ev = ('dict', ep)
        pairs.append((b'Encoding', ev if ch.pick(2) else put(220 + k, ev)))
    if tu is not None:
        ents = fit(tu, 255)
        for c, t in meaning(ents).items():
            table[c] = t
            src[c] = 'tounicode'
        objs[230 + k] = ('stream', [], tounicode(ents, ch, width))
        pairs.append((b'ToUnicode', R(230 + k)))
    return ('dict', pairs), table, src


def simple(case, cx):
    """text of each code shown"""
    parts, ignore, tape = case
    ch = Choices(tape)
    objs, prog, want, sources, seen = {}, [], [], set(), set()
    missing = False
    fpairs = []
    for k, (f, shows) in enumerate(parts):
        v, table, src = make(f, k, ch, objs)
        fpairs.append((b'F%d' % k, v if ch.pick(2) else (objs.__setitem__(240 + k, v) or R(240 + k))))
        prog += [('BT',), ('Tf', nm('F%d' % k), 10)]
        for s in shows:
            if not ignore and ch.pick(4) != 3:
                s = [c for c in s if c in table]
            prog.append(('Tj', ('str', bytes(s))))
            for c in s:
                seen.add((k, c))
                sources.add(src.get(c))
                missing = missing or c not in table
                want.append(table.get(c, ''))
        prog.append(('ET',))
    data = page_file(emit(prog, ch), D(Font=('dict', fpairs)), objs, ch=ch)
    page = next(iter(PDFInterpreter(cx.write('a.pdf', data), ignore_bad_chars=ignore)))
    cx.nontrivial(len(seen) >= 3 and bool(sources & {'differences', 'tounicode'}))
    for s in sources:
        cx.tag('text from %s' % s)
    try:
        got = [c.get_text() for block in page for cb in block for c in cb]
    except UnicodeNotDefined:
        if missing and not ignore:
            cx.tag('undefined code reported')
            return
        raise
    if missing and not ignore:
        raise Violation('a code without text was shown, but UnicodeNotDefined was not raised: %r' % got)
    cx.eq(got, want, 'text of the characters shown')


TESTS = [Test('simple', case, simple, quick=5000, thorough=150000)]
