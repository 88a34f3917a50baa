"""CMap programs: random maps, their text in many spellings, and what they mean (Adobe Technical Note 5014 / PDF 9.10.3)."""
from hypothesis import strategies as st
from .pdf import Choices

texts = st.one_of(
    st.text('abcXYZ 09\xe9\u03b1\u4e00\u3042\ufb01', min_size=1, max_size=1),
    st.text('abcXYZ 09\xe9\u03b1\u4e00\u3042\ufb01\U0001f600\U00020000', min_size=1, max_size=4),
    st.characters(codec='utf-8', exclude_categories=('Cs',)),
)
# entries of a ToUnicode map: (kind, first code, ...)
entry = st.one_of(
    st.tuples(st.just('char'), st.integers(0, 65535), texts),
    st.tuples(st.just('range'), st.integers(0, 65535), st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(1, 256)), texts),
    st.tuples(st.just('array'), st.integers(0, 65535), st.one_of(
        st.lists(texts, min_size=1, max_size=6), st.lists(texts, min_size=1, max_size=6), st.lists(texts, min_size=1, max_size=6),
        st.tuples(st.integers(0x20, 0x2000), st.integers(90, 256)).map(lambda t: [chr(t[0] + 7 * i) for i in range(t[1])]))))


def fit(entries, top):
    """entries over codes 0..top without overlaps; ranges kept within one last byte"""
    used = set()
    out = []
    for e in entries:
        lo = e[1] % (top + 1)
        n = 1 if e[0] == 'char' else e[2] if e[0] == 'range' else len(e[2])
        n = min(n, top + 1 - lo, 256 - lo % 256)
        if e[0] == 'range':
            n = min(n, 256 - e[3].encode('utf-16-be')[-1])
        codes = range(lo, lo + n)
        if used & set(codes):
            continue
        used |= set(codes)
        if e[0] == 'char':
            out.append(('char', lo, e[2]))
        elif e[0] == 'range':
            # no code of the range may come out as half a surrogate pair
            b = e[3].encode('utf-16-be')
            ok = 0
            for i in range(n):
                try:
                    (b[:-1] + bytes([b[-1] + i])).decode('utf-16-be')
                except UnicodeDecodeError:
                    break
                ok += 1
            out.append(('range', lo, ok, e[3]))
        else:
            out.append(('array', lo, e[2][:n]))
    return out


def meaning(entries):
    m = {}
    for e in entries:
        if e[0] == 'char':
            m[e[1]] = e[2]
        elif e[0] == 'array':
            for i, t in enumerate(e[2]):
                m[e[1] + i] = t
        else:
            b = e[3].encode('utf-16-be')
            for i in range(e[2]):
                m[e[1] + i] = (b[:-1] + bytes([b[-1] + i])).decode('utf-16-be')
    return m


def hx(b, ch):
    s = b.hex()
    k = ch.pick(5)
    if k == 1:
        s = s.upper()
    if k == 2 and len(s) > 2:
        s = s[:2] + ' ' + s[2:]
    return '<' + s + '>'


def ws(ch, need=False):
    return [' ', '\n', '\r\n', '\t ', ' % comment <00> endbfchar\n', '', '  '][ch.pick(7)] or (' ' if need else '')


def tounicode(entries, ch, width=1):
    """bytes of a ToUnicode CMap; entries written in order, in one or several sections"""
    code = lambda c: hx(c.to_bytes(width, 'big'), ch)
    out = []
    if ch.pick(4) != 3:
        out.append('/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo\n<< /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n'
                   '/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n')
    if ch.pick(4) != 3:
        out.append('1 begincodespacerange %s %s endcodespacerange\n' % (code(0), code(256 ** width - 1)))
    i = 0
    while i < len(entries):
        kind = 'char' if entries[i][0] == 'char' else 'range'
        j = i + 1
        while j < len(entries) and (entries[j][0] == 'char') == (kind == 'char') and ch.pick(4) != 3:
            j += 1
        out.append('%d beginbf%s%s' % (j - i, kind, ws(ch)))
        for e in entries[i:j]:
            if e[0] == 'char':
                out.append(code(e[1]) + ws(ch) + hx(e[2].encode('utf-16-be'), ch) + ws(ch))
            elif e[0] == 'range':
                out.append(code(e[1]) + ws(ch) + code(e[1] + e[2] - 1) + ws(ch) + hx(e[3].encode('utf-16-be'), ch) + ws(ch))
            else:
                out.append(code(e[1]) + ws(ch) + code(e[1] + len(e[2]) - 1) + ws(ch) + '[' + ws(ch) +
                           ws(ch).join(hx(t.encode('utf-16-be'), ch) for t in e[2]) + ws(ch) + ']' + ws(ch))
        out.append('endbf%s\n' % kind)
        i = j
    if ch.pick(4) != 3:
        out.append('endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n')
    return ''.join(out).encode('latin-1')
