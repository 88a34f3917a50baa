"""P08: the standard security handler gives back the unprotected document, to the right password only."""
import zlib
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, Writer, N, I, R, A, D
from ..crypt import Security
from ..lib import open_doc, norm, expect
from ..boot import REPO
from io import BytesIO
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import list_value
from pdfmajor.execptions import PDFPasswordIncorrect, PDFEncryptionError, PDFTextExtractionNotAllowed

PID = 'P08'
RULE = '''a case is non-trivial when the scheme really encrypts and the document holds a string nested in a container,
a stream of at least one byte, or objects in an encrypted object stream'''

SCHEMES = ['V1R2', 'V1R3', 'V2R3', 'V2R3', 'V4V2', 'V4AES', 'V4AES', 'V4Id', 'V5AES', 'V5AES']
pw_text = st.one_of(st.just(''), st.text('abcXYZ019 ()\\', max_size=8), st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=40),
                    st.text('a\xe9\xfc\xff\xa3', max_size=6), st.text('xyz', min_size=30, max_size=36))
value = st.one_of(gen.str_bytes.map(lambda b: ('str', b)), gen.containers(refs=(11, 12), depth=5),
                  st.tuples(st.just('stream'), st.lists(st.tuples(st.sampled_from([b'Tag', b'Note', b'X']), gen.values(depth=3)), max_size=2, unique_by=lambda p: p[0]),
                            st.binary(max_size=70)))
items = st.lists(st.tuples(value, st.sampled_from(['plain', 'plain', 'packed']), st.sampled_from([0, 0, 0, 1, 300])), min_size=1, max_size=5)
case_st = st.tuples(st.sampled_from(SCHEMES), pw_text, pw_text, st.integers(0, 2 ** 32 - 1), st.sampled_from([40, 48, 56, 64, 96, 104, 128, 128]),
                    st.binary(max_size=20), st.booleans(), st.integers(0, 2 ** 16), items, gen.tape)


def enc(s, scheme):
    return s.encode('utf-8' if scheme == 'V5AES' else 'latin-1')


def build(case, edit=None):
    scheme, user, owner, perms, bits, docid, meta, noise, items, tape = case
    ch = Choices(tape)
    u, o = enc(user, scheme), enc(owner, scheme)
    if not o and scheme != 'V5AES':
        o = u
    sec = Security(scheme, u, o, perms, bits, docid, meta if scheme[1] in '45' else True, (b'%d' % noise) * 40)
    w = Writer(ch=ch)
    w.loose = True
    content = b'BT /F1 12 Tf (hello) Tj ET'
    fixed = {1: D(Type=N('Catalog'), Pages=R(2), Metadata=R(6)), 2: D(Type=N('Pages'), Kids=A(R(3)), Count=I(1)),
             3: D(Type=N('Page'), Parent=R(2), MediaBox=A(I(0), I(0), I(9), I(9)), Contents=R(4), Resources=D()),
             4: ('stream', [], content), 5: D(Title=('str', b'A title \xfe'), Author=('str', b'')),
             6: ('stream', [(b'Type', N('Metadata')), (b'Subtype', N('XML'))], b'<x:xmpmeta>')}
    ent = {0: ('f',)}
    model = {}
    packed = []
    indirect = ch.pick(3) == 2
    for k, v in fixed.items():
        w.obj(k, sec.value(v, k))
        ent[k] = ('n', w.offsets[k], 0)
        model[k] = v
    lens = 200
    for i, (v, where, g) in enumerate(items):
        k = [10, 11, 12, 255, 66000][i]
        model[k] = v
        if where == 'packed' and v[0] != 'stream':
            packed.append((k, v))
            continue
        e = sec.value(v, k, g)
        ln = None
        if v[0] == 'stream' and indirect:
            ln = R(lens)
            w.obj(lens, I(len(e[2])))
            ent[lens] = ('n', w.offsets[lens], 0)
            lens += 1
        w.obj(k, e, gen=g, length=ln)
        ent[k] = ('n', w.offsets[k], g)
    if packed:
        def filt(data, n):
            if n is not None:
                return zlib.compress(data), [(b'Filter', N('FlateDecode'))]
            z = ch.pick(2)
            return sec.encrypt(zlib.compress(data) if z else data, 7, 0), [(b'Filter', N('FlateDecode'))] if z else []
        w.objstm(7, packed, filt=filt)
        ent[7] = ('n', w.offsets[7], 0)
        for i, (k, _) in enumerate(packed):
            ent[k] = ('c', 7, i)
    ed = sec.dictionary(unsigned=ch.pick(2) == 1, explicit=ch.pick(2) == 1, cfname=[b'StdCF', b'MyFilter'][ch.pick(2)])
    if edit:
        ed = ('dict', [(k, edit.get(k, v)) for k, v in ed[1]])
        if b'CFM' in edit:
            ed = ('dict', [(k, ('dict', [(n, D(CFM=edit[b'CFM'])) for n, _ in v[1]]) if k == b'CF' else v) for k, v in ed[1]])
    encr = ed
    if ch.pick(3) != 2:
        w.obj(8, ed)
        ent[8] = ('n', w.offsets[8], 0)
        encr = R(8)
    tr = [(b'Root', R(1)), (b'Info', R(5)), (b'Encrypt', encr), (b'ID', A(('str', docid), ('str', b'second')))]
    if packed or ch.pick(3) == 2:
        pos = w.xref_stream(9, ent, tr, widths=(1, 4, 2))
    else:
        pos = w.xref_table({k: (None if e[0] == 'f' else (e[1], e[2])) for k, e in ent.items()}, [(b'Size', I(max(ent) + 1))] + tr)
    w.end(pos)
    return w.bytes(), model, sec, u, o


def compare(doc, model, cx, what):
    for k, v in model.items():
        got = doc.getobj(k)
        if v[0] == 'stream':
            cx.eq(type(got).__name__, 'PDFStream', '%s object %d' % (what, k))
            attrs = [p for p in norm(got)[1] if p[0] != b'Length']
            cx.eq(attrs, expect(('dict', v[1]))[1], '%s: dictionary of stream %d' % (what, k))
            cx.eq(got.get_data(), v[2], '%s: data of stream %d' % (what, k))
        else:
            cx.eq(norm(got), expect(v), '%s: object %d' % (what, k))
    cx.eq([norm(i) for i in doc.info], [expect(model[5])], what + ': information dictionary')


def roundtrip(case, cx):
    """every object, with the user and with the owner password; permission bits"""
    scheme, user, owner = case[:3]
    data, model, sec, u, o = build(case)
    items = case[8]
    cx.tag(scheme, 'packed' if any(w == 'packed' and v[0] != 'stream' for v, w, _ in items) else 'plain only')
    cx.nontrivial(scheme != 'V4Id' and any(v[0] in ('arr', 'dict') and gen.has(v, ('str',)) or v[0] == 'stream' and v[2] for v, _, _ in items))
    ch = Choices(case[9][::-1])
    pws = [user]
    if owner != user and (owner or scheme == 'V5AES'):
        pws.append(owner)
    for pw in pws:
        doc = open_doc(data, password=pw, caching=ch.pick(3) != 2, fallback=ch.pick(4) != 3)
        compare(doc, model, cx, '%s with %s password' % (scheme, 'user' if pw == user else 'owner'))
        p = case[3]
        cx.eq((bool(doc.is_printable), bool(doc.is_modifiable), bool(doc.is_extractable)),
              (bool(p & 4), bool(p & 8), bool(p & 16)), 'permissions %x' % p)
    # page level
    for pw in pws:
        try:
            pages = list(PDFPage.get_pages(BytesIO(data), password=pw, check_extractable=True))
        except PDFTextExtractionNotAllowed:
            cx.check(not case[3] & 16, 'extraction refused although permission bit 5 is set')
            pages = list(PDFPage.get_pages(BytesIO(data), password=pw, check_extractable=False))
        else:
            cx.check(case[3] & 16, 'extraction allowed although permission bit 5 is clear')
        cx.eq([s.get_data() for s in list_value(pages[0].contents)], [model[4][2]], 'page content')
    if user == '':
        for pages in (PDFPage.get_pages(BytesIO(data), check_extractable=False), PDFPage.get_pages(BytesIO(data), password=None, check_extractable=False)):
            cx.eq(list_value(list(pages)[0].contents)[0].get_data(), model[4][2], 'page content with no password')


def refused(case, cx):
    """other passwords"""
    base, wrong, k = case
    scheme, user, owner = base[:3]
    data, model, sec, u, o = build(base)
    cands = [wrong, user + 'x', 'x' + user, user[:-1], owner[:-1], owner + ' ', user.swapcase(), owner.swapcase(), user[::-1], '', None, '\u4e2d', user + '\u4e2d']
    n = 32 if scheme != 'V5AES' else 127

    def eff(p):
        try:
            b = enc(p or '', scheme)
        except UnicodeEncodeError:
            return None
        return b[:n] if scheme == 'V5AES' else (b + Security.__init__.__globals__['PAD'])[:32]
    right = {eff(user), eff(owner)} if owner or scheme == 'V5AES' else {eff(user)}
    tried = 0
    for i in range(4):
        pw = cands[(k + i * 5) % len(cands)]
        if eff(pw) in right:
            continue
        tried += 1
        try:
            open_doc(data, password=pw)
        except PDFPasswordIncorrect:
            continue
        raise Violation('%s: password %r accepted (user %r, owner %r)' % (scheme, pw, user, owner))
    cx.nontrivial(tried >= 2)
    cx.tag(scheme)


def unsupported(case, cx):
    """handlers, versions, revisions and crypt filters that are not supported"""
    base, how = case
    edits = [{b'Filter': N('Custom00')}, {b'V': I(3)}, {b'V': I(9)}, {b'V': I(0)}, {b'R': I(9)}, {b'R': I(6)}]
    if base[0][1] in '45':
        edits += [{b'StmF': N('Q')}, {b'StrF': N('Q')}, {b'StmF': N('Q'), b'StrF': N('Q')}, {b'CFM': N('X')}]
    e = edits[how % len(edits)]
    data, model, sec, u, o = build(base, e)
    cx.nontrivial()
    cx.tag(repr(e))
    try:
        open_doc(data, password=base[1])
    except PDFEncryptionError:
        return
    except PDFPasswordIncorrect:
        pass
    raise Violation('%s with %r was not refused as unsupported' % (sec.scheme, e))


plain = case_st
TESTS = [
    Test('roundtrip', case_st, roundtrip, quick=3000, thorough=40000),
    Test('refused', st.tuples(case_st, pw_text, st.integers(0, 30)), refused, quick=1400, thorough=15000),
    Test('unsupported', st.tuples(plain, st.integers(0, 99)), unsupported, quick=600, thorough=4000),
]
ASSUMPTIONS = ['the AES primitive of pycryptodome is right (RC4, MD5 chains and everything else of the writing side are the harness\'s own)']
