"""P34: damaged stream data is read up to the damage."""
import zlib
from hypothesis import strategies as st
from .. import gen, filters as F
from ..core import Test, Violation
from ..crypt import Security
from ..pdf import Choices, Writer, N, I, R, A, D, simple_file, join, tokens
from ..lib import open_doc, norm, expect
from ..content import emit, items_of, same, simple_font, coord, unit, nm
from .p05 import data as anydata
from .p07 import bitmap, expand, pack
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import PDFMajorException

PID = 'P34'
RULE = '''a case is non-trivial when some but not all of the data lies before the damage'''

names = st.sampled_from(sorted(F.ENC))
damage = st.tuples(st.sampled_from(['cut', 'cut', 'put', 'put', 'drop', 'add', 'zero', 'end']), st.integers(0, 10 ** 6), st.binary(min_size=1, max_size=6))


def hurt(enc, dmg):
    """(damaged data, position of the damage)"""
    kind, at, junk = dmg
    n = len(enc)
    k = at % (n + 1) if kind in ('cut', 'add') else at % max(1, n)
    if kind == 'cut':
        return enc[:k], k
    if kind == 'put':
        return enc[:k] + junk + enc[k + len(junk):], k
    if kind == 'drop':
        return enc[:k] + enc[k + len(junk):], k
    if kind == 'add':
        return enc[:k] + junk + enc[k:], k
    if kind == 'zero':
        return enc[:k] + bytes(n - k), k
    k = max(0, n - 1 - at % 6)                       # near the end: check sums and end marks
    return enc[:k] + junk, k


SLACK = {'FlateDecode': 0, 'LZWDecode': 0, 'RunLengthDecode': 0, 'ASCII85Decode': 4, 'ASCIIHexDecode': 1}


def bare(attrs, data, more=None):
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0)), 10: ('stream', attrs, data)}
    objs.update(more or {})
    return open_doc(simple_file(objs)).getobj(10).get_data()


def filters(case, cx):
    """any chain of filters, damaged at any place in any way"""
    d, chain, dmg, tape = case
    ch = Choices(tape)
    enc = d
    for f in reversed(chain):
        enc = F.ENC[f](enc, ch)
    bad, k = hurt(enc, dmg)
    low = enc[:k]
    for f in chain:
        low = F.HEAD[f](low)
    fl = [N(f) for f in chain]
    got = bare([(b'Filter', fl[0] if len(fl) == 1 and ch.pick(2) else ('arr', fl))], bad)
    cx.nontrivial(0 < len(low) < len(d) or dmg[0] == 'end' and d and low == d)
    cx.tag(dmg[0], *chain)
    what = '%r data %r damaged at %d (%s)' % (chain, bad[:200], k, dmg[0])
    if got[:len(low)] != low:
        raise Violation('%s gives %r, what is before the damage says %r' % (what, got[:200], low[:200]))
    if dmg[0] == 'cut' and len(chain) == 1 and len(got) > len(low) + SLACK[chain[0]]:
        raise Violation('%s gives %r, there is only %r' % (what, got[:200], low[:200]))


sealed_case = st.tuples(anydata, st.lists(names, max_size=2), damage, st.sampled_from(['V1R2', 'V2R3', 'V4V2', 'V4AES', 'V4AES', 'V5AES']), gen.tape)


def sealed(case, cx):
    """encrypted data, damaged after it was encrypted"""
    d, chain, dmg, scheme, tape = case
    ch = Choices(tape)
    enc = d
    for f in reversed(chain):
        enc = F.ENC[f](enc, ch)
    sec = Security(scheme, b'', b'owner', -4, 128, b'0123456789abcdef', True, bytes([ch.pick(256)]) * 40)
    gno = [0, 0, 3][ch.pick(3)]
    bad, k = hurt(sec.encrypt(enc, 10, gno), dmg)
    # in CBC mode what is before the damage are the blocks before; the last one may be taken for padding
    n = k if 'AES' not in scheme else max(0, (k // 16 - 2) * 16)
    low = enc[:n]
    for f in chain:
        low = F.HEAD[f](low)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    w = Writer(ch=ch)
    for i, v in objs.items():
        w.obj(i, v)
    w.obj(10, ('stream', [(b'Filter', ('arr', [N(f) for f in chain]))], bad), gen=gno)
    entries = {i: (w.offsets[i], 0) for i in objs}
    entries.update({0: None, 10: (w.offsets[10], gno)})
    w.end(w.xref_table(entries, [(b'Size', I(11)), (b'Root', R(1)), (b'Encrypt', sec.dictionary()), (b'ID', A(('str', b'0123456789abcdef'), ('str', b'2')))]))
    got = open_doc(w.bytes()).getobj(10).get_data()
    cx.nontrivial(0 < len(low) < len(d) or dmg[0] == 'end' and d)
    cx.tag(dmg[0], scheme)
    if got[:len(low)] != low:
        raise Violation('%s %r data %r damaged at %d (%s) gives %r, what is before the damage says %r' % (scheme, chain, bad[:200], k, dmg[0], got[:200], low[:200]))


pred_case = st.tuples(st.tuples(st.integers(1, 3), st.integers(1, 8), st.sampled_from([8, 8, 4, 16])), gen.choose(st.binary(min_size=1, max_size=200), st.tuples(st.integers(1, 12), st.binary(min_size=1, max_size=24))), st.lists(st.integers(0, 4), min_size=1, max_size=8),
                      st.sampled_from(['FlateDecode', 'LZWDecode']), damage, st.integers(0, 3), st.integers(5, 255), gen.short_tape)


def predictor(case, cx):
    """row predictors: damaged data below them, or a row of a type there is not"""
    (colors, columns, bpc), d, types, f, dmg, how, bt, tape = case
    n = (colors * columns * bpc + 7) // 8
    if isinstance(d, tuple):
        d = (d[1] * (d[0] * n))[:d[0] * n]           # whole rows, several of them
    d = d[:len(d) // n * n]
    pre = F.png_predict(d, colors, columns, bpc, types)
    if how == 0 and d:
        r = dmg[1] % (len(d) // n)
        pre = pre[:r * (n + 1)] + bytes([bt]) + pre[r * (n + 1) + 1:]
        bad, low = F.ENC[f](pre, Choices(tape)), d[:r * n]
    else:
        enc = F.ENC[f](pre, Choices(tape))
        bad, k = hurt(enc, dmg)
        low = d[:len(F.HEAD[f](enc[:k])) // (n + 1) * n]
    got = bare([(b'Filter', N(f)), (b'DecodeParms', D(Predictor=I(12), Colors=I(colors), Columns=I(columns), BitsPerComponent=I(bpc)))], bad)
    cx.nontrivial(0 < len(low) < len(d))
    cx.tag('row type' if how == 0 else dmg[0])
    if got[:len(low)] != low or how == 0 and d and len(got) != len(low):
        raise Violation('rows %r instead of %r (%d bytes in a row)' % (got[:200], low[:200], n))


def fax(case, cx):
    """Group 4 data"""
    (w, seed), dmg, tape = case
    ch = Choices(tape)
    rows = expand(w, seed)
    ends = []
    align = ch.pick(3) == 1
    enc, _ = F.g4(rows, w, ch, align, ends=ends)
    bad, k = hurt(enc, dmg)
    whole = sum(e <= 8 * k for e in ends)
    got = bare([(b'Filter', N('CCITTFaxDecode')), (b'DecodeParms', D(K=I(-1), Columns=I(w), EncodedByteAlign=('bool', align)))], bad)
    low = pack(rows[:whole], w, False)
    cx.nontrivial(0 < whole < len(rows))
    cx.tag(dmg[0])
    if got[:len(low)] != low or dmg[0] == 'cut' and len(got) > len(low):
        raise Violation('rows %r instead of %r (columns %d) of %r damaged at %d' % (got[:200], low[:200], w, bad[:100], k))


# ---------------------------------------------------------------- pages

step = gen.choose(
    st.tuples(coord, coord, coord, coord).map(lambda v: [('re',) + v, ('f',)]),
    st.tuples(coord, coord, coord, coord).map(lambda v: [('m',) + v[:2], ('l',) + v[2:], ('S',)]),
    st.tuples(unit, unit, unit).map(lambda v: [('rg',) + v]),
    st.text('abc XYZ', min_size=1, max_size=5).map(lambda s: [('BT',), ('Tf', nm('F1'), 10), ('Tj', ('str', s.encode())), ('ET',)]))
pages_case = st.tuples(st.lists(st.lists(st.tuples(st.lists(step, min_size=1, max_size=6), st.sampled_from(['FlateDecode', 'LZWDecode', 'RunLengthDecode'])), min_size=1, max_size=3),
                                min_size=1, max_size=3), st.integers(0, 8), st.sampled_from(['cut', 'sum', 'tail']), st.integers(0, 10 ** 6), gen.short_tape)
FONT, _ = simple_font('Alpha', 1)


def read(data, cx, name, n):
    out = []
    for i in range(n):
        try:
            out.append([items_of(p) for p in PDFInterpreter(cx.write(name, data), pagenos=[i])])
        except Exception as e:                       # operands of a kind that the operator does not take
            out.append(type(e).__name__)
    return out


def content(case, cx):
    """a content stream that is cut off paints what its first part says; the other streams and pages are as ever"""
    pages, which, how, at, tape = case
    ch = Choices(tape)
    streams = [s for p in pages for s in p]
    which %= len(streams)
    n = 0
    a, b = {}, {}
    kids = []
    for i, p in enumerate(pages):
        refs = []
        for steps, f in p:
            src = emit([o for s in steps for o in s], ch) + b'\n'
            enc = F.ENC[f](src, ch)
            bad, k, low = enc, len(enc), src
            if n == which:
                if how == 'cut':
                    bad, k = hurt(enc, ('cut', at, b''))
                elif f == 'FlateDecode' and how == 'sum':
                    bad = enc[:-1] + bytes([enc[-1] ^ 1])
                elif f == 'FlateDecode':
                    bad = enc[:-(at % 4 + 1)]
                low = F.HEAD[f](bad[:k])
                cx.nontrivial(0 < len(low) < len(src) or bad != enc and how != 'cut')
            a[100 + n] = ('stream', [(b'Filter', N(f))], bad)
            b[100 + n] = ('stream', [], low)
            refs.append(R(100 + n))
            n += 1
        kids.append(R(10 + i))
        v = D(Type=N('Page'), Parent=R(2), MediaBox=A(I(0), I(0), I(600), I(800)), Resources=D(Font=D(F1=FONT)), Contents=('arr', refs) if len(refs) > 1 or ch.pick(2) else refs[0])
        a[10 + i] = b[10 + i] = v
    for o in (a, b):
        o[1] = D(Type=N('Catalog'), Pages=R(2))
        o[2] = ('dict', [(b'Type', N('Pages')), (b'Kids', ('arr', kids)), (b'Count', I(len(kids)))])
    cx.tag(how)
    want = read(simple_file(b), cx, 'b.pdf', len(pages))
    got = read(simple_file(a), cx, 'a.pdf', len(pages))
    if same(got, want, 0) is not None:
        raise Violation('a damaged content stream gives %r, the data before the damage %r' % (got, want))


# ---------------------------------------------------------------- object streams

TOKENS = [b' R ', b' /A R ', b' << ', b' >> ', b' [ ', b' ] ', b'(', b')', b'<', b'>', b' endobj ', b' obj ', b' null ', b'/', b'#', b' { ', b' } ', b'%', b' endstream ', b' true ', b' 1 2 R ', b' stream ', b'<[1]2>', b' << [1] 2 >> ', b' << (a) >> ', b' << << >> 1 >> ', b' -', b'.', b'++1 ', b' 1 (a) R ', b' 0 0 R ', b' [ 1 R ']
junked = st.tuples(st.sampled_from(['put', 'add', 'end', 'cut']), st.integers(0, 10 ** 6), gen.choose(st.sampled_from(TOKENS), st.lists(st.sampled_from(TOKENS), min_size=1, max_size=4).map(b''.join)))
packed_case = gen.choose(
    st.tuples(st.lists(gen.values(depth=3), min_size=3, max_size=12), st.lists(st.sampled_from(['FlateDecode', 'LZWDecode', 'RunLengthDecode', 'ASCIIHexDecode']), min_size=1, max_size=2),
              damage, st.booleans(), gen.short_tape),
    st.tuples(st.lists(gen.values(depth=3), min_size=2, max_size=8), st.just([]), junked, st.booleans(), gen.short_tape))


def packed(case, cx):
    """the objects of an object stream that lie before the damage"""
    vals, chain, dmg, table, tape = case
    ch = Choices(tape)
    w = Writer(ch=ch)
    w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    bodies = [join(tokens(v, ch, []), ch) + b'\n' for v in vals]
    offs = [sum(map(len, bodies[:i])) for i in range(len(vals))]
    head = b' '.join(b'%d %d' % (20 + i, o) for i, o in enumerate(offs)) + b'\n'
    src = head + b''.join(bodies)
    enc = src
    for f in reversed(chain):
        enc = F.ENC[f](enc, ch)
    bad, k = hurt(enc, dmg)
    low = enc[:k]
    for f in chain:
        low = F.HEAD[f](low)
    w.obj(10, ('stream', [(b'Type', N('ObjStm')), (b'N', I(len(vals))), (b'First', I(len(head)))] + ([(b'Filter', A(*map(N, chain)))] if chain else []), bad))
    entries = {0: ('f',), 1: ('n', w.offsets[1], 0), 2: ('n', w.offsets[2], 0), 10: ('n', w.offsets[10], 0)}
    entries.update({20 + i: ('c', 10, i) for i in range(len(vals))})
    pos = w.xref_stream(11, entries, [(b'Root', R(1))])
    w.end(pos)
    doc = open_doc(w.bytes(), fallback=table)
    safe = [i for i in range(len(vals)) if len(head) + offs[i] + len(bodies[i]) <= len(low)]
    # what follows two numbers may make a reference of them, what follows a number or a name may be part of it
    last = max([i for i in range(len(vals)) if len(head) + offs[i] < len(low)], default=-1)
    while safe and safe[-1] >= last - 1 and vals[safe[-1]][0] in ('int', 'real'):
        safe.pop()
    cx.nontrivial(0 < len(safe) < len(vals) or dmg[0] == 'end' and safe)
    cx.tag(dmg[0], 'plain' if not chain else 'filtered')
    order = [safe[(k + dmg[1]) % len(safe)] for k in range(len(safe))]
    if dmg[1] % 3 == 0 and len(safe) < len(vals):
        try:
            doc.getobj(20 + len(vals) - 1)           # a damaged one first
        except Exception:
            pass
    for i in order:
        try:
            got = norm(doc.getobj(20 + i))
        except PDFMajorException as e:
            got = type(e).__name__
        if got != expect(vals[i]):
            raise Violation('object %d before the damage reads as %r instead of %r; data %r' % (20 + i, got, expect(vals[i]), low[:300]))


TESTS = [
    Test('filters', st.tuples(anydata, st.lists(names, min_size=1, max_size=3), damage, gen.tape), filters, quick=6000, thorough=80000),
    Test('sealed', sealed_case, sealed, quick=2500, thorough=30000),
    Test('predictor', pred_case, predictor, quick=2000, thorough=30000),
    Test('fax', st.tuples(bitmap(), damage, gen.tape), fax, quick=3000, thorough=40000),
    Test('content', pages_case, content, quick=1200, thorough=20000),
    Test('packed', packed_case, packed, quick=2000, thorough=30000),
]
