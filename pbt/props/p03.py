"""P03: every object resolves to its most recent definition, whatever cross-reference forms the file's history used."""
import zlib
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..filters import flate, png_predict
from ..pdf import Choices, Writer, N, I, R, A, D, join, tokens
from ..lib import open_doc, norm, expect
from pdfmajor.execptions import PDFObjectNotFound
from pdfmajor.parser.PDFStream import resolve1
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef

PID = 'P03'
RULE = '''a case is non-trivial when the file has at least two revisions and some object is defined more than once, or
objects live in an object stream, or the newest section's object numbers are not contiguous'''

# one revision: form, the objects it (re)defines, choices
NUMS = [3, 4, 5, 6, 7, 9, 12, 13, 20, 21, 40, 255, 256, 300]
value = st.one_of(gen.ints.map(lambda n: ('int', n)), gen.str_bytes.map(lambda b: ('str', b)),
                  gen.containers(refs=(3, 7, 20, 256), depth=3),
                  st.tuples(st.just('stream'), st.just([(b'Tag', ('int', 1))]), st.binary(max_size=30)))
update = st.tuples(st.sampled_from(NUMS), value, st.sampled_from(['plain', 'packed', 'packed2']))
revision = st.tuples(
    st.sampled_from(['table', 'stream', 'hybrid']),
    st.lists(update, min_size=1, max_size=7, unique_by=lambda u: u[0]),
    st.lists(st.sampled_from(NUMS), max_size=3),     # numbers to mark free when not in use
    gen.short_tape)

history = st.tuples(
    st.lists(revision, min_size=1, max_size=5),
    st.sampled_from([b'\n', b'\r\n', b'\r']),
    st.lists(st.sampled_from(NUMS + [1, 2, 8]), max_size=25))     # access sequence


def width_for(x):
    n = 1
    while x >= 256 ** n:
        n += 1
    return n


def build(revs, eol, loose=True, sec=None):
    """Returns (bytes, {num: value}, stats); sec: a crypt.Security that protects the document."""
    w = Writer(eol=eol)
    w.loose = loose
    model, defs, gens = {}, {}, {}
    prev = None
    nxt = 1000                     # numbers of auxiliary streams
    stats = {'redefined': 0, 'packed': 0, 'multi': 0, 'sections': [], 'entries': [], 'root': 1, 'moved': False}
    seal = sec.value if sec else lambda v, num, gen=0: v
    inside = lambda filt, sid: (filt or None) if not sec else lambda data, n: (lambda d, p: (sec.encrypt(d, sid, 0), p))(*(filt(data, n) if filt else (data, [])))
    encrypt = None
    for ri, (form, ups, frees, tape) in enumerate(revs):
        ch = Choices(tape)
        w.ch = ch
        plain, hidden = {}, {}     # entries of this section
        packs = {'packed': [], 'packed2': []}
        own = []
        if ri == 0:
            own = [(1, D(Type=N('Catalog'), Pages=R(2)), ['plain', 'plain', 'packed'][ch.pick(3)]), (2, D(Type=N('Pages'), Kids=A(), Count=I(0)), ['plain', 'packed2'][ch.pick(2)])]
            if sec:
                encrypt = sec.dictionary()
                if ch.pick(2):
                    w.obj(8000, encrypt)
                    plain[8000] = ('n', w.offsets[8000], 0)
                    encrypt = R(8000)
        elif ch.pick(4) == 3:                # the catalog changes, or is another object from now on
            stats['root'] = [1, 8][ch.pick(2)]
            stats['moved'] = stats['moved'] or stats['root'] == 8
            own = [(stats['root'], D(Type=N('Catalog'), Pages=R(2), Revision=I(ri)), ['plain', 'packed'][ch.pick(2)])]
        for num, v, where in own:
            model[num] = v
            if form == 'stream' and where != 'plain':
                packs[where].append((num, v))
            else:
                w.obj(num, seal(v, num))
                plain[num] = ('n', w.offsets[num], 0)
        for num, v, where in ups:
            if num in model:
                stats['redefined'] += 1
            model[num] = v
            if form != 'table' and where != 'plain' and v[0] != 'stream' and v[0] != 'ref':
                packs[where].append((num, v))
                stats['packed'] += 1
            else:
                g = [0, 0, 0, 1, 3][ch.pick(5)]
                w.obj(num, seal(v, num, g), gen=g)
                plain[num] = ('n', w.offsets[num], g)
        for items in packs.values():
            if not items:
                continue
            sid = nxt
            nxt += 1
            filt = None
            if ch.pick(2):
                filt = lambda data, n: (zlib.compress(data), [(b'Filter', N('FlateDecode'))])
            w.objstm(sid, items, filt=inside(filt, sid), ch=ch)
            (hidden if form == 'hybrid' else plain)[sid] = ('n', w.offsets[sid], 0)
            for i, (k, _) in enumerate(items):
                (hidden if form == 'hybrid' else plain)[k] = ('c', sid, i)
        free = [k for k in frees if k not in model]
        tr = [(b'Root', R(stats['root']))]
        if sec:
            tr += [(b'Encrypt', encrypt), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]
        if prev is not None:
            tr.append((b'Prev', I(prev)))
        if ri == 0 and form != 'stream' or ch.pick(3) == 1:
            plain.setdefault(0, ('f',))
        for k in free:
            plain.setdefault(k, ('f',))
        size = max([nxt + 1] + NUMS + [8000] * bool(sec)) + 1
        tr.append((b'Size', I(size)))

        def xs(entries, trailer):
            nonlocal nxt
            sid = nxt
            nxt += 1
            biggest = max([len(w.buf)] + [e[1] for e in entries.values() if e[0] != 'f'])
            w1 = 1
            if all(e[0] == 'n' for e in entries.values()) and ch.pick(3) != 2:
                w1 = 0
            w2 = [width_for(biggest), 3, 4, 8, 5, 6, 7][ch.pick(7)]
            if w2 < width_for(biggest):
                w2 = 4
            w3 = [1, 2, 0, 4, 3, 5][ch.pick(6)]
            if any(len(e) > 2 and e[2] for e in entries.values()) and w3 == 0:
                w3 = 1
            filt = None
            k = ch.pick(4)
            if k == 1:
                filt = lambda data, n: (zlib.compress(data), [(b'Filter', N('FlateDecode'))])
            elif k >= 2:
                filt = lambda data, n: (zlib.compress(png_predict(data, 1, n, 8, [2] if k == 2 else [2, 0])), [
                    (b'Filter', N('FlateDecode')), (b'DecodeParms', D(Predictor=I(12), Columns=I(n)))])
            return w.xref_stream(sid, entries, trailer, widths=(w1, w2, w3), filt=filt)

        if form == 'stream':
            pos = xs(plain, tr)
        else:
            if hidden:
                spos = xs(hidden, [t for t in tr if t[0] != b'Prev'])
                tr.append((b'XRefStm', I(spos)))
                for k in hidden:               # hidden from old readers
                    if ch.pick(2):
                        plain.setdefault(k, ('f',))
            pos = w.xref_table({k: (None if e[0] == 'f' else (e[1], e[2])) for k, e in plain.items()}, tr)
        ids = sorted(plain)
        if ids and ids[-1] - ids[0] + 1 != len(ids):
            stats['multi'] += 1
        stats['sections'].append(pos)
        stats['entries'] += [(k, e[1]) for k, e in {**plain, **hidden}.items() if e[0] == 'n']
        w.end(pos)
        prev = pos
        model.pop(nxt, None)
    return w.bytes(), model, stats


def check_obj(doc, k, model, cx, what):
    if k not in model:
        try:
            x = doc.getobj(k)
        except PDFObjectNotFound:
            cx.check(resolve1(PDFObjRef(doc, k, 0)) is None, '%s: reference to undefined object %d is not null' % (what, k))
            return
        raise Violation('%s: object %d is not defined but reads as %r' % (what, k, x))
    v = model[k]
    got = doc.getobj(k)
    if v[0] == 'stream':
        cx.eq(type(got).__name__, 'PDFStream', '%s: object %d' % (what, k))
        cx.eq((type(got).__name__, got.get('Tag'), got.get_data()), ('PDFStream', 1, v[2]), '%s: object %d' % (what, k))
    else:
        cx.eq(norm(got), expect(v), '%s: object %d' % (what, k))


def newest(case, cx):
    """incremental histories mixing tables, cross-reference streams, hybrid sections and object streams"""
    revs, eol, seq = case
    data, model, stats = build(revs, eol)
    cx.nontrivial((len(revs) > 1 and stats['redefined']) or stats['packed'] or stats['multi'])
    cx.tag('revisions %d' % len(revs), *{'form ' + r[0] for r in revs})
    if stats['redefined']:
        cx.tag('redefinition')
    if stats['packed']:
        cx.tag('object stream')
    for fb in (False, True):
        for caching in (True, False):
            doc = open_doc(data, fallback=fb, caching=caching)
            cx.eq(norm(doc.catalog), expect(model[stats['root']]), 'catalogue of %s' % LazyRepr(data))
            for k in seq + sorted(model):
                check_obj(doc, k, model, cx, 'recovery %s, caching %s, file %s' % (fb, caching, LazyRepr(data)))


class LazyRepr:
    def __init__(self, d):
        self.d = d

    def __str__(self):
        return repr(self.d)[:2500]


def enumerate_(case, cx):
    """the list of object numbers of each section is exactly the ones it defines"""
    revs, eol, _ = case
    revs = revs[:1]
    data, model, stats = build(revs, eol)
    cx.nontrivial(stats['packed'] or stats['multi'])
    doc = open_doc(data, fallback=False)
    ids = set()
    for x in doc.xrefs:
        for i in x.get_objids():
            ids.add(i)
    got = {i for i in ids if i < 1000 and i != 0}
    cx.eq(got, set(model), 'object numbers in %r' % data[:2500])


TESTS = [
    Test('newest', history, newest, quick=3000, thorough=40000),
    Test('enumerate', history, enumerate_, quick=1200, thorough=10000),
]
