"""P04: with recovery on, damaged cross-reference data loses no object whose own text is intact."""
import re, zlib
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, Writer, N, I, R, A, D
from ..lib import open_doc, norm, expect
from pdfmajor.execptions import PDFObjectNotFound
from ..crypt import Security
from . import p03

PID = 'P04'
RULE = '''a case is non-trivial when the damage changes the cross-reference data actually used (a section, its position,
the offsets it lists or the start marker) and the file holds at least one object besides the catalogue and page tree'''

junk_line = st.text('%abc xyz<>[]()/ .-', max_size=30).map(lambda s: s.encode() + b'\n')
junk = st.lists(junk_line, min_size=1, max_size=6).map(b''.join)


def tame(v):
    if v[0] in ('str',):
        return ('str', v[1].replace(b'startxref', b'startxrex').replace(b'obj', b'obx'))
    if v[0] == 'arr':
        return ('arr', [tame(x) for x in v[1]])
    if v[0] == 'dict':
        return ('dict', [(k, tame(x)) for k, x in v[1]])
    if v[0] == 'stream':
        return ('stream', v[1], v[2].replace(b'startxref', b'startxrex').replace(b'obj', b'obx'))
    return v


def unmarked(v):
    """no text in it that looks like a table"""
    if v[0] == 'str':
        return ('str', v[1].replace(b'xref', b'xreg'))
    if v[0] == 'arr':
        return ('arr', [unmarked(x) for x in v[1]])
    if v[0] == 'dict':
        return ('dict', [(k, unmarked(x)) for k, x in v[1]])
    if v[0] == 'stream':
        return ('stream', v[1], v[2].replace(b'xref', b'xreg'))
    return v


def tame_revs(revs):
    return [(f, [(n, tame(v), w) for n, v, w in ups], fr, t) for f, ups, fr, t in revs]


def lands_wrong(data, shift_from, k, entries):
    """would a shifted offset point at a header that reads as the same object number but is not that object?"""
    for num, off in entries:
        q = off if off < shift_from else off + k
        if q == off:
            continue
        # what is now at the listed offset `off`
        m = re.match(rb'[\0\t\n\f\r ]*(\d+)[\0\t\n\f\r ]+\d+[\0\t\n\f\r ]+obj', data[off:off + 60])
        if m and int(m.group(1)) == num:
            return True
    return False


def verify(data, model, cx, what, root=1, password=''):
    doc = open_doc(data, password=password)
    if root:
        cx.eq(norm(doc.catalog), expect(model[root]), 'catalogue after %s in %r' % (what, data[:3000]))
    for k in sorted(model):
        p03.check_obj(doc, k, model, cx, 'after %s, file %s' % (what, p03.LazyRepr(data)))


def shifted(case, cx):
    """bytes inserted before the header or between objects move everything the offsets point at"""
    revs, eol, _, j, where = case
    revs = tame_revs(revs[:1])
    data, model, stats = p03.build(revs, eol, loose=False)
    at = 0
    if where:
        offs = sorted(o for _, o in stats['entries'])
        at = offs[where % len(offs)]
    for extra in range(200):
        ins = (b'%' * extra) + j
        out = data[:at] + ins + data[at:]
        if not lands_wrong(out, at, len(ins), stats['entries']):
            break
    cx.nontrivial(len(model) > 2)
    cx.tag('front' if at == 0 else 'middle', 'form ' + revs[0][0])
    verify(out, model, cx, '%d bytes inserted at %d' % (len(ins), at), stats['root'])


def headless(case, cx):
    """the header is gone, wholly or in part, and all offsets are off by what is missing"""
    revs, eol, _, keep = case
    revs = tame_revs(revs)
    data, model, stats = p03.build(revs, eol, loose=False)
    first = min(o for _, o in stats['entries'])
    n = max(0, first - keep)
    out = data[n:]
    if n == 0 or lands_wrong(out, 0, -n, [(num, off) for num, off in stats['entries'] if off >= n]):
        return
    cx.nontrivial(len(model) > 2)
    cx.tag('no byte left before the first object' if n == first else 'part of the header left')
    verify(out, model, cx, '%d bytes cut off the front' % n, stats['root'])


def shifted_far(case, cx):
    """leading junk longer than the file, any number of updates"""
    revs, eol, _, j = case
    data, model, stats = p03.build(tame_revs(revs), eol, loose=False)
    j = (j * (len(data) // len(j) + 1)) + j
    cx.nontrivial(len(model) > 2)
    cx.tag('revisions %d' % len(revs))
    verify(j + data, model, cx, 'leading junk', stats['root'])


marks = st.one_of(st.sampled_from([b'', b'0', b'7', b'-1', b'x', b'12x', b'99999999', b'4294967296', b'1.5', b'<<', b'18446744073709551616']),
                  st.integers(-3, 3).map(lambda d: ('near', d)))


def start(case, cx):
    """the start marker lost its number, has a wrong one, or is gone together with the tail"""
    revs, eol, _, mark, cut = case
    revs = tame_revs(revs)
    if cut:
        revs = revs[:1]
    data, model, stats = p03.build(revs, eol, loose=False)
    i = data.rindex(b'startxref')
    if cut:
        # 1: the file ends before startxref; 2: in the middle of its number or keyword
        out = data[:i] if cut == 1 else data[:i + 4]
        what = 'truncation before the start marker'
    else:
        if isinstance(mark, tuple):
            mark = b'%d' % (stats['sections'][-1] + mark[1])
        out = data[:i] + b'startxref' + eol + mark + eol + b'%%EOF' + eol
        what = 'start marker %r' % mark
    cx.nontrivial(len(model) > 2)
    cx.tag('cut %d' % cut, 'revisions %d' % len(revs), 'form ' + revs[-1][0])
    verify(out, model, cx, what, stats['root'])


def markers(case, cx):
    """no start marker of the whole file is left, nor, as the case may be, any table or trailer"""
    revs, eol, _, how, tape = case
    ch = Choices(tape)
    revs = tame_revs(revs)
    if how not in ('word', 'gone'):
        revs = [(f, [(n, unmarked(v), w) for n, v, w in ups], fr, t) for f, ups, fr, t in revs]
    data, model, stats = p03.build(revs, eol, loose=False)
    if how == 'word':
        word = [b'startxxxx', b'STARTXREF', b'startxre', b'start xref', b''][ch.pick(5)]
        out = data.replace(b'startxref', word)
    elif how == 'gone':
        out = re.sub(rb'startxref\s+\d+\s+%%EOF', b'' if ch.pick(2) else b'%%EOF', data)
    else:
        # tables, or tables and trailers, are gone as well; cross-reference streams only lose their words
        tail = rb'(?=trailer)' if how == 'tables' else rb'trailer.*?startxref\s+\d+\s+%%EOF'
        out = re.sub(rb'(?<=[\r\n])xref[\r\n].*?' + tail, b'', data, flags=re.S)
        out = re.sub(rb'startxref\s+\d+\s+%%EOF', b'', out)
    cx.nontrivial(len(model) > 2)
    cx.tag('markers ' + how, 'revisions %d' % len(revs), *{'form ' + r[0] for r in revs})
    # a section that is left may name another catalog than those that are lost
    known = how != 'trailers' or not stats['moved'] or all(r[0] == 'table' for r in revs)
    verify(out, model, cx, 'start markers %s' % how, stats['root'] if known else 0)


def cutoff(case, cx):
    """the file ends inside or before the cross-reference data of its last update: what that defines reads as new or as before"""
    revs, eol, _, at = case
    revs = tame_revs(revs)
    data, model, stats = p03.build(revs, eol, loose=False)
    models = [p03.build(revs[:i + 1], eol, loose=False)[1] for i in range(len(revs))]
    lo, hi = stats['sections'][-1], data.rindex(b'startxref')
    out = data[:lo + at % (hi - lo + 1)]
    cx.nontrivial(len(model) > 2)
    cx.tag('revisions %d' % len(revs), 'form ' + revs[-1][0])
    doc = open_doc(out)
    for k in sorted(model):
        for m in reversed(models):
            try:
                p03.check_obj(doc, k, m, cx, 'after a cut at %d, file %s' % (len(out), p03.LazyRepr(out)))
                break
            except Violation as e:
                last = e
            except PDFObjectNotFound as e:
                last = Violation('object %d is not found after a cut at %d, file %s' % (k, len(out), p03.LazyRepr(out)))
        else:
            raise last
        if k not in models[-2] if len(models) > 1 else True:
            p03.check_obj(doc, k, model, cx, 'new object after a cut at %d, file %s' % (len(out), p03.LazyRepr(out)))


edit = st.tuples(st.sampled_from(['offset', 'swap', 'drop', 'count', 'keyword', 'use', 'garble']), st.integers(0, 50), st.integers(0, 9999999999))


def table(case, cx):
    """entries and headers of the table overwritten"""
    revs, eol, _, edits = case
    revs = tame_revs([('table',) + revs[0][1:]])
    data, model, stats = p03.build(revs, eol, loose=False)
    pos = stats['sections'][0]
    end = data.rindex(b'trailer')
    entry = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)')
    did = []
    for kind, a, b in edits:
        sect = data[pos:end]
        ms = list(entry.finditer(sect))
        live = [m for m in ms if m.group(3) == b'n']
        if kind in ('offset', 'use', 'garble', 'drop') and live:
            m = live[a % len(live)]
            if kind == 'offset':
                new = b'%010d' % (b if b % 3 else b % len(data)) + m.group(0)[10:]
                if lands_wrong_at(data, int(new[:10]), model):
                    continue
            elif kind == 'use':
                new = m.group(0)[:17] + b'f' + m.group(0)[18:]
            elif kind == 'garble':
                new = bytes([65 + (b >> 3) % 26]) * 18 + m.group(4)
            else:
                new = b''
            sect = sect[:m.start()] + new + sect[m.end():]
        elif kind == 'swap' and len(live) > 1:
            m, n = live[a % len(live)], live[b % len(live)]
            if m.start() > n.start():
                m, n = n, m
            if m is n:
                continue
            sect = sect[:m.start()] + n.group(0) + sect[m.end():n.start()] + m.group(0) + sect[n.end():]
        elif kind == 'count':
            heads = list(re.finditer(rb'(?m)(?:^|(?<=\r))(\d{1,4}) (\d{1,4})(?=[\r\n])', sect))
            if not heads:
                continue
            h = heads[a % len(heads)]
            sect = sect[:h.start(2)] + b'%d' % (b % 20) + sect[h.end(2):]
        elif kind == 'keyword':
            sect = sect.replace(b'xref', [b'xrfe', b'XREF', b'', b'xref xref'][a % 4], 1)
        else:
            continue
        did.append(kind)
        data = data[:pos] + sect + data[end:]
        end = pos + len(sect)
    cx.nontrivial(did and len(model) > 2)
    cx.tag(*{'edit ' + d for d in did})
    verify(data, model, cx, 'table edits %r' % did, stats['root'])


def lands_wrong_at(data, off, model):
    m = re.match(rb'[\0\t\n\f\r ]*(\d+)[\0\t\n\f\r ]+\d+[\0\t\n\f\r ]+obj', data[off:off + 60])
    return bool(m)


def length(case, cx):
    """streams whose declared length is wrong, absent or not a number"""
    items, tape, broken_xref = case
    ch = Choices(tape)
    w = Writer(ch=ch)
    w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    for i, (body, kind, n) in enumerate(items):
        data = zlib.compress(body)
        while b'endstream' in data or b'endobj' in data:
            body += b'.'
            data = zlib.compress(body)
        items[i] = (body, kind, n)
        good = len(data)
        ln = {'short': I(min(n, good - 1)), 'long': I(good + 3 + n), 'zero': I(0), 'negative': I(-1 - n), 'name': N('x'),
              'missing': None, 'dangling': R(77), 'huge': I(2 ** 40 + n), 'ref': R(60 + i)}[kind]
        pairs = [(b'Filter', N('FlateDecode'))]
        if ln is None:
            pairs.append((b'Length', ('null',)))
        else:
            pairs.append((b'Length', ln))
        if kind == 'short' and not data[ln[1]:].strip(b'\r\n'):
            w.obj(10 + i, ('stream', [(b'Filter', N('FlateDecode'))], data))     # cannot be told from a right length
        else:
            w.obj(10 + i, ('stream', pairs, data))
        if kind == 'ref':
            w.obj(60 + i, I(n))
    ent = {k: (o, 0) for k, o in w.offsets.items()}
    ent[0] = None
    pos = w.xref_table(ent, [(b'Size', I(100)), (b'Root', R(1))])
    w.end(7 if broken_xref else pos)
    for i, (body, kind, n) in enumerate(items):
        if kind == 'long':
            a, ln = w.streamspans[10 + i]
            if re.match(rb'[\r\n]*endstream', w.buf[a + ln + 3 + n:a + ln + 40 + n]):
                return                   # reaches exactly to the end of another stream
    cx.nontrivial(True)
    cx.tag(*{'length ' + k for _, k, _ in items})
    doc = open_doc(w.bytes())
    for i, (body, kind, n) in enumerate(items):
        cx.eq(doc.getobj(10 + i).get_data(), body, 'stream %d with %s length in %r' % (10 + i, kind, w.bytes()[:3000]))


sealed_case = st.tuples(st.tuples(p03.revision, st.lists(p03.revision, max_size=2)).map(lambda t: [t[0]] + t[1]), st.sampled_from([b'\n', b'\r\n', b'\r']),
                        st.sampled_from(['V1R2', 'V2R3', 'V4V2', 'V4AES', 'V4AES', 'V5AES']), st.sampled_from(['front', 'cut', 'word', 'gone', 'tables', 'mark', 'none']), junk, gen.short_tape)


def sealed(case, cx):
    """encrypted documents, with updates and object streams"""
    revs, eol, scheme, how, j, tape = case
    ch = Choices(tape)
    revs = [(f, [(n, unmarked(v), w) for n, v, w in ups], fr, t) for f, ups, fr, t in tame_revs(revs)]
    if how in ('cut', 'mark'):               # (or an older section is taken for the newest)
        revs = revs[:1]
    sec = Security(scheme, b'user', b'owner', -4, 128, b'0123456789abcdef', True, bytes([65 + ch.pick(20)]) * 40)
    data, model, stats = p03.build(revs, eol, loose=False, sec=sec)
    out = data
    if how == 'front':
        out = j * (len(data) // len(j) + 1) + data
    elif how == 'cut':
        out = data[:data.rindex(b'startxref')]
    elif how == 'word':
        out = data.replace(b'startxref', b'startxxxx')
    elif how in ('gone', 'tables'):
        out = re.sub(rb'startxref\s+\d+\s+%%EOF', b'', data)
        if how == 'tables':
            out = re.sub(rb'(?<=[\r\n])xref[\r\n].*?(?=trailer)', b'', out, flags=re.S)
    elif how == 'mark':
        out = data[:data.rindex(b'startxref')] + b'startxref' + eol + b'%d' % ch.pick(256) + eol + b'%%EOF' + eol
    cx.nontrivial(how != 'none' and len(model) > 2)
    cx.tag(how, scheme, 'object stream' if stats['packed'] else 'plain')
    verify(out, model, cx, '%s, %s' % (scheme, how), stats['root'], ['user', 'owner'][ch.pick(2)])


TESTS = [
    Test('sealed', sealed_case, sealed, quick=1200, thorough=30000),
    Test('length', st.tuples(st.lists(st.tuples(st.binary(max_size=60), st.sampled_from(['short', 'long', 'zero', 'negative', 'name', 'missing', 'dangling', 'huge', 'ref']), st.integers(0, 300)), min_size=1, max_size=4), gen.short_tape, st.booleans()), length, quick=800, thorough=20000),
    Test('shifted', st.tuples(st.lists(p03.revision, min_size=1, max_size=1), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), junk, st.integers(0, 12)), shifted, quick=1200, thorough=30000),
    Test('headless', st.tuples(st.lists(p03.revision, min_size=1, max_size=1), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), st.sampled_from([0, 0, 0, 1, 3, 8])), headless, quick=700, thorough=15000),
    Test('shifted_far', st.tuples(st.lists(p03.revision, min_size=1, max_size=4), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), junk), shifted_far, quick=800, thorough=20000),
    Test('start', st.tuples(st.lists(p03.revision, min_size=1, max_size=4), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), marks, st.integers(0, 2)), start, quick=1500, thorough=30000),
    Test('markers', st.tuples(st.lists(p03.revision, min_size=1, max_size=4), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), st.sampled_from(['word', 'gone', 'tables', 'trailers']), gen.short_tape), markers, quick=1500, thorough=30000),
    Test('cutoff', st.tuples(st.lists(p03.revision, min_size=1, max_size=3), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), st.integers(0, 2000)), cutoff, quick=1200, thorough=30000),
    Test('table', st.tuples(st.lists(p03.revision, min_size=1, max_size=1), st.sampled_from([b'\n', b'\r\n', b'\r']), st.just(None), st.lists(edit, min_size=1, max_size=4)), table, quick=1500, thorough=30000),
]
