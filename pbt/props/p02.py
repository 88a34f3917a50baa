"""P02: what is read does not depend on where tokens fall relative to the reader's buffers."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, Writer, N, I, R, A, D, join, tokens
from ..lib import open_doc, norm, expect
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.execptions import PSEOF

PID = 'P02'
RULE = '''a case is non-trivial when a multiple of 4096 (the read size) falls strictly inside the serialised bytes of one
of the generated values, of an inline image or of the cross-reference section (both sides of the boundary belong to it)'''

BLOCK = 4096

long_scalar = st.one_of(
    st.tuples(st.integers(1, 9000), st.sampled_from([b'a', b'(', b'\\', b')', b'\n', b'\xff', b'EI'])).map(
        lambda t: ('str', (t[1] * t[0])[:t[0]])),
    st.tuples(st.integers(1, 5000), st.sampled_from([b'n', b'#', b'\xe9', b' '])).map(lambda t: ('name', t[1] * t[0])),
    st.integers(3000, 5000).map(lambda n: ('real', '0' * n + '1.5')),
    st.integers(3000, 5000).map(lambda n: ('real', '.' + '25' * n)),
)
vals = st.lists(st.one_of(gen.values(depth=5), gen.values(depth=5), gen.values(depth=5), long_scalar), min_size=1, max_size=3)
# where the block boundary falls, counted in bytes from the start of the values
where = st.integers(0, 160)


def crosses(a, b):
    return a // BLOCK != (b - 1) // BLOCK


def place(w, d, how, k=1):
    """Pad so that the next byte written lands d bytes before a multiple of BLOCK."""
    cur = len(w.buf)
    want = -d % BLOCK
    n = (want - cur) % BLOCK + BLOCK * (k - 1)
    w.pad(n, how)


def body(case, cx):
    """file objects, cross-reference table and trailer written at every alignment"""
    vs, tape, d, how, d2, tail = case
    ch = Choices(tape)
    w = Writer(ch=ch)
    w.loose = True
    w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    spans = []
    for i, v in enumerate(vs):
        place(w, d, how)
        w.obj(10 + i, v)
        spans.append((w.offsets[10 + i], len(w.buf)))
    place(w, d2, how)
    ent = {k: (w.offsets[k], 0) for k in w.offsets}
    ent[0] = None
    pos = w.xref_table(ent, [(b'Size', I(20)), (b'Root', R(1))])
    spans.append((pos, len(w.buf)))
    w.end(pos)
    data = w.bytes() + [b' ', b'\n', b'\r\n', b'\t'][how] * tail
    cx.nontrivial(any(crosses(a, b) for a, b in spans))
    for fb in (True, False):
        doc = open_doc(data, fallback=fb)
        for i, v in enumerate(vs):
            cx.eq(norm(doc.getobj(10 + i)), expect(v), 'object %d at offset %d (recovery %s): ...%r...' % (
                10 + i, spans[i][0], fb, data[spans[i][0]:spans[i][1]][:600]))


def startxref(case, cx):
    """the backwards search for startxref, with the marker at every distance from the end of file"""
    tail, kind, lead, eol = case
    w = Writer(eol=eol)
    w.obj(1, D(Type=N('Catalog'), Pages=R(2), Mark=I(lead)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    w.pad(lead)
    ent = {0: None, 1: (w.offsets[1], 0), 2: (w.offsets[2], 0)}
    pos = w.xref_table(ent, [(b'Size', I(3)), (b'Root', R(1))])
    sx = len(w.buf)
    w.end(pos)
    pad = [eol, b' ', b'%comment' + eol][kind]
    data = w.bytes() + (pad * tail)[:tail]
    n = len(data)
    # the file is searched from its end in blocks
    cx.nontrivial((n - sx) // BLOCK != (n - sx - 20) // BLOCK)
    cx.tag('tail over one block' if n - sx > BLOCK else 'tail within a block')
    doc = open_doc(data, fallback=False)
    cx.eq(norm(doc.catalog), expect(D(Type=N('Catalog'), Pages=R(2), Mark=I(lead))), 'catalogue')


def xrefstream(case, cx):
    """cross-reference stream and object stream objects at every alignment"""
    vs, tape, d, how, d2 = case
    ch = Choices(tape)
    w = Writer()
    w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    place(w, d, how % 2)
    inner = [(10 + i, v) for i, v in enumerate(vs)]
    if how >= 2:      # the boundary inside the object stream's own data
        inner.insert(0, (9, ('str', b'p' * (BLOCK - d % 300))))
    w.objstm(5, inner, ch=ch)
    end = len(w.buf)
    place(w, d2, how % 2)
    ent = {0: ('f',), 1: ('n', w.offsets[1], 0), 2: ('n', w.offsets[2], 0), 5: ('n', w.offsets[5], 0)}
    for i, (k, v) in enumerate(inner):
        ent[k] = ('c', 5, i)
    w.end(w.xref_stream(6, ent, [(b'Root', R(1))]))
    data = w.bytes()
    cx.nontrivial(crosses(w.offsets[5], end) or how >= 2)
    for fb in (True, False):
        doc = open_doc(data, fallback=fb)
        for k, v in inner:
            cx.eq(norm(doc.getobj(k)), expect(v), 'object %d (recovery %s)' % (k, fb))


inline_data = st.one_of(st.binary(max_size=60), st.lists(st.sampled_from([b'E', b'I', b'EI', b'EIx', b'ID', b'\n', b'Q', b'BI', b'(']), max_size=20).map(b''.join),
                        st.tuples(st.integers(0, 9000), st.sampled_from([b'E', b'\0', b'IE', b'\r'])).map(lambda t: (t[1] * t[0])[:t[0]]))


def terminates(b):
    """inline image data that contains no EI + white space of its own, and no line end at its end"""
    for i in range(len(b) - 1):
        if b[i:i + 2] == b'EI' and (i + 2 == len(b) or b[i + 2:i + 3].isspace() or b[i + 2] == 0):
            return False
    return not b.endswith((b'\r', b'\n'))


content_case = st.tuples(
    st.lists(st.one_of(
        st.tuples(st.just('op'), st.lists(st.one_of(gen.values(null=False, depth=3), gen.scalars(null=False), long_scalar), max_size=3)),
        st.tuples(st.just('img'), inline_data)), min_size=1, max_size=4),
    gen.tape, where, st.integers(0, 3))


def content(case, cx):
    """content streams and inline images at every alignment"""
    items, tape, d, how = case
    ch = Choices(tape)
    data, want = b'', []
    spans = []
    for kind, x in items:
        data += b'\n'
        n = (-d - len(data)) % BLOCK
        data += {0: b' ' * n, 1: (b'%' + b'c' * n)[:max(0, n - 1)] + b'\n' * min(n, 1), 2: b'\n' * n, 3: b'\r\n' * (n // 2) + b' ' * (n % 2)}[how]
        a = len(data)
        if kind == 'op':
            toks = []
            for v in x:
                tokens(v, ch, toks)
                want.append(expect(v))
            toks.append(b'Do')
            want.append(('kwd', b'Do'))
            data += join(toks, ch)
        else:
            x = x.rstrip(b'\r\n')
            while not terminates(x):
                x = x.replace(b'EI', b'IE').rstrip(b'\r\n')
            data += b'BI /W 1 /H 1 ID' + [b' ', b'\n', b'\r'][ch.pick(3)] + x + [b'\n', b'\r\n', b'\r', b''][ch.pick(4)] + b'EI'
            want.append(('inline', x))
            want.append(('kwd', b'EI'))
        spans.append((a, len(data)))
    data += b'\n'
    cx.nontrivial(any(crosses(a, b) for a, b in spans))
    cx.tag(*{'item ' + k for k, _ in items})
    got = []
    p = PDFContentParser([PDFStream({}, data)])
    try:
        while 1:
            o = p.nextobject()[1]
            got.append(('inline', o.get_data()) if isinstance(o, PDFStream) else norm(o))
    except PSEOF:
        pass
    cx.eq(got, want, 'content stream')


TESTS = [
    Test('body', st.tuples(vals, gen.tape, where, st.integers(0, 3), where, st.integers(0, 60)), body, quick=4500, thorough=50000),
    Test('startxref', st.tuples(st.one_of(st.integers(4060, 4096), st.integers(8156, 8192), st.integers(0, 8500)), st.integers(0, 2), st.integers(0, 5000), st.sampled_from([b'\n', b'\r\n', b'\r'])),
         startxref, quick=4500, thorough=40000),
    Test('xrefstream', st.tuples(vals, gen.tape, where, st.integers(0, 3), where), xrefstream, quick=3000, thorough=30000),
    Test('content', content_case, content, quick=4500, thorough=50000),
]
