"""P01: every legal spelling of an object reads as the value it denotes, wherever the object is stored."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test
from ..pdf import Choices, Writer, N, I, R, A, D, join, tokens, simple_file
from ..lib import open_doc, norm, expect
from pdfmajor.parser.PDFContentParser import PDFContentParser
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.execptions import PSEOF

PID = 'P01'
RULE = '''a case is non-trivial when it holds a container or a string/name with a byte outside plain ASCII letters
and digits, and the choice tape picked at least one non-canonical spelling (escape, hexadecimal form, #-name,
comment, alternative white space or line end)'''


def interesting(vals, ch):
    return ch.used > 0 and any(v[0] in ('arr', 'dict') or
                               (v[0] in ('str', 'name') and not v[1].isalnum()) for v in vals)


body_case = st.tuples(
    st.lists(gen.values(refs=(1, 2, 77)), min_size=1, max_size=4),
    gen.tape,
    st.sampled_from([b'\n', b'\r\n', b'\r']))


def body(case, cx):
    """objects of a file body, default (recovery on) and strict table-only opening"""
    vals, tape, eol = case
    ch = Choices(tape)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    for i, v in enumerate(vals):
        objs[10 + i] = v
    data = simple_file(objs, ch=ch, eol=eol)
    cx.nontrivial(interesting(vals, ch))
    cx.tag(*['kind ' + k for v in vals for k in gen.kinds_of(v)])
    for fb in (True, False):
        doc = open_doc(data, fallback=fb)
        for i, v in enumerate(vals):
            cx.eq(norm(doc.getobj(10 + i)), expect(v), 'object %d (recovery %s) of\n%r' % (10 + i, fb, data))


# an object that is itself nothing but a reference is not stored in object streams
objstm_case = st.tuples(
    st.lists(st.one_of(gen.scalars(), gen.containers(refs=(1, 2, 77))), min_size=1, max_size=4), gen.tape)


def objstm(case, cx):
    """the same values packed into an object stream"""
    vals, tape = case
    ch = Choices(tape)
    w = Writer(ch=Choices())
    w.obj(1, D(Type=N('Catalog'), Pages=R(2)))
    w.obj(2, D(Type=N('Pages'), Kids=A(), Count=I(0)))
    w.objstm(5, [(10 + i, v) for i, v in enumerate(vals)], ch=ch)
    ent = {0: ('f',), 1: ('n', w.offsets[1], 0), 2: ('n', w.offsets[2], 0), 5: ('n', w.offsets[5], 0)}
    for i in range(len(vals)):
        ent[10 + i] = ('c', 5, i)
    w.end(w.xref_stream(6, ent, [(b'Root', R(1))]))
    data = w.bytes()
    cx.nontrivial(interesting(vals, ch))
    for fb in (True, False):
        doc = open_doc(data, fallback=fb)
        for i, v in enumerate(vals):
            cx.eq(norm(doc.getobj(10 + i)), expect(v), 'object %d (recovery %s) of\n%r' % (10 + i, fb, data))


OPS = [b'Tj', b're', b'SC', b"'", b'"', b'T*', b'BDC', b'f*', b'd0', b'q']

content_case = st.tuples(
    st.lists(st.tuples(st.lists(gen.values(null=False, depth=4), max_size=4), st.sampled_from(OPS)), min_size=1, max_size=5),
    gen.tape)


def content(case, cx):
    """operands and operators of a content stream"""
    cmds, tape = case
    ch = Choices(tape)
    toks, want = [], []
    for args, op in cmds:
        for v in args:
            tokens(v, ch, toks)
            want.append(expect(v))
        toks.append(op)
        want.append(('kwd', op))
    data = join(toks, ch) + [b'\n', b'', b' ', b'\r', b'%end'][ch.pick(5)]
    got = []
    p = PDFContentParser([PDFStream({}, data)])
    try:
        while 1:
            got.append(norm(p.nextobject()[1]))
    except PSEOF:
        pass
    cx.nontrivial(interesting([v for a, _ in cmds for v in a], ch))
    cx.eq(got, want, 'content stream %r' % data)


def trailer(case, cx):
    """values of the trailer, read through the document information dictionary and catalogue entries"""
    v, w, tape = case
    ch = Choices(tape)
    objs = {1: ('dict', [(b'Type', N('Catalog')), (b'Pages', R(2)), (b'Probe', v)]),
            2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    data = simple_file(objs, ch=ch, trailer_extra=[(b'Info', ('dict', [(b'Probe', w)])), (b'Probe', w)])
    doc = open_doc(data, fallback=bool(len(tape) % 2))
    cx.nontrivial(interesting([v, w], ch))
    exp = expect(('dict', [(b'Probe', v)]))[1]
    cx.eq([p for p in norm(doc.catalog)[1] if p[0] == b'Probe'], exp, 'catalogue of\n%r' % data)
    exp = expect(('dict', [(b'Probe', w)]))[1]
    cx.eq([norm(i) for i in doc.info], [('dict', exp)], 'information dictionary of\n%r' % data)
    cx.eq([p for p in norm(doc.xrefs[0].get_trailer())[1] if p[0] == b'Probe'], exp, 'trailer of\n%r' % data)


# strings and names built from pieces, each a spelling with the bytes it denotes; the pieces stand directly next to each other
ESC = {'n': 10, 'r': 13, 't': 9, 'b': 8, 'f': 12, '(': 40, ')': 41, '\\': 92}
PLAINS = '01234567899aAfnrtbz #%<>[]{}/.-'
piece = st.one_of(
    st.tuples(st.just('oct'), st.integers(0, 255), st.integers(1, 3)),
    st.tuples(st.just('esc'), st.sampled_from(sorted(ESC))),
    st.tuples(st.just('text'), st.text(PLAINS, min_size=1, max_size=3)),
    st.tuples(st.just('drop'), st.sampled_from('AZxz89 #%<>[]{}/')),
    st.tuples(st.just('cont'), st.sampled_from(['\n', '\r', '\r\n'])),
    st.tuples(st.just('eol'), st.sampled_from(['\n', '\r', '\r\n'])),
    st.tuples(st.just('open')), st.tuples(st.just('close')),
    st.tuples(st.just('byte'), st.integers(128, 255)))
hexpiece = st.tuples(st.integers(0, 255), st.sampled_from(['', ' ', '\n', '\t', '\r\n', '\0', '\f']), st.sampled_from(['', '', ' ', '\r']), st.integers(0, 3))
namepiece = st.one_of(st.tuples(st.integers(1, 255), st.integers(1, 4)), st.tuples(st.sampled_from(list(b'0123456789abcdefABCDEF')), st.just(0)))
spelled = st.one_of(st.tuples(st.just('str'), st.lists(piece, max_size=9)), st.tuples(st.just('str'), st.lists(piece, max_size=9)),
                    st.tuples(st.just('hex'), st.lists(hexpiece, max_size=6)), st.tuples(st.just('name'), st.lists(namepiece, min_size=1, max_size=6)))


def spell(kind, pieces):
    """(source, value)"""
    if kind == 'hex':
        case = lambda h, k: (h[0].upper() if k & 1 else h[0].lower()) + '|' + (h[1].upper() if k & 2 else h[1].lower())
        src = ''.join(case('%02x' % b, k).replace('|', mid) + end for b, mid, end, k in pieces)
        return b'<' + src.encode() + b'>', ('str', bytes(p[0] for p in pieces))
    if kind == 'name':
        out = b''
        for b, k in pieces:
            bare = 33 <= b <= 126 and b not in b'#()<>[]{}/%'
            out += bytes([b]) if k in (0, 4) and bare else (b'#%02x' if k % 2 else b'#%02X') % b
        return b'/' + out, ('name', bytes(b for b, _ in pieces))
    src, val, depth = b'(', b'', 0
    octal = cr = False                # the last piece can take another octal digit / ended in a carriage return
    for p in pieces:
        k = p[0]
        s = v = b''
        if k == 'oct':
            s = b'\\' + (b'%o' % p[1]).rjust(p[2], b'0')
            v = bytes([p[1]])
        elif k == 'esc':
            s, v = b'\\' + p[1].encode(), bytes([ESC[p[1]]])
        elif k == 'text':
            s = v = p[1].encode()
            if octal and s[0] in b'01234567':
                s = v = b'9' + s
        elif k == 'drop':
            s, v = b'\\' + p[1].encode(), p[1].encode()
        elif k == 'cont' or k == 'eol':
            e = p[1].encode()
            if cr and e[:1] == b'\n' and k == 'eol':
                e = b'\r'
            s, v = (b'\\' + e, b'') if k == 'cont' else (e, b'\n')
        elif k == 'open':
            s = v = b'('
            depth += 1
        elif k == 'close':
            if depth:
                s = v = b')'
                depth -= 1
            else:
                s, v = b'\\)', b')'
        else:
            s = v = bytes([p[1]])
        src += s
        val += v
        octal = k == 'oct' and len(s) < 4
        cr = s.endswith(b'\r')
    return src + b')' * (depth + 1), ('str', val + b')' * depth)


def spellings(case, cx):
    """strings and names spelled piece by piece, in a file and in a content stream"""
    parts, glue = case
    pairs = [spell(*p) for p in parts]
    cx.nontrivial(any(len(p[1]) > 2 for p in parts))
    vals = [expect(v) for _, v in pairs]
    src = b''
    for (s, _), g in zip(pairs, glue):
        src += s + (b' ' if s[:1] == b'/' else g)
    objs = {1: D(Type=N('Catalog'), Pages=R(2)), 2: D(Type=N('Pages'), Kids=A(), Count=I(0)), 5: ('raw', b'[' + src + b']')}
    cx.eq(norm(open_doc(simple_file(objs)).getobj(5)), ('arr', vals), 'array %r' % src)
    got = []
    p = PDFContentParser([PDFStream({}, src + b' Do')])
    try:
        while 1:
            got.append(norm(p.nextobject()[1]))
    except PSEOF:
        pass
    cx.eq(got, vals + [('kwd', b'Do')], 'content stream %r' % src)


TESTS = [
    Test('spellings', st.tuples(st.lists(spelled, min_size=1, max_size=4), st.lists(st.sampled_from([b'', b' ', b'\n', b'%x\n']), min_size=4, max_size=4)), spellings, quick=9000, thorough=150000),
    Test('body', body_case, body, quick=4500, thorough=60000),
    Test('objstm', objstm_case, objstm, quick=3000, thorough=40000),
    Test('content', content_case, content, quick=4500, thorough=60000),
    Test('trailer', st.tuples(gen.values(refs=(1, 77), depth=5), gen.values(refs=(1, 77), depth=5), gen.tape), trailer, quick=1800, thorough=20000),
]
