"""P25: outlines, text strings and named destinations."""
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, simple_file
from ..crypt import Security
from ..lib import open_doc, norm, expect
from pdfmajor.parser.PDFStream import resolve1
from pdfmajor.execptions import PDFNoOutlines, PDFDestinationNotFound

PID = 'P25'
RULE = '''a case is non-trivial when the outline has at least three entries on two levels, or the names are spread over at least two nodes and at least two of them are looked up'''

# PDFDocEncoding, the codes that are characters (PDF 32000-1, annex D)
PDFDOC = {9: '\t', 10: '\n', 13: '\r'}
PDFDOC.update({c: chr(c) for c in range(32, 127)})
PDFDOC.update(zip(range(0x18, 0x20), '\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc'))
PDFDOC.update(zip(range(0x80, 0x9f), '\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e'))
PDFDOC[0xa0] = '\u20ac'
PDFDOC.update({c: chr(c) for c in range(0xa1, 256) if c != 0xad})
DOC_CODES = sorted(PDFDOC)

docenc = st.lists(st.one_of(st.sampled_from(DOC_CODES), st.integers(32, 126), st.sampled_from(DOC_CODES)), max_size=12).map(bytes).filter(lambda b: not b.startswith((b'\xfe\xff', b'\xff\xfe', b'\xef\xbb\xbf')))
utf16 = st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.characters(min_codepoint=0xa0, max_codepoint=0x10ffff, blacklist_categories=('Cs',)),
                          st.sampled_from('\u0a0d\u0d0a\u2820\u2928\u5c5c\ufeff\xfe\xff')), max_size=8).map(lambda s: b'\xfe\xff' + s.encode('utf-16-be'))
title = st.one_of(docenc, utf16)


def text_of(b):
    if b.startswith(b'\xfe\xff'):
        return b[2:].decode('utf-16-be')
    return ''.join(PDFDOC[c] for c in b)


# ---------------------------------------------------------------- outlines

entry = st.tuples(title, st.sampled_from(['dest', 'dest', 'named', 'action', 'both', 'none', 'se']), st.booleans())
levels = st.lists(st.tuples(entry, st.integers(0, 3)), max_size=12)         # entries in order; how far each may go up again
outline = st.tuples(levels, st.sampled_from([None, None, None, 'V2R3', 'V4AES']), st.sampled_from([None, None, None, None, None, 'long', 'deep', 'circle', 'absent']), gen.tape)


def make_outline(case):
    """(objects, [(number, level, title, dest, action)] in order)"""
    lv, scheme, shape, tape = case
    ch = Choices(tape)
    seq = []
    level = 1
    for i, (e, up) in enumerate(lv):
        if i:
            level = min(level + 1, max(1, level - up + 1)) if up != 1 else level
        seq.append((level, e))
    if shape == 'long':
        seq += [(1, (b'x%d' % i, 'dest', False)) for i in range(1100 + ch.pick(900))]
    elif shape == 'deep':
        top = seq[-1][0] if seq else 0
        seq += [(top + i + 1, (b'd%d' % i, 'dest', False)) for i in range(60)]
    objs = {10 + i: None for i in range(len(seq))}
    nums = [10 + i for i in range(len(seq))]
    if ch.pick(2) and len(seq) < 20:
        nums = nums[::-1]
    want = []
    kids, parent = {}, {}
    stack = []
    for k, (l, e) in enumerate(seq):
        del stack[l - 1:]
        parent[k] = stack[-1] if stack else None
        kids.setdefault(parent[k], []).append(k)
        stack.append(k)
    for k, (l, (t, how, indirect)) in enumerate(seq):
        d = [(b'Title', ('str', t))]
        if indirect:
            objs[5000 + k] = ('str', t)
            d[0] = (b'Title', R(5000 + k))
        d.append((b'Parent', R(nums[parent[k]] if parent[k] is not None else 3)))
        dest = action = None
        if how in ('dest', 'both', 'se'):
            dest = A(R(2), N('XYZ'), I(k), ('null',), I(0))
        elif how == 'named':
            dest = ('str', b'name %d' % k) if ch.pick(2) else N('name%d' % k)
        if how in ('action', 'both'):
            action = D(S=N('GoTo'), D=A(R(2), N('Fit')))
        if dest:
            d.append((b'Dest', dest))
        if action:
            if ch.pick(2):
                objs[9000 + k] = action
                d.append((b'A', R(9000 + k)))
            else:
                d.append((b'A', action))
        se = None
        if how == 'se':
            se = D(Type=N('StructElem'), S=N('H1'))
            d.append((b'SE', se))
        sib = kids[parent[k]]
        p = sib.index(k) if len(sib) < 30 else (k - sib[0] if seq[k][0] == 1 and len(sib) == sib[-1] - sib[0] + 1 else sib.index(k))
        if p:
            d.append((b'Prev', R(nums[sib[p - 1]])))
        if p + 1 < len(sib):
            d.append((b'Next', R(nums[sib[p + 1]])))
        elif shape == 'circle' and ch.pick(2):
            d.append((b'Next', R(nums[ch.pick(len(nums))])))
        if k in kids:
            d += [(b'First', R(nums[kids[k][0]])), (b'Last', R(nums[kids[k][-1]])), (b'Count', I(len(kids[k])))]
        objs[nums[k]] = ('dict', d)
        want.append((nums[k], l, text_of(t), dest, action, se))
    root = [(b'Type', N('Outlines'))]
    if None in kids:
        root += [(b'First', R(nums[kids[None][0]])), (b'Last', R(nums[kids[None][-1]])), (b'Count', I(len(kids[None])))]
    objs[3] = ('dict', root)
    return objs, want


def outlines(case, cx):
    """trees of entries, titles in both encodings, destinations and actions, encrypted too; very many entries; chains in circles"""
    lv, scheme, shape, tape = case
    objs, want = make_outline(case)
    ch = Choices(tape[::-1])
    cat = [(b'Type', N('Catalog')), (b'Pages', R(2))]
    if shape != 'absent':
        cat.append((b'Outlines', R(3)))
    objs[1] = ('dict', cat)
    objs[2] = D(Type=N('Pages'), Kids=A(), Count=I(0))
    extra = ()
    if scheme:
        sec = Security(scheme, b'', b'o', 0xffffffff, 128)
        objs = {k: sec.value(v, k) for k, v in objs.items()}
        objs[4] = sec.dictionary()
        extra = [(b'Encrypt', R(4)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]
    doc = open_doc(simple_file(objs, ch=ch if shape != 'long' else None, trailer_extra=extra))
    if shape == 'absent':
        try:
            got = list(doc.get_outlines())
        except PDFNoOutlines:
            cx.tag('no outline')
            return
        raise Violation('a document without outlines has %r' % got)
    got = []
    for x in doc.get_outlines():
        got.append(x)
        if len(got) > 2 * len(want) + 10:
            raise Violation('more than %d entries come out of %d: %r ...' % (len(got), len(want), got[:5]))
    # entries that lead nowhere may be left out
    got = [(l, t, norm(resolve1(d)), norm(resolve1(a)), norm(resolve1(s))) for l, t, d, a, s in got if d is not None or a is not None]
    w = [(l, t, expect(d or ('null',)), expect(a or ('null',)), expect(s or ('null',))) for _, l, t, d, a, s in want if d or a]
    if shape == 'circle':
        # an entry may come at another level first; but none is lost or told twice
        cx.eq(sorted((repr(g[1:]) for g in got)), sorted((repr(x[1:]) for x in w)), 'entries of an outline with circular chains')
    else:
        cx.eq(got, w, 'outline')
    cx.tag(shape or 'tree')
    if scheme:
        cx.tag('encrypted')
    cx.nontrivial(len(want) >= 3 and len({x[1] for x in want}) >= 2)


# ---------------------------------------------------------------- names

key = st.one_of(st.sampled_from([b'a', b'b', b'c', b'chapter.1', b'chapter.10', b'chapter.2', b'sec', b'', b'\xfe\xff\0a', b'(', b'\xff']), st.binary(max_size=4))
val = st.one_of(st.integers(0, 900).map(lambda n: A(R(2), N('XYZ'), I(n))), st.integers(0, 900).map(lambda n: D(D=A(R(2), N('FitH'), I(n)))), st.just(A()), st.just(D()))
names = st.tuples(st.dictionaries(key, val, max_size=14), st.dictionaries(st.sampled_from(['a', 'b', 'chapter.1', 'Intro', 'x']), val, max_size=3),
                  st.sampled_from(['tree', 'tree', 'tree', 'dict', 'both', 'both', 'neither']), st.lists(key, max_size=5), st.sampled_from([None, None, None, 'V2R3', 'V4AES']), gen.tape)


def make_tree(pairs, ch, objs, root=True):
    """a node of the name tree over the sorted pairs"""
    def ref(v, p=3):
        if ch.pick(p) != 1:
            return v
        k = 100 + len(objs)
        objs[k] = v
        return R(k)
    if len(pairs) <= 1 + ch.pick(5):
        node = [(b'Names', ref(A(*[x for k, v in pairs for x in (ref(('str', k), 8), ref(v))]), 4))]
        make_tree.nodes += 1
    else:
        n = 2 + ch.pick(3)
        cuts = sorted({ch.pick(len(pairs) - 1) + 1 for _ in range(n - 1)} | {0, len(pairs)})
        node = [(b'Kids', ref(A(*[R_of(make_tree(pairs[a:b], ch, objs, False), objs) for a, b in zip(cuts, cuts[1:])]), 4))]
    if pairs and (not root or ch.pick(6) == 5):
        node.append((b'Limits', ref(A(('str', pairs[0][0]), ('str', pairs[-1][0])), 5)))
    return ('dict', node)


def R_of(v, objs):
    k = 100 + len(objs)
    objs[k] = v
    return R(k)


def destinations(case, cx):
    """name trees of any shape, the older dictionary, both at once; names that are there and names that are not"""
    tree, old, where, more, scheme, tape = case
    ch = Choices(tape)
    objs = {1: None, 2: D(Type=N('Pages'), Kids=A(), Count=I(0))}
    cat = [(b'Type', N('Catalog')), (b'Pages', R(2))]
    make_tree.nodes = 0
    has_tree, has_old = where in ('tree', 'both'), where in ('dict', 'both')
    if has_tree:
        root = make_tree(sorted(tree.items()), ch, objs)
        nm = D(Dests=R_of(root, objs) if ch.pick(2) else root, EmbeddedFiles=D(Names=A(('str', b'file'), D(Type=N('Filespec')))))
        cat.append((b'Names', R_of(nm, objs) if ch.pick(2) else nm))
    if has_old:
        d = ('dict', [(k.encode(), v) for k, v in old.items()])
        cat.append((b'Dests', R_of(d, objs) if ch.pick(2) else d))
    objs[1] = ('dict', cat)
    extra = ()
    if scheme:
        sec = Security(scheme, b'', b'o', 0xffffffff, 128)
        objs = {k: sec.value(v, k) for k, v in objs.items()}
        objs[90] = sec.dictionary()
        extra = [(b'Encrypt', R(90)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]
    doc = open_doc(simple_file(objs, ch=ch, trailer_extra=extra), caching=bool(ch.pick(3)))
    found = 0
    for k in list(tree) + more + list(old) + ['x', 'nowhere']:
        want = (tree.get(k) if has_tree else None) if isinstance(k, bytes) else (old.get(k) if has_old else None)
        try:
            got = norm(resolve1(doc.get_dest(k)))
        except PDFDestinationNotFound:
            got = 'not found'
        cx.eq(got, expect(want) if want else 'not found', 'destination %r' % k)
        if isinstance(k, bytes):
            try:
                got = norm(resolve1(doc.lookup_name('Dests', k)))
            except KeyError:
                got = 'not found'
            cx.eq(got, expect(want) if want else 'not found', 'name %r' % k)
        found += want is not None
    if has_tree:
        cx.eq(norm(resolve1(doc.lookup_name('EmbeddedFiles', b'file'))), expect(D(Type=N('Filespec'))), 'a name of another tree')
    cx.tag(where)
    if make_tree.nodes > 1:
        cx.tag('several nodes')
    cx.nontrivial(found >= 2 and make_tree.nodes >= 2)


TESTS = [Test('outlines', outline, outlines, quick=2500, thorough=60000), Test('names', names, destinations, quick=2500, thorough=60000)]
