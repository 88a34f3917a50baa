"""P09: pages come in document order with their own or inherited attributes, and selections pick exactly those asked for."""
from io import BytesIO
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, num, simple_file
from ..lib import open_doc, norm, expect
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFStream import list_value, resolve1
from pdfmajor.interpreter import PDFInterpreter

PID = 'P09'
RULE = '''a case is non-trivial when the tree has at least three pages on at least two levels and some page inherits an
attribute (tree), or the selection leaves out at least one page and keeps at least one (select)'''

box = st.tuples(st.integers(-50, 50), st.integers(-50, 50), st.integers(60, 900), st.integers(60, 900))
attrs = st.fixed_dictionaries({}, optional={
    'M': box, 'C': box, 'R': st.sampled_from([0, 90, 180, 270, 360, -90, 450, -180, 630]), 'S': st.integers(1, 99)})
leaf = st.tuples(st.just('page'), attrs, st.sampled_from(['none', 'one', 'array', 'refarray', 'empty', 'null', 'missing']))
tree = st.recursive(leaf, lambda ch: st.tuples(st.just('node'), attrs, st.lists(ch, max_size=4)), max_leaves=14)
root = st.tuples(st.just('node'), attrs, st.lists(tree, max_size=5))


def displayed(w):
    '''size of the MediaBox, turned by Rotate (P24)'''
    x0, y0, x1, y1 = w['mediabox']
    size = (abs(x1 - x0), abs(y1 - y0))
    return size[::-1] if w['rotate'] % 180 else size


def build(root, tape, shuffle):
    """Returns (bytes, [expected page])"""
    ch = Choices(tape)
    objs = {}
    want = []
    ids = iter(shuffle)
    fresh = lambda: next(ids)
    DEFBOX = (0, 0, 612, 792)

    def put(v):
        """direct or indirect"""
        if ch.pick(3) == 2:
            k = fresh()
            objs[k] = v
            return R(k)
        return v

    def go(node, parent, inh, depth):
        kind, at, rest = node
        me = fresh()
        inh = dict(inh)
        pairs = [(b'Type', N('Pages' if kind == 'node' else 'Page'))]
        if parent:
            pairs.append((b'Parent', R(parent)))
        if 'M' in at:
            pairs.append((b'MediaBox', put(A(*map(I, at['M'])))))
        if 'C' in at:
            pairs.append((b'CropBox', put(A(*map(I, at['C'])))))
        if 'R' in at:
            pairs.append((b'Rotate', put(I(at['R']))))
        if 'S' in at:
            pairs.append((b'Resources', put(D(Mark=I(at['S'])))))
        inh.update(at)
        if kind == 'node':
            kids = [R(go(c, me, inh, depth + 1)) for c in rest]
            pairs.append((b'Kids', put(('arr', kids))))
            pairs.append((b'Count', I(len(kids))))
        else:
            text = b'%% page %d\n%d w 0 0 m 9 0 l S ' % (len(want), len(want))
            cs = []
            if rest == 'one':
                k = fresh()
                objs[k] = ('stream', [], text)
                cs = [text]
                pairs.append((b'Contents', R(k)))
            elif rest in ('array', 'refarray'):
                ks = []
                for i in range(1 + ch.pick(3)):
                    k = fresh()
                    objs[k] = ('stream', [], text + b'%% %d' % i)
                    cs.append(text + b'%% %d' % i)
                    ks.append(R(k))
                v = ('arr', ks)
                if rest == 'refarray':
                    k = fresh()
                    objs[k] = v
                    v = R(k)
                pairs.append((b'Contents', v))
            elif rest == 'empty':
                pairs.append((b'Contents', A()))
            elif rest == 'null':
                pairs.append((b'Contents', ('null',)))
            elif rest == 'missing':
                pairs.append((b'Contents', R(990)))
            m = inh.get('M', DEFBOX)
            want.append({'id': me, 'mediabox': list(m), 'cropbox': list(inh.get('C', m)), 'rotate': inh.get('R', 0) % 360,
                         'mark': inh.get('S'), 'contents': cs, 'depth': depth,
                         'inherits': any(k in inh and k not in at for k in 'MCRS')})
        if ch.pick(2):
            pairs.reverse()
        objs[me] = ('dict', pairs)
        return me

    cat = fresh()
    kind, at, rest = root
    at = dict(at)
    at.setdefault('M', DEFBOX)
    top = go((kind, at, rest), None, {}, 0)
    objs[cat] = D(Type=N('Catalog'), Pages=R(top))
    return simple_file(objs, root=cat), want


def seen(p):
    res = p.resources if p.resources is not None else {}
    return {'id': p.pageid, 'mediabox': list(p.mediabox), 'cropbox': list(p.cropbox), 'rotate': p.rotate,
            'mark': res.get('Mark'), 'contents': [resolve1(c).get_data() for c in list_value(p.contents) if resolve1(c) is not None]}


def strip(w):
    return {k: v for k, v in w.items() if k not in ('depth', 'inherits')}


shuffles = st.one_of(st.just(0), st.integers(1, 2 ** 30))


def numbering(seed):
    import random
    xs = list(range(1, 400))
    if seed:
        random.Random(seed).shuffle(xs)
    return xs


def pagetree(case, cx):
    """order, attributes and contents of every page"""
    root, tape, sh = case
    data, want = build(root, tape, numbering(sh))
    cx.tag('%d pages' % min(len(want), 6))
    cx.nontrivial(len(want) >= 3 and len({w['depth'] for w in want}) >= 2 and any(w['inherits'] for w in want))
    for kw in ({}, {'caching': False}):
        got = [seen(p) for p in PDFPage.get_pages(BytesIO(data), **kw)]
        cx.eq(got, [strip(w) for w in want], 'pages of the tree')
    if not want:
        return
    pages = list(PDFInterpreter(cx.write('a.pdf', data)))
    cx.eq([(p.page_num, p.width, p.height) for p in pages],
          [(i,) + displayed(w) for i, w in enumerate(want)], 'number, width and height of pages')
    cx.eq([[it.linewidth for it in p] for p in pages], [[i] * len(w['contents']) for i, w in enumerate(want)], 'what the pages draw')


select_case = st.tuples(root, st.one_of(st.none(), st.lists(st.integers(0, 12), max_size=6)), st.integers(0, 12),
                        st.sampled_from(['list', 'set', 'tuple']))


def select(case, cx):
    """page numbers asked for, and the limit on pages"""
    root, nos, limit, typ = case
    data, want = build(root, [], numbering(0))
    ids = [w['id'] for w in want]
    if nos is not None:
        nos = {'list': list, 'set': set, 'tuple': tuple}[typ](nos)
    got = [p.pageid for p in PDFPage.get_pages(BytesIO(data), pagenos=nos)]
    exp = [x for i, x in enumerate(ids) if not nos or i in nos]
    cx.eq(got, exp, 'pages %r of %d' % (nos, len(ids)))
    got = [p.pageid for p in PDFPage.get_pages(BytesIO(data), maxpages=limit)]
    cx.eq(got, ids[:limit] if limit else ids, 'the first %d pages of %d' % (limit, len(ids)))
    both = [p.pageid for p in PDFPage.get_pages(BytesIO(data), pagenos=nos, maxpages=limit)]
    cx.eq(both, exp[:len(both)], 'pages %r with limit %d' % (nos, limit))
    cx.check(not limit or len(both) <= limit, 'more pages than the limit')
    cx.check(bool(both) == bool(exp), 'no page although some are selected')
    cx.nontrivial(0 < len(exp) < len(ids) or 0 < limit < len(ids))
    if exp:
        path = cx.write('a.pdf', data)
        cx.eq([p.page.pageid for p in PDFInterpreter(path, pagenos=nos)], exp, 'interpreted pages %r' % (nos,))
    if ids:
        path = cx.write('a.pdf', data)
        cx.eq([p.page.pageid for p in PDFInterpreter(path, maxpages=limit)], ids[:limit] if limit else ids, 'interpreted pages, limit %d' % limit)


orphan_case = st.tuples(st.lists(st.booleans(), min_size=1, max_size=8), st.sampled_from(['none', 'null', 'empty', 'notype']), gen.short_tape)


def orphans(case, cx):
    """no usable page tree: the page objects of the file, each once"""
    kinds, how, tape = case
    objs = {}
    want = []
    for i, page in enumerate(kinds):
        k = 10 + 2 * i
        if page:
            objs[k] = D(Type=N('Page'), MediaBox=A(I(0), I(0), I(100 + i), I(50)), Parent=R(2))
            want.append(k)
        else:
            objs[k] = D(Type=N('Font'), X=I(1))
    cat = [(b'Type', N('Catalog'))]
    if how == 'null':
        cat.append((b'Pages', R(999)))
    elif how == 'empty':
        objs[2] = D(Type=N('Pages'), Kids=A(), Count=I(0))
        cat.append((b'Pages', R(2)))
    elif how == 'notype':
        objs[2] = D(Kids=A(*[R(k) for k in want]), Count=I(0))
        cat.append((b'Pages', R(2)))
    objs[1] = ('dict', cat)
    data = simple_file(objs, ch=Choices(tape))
    got = [p.pageid for p in PDFPage.get_pages(BytesIO(data))]
    cx.nontrivial(len(want) >= 2)
    cx.eq(sorted(got), want, 'pages of a file without a page tree')


TESTS = [
    Test('pagetree', st.tuples(root, gen.tape, shuffles), pagetree, quick=3000, thorough=50000),
    Test('select', select_case, select, quick=2400, thorough=30000),
    Test('orphans', orphan_case, orphans, quick=600, thorough=5000),
]
