"""P10: what a page contains does not depend on how or when it is read."""
import os
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation, known_findings, clip
from ..pdf import Choices, N, I, R, A, D, Writer, simple_file
from ..content import Model, emit, item_of, items_of, check_items, same, simple_font, wide_font, nm, Font
from pdfmajor.interpreter import PDFInterpreter
from .p11 import part, program

PID = 'P10'
RULE = '''a case is non-trivial when its history reads at least two pages that have items, at least one of them more than once or
interleaved with another, and uses at least one option set other than the default'''

page = st.tuples(st.lists(part, min_size=1, max_size=3), st.integers(0, 5), st.booleans(), st.booleans())
pages = st.lists(page, min_size=2, max_size=4)
# access options: caching, preload, page selection
OPTS = [dict(), dict(caching=False), dict(preload=True), dict(caching=False, preload=True), dict(caching=False, ignore_bad_chars=True),
        dict(select=1), dict(select=2, caching=False), dict(select=1, preload=True), dict(maxpages=1), dict(maxpages=2, caching=False)]
KINDS = ['open', 'pages', 'next', 'next', 'next', 'next', 'all', 'items', 'items', 'start', 'start', 'start'] + ['step'] * 7 + ['finish'] * 2
step = st.tuples(st.sampled_from(KINDS), st.integers(0, 50), st.integers(0, 50))
case = st.tuples(pages, pages, st.lists(step, min_size=12, max_size=36), gen.short_tape)

FONTS = [simple_font('Alpha', 1), simple_font('Beta', 2, (0, -100, 500, 900)), simple_font('Gamma', 3, (0, 0, 0, 0), 820, -180, 500)]


def build(pages, other, ch):
    """(file, [Model of each page]); 'other' shifts what every object number stands for"""
    fonts = FONTS[other:] + FONTS[:other]
    mk, cmap, hf = wide_font('Wide', 3 + other)
    objs = {20: fonts[0][0], 21: fonts[1][0], 22: fonts[2][0], 23: mk(24), 24: ('stream', [], cmap)}
    # the composite fonts of pages may be fonts of their own, with another ToUnicode map, which share the descendant font
    wide = dict(objs[23][1])
    objs[27] = wide[b'DescendantFonts'][1][0]
    objs[23] = ('dict', [(k, A(R(27)) if k == b'DescendantFonts' else v) for k, v in objs[23][1]])
    objs[25] = ('dict', [(k, R(26) if k == b'ToUnicode' else v) for k, v in objs[23][1]])
    objs[26] = ('stream', [], cmap.replace(b'<4e00>', b'<5e00>'))
    moved = Font(hf.name, lambda s: [(c, chr(ord(t) + 0x1000), w, o) for c, t, w, o in hf.decode(s)], hf.bbox, hf.ascent, hf.descent, vertical=hf.vertical, simple=False)
    kids, models = [], []
    for i, (parts, variant, direct, share) in enumerate(pages):
        prog = program(parts)
        f1, f2 = [(0, 1), (1, 0), (2, 1), (0, 2), (1, 2), (2, 0)][variant]
        img = bytes([65 + i + 10 * other])
        objs[30 + i] = ('stream', [(b'Subtype', N('Image')), (b'Width', I(1)), (b'Height', I(1)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray'))], img)
        fm = [('re', i, other, 3, 4), ('f',), ('BT',), ('Tf', nm('F2'), 5), ('Tj', ('str', b'in%d' % i)), ('ET',)]
        own = share
        pairs = [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(10 + i), I(20)))]
        if own:
            pairs.append((b'Resources', D(Font=D(F2=R(20 + f1)))))
        objs[40 + i] = ('stream', pairs, emit(fm))
        fv = lambda k: fonts[k][0] if direct else R(20 + k)
        objs[50 + i] = D(Font=D(F1=fv(f1), F2=fv(f2), H=R(25 if variant % 2 else 23)), XObject=D(Im=R(30 + i), Fm=R(40 + i)))
        objs[60 + i] = ('stream', [], emit(prog, ch))
        objs[70 + i] = ('dict', [(b'Type', N('Page')), (b'Parent', R(2)), (b'MediaBox', A(I(0), I(0), I(100 + i), I(200))), (b'Resources', R(50 + i)),
                                 (b'Rotate', I(90 * (variant % 3)))])
        if parts:
            objs[70 + i][1].append((b'Contents', R(60 + i)))
        kids.append(R(70 + i))
        w, h, turn = 100 + i, 200, variant % 3
        ctm = [(1, 0, 0, 1, 0, 0), (0, -1, 1, 0, 0, w), (-1, 0, 0, -1, w, h)][turn]
        res = {'fonts': {'F2': fonts[f1][1]}, 'spaces': {}, 'xobjects': {}} if own else None
        def make(restore, prog=prog, f1=f1, f2=f2, variant=variant, img=img, fm=fm, i=i, res=res, ctm=ctm, fonts=fonts):
            return Model({'F1': fonts[f1][1], 'F2': fonts[f2][1], 'H': moved if variant % 2 else hf}, {}, {
                'Im': {'kind': 'image', 'size': (1, 1), 'data': img},
                'Fm': {'kind': 'form', 'matrix': (1, 0, 0, 1, 0, 0), 'bbox': (0, 0, 10 + i, 20), 'resources': res, 'prog': fm}}, ctm, restore_graphics=restore).run(prog)
        models.append((make, (h, w) if turn == 1 else (w, h)))
    objs[1] = D(Type=N('Catalog'), Pages=R(2))
    objs[2] = D(Type=N('Pages'), Kids=('arr', kids), Count=I(len(kids)))
    return objs, models


def write(objs, ch):
    if ch.pick(2):
        # most objects in object streams, cross-reference stream
        w = Writer(ch=ch)
        ids = sorted(objs)
        packed = [k for k in ids if objs[k][0] != 'stream']
        for k in ids:
            if objs[k][0] == 'stream':
                w.obj(k, objs[k])
        w.objstm(200, [(k, objs[k]) for k in packed[::2]])
        w.objstm(201, [(k, objs[k]) for k in packed[1::2]])
        ent = {k: ('n', w.offsets[k], 0) for k in w.offsets}
        for s in (0, 1):
            for n, k in enumerate(packed[s::2]):
                ent[k] = ('c', 200 + s, n)
        ent[0] = ('f',)
        w.end(w.xref_stream(202, ent, [(b'Root', R(1))]))
        return w.bytes()
    return simple_file(objs, ch=ch)


def histories(case, cx):
    """any order of opening, iterating, abandoning and repeating gives the same items"""
    first, second, steps, tape = case
    ch = Choices(tape)
    paths, expect = [], []
    for d, pp in enumerate((first, second)):
        objs, models = build(pp, d, ch)
        paths.append(cx.write('%d.pdf' % d, write(objs, ch)))
        rows = []
        for i, (make, size) in enumerate(models):
            # the reference: this page alone, in an interpreter of its own
            pg = next(iter(PDFInterpreter(paths[d], pagenos=[i])))
            base = items_of(pg)
            want = make(True)
            if same(base, want, 1e-7) is not None and 'Q-graphics' in known_findings('P12'):
                want = make(False)                  # finding of P12: Q leaves colours and line width
            check_items(cx, base, want, 'items of page %d of file %d read on its own' % (i, d), 1e-7)
            rows.append((base, size))
        expect.append(rows)
    interps, iters, pages_, runs, kept = [], [], [], [], []
    reads = {}
    interleaved = fancy = False

    def opened(d, o):
        nonlocal fancy
        opt = dict(OPTS[o % len(OPTS)])
        fancy = fancy or bool(opt)
        n = len(expect[d])
        order = list(range(n))
        sel = opt.pop('select', None)
        if sel:
            order = [i for i in order if i % 2 == (sel - 1) % 2] or [0]
            opt['pagenos'] = list(reversed(order))
        if opt.get('maxpages'):
            order = order[:opt['maxpages']]
        interps.append((PDFInterpreter(paths[d], **opt), d, order))

    def add_page(k, pos, pg):
        _, d, order = interps[k]
        if pos >= len(order):
            raise Violation('more pages than the %d selected: %r' % (len(order), pg))
        i = order[pos]
        cx.eq((float(pg.width), float(pg.height)), tuple(map(float, expect[d][i][1])), 'size of page %d of file %d' % (i, d))
        pages_.append((pg, d, i))

    def got(d, i, n, item, how):
        base = expect[d][i][0]
        if n >= len(base):
            raise Violation('%s: page %d of file %d gave item number %d but has %d: %s' % (how, i, d, n, len(base), clip(item_of(item))))
        nf = item_of(item)
        if nf != base[n]:
            raise Violation('%s: item %d of page %d of file %d\n   got      %s\n   expected %s' % (how, n, i, d, clip(nf), clip(base[n])))
        kept.append((item, d, i, n))

    def ended(d, i, n, how):
        if n != len(expect[d][i][0]):
            raise Violation('%s: page %d of file %d gave %d of its %d items' % (how, i, d, n, len(expect[d][i][0])))
        reads[(d, i)] = reads.get((d, i), 0) + 1

    opened(0, 0)
    opened(1, steps[0][1])
    for kind, a, b in steps:
        if kind == 'open':
            opened(a % 2, b)
        elif kind == 'pages':
            iters.append([a % len(interps), iter(interps[a % len(interps)][0]), 0])
        elif kind == 'next':
            if not iters:
                iters.append([a % len(interps), iter(interps[a % len(interps)][0]), 0])
            it = iters[a % len(iters)]
            if it[1] is None:
                it[1], it[2] = iter(interps[it[0]][0]), 0
            pg = next(it[1], None)
            if pg is None:
                cx.eq(it[2], len(interps[it[0]][2]), 'number of pages of a complete iteration')
                it[1] = None
            else:
                add_page(it[0], it[2], pg)
                it[2] += 1
        elif kind == 'all':
            k = a % len(interps)
            pgs = list(interps[k][0])
            cx.eq(len(pgs), len(interps[k][2]), 'number of pages')
            for pos, pg in enumerate(pgs):
                add_page(k, pos, pg)
        elif not pages_:
            continue
        elif kind == 'items':
            pg, d, i = pages_[a % len(pages_)]
            n = 0
            for n, item in enumerate(pg, 1):
                got(d, i, n - 1, item, 'reading the whole page')
            ended(d, i, n, 'reading the whole page')
        elif kind == 'start':
            runs.append([pages_[a % len(pages_)], None, 0])
            runs[-1][1] = iter(runs[-1][0][0])
        elif runs:
            run = runs[a % len(runs)]
            (pg, d, i), it, n = run
            if it is None:
                continue
            live = [r for r in runs if r[1] is not None and r[2]]
            interleaved = interleaved or len(live) > 1
            for _ in range(1 + b % 3 if kind == 'step' else 10 ** 6):
                item = next(it, None)
                if item is None:
                    ended(d, i, run[2], 'reading in steps')
                    run[1] = None
                    break
                got(d, i, run[2], item, 'reading in steps')
                run[2] += 1
    # items handed out earlier stay as they were
    for item, d, i, n in kept:
        nf = item_of(item)
        if nf != expect[d][i][0][n]:
            raise Violation('item %d of page %d of file %d changed after it was handed out\n   now      %s\n   expected %s' % (n, i, d, clip(nf), clip(expect[d][i][0][n])))
    full = [k for k in reads if expect[k[0]][k[1]][0]]
    cx.nontrivial(len(full) >= 2 and fancy and (interleaved or any(reads[k] > 1 for k in full)))
    if interleaved:
        cx.tag('interleaved')


again_case = st.tuples(pages, pages, st.lists(st.tuples(st.integers(0, 1), st.integers(0, len(OPTS) - 1), st.booleans()), min_size=2, max_size=5), gen.short_tape)


def overwritten(case, cx):
    """the same path holds now one document, now another"""
    first, second, steps, tape = case
    ch = Choices(tape)
    docs_ = [(write(objs, ch), models) for objs, models in (build(first, 0, ch), build(second, 1, ch))]
    for d, o, whole in steps:
        raw, models = docs_[d]
        path = cx.write('same.pdf', raw)
        opt = {k: v for k, v in OPTS[o].items() if k not in ('select', 'maxpages')}
        pgs = list(PDFInterpreter(path, **opt)) if whole else [next(iter(PDFInterpreter(path, **opt)))]
        if whole:
            cx.eq(len(pgs), len(models), 'number of pages')
        for i, (pg, (make, size)) in enumerate(zip(pgs, models)):
            cx.eq((float(pg.width), float(pg.height)), tuple(map(float, size)), 'size of page %d' % i)
            base, want = items_of(pg), make(True)
            if same(base, want, 1e-7) is not None and 'Q-graphics' in known_findings('P12'):
                want = make(False)                  # finding of P12
            check_items(cx, base, want, 'items of page %d of document %d at a path that held the other one before' % (i, d), 1e-7)
    cx.nontrivial(len({d for d, _, _ in steps}) == 2)


TESTS = [Test('histories', case, histories, quick=1200, thorough=50000),
         Test('overwritten', again_case, overwritten, quick=300, thorough=6000)]
