"""P33: documents read and converted in several threads at once."""
import os, re, sys, threading
from hypothesis import strategies as st
from .. import boot, cmaps as CM, docs, filters as F, gen
from ..core import Test, Violation, clip
from ..crypt import Security
from ..pdf import Choices, N, I, R, A, D, page_file, simple_file
from ..content import items_of
from ..lib import open_doc, norm
from pdfmajor.converters import convert_file
from pdfmajor.interpreter import PDFInterpreter
from ..fresh import forget

PID = 'P33'
RULE = 'threads: the schedule changed at least ten times between threads that were inside the library; pauses: the reading that is held up runs more than 100 different lines of the library; sweep: it is held up at 20 lines or more'

ROOT = os.path.join(os.path.realpath(boot.REPO), '')


class Schedule:
    """Lets one of several threads run at a time; after a generated number of lines of the library it is the turn of another one."""
    def __init__(self, jobs, lengths, picks):
        self.jobs, self.lengths, self.picks = jobs, lengths, picks
        self.cond = threading.Condition()
        self.turn, self.left, self.n, self.switches, self.beat = 0, lengths[0], 0, 0, 0
        self.live = list(range(len(jobs)))
        self.out = [None] * len(jobs)
        self.stop = False

    def next_turn(self):
        """(holding cond) choose who runs next and for how long"""
        self.n += 1
        self.left = self.lengths[self.n % len(self.lengths)]
        if self.live:
            k = self.live[self.picks[self.n % len(self.picks)] % len(self.live)]
            if k != self.turn:
                self.switches += 1
            self.turn = k
        self.cond.notify_all()

    def wait(self, me):
        """(holding cond) wait for the turn of this thread; a thread which is blocked outside (a lock) loses its turn"""
        while self.turn != me and not self.stop:
            seen = self.beat
            if not self.cond.wait(1.0) and seen == self.beat and self.turn != me:
                self.turn = me
        if self.stop:
            raise SystemExit

    def run(self, me):
        def line(frame, event, arg):
            if event == 'line':
                if self.turn != me or self.left <= 0 or self.stop:
                    with self.cond:
                        if self.turn == me:
                            self.next_turn()
                        self.wait(me)
                self.left -= 1
                self.beat += 1
            return line

        def calls(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(ROOT) else None
        try:
            with self.cond:
                self.wait(me)
            sys.settrace(calls)
            try:
                self.out[me] = ('result', self.jobs[me]())
            finally:
                sys.settrace(None)
        except SystemExit:
            pass
        except BaseException as e:
            self.out[me] = ('raised', type(e).__name__, str(e)[:300])
        finally:
            with self.cond:
                self.live.remove(me)
                if self.turn == me:
                    self.next_turn()

    def all(self):
        threads = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        try:
            for t in threads:
                while t.is_alive():
                    t.join(0.5)
        except BaseException:
            self.stop = True
            with self.cond:
                self.cond.notify_all()
            raise
        return self.out


# ---------------------------------------------------------------- documents

def plain(doc, chain, protected):
    """bytes of a docs document whose streams are filtered and which may be encrypted, and its password"""
    objs, ch = docs.objects(doc)
    for k, v in objs.items():
        if v[0] == 'stream' and k != 24:
            data = v[2]
            for f in reversed(chain):
                data = F.ENC[f](data, Choices(doc[4]))
            if chain:
                objs[k] = ('stream', v[1] + [(b'Filter', A(*[N(f) for f in chain]))], data)
    if not protected:
        return simple_file(objs, ch=ch), None
    sec = Security(*protected)
    objs = {k: sec.value(v, k) for k, v in objs.items()}
    objs[90] = sec.dictionary()
    return simple_file(objs, ch=ch, trailer_extra=[(b'Encrypt', R(90)), (b'ID', A(('str', sec.docid), ('str', sec.docid)))]), 'user'


def wide(codes, seed):
    """composite fonts with an installed CMap and Unicode map, and embedded maps"""
    objs, res, body = {}, [], b'BT '
    for i in range(3):
        cm = [(b'one', 'H'), (b'two', 'V'), (b'Identity', 'H')][(i + seed) % 3]
        objs[20 + i] = ('dict', [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', N('X%d' % i)), (b'Encoding', N(cm[0] + b'-' + cm[1].encode())), (b'DescendantFonts', A(R(30 + i)))])
        if i == seed % 3 or cm[0] == b'Identity':
            objs[40 + i] = ('stream', [], b'/CIDInit /ProcSet findresource begin begincmap 1 begincodespacerange <0000> <ffff> endcodespacerange 1 beginbfrange <0000> <00ff> <%04x> endbfrange endcmap' % (0x4e00 + 256 * i + seed))
            objs[20 + i][1].append((b'ToUnicode', R(40 + i)))
        objs[30 + i] = D(Type=N('Font'), Subtype=N('CIDFontType2'), BaseFont=N('X'), CIDSystemInfo=D(Registry=('str', b'Adobe'), Ordering=('str', b'Some%d' % (seed % 2)), Supplement=I(0)), W=A(I(1), A(I(500 + seed), I(300))),
                         FontDescriptor=D(Type=N('FontDescriptor'), FontName=N('X'), FontBBox=A(I(0), I(-200), I(1000), I(800)), Ascent=I(800), Descent=I(-200)))
        res.append((b'F%d' % i, R(20 + i)))
        body += b'/F%d %d Tf (' % (i, 9 + i) + b''.join(b'\\%03o' % c for c in codes) + b') Tj '
    return page_file(body + b'ET', D(Font=('dict', res)), objs)


FMT = ['items', 'items', 'items', 'objects', 'json', 'xml', 'yaml', 'html', 'text']
source = gen.choose(
    st.tuples(st.just('doc'), docs.small(2, 4), st.lists(st.sampled_from(sorted(F.ENC)), max_size=3), st.sampled_from([None, None, ('V2R3', b'user', b'owner', -44, 128), ('V4AES', b'user', b'owner', -44, 128)])),
    st.tuples(st.just('doc'), docs.small(2, 4), st.lists(st.sampled_from(sorted(F.ENC)), max_size=3), st.none()),
    st.tuples(st.just('wide'), st.lists(st.integers(0, 60), min_size=2, max_size=8), st.integers(0, 7)))
jobs_ = st.lists(st.tuples(st.integers(0, 1), st.sampled_from(FMT)), min_size=2, max_size=3)
case = st.tuples(st.tuples(source, source), jobs_, st.lists(st.sampled_from([1, 1, 2, 3, 5, 8, 30, 100, 400, 1500, 4000]), min_size=3, max_size=40), st.lists(st.integers(0, 5), min_size=2, max_size=9))


def reader(path, fmt, password, out):
    def read():
        if fmt == 'items':
            return [(p.page_num, float(p.width), float(p.height), items_of(p)) for p in PDFInterpreter(path, password=password, ignore_bad_chars=True)]
        if fmt == 'objects':
            with open(path, 'rb') as f:
                doc = open_doc(f.read(), password=password or '')
            rows = []
            for k in sorted({k for x in doc.xrefs for k in x.get_objids()} - {0}):
                o = doc.getobj(k)
                rows.append((k, norm(o), o.get_data() if hasattr(o, 'get_data') else None))
            return rows
        convert_file(path, out, out_type=fmt, password=password, ignore_bad_chars=True)
        with open(out, 'rb') as f:
            return re.sub(rb'\d{9,}(-\d+)?', rb'image', f.read())         # (names of images: numbers of objects in memory)
    return read


def install(cx):
    root = cx.path('cmaps')
    if not os.path.isdir(root):
        import gzip, pickle
        os.makedirs(root)
        for name, data in (('one-H', {'CODE2CID': {i: (i + 1 if i % 7 else {j: j + 3 for j in range(70)}) for i in range(64)}, 'IS_VERTICAL': False}),
                           ('two-V', {'CODE2CID': {i: 70 - i for i in range(64)}, 'IS_VERTICAL': True}),
                           ('to-unicode-Adobe-Some0', {'CID2UNICHR_H': {i: chr(0x3041 + i) for i in range(80)}, 'CID2UNICHR_V': {i: chr(0x30a1 + i) for i in range(80)}}),
                           ('to-unicode-Adobe-Some1', {'CID2UNICHR_H': {i: chr(0x391 + i) for i in range(80)}, 'CID2UNICHR_V': {i: chr(0x410 + i) for i in range(80)}})):
            with open(os.path.join(root, name + '.pickle.gz'), 'wb') as f:
                f.write(gzip.compress(pickle.dumps(data), 0))
    os.environ['CMAP_PATH'] = root


def threads(case, cx):
    """each thread comes to what it comes to alone, however the threads take turns"""
    sources, jobs, lengths, picks = case
    install(cx)
    files = []
    for i, s in enumerate(sources):
        data, pw = plain(*s[1:]) if s[0] == 'doc' else (wide(*s[1:]), None)
        files.append((cx.write('%d.pdf' % i, data), pw))
    try:
        forget()
        make = lambda tag: [reader(files[d][0], fmt, files[d][1], cx.path('%s%d.%s' % (tag, k, fmt))) for k, (d, fmt) in enumerate(jobs)]
        run = Schedule(make('t'), lengths, picks)
        got = run.all()
        cx.nontrivial(run.switches >= 10)
        cx.tag(*{'job ' + f for _, f in jobs}, 'switches %s' % ('<10' if run.switches < 10 else '<100' if run.switches < 100 else '<1000' if run.switches < 1000 else 'more'))
        forget()
        for k, read in enumerate(make('a')):
            try:
                want = ('result', read())
            except Exception as e:
                want = ('raised', type(e).__name__, str(e)[:300])
            if got[k] != want:
                raise Violation('%s of file %d in thread %d of %d\n   got      %s\n   alone    %s' % (jobs[k][1], jobs[k][0], k, len(jobs), clip(got[k]), clip(want)))
    finally:
        os.environ.pop('CMAP_PATH', None)
        forget()


def outcome(read):
    try:
        return 'result', read()
    except Exception as e:
        return 'raised', type(e).__name__, str(e)[:300]


def lines_of(read):
    """what the reading comes to, and {line of the library: how often it runs}"""
    seen = {}

    def line(frame, event, arg):
        if event == 'line':
            k = (frame.f_code, frame.f_lineno)
            seen[k] = seen.get(k, 0) + 1
        return line
    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(ROOT) else None)
    try:
        return outcome(read), seen
    finally:
        sys.settrace(old)


def held(read, other, where, nth):
    """read, held up when it comes to a line for the nth time until another thread has read something else"""
    got = []
    left = [nth]

    def line(frame, event, arg):
        if event == 'line' and frame.f_lineno == where[1] and left[0] > 0:
            left[0] -= 1
            if left[0] == 0:
                t = threading.Thread(target=lambda: got.append(outcome(other)), daemon=True)
                t.start()
                t.join(20)
                threads.append(t)
        return line
    threads = []
    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: line if frame.f_code is where[0] else None)
    try:
        first = outcome(read)
    finally:
        sys.settrace(old)
    for t in threads:                    # (it may have had to wait for a lock)
        t.join()
    return first, (got or [None])[0]


def held_often(read, other, places, nth):
    """read, held up when it comes to each of the places (the times in nth), each time until another thread has read something else"""
    got, threads, stuck = [], [], []
    left, count = dict(zip(places, nth)), dict.fromkeys(places, 0)
    codes = {k[0] for k in places}

    def line(frame, event, arg):
        if event == 'line':
            k = (frame.f_code, frame.f_lineno)
            if k in left and not stuck:
                count[k] += 1
                if count[k] in left[k]:
                    t = threading.Thread(target=lambda: got.append((k, outcome(other))), daemon=True)
                    t.start()
                    t.join(10)
                    if t.is_alive():                 # (it has to wait for a lock)
                        stuck.append(t)
        return line
    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: line if frame.f_code in codes else None)
    try:
        first = outcome(read)
    finally:
        sys.settrace(old)
    for t in stuck:
        t.join()
    return first, got


def sweep(case, cx):
    """a thread that is held up again and again, at every n-th line it comes to"""
    sources, one, two, n, r, often = case
    install(cx)
    files = []
    for i, s in enumerate(sources):
        data, pw = plain(*s[1:]) if s[0] == 'doc' else (wide(*s[1:]), None)
        files.append((cx.write('%d.pdf' % i, data), pw))
    read = [reader(files[d][0], fmt, files[d][1], cx.path('%d.%s' % (k, fmt))) for k, (d, fmt) in enumerate((one, two))]
    try:
        forget()
        first, seen = lines_of(read[0])
        forget()
        second = outcome(read[1])
        places = list(seen)[r % n::n]
        cx.tag('job ' + one[1], 'job ' + two[1], *('source ' + (s[0] if s[0] == 'wide' else s[3][0] if s[3] else 'plain') for s in sources))
        cx.nontrivial(len(places) >= 20)
        forget()
        nth = [{1 + (often + 37 * i + j * seen[k] // 4) % seen[k] for j in range(4)} for i, k in enumerate(places)]
        f, others = held_often(read[0], read[1], places, nth)
        for k, g in others:
            if g != second:
                raise Violation('the other thread (the first held at line %d of %s of %s)\n   got      %s\n   alone    %s' % (k[1], k[0].co_name, os.path.relpath(k[0].co_filename, ROOT), clip(g), clip(second)))
        if f != first:
            raise Violation('the thread held up (%d times, at lines %d, %d, ... that it comes to)\n   got      %s\n   alone    %s' % (len(others), r % n, r % n + n, clip(f), clip(first)))
    finally:
        os.environ.pop('CMAP_PATH', None)
        forget()


def pauses(case, cx):
    """a thread that is held up anywhere while another one reads comes to what it comes to alone, and so does the other"""
    sources, one, two, points = case
    install(cx)
    files = []
    for i, s in enumerate(sources):
        data, pw = plain(*s[1:]) if s[0] == 'doc' else (wide(*s[1:]), None)
        files.append((cx.write('%d.pdf' % i, data), pw))
    read = [reader(files[d][0], fmt, files[d][1], cx.path('%d.%s' % (k, fmt))) for k, (d, fmt) in enumerate((one, two))]
    try:
        forget()
        first, seen = lines_of(read[0])
        forget()
        second = outcome(read[1])
        places = list(seen)
        cx.tag('job ' + one[1], 'job ' + two[1])
        cx.nontrivial(len(places) > 100)
        for at, often in points:
            if not places:
                return
            where = places[at % len(places)]
            nth = {0: 1, 1: seen[where], 2: (seen[where] + 1) // 2}[often]
            cx.tag('held in ' + os.path.relpath(where[0].co_filename, ROOT))
            forget()
            got = held(read[0], read[1], where, nth)
            for what, g, want in (('the thread held up', got[0], first), ('the other thread', got[1], second)):
                if g is not None and g != want:
                    raise Violation('%s (held at line %d of %s of %s)\n   got      %s\n   alone    %s' % (what, where[1], where[0].co_name, os.path.relpath(where[0].co_filename, ROOT), clip(g), clip(want)))
    finally:
        os.environ.pop('CMAP_PATH', None)
        forget()


job = st.tuples(st.integers(0, 1), st.sampled_from(FMT))
held_ = st.tuples(st.tuples(source, source), job, job, st.lists(st.tuples(st.integers(0, 1 << 16), st.sampled_from([0, 0, 1, 2])), min_size=1, max_size=16))

secret = st.tuples(st.sampled_from(['V1R2', 'V2R3', 'V2R3', 'V4V2', 'V4AES', 'V4AES', 'V5AES']), st.just(b'user'), st.just(b'owner'), st.just(-44), st.just(128), st.sampled_from([b'0123456789abcdef', b'fedcba9876543210']))
closed = st.tuples(st.just('doc'), docs.small(1, 2), st.lists(st.sampled_from(sorted(F.ENC)), max_size=1), secret)
few = gen.choose(st.tuples(st.just('doc'), docs.small(1, 3), st.lists(st.sampled_from(sorted(F.ENC)), max_size=3), st.none()),
                 st.tuples(st.just('wide'), st.lists(st.integers(0, 60), min_size=2, max_size=5), st.integers(0, 7)))
kinds = gen.choose(st.tuples(closed, closed), st.tuples(closed, closed), st.tuples(few, few), st.tuples(few, few), st.tuples(few, closed))
sweep_job = st.tuples(st.integers(0, 1), st.sampled_from(['items', 'objects', 'items', 'objects', 'json', 'xml', 'html', 'text', 'yaml']))
sweep_ = st.tuples(kinds, sweep_job, sweep_job, st.just(13), st.integers(0, 12), st.integers(0, 40))

TESTS = [Test('sweep', sweep_, sweep, quick=280, thorough=12000),
         Test('threads', case, threads, quick=320, thorough=12000),
         Test('pauses', held_, pauses, quick=400, thorough=30000)]
