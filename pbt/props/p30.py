"""P30: reading and converting a document opens no file but that document, the output, and CMap resources."""
import gzip, os, pickle, shutil, sys
from hypothesis import strategies as st
from .. import gen
from ..core import Test, Violation
from ..pdf import Choices, N, I, R, A, D, page_file
from ..content import items_of
from ..lib import open_doc
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.converters import convert_file
from ..fresh import forget
from pdfmajor.parser.cmapdb import CMapDB
from pdfmajor.execptions import PDFMajorException

PID = 'P30'
RULE = 'a case is non-trivial when the document names a file that exists outside the CMap folders (reached by ../, an absolute or an inner path) in a place where the library looks names up'

# ---------------------------------------------------------------- observation

_events = []
_state = {'on': False, 'hooked': False}
WATCH = {'open', 'os.listdir', 'os.scandir', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.link', 'os.symlink',
         'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.startfile', 'subprocess.Popen', 'socket.connect', 'socket.getaddrinfo', 'urllib.Request',
         'shutil.rmtree', 'shutil.copyfile', 'shutil.move', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'webbrowser.open', 'ctypes.dlopen', 'glob.glob'}


def hook(event, args):
    if _state['on'] and event in WATCH:
        _events.append((event, tuple(args)))


class watching:
    def __enter__(self):
        if not _state['hooked']:
            sys.addaudithook(hook)
            _state['hooked'] = True
        del _events[:]
        _state['on'] = True

    def __exit__(self, *a):
        _state['on'] = False


CODE = ('.py', '.pyc', '.so', '.pth', '.egg-info', '.zip')
LIBS = [os.path.realpath(p) for p in sys.path if p and os.path.isdir(p)]


def judge(inp, out, cmaps, root):
    world = os.path.join(os.path.realpath(root), '')
    inp, cmaps = os.path.realpath(inp), os.path.realpath(cmaps or '/usr/share/pdfminer')
    builtin = os.path.join(os.path.dirname(os.path.realpath(sys.modules[CMapDB.__module__].__file__)), 'cmap')
    for event, args in _events:
        target = args[0] if args else None
        if event == 'open':
            if isinstance(target, int):
                continue
            path = os.path.realpath(os.fsdecode(target))
            mode, flags = args[1], args[2]
            writes = (isinstance(mode, str) and set(mode) & set('wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not writes and (path == inp or os.path.dirname(path) in (cmaps, builtin)):
                continue
            if not writes and path.endswith(CODE) and not path.startswith(world):
                continue                       # a module being imported (no name in the case ends this way)
            if out is not None and path == os.path.realpath(out):
                continue
            raise Violation('opened %r (mode %r)' % (path, mode))
        if event in ('os.listdir', 'os.scandir') and target is not None and not isinstance(target, int) and os.path.realpath(os.fsdecode(target)) in LIBS + [os.path.realpath(p) for p in sys.path]:
            continue                           # the import system looking at its folders
        if event in ('os.listdir', 'os.scandir') and any(os.path.realpath(os.fsdecode(target or '.')).startswith(p) for p in LIBS):
            continue
        raise Violation('%s%r' % (event, args))


# ---------------------------------------------------------------- the surroundings

DECOYS = ['.', 'share/pdfminer', 'usr/share/pdfminer', 'cmap', 'cmaps', 'pdfminer', 'pdfmajor/parser/cmapdb/cmap', '.pdfminer', '.cmap', '.local/share/pdfminer']


class surroundings:
    """CMAP_PATH set or not, in a current folder and a home folder full of decoys"""
    def __init__(self, root, cmaps):
        self.root, self.cmaps = root, cmaps

    def __enter__(self):
        self.old, self.home = os.getcwd(), os.environ.get('HOME')
        os.chdir(os.path.join(self.root, 'cwd'))
        os.environ['HOME'] = os.path.join(self.root, 'cwd')
        os.environ.pop('CMAP_PATH', None)
        if self.cmaps is not None:
            os.environ['CMAP_PATH'] = self.cmaps
        forget()

    def __exit__(self, *a):
        os.chdir(self.old)
        os.environ.pop('CMAP_PATH', None)
        if self.home is not None:
            os.environ['HOME'] = self.home
        forget()


def plant(root):
    shutil.rmtree(root, ignore_errors=True)
    cmaps = os.path.join(root, 'cmaps')
    cmap = gzip.compress(pickle.dumps({'CODE2CID': {65: 7, 66: 8}, 'IS_VERTICAL': False}), 0)
    umap = gzip.compress(pickle.dumps({'CID2UNICHR_H': {i: 'Q' for i in range(99)}, 'CID2UNICHR_V': {i: 'Q' for i in range(99)}}), 0)
    for d in ('cmaps', 'cmaps/sub', 'cmaps/to-unicode-x', 'cmaps/to-unicode-Adobe-x', 'other', 'cmaps/to-unicode-', 'cmaps/to-unicode-Adobe-'):
        os.makedirs(os.path.join(root, d))
        for n in ('evil', 'good-H', 'data.txt'):
            with open(os.path.join(root, d, n + '.pickle.gz'), 'wb') as f:
                f.write(cmap)
        for n in ('to-unicode-evil', 'to-unicode-Adobe-evil', 'to-unicode-Adobe-Good', 'umap'):
            with open(os.path.join(root, d, n + '.pickle.gz'), 'wb') as f:
                f.write(umap)
        with open(os.path.join(root, d, 'secret.bin'), 'wb') as f:
            f.write(b'BT /F1 9 Tf (secret) Tj ET')
    # resource-like files below the current folder, the home folder, and beside the document
    for d in DECOYS:
        os.makedirs(os.path.join(root, 'cwd', d), exist_ok=True)
        for n in ('evil', 'good-H', 'Identity-H', 'UniJIS-UCS2-H', 'none'):
            with open(os.path.join(root, 'cwd', d, n + '.pickle.gz'), 'wb') as f:
                f.write(cmap)
        for n in ('to-unicode-evil', 'to-unicode-Adobe-evil', 'to-unicode-Adobe-Good', 'to-unicode-Adobe-x'):
            with open(os.path.join(root, 'cwd', d, n + '.pickle.gz'), 'wb') as f:
                f.write(umap)
    for n in ('evil', 'umap'):
        with open(os.path.join(root, n + '.pickle.gz'), 'wb') as f:
            f.write(cmap if n == 'evil' else umap)
    return cmaps


# $ stands for the absolute path of the scratch folder
NAMES = ['../evil', '../other/evil', 'sub/evil', './evil', '$/evil', '$/other/evil', '$/cmaps/../evil', '../cmaps/../evil', 'sub/../../evil', 'sub//evil', '../other/good-H',
         '../evil\0', 'evil/', '..', '.', '', 'x/../../umap', '../umap', 'Adobe-x/../../umap', '$/umap', '../other/umap', 'x/umap', '//etc/passwd', '/etc/hostname',
         '../other/secret.bin', '$/other/secret.bin', 'file://$/other/secret.bin', 'http://127.0.0.1:9/x', '~/evil', '..\\evil']
PLAIN = ['good-H', 'Identity-H', 'Identity-V', 'none', 'UniJIS-UCS2-H', 'evil']
name = gen.choose(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(PLAIN))
font = st.one_of(
    st.tuples(st.just('type0'), name, st.sampled_from(['Adobe', 'x', '..', '', '../other', '$']), name, st.one_of(st.none(), name), st.booleans()),
    st.tuples(st.just('simple'), name, st.sampled_from(['Type1', 'TrueType', 'MMType1', 'Type3']), st.one_of(st.none(), name), name, st.booleans()))
case = st.tuples(st.lists(font, min_size=1, max_size=3), name, st.sampled_from([None, 'html', 'json', 'xml', 'yaml', 'text']), st.booleans(), gen.short_tape)


def fill(s, root):
    return s.replace('$', root).encode('latin-1')


def opened(case, cx):
    """every file operation while a document full of file names is read or converted"""
    fonts, filename, fmt, parse_only, tape = case
    root = cx.path('world')
    cmaps = plant(root)
    fs = lambda s: ('str', fill(s, root))
    nm_ = lambda s: ('name', fill(s, root) or b'x')
    outside = False
    objs = {}
    pairs = []
    body = b''
    for i, f in enumerate(fonts):
        outside = outside or any(isinstance(x, str) and ('/' in x or '..' in x) for x in f[1:])
        key = b'F%d' % (i + 1)
        cm = b'/CIDInit /ProcSet findresource begin begincmap '
        if f[0] == 'type0':
            _, enc, reg, order, use, rng = f
            desc = D(Type=N('Font'), Subtype=N('CIDFontType2'), BaseFont=nm_(enc), CIDSystemInfo=D(Registry=fs(reg), Ordering=fs(order), Supplement=I(0)),
                     FontDescriptor=D(Type=N('FontDescriptor'), FontName=nm_(enc), Flags=I(4), FontBBox=A(I(0), I(0), I(1), I(1))))
            font_pairs = [(b'Type', N('Font')), (b'Subtype', N('Type0')), (b'BaseFont', nm_(order)), (b'Encoding', nm_(enc)), (b'DescendantFonts', A(desc))]
            if use is not None:
                objs[40 + i] = ('stream', [(b'UseCMap', nm_(use)), (b'F', fs(use))], cm + b'/' + b''.join(b'#%02x' % c for c in fill(use, root) or b'x') + b' usecmap 1 beginbfchar <41> <0041> endbfchar endcmap')
                font_pairs.append((b'ToUnicode', R(40 + i)))
        else:
            _, enc, sub, use, base, diff = f
            font_pairs = [(b'Type', N('Font')), (b'Subtype', N(sub)), (b'BaseFont', nm_(base)), (b'FirstChar', I(65)), (b'LastChar', I(66)), (b'Widths', A(I(500), I(600))),
                          (b'FontBBox', A(I(0), I(0), I(1), I(1))), (b'FontMatrix', A(('real', '.001'), I(0), I(0), ('real', '.001'), I(0), I(0))),
                          (b'FontDescriptor', D(Type=N('FontDescriptor'), FontName=nm_(base), Flags=I(4), Ascent=I(1), Descent=I(0), FontBBox=A(I(0), I(0), I(1), I(1)))),
                          (b'Encoding', D(BaseEncoding=nm_(enc), Differences=A(I(65), nm_(enc))) if diff else nm_(enc))]
            if use is not None:
                objs[40 + i] = ('stream', [], cm + b'/' + b''.join(b'#%02x' % c for c in fill(use, root) or b'x') + b' usecmap 1 beginbfchar <41> <0041> endbfchar endcmap')
                font_pairs.append((b'ToUnicode', R(40 + i)))
        pairs.append((key, ('dict', font_pairs)))
        body += b'BT /%s 9 Tf (AB) Tj (\0A\0B) Tj ET\n' % key
    body += b'/Im Do /Fm Do /Gs gs /%s Do\n' % b''.join(b'#%02x' % c for c in fill(filename, root) or b'x')
    spec = D(Type=N('Filespec'), F=fs(filename), UF=fs(filename))
    objs[20] = ('stream', [(b'Subtype', N('Image')), (b'Width', I(2)), (b'Height', I(2)), (b'BitsPerComponent', I(8)), (b'ColorSpace', N('DeviceGray')), (b'Alternates', spec), (b'OPI', spec)], b'abcd')
    objs[21] = ('stream', [(b'Subtype', N('Form')), (b'BBox', A(I(0), I(0), I(9), I(9))), (b'Ref', D(F=spec, Page=I(0))), (b'PieceInfo', spec)], b'0 0 3 3 re f')
    objs[22] = ('stream', [(b'FFilter', N('FlateDecode')), (b'FDecodeParms', D())], body)
    res = D(Font=('dict', pairs), XObject=D(Im=R(20), Fm=R(21)), ExtGState=D(Gs=D(Font=A(spec, I(1)), TR=spec)))
    data = page_file(body, res, objs, ch=Choices(tape), page_extra=[(b'AA', D(O=D(S=N('Launch'), F=spec))), (b'Annots', A(D(Subtype=N('Link'), A=D(S=N('URI'), URI=fs(filename)))))])
    cx.nontrivial(outside)
    cx.tag(fmt or 'items')
    inp = cx.write('world/cwd/a.pdf', data)
    out = None
    if len(tape) % 3 == 0:
        cmaps = None
    with surroundings(root, cmaps):
        with watching():
            try:
                if fmt is None:
                    for page in PDFInterpreter(inp, ignore_bad_chars=True):
                        items_of(page)
                    d = open_doc(data)
                    for k in list(objs) + [1, 2, 3]:
                        o = d.getobj(k)
                        if hasattr(o, 'get_data'):
                            o.get_data()
                else:
                    out = cx.path('out.' + fmt)
                    convert_file(inp, out, out_type=fmt, ignore_bad_chars=True)
            except PDFMajorException:
                cx.tag('refused')
    judge(inp, out, cmaps, root)


db_case = st.tuples(name, st.booleans(), st.booleans())


def lookups(case, cx):
    """CMapDB asked for any name"""
    n, uni, setpath = case
    root = cx.path('world')
    cmaps = plant(root)
    arg = fill(n, root).decode('latin-1')
    cx.nontrivial('/' in n or '..' in n)
    if not setpath:
        cmaps = None
    with surroundings(root, cmaps):
        with watching():
            try:
                CMapDB.get_unicode_map(arg) if uni else CMapDB.get_cmap(arg)
            except PDFMajorException:
                pass
    judge(os.path.join(root, 'no input'), None, cmaps, root)


TESTS = [Test('opened', case, opened, quick=5000, thorough=30000), Test('lookups', db_case, lookups, quick=300, thorough=1200)]
