"""P28: the options of a conversion mean the same for every format and way of calling."""
import importlib.util, io, os, shutil, sys
from hypothesis import strategies as st
from .. import docs, gen
from ..boot import REPO
from ..core import Test, Violation
from ..crypt import Security
from . import p20, p21, p22, p23, p31
from pdfmajor.converters import convert_file, convert_to_html, convert_to_json, convert_to_text, convert_to_xml, convert_to_yaml
from pdfmajor.execptions import ConverterException, EmptyDocumentError, PDFPasswordIncorrect, PDFTextExtractionNotAllowed, UnicodeNotDefined

PID = 'P28'
RULE = 'a case is non-trivial when it selects some but not all pages, or converts a protected file, or derives the output name'

VERIFY = {'html': p23.verify, 'json': p20.verify, 'xml': p21.verify, 'yaml': p22.verify, 'yml': p22.verify, 'text': p31.verify}
FUNC = {'html': convert_to_html, 'json': convert_to_json, 'xml': convert_to_xml, 'yaml': convert_to_yaml, 'yml': convert_to_yaml, 'text': convert_to_text}
_cli = []


def cli():
    if not _cli:
        spec = importlib.util.spec_from_file_location('pdfconvert_cli', os.path.join(REPO, 'tools', 'pdfconvert.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _cli.append(m.main)
    return _cli[0]


formats = st.sampled_from(sorted(VERIFY))
protection = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['V1R2', 'V2R3', 'V4AES', 'V5AES']), st.sampled_from(['', 'user', 'pa ss']),
                                                      st.sampled_from(['user', 'owner', 'none', 'wrong']), st.booleans()))
select = st.one_of(st.just(None), st.tuples(st.just('max'), st.integers(0, 5)), st.tuples(st.just('nos'), st.lists(st.integers(0, 4), min_size=1, max_size=4)),
                   st.tuples(st.just('nos'), st.lists(st.integers(0, 3), min_size=1, max_size=3)))
case = st.tuples(docs.small(4, 3), formats, st.sampled_from(['file', 'file', 'func', 'cli', 'cli stdout']), select, protection,
                 st.sampled_from([None, None, 'ascii', 'iso-8859-1', 'utf-8']), st.booleans(), st.booleans(), st.booleans())


def options(case, cx):
    """convert_file, convert_to_* and pdfconvert.py with page selection, password, codec, caching"""
    doc, fmt, via, sel, prot, codec, caching, extractable, badchars = case
    sec = None
    password = None
    fail = None
    if prot:
        scheme, user, which, allowed = prot
        sec = Security(scheme, user.encode(), b'owner pw', 0xfffff0c0 | (16 if allowed else 0))
        password = {'user': user, 'owner': 'owner pw', 'none': None, 'wrong': 'wrong'}[which]
        if which == 'wrong' or which == 'none' and user:
            fail = PDFPasswordIncorrect
        elif not allowed and (extractable or via.startswith('cli')):
            fail = PDFTextExtractionNotAllowed
    clear = cx.write('clear.pdf', docs.build(doc))
    path = cx.write('a.pdf', docs.build(doc, sec))
    before = open(path, 'rb').read()
    whole = docs.tree(clear)
    want = whole
    kw = {}
    if sel and sel[0] == 'max':
        kw['maxpages'] = sel[1]
        want = whole[:sel[1]] if sel[1] else whole
    elif sel:
        kw['pagenos'] = list(sel[1])
        want = [p for i, p in enumerate(whole) if i in sel[1]]
    want = [(i,) + p[1:] for i, p in enumerate(want)]
    if not want and fail is None:
        fail = EmptyDocumentError
    if fmt == 'text' and codec and not p31.fits(want, codec):
        codec = None
    cx.nontrivial(0 < len(want) < len(whole) or prot is not None)
    cx.tag(via, fmt, 'protected' if prot else 'plain', 'fails' if fail else 'converts')
    out = cx.path('out.' + fmt)
    if os.path.exists(out):
        os.remove(out)
    printed = None
    try:
        if via.startswith('cli'):
            args = [path, '-t', fmt]
            if via == 'cli':
                args += ['-o', out]
            if codec:
                args += ['-c', codec]
            if password is not None:
                args += ['-P', password]
            if not caching:
                args.append('--disable-caching')
            if 'maxpages' in kw:
                args += ['-m', str(kw['maxpages'])]
            if 'pagenos' in kw:
                args += ['--pagenos', ','.join(str(n + 1) for n in kw['pagenos'])]
            old, sys.stdout = sys.stdout, io.TextIOWrapper(io.BytesIO(), 'utf-8')
            try:
                code = cli()(args)
                printed = sys.stdout
            finally:
                sys.stdout = old
            printed.flush()
            printed = printed.buffer.getvalue()
            cx.eq(code, 0, 'exit status of pdfconvert.py')
        else:
            if codec:
                kw['codec'] = codec
            if password is not None:
                kw['password'] = password
            if not caching:
                kw['caching'] = False
            if not extractable:
                kw['check_extractable'] = False
            if badchars:
                kw['ignore_bad_chars'] = True
            if via == 'file':
                convert_file(path, out, out_type=fmt, **kw)
            else:
                FUNC[fmt](path, out, **kw)
    except (PDFPasswordIncorrect, PDFTextExtractionNotAllowed, EmptyDocumentError) as e:
        if fail is None or not isinstance(e, fail):
            raise
        return
    if fail is not None:
        raise Violation('no %s' % fail.__name__)
    cx.eq(open(path, 'rb').read(), before, 'the converted file afterwards')
    raw = printed if via == 'cli stdout' else open(out, 'rb').read()
    try:
        VERIFY[fmt](raw, want, codec or 'utf-8')
    except UnicodeDecodeError as e:
        raise Violation('the output is not in %s: %s' % (codec, e))


stem = st.text('ab.-_ \xe9+()\\', min_size=0, max_size=6).map(lambda s: 'x' + s)
name_case = st.tuples(docs.small(2, 2), formats, st.one_of(st.tuples(st.just('none'), stem, st.sampled_from(['pdf', 'PDF', 'txt', 'html', 'json', 'x1', 'pdf_'])),
                                                         st.tuples(st.just('given'), stem, st.sampled_from(['html', 'json', 'xml', 'yaml', 'yml', 'text', 'pdf', 'htm', 'txt', 'jso', 'n', '', 'json.bak', 'html_', 'xml2', 'text.txt', 'yaml.old', 'yml~', 'pdf.html', 'xml.json']))),
                      st.sampled_from(['', 'd.ir', 'sub']))


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


def naming(case, cx):
    """where the output of convert_file goes, and what it refuses"""
    doc, fmt, (how, stem_, ext), sub = case
    root = cx.path('names')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, sub, 'out'))
    folder = os.path.join(root, sub)
    inp = os.path.join(folder, (stem_ + '.' + ext) if how == 'none' else 'in.pdf')
    with open(inp, 'wb') as f:
        f.write(docs.build(doc))
    want = docs.tree(inp)
    before = listing(root)
    if how == 'none':
        out, args = os.path.join(folder, stem_ + '.' + fmt), {}
    else:
        out = os.path.join(folder, 'out', stem_ + ('.' + ext if ext else ''))
        args = {'output_file': out}
    refuse = not out.endswith(fmt) or out == inp
    cx.nontrivial(how == 'none')
    cx.tag(how, 'refused' if refuse else 'written')
    try:
        convert_file(inp, out_type=fmt, **args)
    except ConverterException:
        if not refuse:
            raise
        cx.eq(listing(root), before, 'files after a refused conversion')
        return
    if refuse:
        raise Violation('output type %s accepted for %r (input %r)' % (fmt, out, inp))
    after = listing(root)
    rel = os.path.relpath(out, root)
    cx.eq(sorted(set(after) - set(before)), [rel], 'new files')
    raw = after.pop(rel)
    cx.eq(after, before, 'other files after the conversion')
    VERIFY[fmt](raw, want, 'utf-8')


type_case = st.tuples(st.text('htmljsonxyatepdf', max_size=5).filter(lambda s: s not in VERIFY))


def types(case, cx):
    """an unknown output type is refused"""
    fmt, = case
    inp = cx.write('t.pdf', docs.build(([((0, 0, 9, 9), 0, [])], ['x'] * 12, (b'A', []), [], [])))
    cx.nontrivial(bool(fmt))
    try:
        convert_file(inp, cx.path('t.' + fmt), out_type=fmt)
    except ConverterException:
        return
    raise Violation('output type %r was accepted' % fmt)


TESTS = [Test('options', case, options, quick=5000, thorough=60000),
         Test('naming', name_case, naming, quick=1200, thorough=12000),
         Test('types', type_case, types, quick=120, thorough=500)]
