"""PDF writer used by the generators: written from the PDF reference, shares nothing with the code under test.

Values are plain tuples (so cases stay literals):
  ('null',) ('bool',b) ('int',n) ('real','-.5') ('name',bytes) ('str',bytes)
  ('arr',[v..]) ('dict',[(bytes,v)..]) ('ref',n)  and, top level only, ('stream',[(bytes,v)..],bytes)
"""

WS = b'\0\t\n\f\r '
DELIM = b'()<>[]{}/%'


class Choices:
    """A finite tape of small integers; past its end every choice is 0 (the canonical spelling)."""
    def __init__(self, tape=()):
        self.tape, self.i = list(tape), 0
        self.used = 0

    def pick(self, n):
        if self.i < len(self.tape):
            v = self.tape[self.i] % n
            self.i += 1
            if v:
                self.used += 1
            return v
        return 0


def N(s):
    return ('name', s if isinstance(s, bytes) else s.encode())


def I(n):
    return ('int', n)


def R(n):
    return ('ref', n)


def A(*xs):
    return ('arr', list(xs))


def D(**kw):
    return ('dict', [(k.encode(), v) for k, v in kw.items()])


def num(x):
    """Number value from a Python int or float."""
    if isinstance(x, bool):
        raise TypeError(x)
    if isinstance(x, int):
        return ('int', x)
    return ('real', fmt(x))


def fmt(x):
    if isinstance(x, int):
        return str(x)
    s = '%.6f' % x
    s = s.rstrip('0')
    if s.endswith('.'):
        s += '0'
    return s


# ------------------------------------------------------------------ spelling

def sp_name(b, ch):
    out = b'/'
    for c in b:
        must = c in WS or c in DELIM or c == 0x23 or c < 33 or c > 126
        if c == 0:
            must = True
        if (must and not (c > 126 and ch.pick(3) == 1)) or (not must and ch.pick(12) == 11):
            h = b'%02X' % c
            if ch.pick(2):
                h = h.lower()
            out += b'#' + h
        else:
            out += bytes([c])
    return out


def sp_str(b, ch):
    mode = ch.pick(4)
    if mode == 1 or mode == 2:           # hexadecimal
        out = b'<'
        for c in b:
            h = b'%02x' % c if mode == 1 else b'%02X' % c
            k = ch.pick(14)
            if k == 13:
                h = h[:1] + [b' ', b'\n', b'\t', b'\r\n'][ch.pick(4)] + h[1:]
            elif k == 12:
                h = h + [b' ', b'\n', b'\r', b'\f'][ch.pick(4)]
            out += h
        return out + b'>'
    # literal; each matched pair of parentheses is written raw or escaped, unmatched ones are escaped
    raw, stack = set(), []
    for i, c in enumerate(b):
        if c == 40:
            stack.append(i)
        elif c == 41 and stack:
            j = stack.pop()
            if ch.pick(4) != 3:
                raw.update((i, j))
    out = b'('
    i = 0
    n = len(b)
    while i < n:
        c = b[i]
        nxt = b[i + 1] if i + 1 < n else None
        k = ch.pick(10)
        if k == 9:
            out += b'\\' + [b'\n', b'\r\n', b'\r'][ch.pick(3)]
        esc = {10: b'\\n', 13: b'\\r', 9: b'\\t', 8: b'\\b', 12: b'\\f', 40: b'\\(', 41: b'\\)', 92: b'\\\\'}.get(c)
        if i in raw:
            out += bytes([c])
        elif k == 8:
            # octal; fewer digits only when the next character cannot be taken for a digit
            nextoct = nxt is not None and 48 <= nxt <= 55
            w = 3 if nextoct else [3, 1, 2][ch.pick(3)]
            out += b'\\' + (b'%o' % c).rjust(w, b'0')
        elif c in (40, 41):
            out += esc
        elif c == 92:
            out += esc
        elif c == 13:
            out += esc                   # a raw CR would read as LF
        elif c == 10 and k == 7:
            out += [b'\n', b'\r\n', b'\r'][ch.pick(3)]
            # raw CR directly followed by a raw LF from the data would merge: the data LF is never raw here
            if out.endswith(b'\r') and nxt == 10:
                out = out[:-1] + b'\n'
        elif c == 10:
            out += esc if k % 2 == 0 else b'\n'
            if out.endswith(b'\r\n') and not out.endswith(b'\\n'):
                out = out[:-1] + b'\\n'
        elif esc and k % 2 == 1:
            out += esc
        elif k == 6 and c not in b'nrtbf()\\01234567\r\n':
            out += b'\\' + bytes([c])    # backslash before an ordinary character is dropped
        else:
            out += bytes([c])
        i += 1
    # a line continuation ending in CR followed by raw LF would swallow it; guarded above by escaping
    return out + b')'


def sp_int(n, ch):
    k = ch.pick(6)
    s = str(abs(n))
    if k == 5:
        s = '0' * (1 + ch.pick(3)) + s
    sign = '-' if n < 0 else ('+' if k == 4 else '')
    return (sign + s).encode()


def tokens(v, ch, out):
    t = v[0]
    if t == 'null':
        out.append(b'null')
    elif t == 'bool':
        out.append(b'true' if v[1] else b'false')
    elif t == 'int':
        out.append(sp_int(v[1], ch))
    elif t == 'real':
        out.append(v[1].encode())
    elif t == 'name':
        out.append(sp_name(v[1], ch))
    elif t == 'str':
        out.append(sp_str(v[1], ch))
    elif t == 'arr':
        out.append(b'[')
        for x in v[1]:
            tokens(x, ch, out)
        out.append(b']')
    elif t == 'dict':
        out.append(b'<<')
        for k, x in v[1]:
            out.append(sp_name(k, ch))
            tokens(x, ch, out)
        out.append(b'>>')
    elif t == 'ref':
        out.append(b'%d' % v[1])
        out.append(b'0')
        out.append(b'R')
    elif t == 'raw':
        out.append(v[1])
    else:
        raise ValueError(v)
    return out


SEPS = [b' ', b'\n', b'\r\n', b'\r', b'\t', b'\f', b'\0', b'  \n', b'%c\n', b' %( << [ /x\r\n', b'%%)>\r', b'\n\n\t ']


def regular(c):
    return c not in WS and c not in DELIM


def sep(a, b, ch, seps=SEPS):
    need = (regular(a[-1]) or a == b'/') and regular(b[0])
    k = ch.pick(len(seps) + 4)
    if k == 0:
        return b' ' if need else b''
    if k <= 3:
        return b' '
    return seps[k - 4]


def join(toks, ch, seps=SEPS):
    if not toks:
        return b''
    out = [toks[0]]
    for a, b in zip(toks, toks[1:]):
        out.append(sep(a, b, ch, seps))
        out.append(b)
    return b''.join(out)


def ser(v, ch=None):
    return join(tokens(v, ch or Choices(), []), ch or Choices())


# ------------------------------------------------------------------ files

def _pairs(v):
    return v[1]


class Writer:
    """Appends objects, cross-reference sections and trailers to a growing file."""
    def __init__(self, header=b'%PDF-1.7\n%\xe2\xe3\xcf\xd3\n', ch=None, eol=b'\n'):
        self.buf = bytearray(header)
        self.ch = ch or Choices()
        self.eol = eol
        self.offsets = {}
        self.streamspans = {}
        self.loose = False           # whether the first words of an object may stand on several lines

    def pad(self, n, how=0):
        """Filler between objects; comments and blanks, ends at a line start."""
        if n <= 0:
            return
        if how == 0:
            self.buf += b'%' + b'p' * max(0, n - 2) + b'\n' if n >= 2 else b'\n' * n
        else:
            self.buf += b' ' * (n - 1) + b'\n'

    def obj(self, num, v, gen=0, encrypt=None, eol_after_data=None, length=None):
        self.offsets[num] = len(self.buf)
        ch = self.ch
        e = self.eol
        gaps = [b' '] * 5 + [b'  ', b'\t', b' \t ', b'\x0c'] + ([b'\n', b'\r\n', b'%c\n', b' % 7 0 obj\r', b'\0'] if self.loose else [])
        self.buf += [b'%d', b'%d', b'%d', b'%d', b'%d', b'0%d'][ch.pick(6)] % num + gaps[ch.pick(len(gaps))] + b'%d' % gen + gaps[ch.pick(len(gaps))] + b'obj'
        gap = [e, e, e, b' ', b'', b' %c' + e][ch.pick(6)]
        if v[0] == 'stream':
            self.buf += gap
            data = v[2]
            pairs = list(v[1])
            if not any(k == b'Length' for k, _ in pairs):
                pairs.append((b'Length', length if length is not None else ('int', len(data))))
            self.buf += join(tokens(('dict', pairs), ch, []), ch)
            self.buf += [b'\n', b' ', b'\r\n', b''][ch.pick(4)]
            self.buf += b'stream' + [b'\n', b'\r\n'][ch.pick(2)]
            self.streamspans[num] = (len(self.buf), len(data))
            self.buf += data
            self.buf += [b'\n', b'\r\n', b'\r'][ch.pick(3)] if eol_after_data is None else eol_after_data
            self.buf += b'endstream' + e
        else:
            body = join(tokens(v, ch, []), ch)
            self.buf += (gap if gap or body[0] in DELIM else e) + body
            self.buf += [e, e, b' ', b'' if body[-1] in DELIM else e][ch.pick(4)]
        self.buf += b'endobj' + e

    def xref_table(self, entries, trailer, extra_after=b''):
        """entries: objid -> (offset, gen) or None for a free entry."""
        pos = len(self.buf)
        e = self.eol
        self.buf += b'xref' + e
        ids = sorted(entries)
        i = 0
        while i < len(ids):
            j = i
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            self.buf += b'%d %d' % (ids[i], j - i + 1) + e
            for k in ids[i:j + 1]:
                tail = b' \n' if e == b'\n' else (b' \r' if e == b'\r' else b'\r\n')
                if entries[k] is None:
                    self.buf += b'%010d %05d f' % (0, 65535 if k == 0 else 0) + tail
                else:
                    self.buf += b'%010d %05d n' % entries[k] + tail
            i = j + 1
        self.buf += b'trailer' + e
        self.buf += join(tokens(('dict', trailer), self.ch, []), self.ch) + e
        return pos

    def end(self, pos):
        e = self.eol
        self.buf += b'startxref' + e + b'%d' % pos + e + b'%%EOF' + e

    def xref_stream(self, num, entries, trailer, widths=(1, 4, 2), filt=None, index=True):
        """entries: objid -> ('n',offset,gen) | ('c',stmid,index) | ('f',)."""
        pos = len(self.buf)
        entries = dict(entries)
        entries[num] = ('n', pos, 0)
        ids = sorted(entries)
        ranges = []
        data = bytearray()
        for k in ids:
            if ranges and ranges[-1][0] + ranges[-1][1] == k:
                ranges[-1][1] += 1
            else:
                ranges.append([k, 1])
            en = entries[k]
            f = {'n': 1, 'c': 2, 'f': 0}[en[0]]
            vals = (f, en[1] if f else 0, en[2] if f else (0 if k else 65535))
            for w, x in zip(widths, vals):
                if w:
                    data += (x & (256 ** w - 1)).to_bytes(w, 'big')
        pairs = [(b'Type', N('XRef')), (b'Size', I(max(ids) + 1)), (b'W', A(*[I(w) for w in widths]))]
        if index or not (len(ranges) == 1 and ranges[0][0] == 0):
            pairs.append((b'Index', A(*[I(x) for r in ranges for x in r])))
        pairs += [p for p in trailer if p[0] != b'Size']
        data = bytes(data)
        if filt:
            data, fpairs = filt(data, sum(widths))
            pairs += fpairs
        self.obj(num, ('stream', pairs, data))
        return pos

    def objstm(self, num, items, filt=None, ch=None, extra=()):
        """items: list of (objid, value). Returns nothing; the stream is object num."""
        ch = ch or self.ch
        bodies = []
        head = []
        off = 0
        for k, v in items:
            b = join(tokens(v, ch, []), ch)
            head.append(b'%d %d' % (k, off))
            sep = [b'\n', b' ', b'\r\n', b''][ch.pick(4)]
            b += sep if sep or len(head) == len(items) or b[-1:] in b')]>' else b'\n'     # (nothing has to follow the last one, nor a delimiter)
            bodies.append(b)
            off += len(b)
        h = b' '.join(head) + b'\n'
        data = h + b''.join(bodies)
        pairs = [(b'Type', N('ObjStm')), (b'N', I(len(items))), (b'First', I(len(h)))] + list(extra)
        if filt:
            data, fpairs = filt(data, None)
            pairs += fpairs
        self.obj(num, ('stream', pairs, data))

    def bytes(self):
        return bytes(self.buf)


def simple_file(objs, root=1, info=None, ch=None, eol=b'\n', trailer_extra=()):
    """One-revision file with a classic table. objs: {num: value}."""
    w = Writer(ch=ch, eol=eol)
    w.loose = ch is not None
    for k in sorted(objs):
        w.obj(k, objs[k])
    ent = {k: (w.offsets[k], 0) for k in objs}
    ent[0] = None
    tr = [(b'Size', I(max(objs) + 1)), (b'Root', R(root))]
    if info:
        tr.append((b'Info', R(info)))
    tr += list(trailer_extra)
    w.end(w.xref_table(ent, tr))
    return w.bytes()


def page_file(contents, resources=None, objs=None, mediabox=(0, 0, 600, 800), page_extra=(), ch=None):
    """One page. contents: bytes or list of bytes (a Contents array). Extra objects from number 20 on."""
    o = dict(objs or {})
    multi = not isinstance(contents, (bytes, tuple))
    cs = contents if multi else [contents]
    nxt = 100
    refs = []
    for c in cs:
        o[nxt] = c if isinstance(c, tuple) else ('stream', [], c)
        refs.append(R(nxt))
        nxt += 1
    o[1] = D(Type=N('Catalog'), Pages=R(2))
    o[2] = D(Type=N('Pages'), Kids=A(R(3)), Count=I(1))
    o[3] = ('dict', [(b'Type', N('Page')), (b'Parent', R(2)), (b'MediaBox', A(*[num(x) for x in mediabox])),
                     (b'Resources', resources or ('dict', [])),
                     (b'Contents', A(*refs) if multi else refs[0])] + list(page_extra))
    return simple_file(o, ch=ch)
