From d8bc60ed3cc9ccd81de72aea7e7c7afe57bb6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 001/102] fix: treat NUL as white space between tokens

PDF lists NUL among the white-space characters; it was glued to keywords
and names instead of separating them.
---
 pdfmajor/parser/PSStackParser/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 970a9c4..6f38093 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -15,14 +15,14 @@ KEYWORD_DICT_END = KWD(b'>>')
 ##  PSBaseParser
 ##
 EOL = re.compile(br'[\r\n]')
-SPC = re.compile(br'\s')
-NONSPC = re.compile(br'\S')
+SPC = re.compile(br'[\0\s]')
+NONSPC = re.compile(br'[^\0\s]')
 HEX = re.compile(br'[0-9a-fA-F]')
-END_LITERAL = re.compile(br'[#/%\[\]()<>{}\s]')
-END_HEX_STRING = re.compile(br'[^\s0-9a-fA-F]')
+END_LITERAL = re.compile(br'[#/%\[\]()<>{}\0\s]')
+END_HEX_STRING = re.compile(br'[^\0\s0-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
-END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\s]')
+END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\0\s]')
 END_STRING = re.compile(br'[()\134]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 70a82678e82b18052a42ab3a33471e6496c81df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 002/102] fix: read string escapes and line ends as PDF defines
 them

A backslash followed by CR LF left the LF in the string, a raw CR or CR LF
was not read as LF, an octal code above 377 raised struct.error, and a
backslash before an ordinary character swallowed that character.
---
 pdfmajor/parser/PSStackParser/PSBaseParser.py | 19 ++++++++++++++++++-
 pdfmajor/parser/PSStackParser/constants.py    |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PSStackParser/PSBaseParser.py b/pdfmajor/parser/PSStackParser/PSBaseParser.py
index 707e575..0390567 100644
--- a/pdfmajor/parser/PSStackParser/PSBaseParser.py
+++ b/pdfmajor/parser/PSStackParser/PSBaseParser.py
@@ -289,21 +289,38 @@ class PSBaseParser(object):
             if self.paren:  # WTF, they said balanced parens need no special treatment.
                 self._curtoken += c
                 return j+1
+        if c == b'\r':
+            # an end-of-line marker inside a string reads as \n, whichever way it is written.
+            self._curtoken += b'\n'
+            self._current_parse_func = self._parse_string_cr
+            return j+1
         self._add_token(self._curtoken)
         self._current_parse_func = self._parse_main
         return j+1
 
+    def _parse_string_cr(self, s, i):
+        # the \n of a \r\n pair belongs to the marker just read.
+        self._current_parse_func = self._parse_string
+        return i+1 if s[i:i+1] == b'\n' else i
+
     def _parse_string_1(self, s, i):
         c = s[i:i+1]
         if OCT_STRING.match(c) and len(self.oct) < 3:
             self.oct += c
             return i+1
         if self.oct:
-            self._curtoken += int2byte(int(self.oct, 8))
+            self._curtoken += int2byte(int(self.oct, 8) & 0xff)
             self._current_parse_func = self._parse_string
             return i
         if c in ESC_STRING:
             self._curtoken += int2byte(ESC_STRING[c])
+        elif c == b'\r':
+            # line continuation, possibly ended by \r\n.
+            self._current_parse_func = self._parse_string_cr
+            return i+1
+        elif c != b'\n':
+            # the backslash is dropped, the character is kept.
+            self._curtoken += c
         self._current_parse_func = self._parse_string
         return i+1
 
diff --git a/pdfmajor/parser/PSStackParser/constants.py b/pdfmajor/parser/PSStackParser/constants.py
index 6f38093..f419a69 100644
--- a/pdfmajor/parser/PSStackParser/constants.py
+++ b/pdfmajor/parser/PSStackParser/constants.py
@@ -23,6 +23,6 @@ END_HEX_STRING = re.compile(br'[^\0\s0-9a-fA-F]')
 HEX_PAIR = re.compile(br'[0-9a-fA-F]{2}|.')
 END_NUMBER = re.compile(br'[^0-9]')
 END_KEYWORD = re.compile(br'[#/%\[\]()<>{}\0\s]')
-END_STRING = re.compile(br'[()\134]')
+END_STRING = re.compile(br'[()\134\r]')
 OCT_STRING = re.compile(br'[0-7]')
 ESC_STRING = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'(': 40, b')': 41, b'\\': 92}
-- 
2.43.0


From 0c48dce8b9e73aefa408fca0224e2ee33ed14443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 003/102] fix: read null inside object streams as the null
 object

---
 pdfmajor/parser/PDFParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index daf443d..59c74b5 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -163,6 +163,9 @@ class PDFStreamParser(PDFParser):
             except PSSyntaxError:
                 pass
             return
+        elif token is self.KEYWORD_NULL:
+            self.push((pos, None))
+            return
         elif token in (self.KEYWORD_OBJ, self.KEYWORD_ENDOBJ):
             if settings.STRICT:
                 # See PDF Spec 3.4.6: Only the object values are stored in the
-- 
2.43.0


From 6da18992ce45b86c459e259499ed7dd74a5bf65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 004/102] fix: keep the last token of a stream that does not
 end in white space

The last operator of a content stream (or object of an object stream) was
lost when nothing followed it, and ran into the first token of the next
stream of a Contents array.
---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 pdfmajor/parser/PDFParser.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 98ef0da..54c3bc6 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -28,7 +28,8 @@ class PDFContentParser(PSStackParser):
                 self.istream += 1
             else:
                 raise PSEOF('Unexpected EOF, file truncated?')
-            self.fp = BytesIO(strm.get_data())
+            # white space ends the last token, which must not run into the next stream.
+            self.fp = BytesIO(strm.get_data()+b'\n')
         return
 
     def seek(self, pos):
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 59c74b5..60a5138 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -144,7 +144,8 @@ class PDFStreamParser(PDFParser):
     """
 
     def __init__(self, data):
-        PDFParser.__init__(self, BytesIO(data))
+        # white space ends the last token.
+        PDFParser.__init__(self, BytesIO(data+b'\n'))
         return
 
     def flush(self):
-- 
2.43.0


From 0696d62b1e9f41056b59911915992a743e7b5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 005/102] fix: honour a direct stream /Length in recovery mode

With recovery on (the default), /Length was ignored: an unfiltered stream
kept the line end before endstream and was cut at any 'endstream' in its
own data. The declared length is now used when endstream follows it.
---
 pdfmajor/parser/PDFParser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 60a5138..c143df5 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -1,7 +1,7 @@
 
 import logging
 from io import BytesIO, TextIOWrapper
-from ..utils import settings
+from ..utils import settings, INF
 from pdfmajor.execptions import (
     PSSyntaxError, 
     PSEOF,
@@ -98,6 +98,15 @@ class PDFParser(PSStackParser):
                     raise PDFSyntaxError('Unexpected EOF')
                 return
             pos += len(line)
+            scan = self.fallback
+            if scan:
+                # a direct /Length is exact when 'endstream' follows the data.
+                length = dic.get('Length')
+                if isinstance(length, int) and 0 <= length <= INF:
+                    self.fp.seek(pos+length)
+                    if self.fp.read(16).lstrip().startswith(b'endstream'):
+                        objlen = length
+                        scan = False
             self.fp.seek(pos)
             data = bytearray(self.fp.read(objlen))
             self.seek(pos+objlen)
@@ -111,11 +120,11 @@ class PDFParser(PSStackParser):
                 if b'endstream' in line:
                     i = line.index(b'endstream')
                     objlen += i
-                    if self.fallback:
+                    if scan:
                         data += line[:i]
                     break
                 objlen += len(line)
-                if self.fallback:
+                if scan:
                     data += line
             data = bytes(data)
             self.seek(pos+objlen)
-- 
2.43.0


From 4f6e032255d6f0f04dd57e7b01a295d9e90059ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 006/102] fix: list the objects of every /Index range of a
 cross-reference stream

get_objids read the entries of the first range again for each later range.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 07b507e..c74624f 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -201,13 +201,15 @@ class PDFXRefStream(PDFBaseXRef):
         return self.trailer
 
     def get_objids(self):
+        index = 0
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
-                offset = self.entlen * i
+                offset = self.entlen * (index+i)
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
                     yield start+i
+            index += nobjs
         return
 
     def get_pos(self, objid):
-- 
2.43.0


From 71701f6dc02bad5f067b8c7f975f2ffc64bf29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 007/102] fix: fall back to scanning when cross-reference data
 is damaged

PDFNoValidXRef was not imported where it is raised, and any other error met
while reading a damaged section (a startxref that is not a number, an
offset into the middle of something else) aborted the open although
recovery was requested.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 4 ++--
 pdfmajor/parser/PDFDocument/__init__.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index c74624f..0a21672 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError
+from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
@@ -181,7 +181,7 @@ class PDFXRefStream(PDFBaseXRef):
         (_, genno) = parser.nexttoken()  # ignored
         (_, kwd) = parser.nexttoken()
         (_, stream) = parser.nextobject()
-        if not isinstance(stream, PDFStream) or stream['Type'] is not LITERAL_XREF:
+        if not isinstance(stream, PDFStream) or stream.get('Type') is not LITERAL_XREF:
             raise PDFNoValidXRef('Invalid PDF stream spec.')
         size = stream['Size']
         index_array = stream.get('Index', (0, size))
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 44790cb..e25d867 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -76,6 +76,11 @@ class PDFDocument(object):
             self.read_xref_from(parser, pos, self.xrefs)
         except PDFNoValidXRef:
             pass # fallback = True
+        except Exception as e:
+            # whatever a damaged section makes the parser stumble over.
+            if not fallback:
+                raise
+            log.warning('damaged xref: %r', e)
         if fallback:
             parser.fallback = True
             xref = PDFXRefFallback()
-- 
2.43.0


From cfae894dbfb5b43e4e0d0d5e60ad9c8d52e03145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 008/102] fix: recover objects and trailers of later updates,
 and of damaged files

The recovery scan stopped at the first trailer, so updates after it were
lost; it did not know cross-reference streams carry the trailer, so such
files failed with 'No /Root object'; and one unreadable object or trailer
(a truncated file, say) aborted the whole open.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 0a21672..0cabdab 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -119,16 +119,28 @@ class PDFXRefFallback(PDFXRef):
 
     def load(self, parser):
         parser.seek(0)
+        while 1:
+            try:
+                return self.scan(parser)
+            except Exception as e:
+                # damaged: go on after the line that could not be read.
+                log.warning('cannot recover line at %r: %r', self.linepos, e)
+                parser.seek(self.linepos)
+                parser.nextline()
+
+    def scan(self, parser):
         while 1:
             try:
                 (pos, line) = parser.nextline()
             except PSEOF:
                 break
+            self.linepos = pos
             if line.startswith(b'trailer'):
                 parser.seek(pos)
                 self.load_trailer(parser)
                 log.info('trailer: %r', self.trailer)
-                break
+                # later updates may follow.
+                continue
             line=line.decode('latin-1') #default pdf encoding
             m = self.PDFOBJ_CUE.match(line)
             if not m:
@@ -140,6 +152,9 @@ class PDFXRefFallback(PDFXRef):
             # expand ObjStm.
             parser.seek(pos)
             (_, obj) = parser.nextobject()
+            if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
+                # a cross-reference stream takes the place of a trailer.
+                self.trailer.update(obj.attrs)
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
                 try:
-- 
2.43.0


From 606d1eee090e1b615fdaf66654412c1d38e6f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 009/102] fix: stop at a cross-reference section that was
 already read

A circular /Prev chain recursed until RecursionError.
---
 pdfmajor/parser/PDFDocument/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e25d867..6d8eada 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -304,8 +304,11 @@ class PDFDocument(object):
         return int(prev)
 
     # read xref table
-    def read_xref_from(self, parser, start, xrefs):
+    def read_xref_from(self, parser, start, xrefs, seen=()):
         """Reads XRefs from the given location."""
+        if start in seen:
+            return # the chain of a damaged file may be circular.
+        seen = (*seen, start)
         parser.seek(start)
         parser.reset()
         try:
@@ -329,9 +332,9 @@ class PDFDocument(object):
         log.info('trailer: %r', trailer)
         if 'XRefStm' in trailer:
             pos = int_value(trailer['XRefStm'])
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, seen)
         if 'Prev' in trailer:
             # find previous xref
             pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs)
+            self.read_xref_from(parser, pos, xrefs, seen)
         return
-- 
2.43.0


From 36db12b28724f670cab9bd6f889fe90fab09fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 010/102] fix: do not crash on a cross-reference offset that
 misses its object

The scan for the next obj keyword took the generation for the object
number, and raised IndexError when only one token was skipped.
---
 pdfmajor/parser/PDFDocument/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 6d8eada..0d92c3f 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -174,13 +174,13 @@ class PDFDocument(object):
         #to solve https://github.com/pdfminer/pdfminer.six/issues/56
         #assert objid1 == objid, str((objid1, objid))
         if objid1 != objid:
-            x = []
+            x = [objid1, genno]
             while kwd is not self.KEYWORD_OBJ:
                 (_,kwd) = self._parser.nexttoken()
                 x.append(kwd)
-            if x:
-                objid1 = x[-2]
-                genno = x[-1]
+            if len(x) > 2:
+                objid1 = x[-3]
+                genno = x[-2]
         # #### end hack around malformed pdf files
         if objid1 != objid:
             raise PDFSyntaxError('objid mismatch: %r=%r' % (objid1, objid))
-- 
2.43.0


From 542ea968957a6fc2d64170155a7521bc56768154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 011/102] fix: only a line end may separate stream data of the
 declared length from endstream

---
 pdfmajor/parser/PDFParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index c143df5..8912760 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -104,7 +104,7 @@ class PDFParser(PSStackParser):
                 length = dic.get('Length')
                 if isinstance(length, int) and 0 <= length <= INF:
                     self.fp.seek(pos+length)
-                    if self.fp.read(16).lstrip().startswith(b'endstream'):
+                    if self.fp.read(16).lstrip(b'\r\n').startswith(b'endstream'):
                         objlen = length
                         scan = False
             self.fp.seek(pos)
-- 
2.43.0


From 9bcd220ff94b2fcd09d51d58408da6995dcc71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 012/102] fix: define the exceptions raised for unsupported
 filters and encryption

PDFNotImplementedError, PDFEncryptionError and PDFPasswordIncorrect did not
exist anywhere and PDFException and PDFTypeError were not imported, so an
unsupported filter or a wrong password ended in NameError.
---
 pdfmajor/execptions.py                            | 9 +++++++++
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 ++
 pdfmajor/parser/PDFDocument/__init__.py           | 3 ++-
 pdfmajor/parser/PDFStream/__init__.py             | 2 ++
 pdfmajor/parser/PDFStream/util.py                 | 2 ++
 5 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/execptions.py b/pdfmajor/execptions.py
index fa8cdf6..d31c699 100644
--- a/pdfmajor/execptions.py
+++ b/pdfmajor/execptions.py
@@ -66,6 +66,15 @@ class PDFSyntaxError(PDFException):
 class PDFTextExtractionNotAllowed(PDFException):
     pass
 
+class PDFNotImplementedError(PDFException):
+    pass
+
+class PDFEncryptionError(PDFException):
+    pass
+
+class PDFPasswordIncorrect(PDFEncryptionError):
+    pass
+
 class PSEOF(PSException):
     pass
 
diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 71b9bc1..9a5a0c8 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -3,6 +3,8 @@ import hashlib as md5
 from Crypto.Cipher import ARC4, AES
 from Crypto.Hash import SHA256
 
+from pdfmajor.execptions import PDFEncryptionError, PDFPasswordIncorrect
+
 from ..PDFStream import int_value, str_value, dict_value
 from ..PSStackParser import literal_name
 from ...utils import int2byte, struct
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 0d92c3f..704b36a 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -12,7 +12,8 @@ from pdfmajor.execptions import (
     PSEOF,
     PDFObjectNotFound, 
     PDFTypeError,
-    PDFSyntaxError
+    PDFSyntaxError,
+    PDFEncryptionError
 )
 
 from ...utils import settings, choplist, decode_text
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 82ec8c0..a86ede8 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,5 +1,7 @@
 import zlib
 
+from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
+
 from ...utils import lzwdecode
 from ...utils import ascii85decode, asciihexdecode, apply_png_predictor
 
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index eae568f..d861af4 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+from pdfmajor.execptions import PDFTypeError
+
 from .PDFObjRef import PDFObjRef
 from ...utils import settings, isnumber, int2byte
 
-- 
2.43.0


From 0d82c1d4c599106b93e42c9e6e2a2a79bf41d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 013/102] fix: resolve indirect stream filters and decode
 parameters

An indirect filter name inside an array raised TypeError (it was indexed as
if it were a list), an indirect filter list or parameter dictionary was not
resolved at all.
---
 pdfmajor/parser/PDFStream/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index a86ede8..1f48db5 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -60,8 +60,8 @@ class PDFStream(PDFObject):
         return default
 
     def get_filters(self):
-        filters = self.get_any(('F', 'Filter'))
-        params = self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {})
+        filters = resolve1(self.get_any(('F', 'Filter')))
+        params = resolve1(self.get_any(('DP', 'DecodeParms', 'FDecodeParms'), {}))
         if not filters:
             return []
         if not isinstance(filters, list):
@@ -74,10 +74,8 @@ class PDFStream(PDFObject):
         # resolve filter if possible
         _filters = []
         for fltr in filters:
-            if hasattr(fltr, 'resolve'):
-                fltr = fltr.resolve()[0]
-            _filters.append(fltr)
-        return list(zip(_filters, params)) #solves https://github.com/pdfminer/pdfminer.six/issues/15
+            _filters.append(resolve1(fltr))
+        return list(zip(_filters, map(resolve1, params))) #solves https://github.com/pdfminer/pdfminer.six/issues/15
 
     def decode(self):
         assert self.data is None and self.rawdata is not None, str((self.data, self.rawdata))
-- 
2.43.0


From 94ca7a7ebd81a51626673f668964bd07f63ac3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 014/102] fix: end ASCIIHex and LZW data at their end-of-data
 markers

Bytes after the marker were decoded as data, and white space between the two
digits of an ASCIIHex pair made it decode wrongly.
---
 pdfmajor/utils/ascii85.py | 3 +++
 pdfmajor/utils/lzw.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index ec05158..5b7b8d1 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -63,6 +63,9 @@ def asciihexdecode(data):
         i=int(x,16)
         return int2byte(i)
 
+    data = data.partition(b'>')[0]
+    data = re.sub(br'[\0\s]', b'', data)
+
     out=b''
     for x in hex_re.findall(data):
         out+=decode(x)
diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 03d0dc7..9811a16 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -83,6 +83,9 @@ class LZWDecoder(object):
                 code = self.readbits(self.nbits)
             except EOFError:
                 break
+            if code == 257:
+                # end of data
+                break
             try:
                 x = self.feed(code)
             except CorruptDataError:
-- 
2.43.0


From 3a6d82fdbb3aa2cb384f061cf2f4e0cc4adcf731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 015/102] fix: undo every PNG predictor row type for any sample
 layout

Sub and average rows ignored the bytes per pixel and averaged the sum
instead of adding to the average, Paeth rows and depths other than 8 were
refused, and the row above the first was shorter than a row.
---
 pdfmajor/utils/generic.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index e6e3149..0023ab0 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -26,14 +26,11 @@ def compatible_encode_method(bytesorstring, encoding='utf-8', erraction='ignore'
 ##  PNG Predictor
 ##
 def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
-    if bitspercomponent != 8:
-        # unsupported
-        raise ValueError("Unsupported `bitspercomponent': %d" %
-                         bitspercomponent)
-    nbytes = colors * columns * bitspercomponent // 8
+    nbytes = (colors * columns * bitspercomponent + 7) // 8
+    bpp = (colors * bitspercomponent + 7) // 8
     i = 0
     buf = b''
-    line0 = b'\x00' * columns
+    line0 = b'\x00' * nbytes
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
@@ -43,10 +40,10 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
             # PNG none
             line2 += line1
         elif ft == 1:
-            # PNG sub (UNTESTED)
-            c = 0
-            for b in line1:
-                c = (c+b) & 255
+            # PNG sub
+            for (j, b) in enumerate(line1):
+                left = line2[j-bpp] if bpp <= j else 0
+                c = (left+b) & 255
                 line2 += int2byte(c)
         elif ft == 2:
             # PNG up
@@ -54,10 +51,19 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
                 c = (a+b) & 255
                 line2 += int2byte(c)
         elif ft == 3:
-            # PNG average (UNTESTED)
-            c = 0
-            for (a, b) in zip(line0, line1):
-                c = ((c+a+b)//2) & 255
+            # PNG average
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                left = line2[j-bpp] if bpp <= j else 0
+                c = ((left+a)//2+b) & 255
+                line2 += int2byte(c)
+        elif ft == 4:
+            # PNG Paeth
+            for (j, (a, b)) in enumerate(zip(line0, line1)):
+                left = line2[j-bpp] if bpp <= j else 0
+                upleft = line0[j-bpp] if bpp <= j else 0
+                p = left+a-upleft
+                c = min((left, a, upleft), key=lambda v: abs(p-v))
+                c = (c+b) & 255
                 line2 += int2byte(c)
         else:
             # unsupported
-- 
2.43.0


From eae2c2752986c9877c593229e76a3d6d0976b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 016/102] fix: make CCITT Group 4 decoding work on current
 Python

array.tostring() is gone since Python 3.9, so every CCITTFaxDecode stream
raised; absent parameters and the default of 1728 columns raised as well.
---
 pdfmajor/parser/PDFStream/ccitt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index e1d47b9..65cf92c 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -541,13 +541,14 @@ class CCITTFaxDecoder(CCITTG4Parser):
         for (i, b) in enumerate(bits):
             if b:
                 bytes[i//8] += (128, 64, 32, 16, 8, 4, 2, 1)[i % 8]
-        self._buf += bytes.tostring()
+        self._buf += bytes.tobytes()
         return
 
 
 def ccittfaxdecode(data, params):
+    params = params or {}
     K = params.get('K')
-    cols = params.get('Columns')
+    cols = params.get('Columns', 1728)
     bytealign = params.get('EncodedByteAlign')
     reversed = params.get('BlackIs1')
     if K == -1:
-- 
2.43.0


From 05eb1cb6cdae78e1bbebaf1a9254861f683c0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 017/102] fix: decrypt the strings of stream dictionaries

Only the data of a stream was decrypted, strings in its dictionary stayed
encrypted.
---
 pdfmajor/parser/PDFDocument/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 704b36a..afaa334 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -213,6 +213,8 @@ class PDFDocument(object):
                         obj = self._getobj_parse(index, objid)
                         if self.decipher:
                             obj = decipher_all(self.decipher, objid, genno, obj)
+                            if isinstance(obj, PDFStream):
+                                decipher_all(self.decipher, objid, genno, obj.attrs)
 
                     if isinstance(obj, PDFStream):
                         obj.set_objid(objid, genno)
-- 
2.43.0


From 6c250d91460126e64c44d3cb33b85a5b24295ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 018/102] fix: accept no password, and refuse one outside
 Latin-1, for encrypted documents

PDFInterpreter's default password None raised AttributeError, a password with
a character outside Latin-1 raised UnicodeEncodeError.
---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 9a5a0c8..2fb48d1 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -20,7 +20,7 @@ class PDFStandardSecurityHandler(object):
     def __init__(self, docid, param, password=''):
         self.docid = docid
         self.param = param
-        self.password = password
+        self.password = password or ''
         self.encrypt_metadata = False
         self.init()
         return
@@ -90,7 +90,10 @@ class PDFStandardSecurityHandler(object):
         return result[:n]
 
     def authenticate(self, password):
-        password = password.encode("latin1")
+        try:
+            password = password.encode("latin1")
+        except UnicodeEncodeError:
+            return None # no such character in any password of these revisions
         key = self.authenticate_user_password(password)
         if key is None:
             key = self.authenticate_owner_password(password)
-- 
2.43.0


From f372196fb1ce1225b6d2a8ff625dbdaa1ecccfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 019/102] fix: accept the permission word of encrypted
 documents as unsigned number

/P above 2^31 raised struct.error.
---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 2fb48d1..24393c1 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -76,7 +76,7 @@ class PDFStandardSecurityHandler(object):
         password = (password + self.PASSWORD_PADDING)[:32]  # 1
         hash = md5.md5(password)  # 2
         hash.update(self.o)  # 3
-        hash.update(struct.pack('<l', self.p))  # 4
+        hash.update(struct.pack('<L', self.p & 0xffffffff))  # 4
         hash.update(self.docid[0])  # 5
         if self.r >= 4:
             if not self.encrypt_metadata:
-- 
2.43.0


From 8bb5d509d2f66fd0d5ef9898cac592ab71e1b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 020/102] fix: remove the padding of AES encrypted strings and
 streams

The padding bytes stayed at the end of the decrypted data; data of no or a
partial block raised ValueError.
---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 24393c1..036806b 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -187,11 +187,20 @@ class PDFStandardSecurityHandlerV4(PDFStandardSecurityHandler):
     def decrypt_identity(self, objid, genno, data):
         return data
 
+    def decrypt_aes(self, key, data):
+        n = len(data) // 16 * 16
+        if n < 32:
+            return b'' # nothing but the initialization vector
+        data = AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:n])
+        if 1 <= data[-1] <= 16:
+            data = data[:-data[-1]] # padding
+        return data
+
     def decrypt_aes128(self, objid, genno, data):
         key = self.key + struct.pack('<L', objid)[:3] + struct.pack('<L', genno)[:2] + b'sAlT'
         hash = md5.md5(key)
         key = hash.digest()[:min(len(key), 16)]
-        return AES.new(key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(key, data)
 
 
 class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
@@ -236,4 +245,4 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         return None
 
     def decrypt_aes256(self, objid, genno, data):
-        return AES.new(self.key, mode=AES.MODE_CBC, IV=data[:16]).decrypt(data[16:])
+        return self.decrypt_aes(self.key, data)
-- 
2.43.0


From a648e40f0a13e5e2268f3b3db644ec83075e7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 021/102] fix: yield each page once when the page tree is
 missing

The scan that stands in for a missing page tree walked every cross-reference
section, so a page listed by two of them was returned twice.
---
 pdfmajor/parser/PDFPage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index c9844e9..a1d8897 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -107,8 +107,13 @@ class PDFPage(object):
                 pages = True
         if not pages:
             # fallback when /Pages is missing.
+            done = set()
             for xref in document.xrefs:
                 for objid in xref.get_objids():
+                    if objid in done:
+                        # listed by a newer section too
+                        continue
+                    done.add(objid)
                     try:
                         obj = document.getobj(objid)
                         if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
-- 
2.43.0


From ceea9a92461bbe6daa28f9e7ff1dce9f4f3cd3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 022/102] fix: let pages be read after the file is closed

Pages parse their content when they are iterated. With preload=True, or after
list(PDFInterpreter(path)), that happens once the with block is over and
failed with "seek of closed file".
---
 pdfmajor/interpreter/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index dcb4d32..640859a 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -1,3 +1,4 @@
+from io import BytesIO
 from typing import List
 
 from pdfmajor.execptions import EmptyDocumentError
@@ -43,7 +44,9 @@ class PDFInterpreter:
     def __load_pages(self):
         set_log_level(self.debug_level)
         log.info("Opening file...")
-        with open(self.input_file_path, 'rb') as input_file:
+        with open(self.input_file_path, 'rb') as opened_file:
+            # pages read their content lazily, also once the file is closed.
+            input_file = BytesIO(opened_file.read())
             font_cache = {}
             log.info("Parsing file...")
             pages = PDFPage.get_pages(
-- 
2.43.0


From 9fdff6103f19613b63fe592b8e0c1d873025c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 023/102] fix: iterate over all pages after an interrupted
 iteration

Pages were remembered one by one, so leaving the first loop early made every
later one stop at the same page, and two loops at once mixed up their pages.
---
 pdfmajor/interpreter/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/__init__.py b/pdfmajor/interpreter/__init__.py
index 640859a..1f2d640 100644
--- a/pdfmajor/interpreter/__init__.py
+++ b/pdfmajor/interpreter/__init__.py
@@ -47,6 +47,7 @@ class PDFInterpreter:
         with open(self.input_file_path, 'rb') as opened_file:
             # pages read their content lazily, also once the file is closed.
             input_file = BytesIO(opened_file.read())
+            loaded = []
             font_cache = {}
             log.info("Parsing file...")
             pages = PDFPage.get_pages(
@@ -58,8 +59,10 @@ class PDFInterpreter:
                 check_extractable=self.check_extractable
             )
             for page_num, page in enumerate(pages):
-                self.__pages.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
-                yield self.__pages[-1]
+                loaded.append(PageInterpreter(page, page_num, font_cache, ignore_bad_chars=self.ignore_bad_chars))
+                yield loaded[-1]
+            # only a complete list may stand in for the file.
+            self.__pages = loaded
             log.info(f"Done Reading {len(self.__pages)} pages.")
         set_log_level(logging.WARNING)
         
-- 
2.43.0


From 71ed56b998d454956733d47f30181c70e6f426fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 024/102] fix: start every iteration over a page from the
 initial state

The state left by one pass (matrix, fonts, colours, an unfinished text block)
was the starting point of the next, so a page iterated twice gave different
items or raised.
---
 pdfmajor/interpreter/PageInterpreter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 1471dc8..13de98c 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -25,16 +25,23 @@ class PageInterpreter:
         self.width = x1-x0
 
         # Init State
-        self.state: PDFStateStack = prep_state(
+        self.ctm = ctm
+        self.ignore_bad_chars = ignore_bad_chars
+        self.state: PDFStateStack = self.__init_state()
+
+    def __init_state(self) -> PDFStateStack:
+        return prep_state(
             PDFStateStack(), 
-            ctm=ctm, 
-            resources=page.resources, 
+            ctm=self.ctm, 
+            resources=self.page.resources, 
             font_cache=self.font_cache,
-            ignore_bad_chars=ignore_bad_chars
+            ignore_bad_chars=self.ignore_bad_chars
         )
 
     
     def __iter__(self):
+        # what an earlier pass left behind must not affect this one.
+        self.state = self.__init_state()
         for item in process_command_stream(
             streams=list_value(self.page.contents),
             font_cache=self.font_cache,
-- 
2.43.0


From 9337c3c04e37f2a3804ac34078ef58cfe1cdc16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 025/102] fix: let k set the non-stroking colour

It set the stroking one, as K does.
---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index cb6838f..1134d7b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -318,7 +318,7 @@ def set_stroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
 # setcmyk-non-stroking
 @PDFCommands.add('k')
 def set_nonstroke_cmyk(stack: PDFStateStack, c, m, y, k) -> PDFStateStack:
-    stack.graphics.set_stroke_color(
+    stack.graphics.set_nostroke_color(
         stack.colorspace_map['DeviceCMYK'], 
         c, m, y, k
     )
-- 
2.43.0


From 116a0608aa010c36e2d3d76fda50c136de8629b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 026/102] fix: let G, RG, K and their kin select the colour
 space

They select a space as well as a colour, so a following SC or sc takes as many
operands as that space has components.
---
 pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
index 4a24fbe..47802b0 100644
--- a/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFGraphicState/__init__.py
@@ -19,11 +19,13 @@ class PDFGraphicState(object):
     def set_stroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.scolspace
+        self.scolspace = colspace
         self.scolor = PDFColor(colspace, *values)
 
     def set_nostroke_color(self, colspace: PDFColorSpace, *values):
         if colspace is None:
             colspace = self.ncolspace
+        self.ncolspace = colspace
         self.ncolor = PDFColor(colspace, *values)
 
     def copy(self):
-- 
2.43.0


From b165a7622b931b5b1ec1dc1931ec4efd597bb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 027/102] fix: give a curve for a four-sided path that is not a
 rectangle

make_curve returned None for it, which came out as an item of the page.
---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 624ce81..9e32ded 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -82,6 +82,14 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
                 stroke=gstate.scolor, 
                 fill=gstate.ncolor,
             )
+        return LTCurve(
+            linewidth=gstate.linewidth, 
+            paths=paths,
+            bbox=Bbox.from_points([(x0, y0), (x1, y1), (x2, y2), (x3, y3)]),
+            evenodd=evenodd,
+            stroke=gstate.scolor, 
+            fill=gstate.ncolor
+        )
     else:
         (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
         for path in paths:
-- 
2.43.0


From b4d8375ab997251a16dfaa4b114fb0eefe76bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 028/102] fix: keep path points in page space

Lines and rectangles were placed with the current matrix while general paths,
and the points of every path, stayed in user space, so the points of a curve
lay outside its box as soon as cm was used.
---
 pdfmajor/interpreter/commands/state/Curves.py        |  6 +-----
 .../interpreter/commands/state/layout/__init__.py    | 12 ++++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/Curves.py b/pdfmajor/interpreter/commands/state/Curves.py
index 0ad4cd7..af8607b 100644
--- a/pdfmajor/interpreter/commands/state/Curves.py
+++ b/pdfmajor/interpreter/commands/state/Curves.py
@@ -4,11 +4,7 @@ from pdfmajor.utils import apply_matrix_pt
 
 class CurvePoint:
     def __init__(self, ctm: tuple, x: float, y: float):
-        # old = (x,y)
-        # (x, y) = apply_matrix_pt(ctm, (x, y))
-        # if old != (x,y):
-        # print("CurvePoint", ctm, old)
-        # print(" >", x, y)
+        (x, y) = apply_matrix_pt(ctm, (x, y))
         self.x = x
         self.y = y
     
diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 9e32ded..b69eee0 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -28,8 +28,8 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         # horizontal/vertical line
         pt0 = paths[0].points[0]
         pt1 = paths[1].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
         if x0 == x1:
             return LTVerticalLine(
                 linewidth=gstate.linewidth, 
@@ -63,10 +63,10 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
         pt1 = paths[1].points[0]
         pt2 = paths[2].points[0]
         pt3 = paths[3].points[0]
-        (x0, y0) = apply_matrix_pt(ctm, (pt0.x, pt0.y))
-        (x1, y1) = apply_matrix_pt(ctm, (pt1.x, pt1.y))
-        (x2, y2) = apply_matrix_pt(ctm, (pt2.x, pt2.y))
-        (x3, y3) = apply_matrix_pt(ctm, (pt3.x, pt3.y))
+        (x0, y0) = (pt0.x, pt0.y)
+        (x1, y1) = (pt1.x, pt1.y)
+        (x2, y2) = (pt2.x, pt2.y)
+        (x3, y3) = (pt3.x, pt3.y)
         if ((x0 == x1 and y1 == y2 and x2 == x3 and y3 == y0) or
             (y0 == y1 and x1 == x2 and y2 == y3 and x3 == x0)):
             return LTRect( 
-- 
2.43.0


From 451e7f46588ddd8f8203affb2840546a440dd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 029/102] fix: do not make an item of an empty path

Painting without a path gave a curve with an infinite box, and ET without BT
the item None.
---
 pdfmajor/interpreter/commands/__init__.py              | 3 +++
 pdfmajor/interpreter/commands/state/layout/__init__.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 8eb3c73..5480678 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -51,6 +51,9 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
             # history.write('arg', None, obj)
         
         for complete_item in state.complete_layout_items:
+            if complete_item is None:
+                # painting an empty path, or ET without BT
+                continue
             if isinstance(complete_item, LTXObject):
                 xobj_state = prep_state(
                     state=PDFStateStack(),
diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index b69eee0..5421144 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -23,6 +23,8 @@ def make_char_block(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
     )
 
 def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[CurvePath]):
+    if not any(path.points for path in paths):
+        return None
     shape = ''.join(x.method.value for x in paths)
     if shape == 'ml':
         # horizontal/vertical line
-- 
2.43.0


From d2eacc9438f8cda70143a06f190de4905a00fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 030/102] fix: let " move to the next line

It set the spacing and showed the string where ' would first start a new line.
---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 1134d7b..3f0171e 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -471,7 +471,7 @@ def add_quoted_char_blocks(stack: PDFStateStack, b: bytes) -> PDFStateStack:
 def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> PDFStateStack:
     stack.text.wordspace = wordspace
     stack.text.charspace = charspace
-    return add_char_blocks(stack, [b])
+    return add_char_blocks(nextline(stack), [b])
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-- 
2.43.0


From bb426fee8e2c30ab70c7c98a47f5562b14c4a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 031/102] fix: accept showing an empty string

()Tj and a TJ without glyphs raised an IndexError.
---
 pdfmajor/interpreter/commands/state/layout/LTTextBlock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
index 517c8b7..cb400cb 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTTextBlock.py
@@ -22,6 +22,9 @@ class LTTextBlock(LTContainer):
     
     def add_char_block(self, seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
         (char_meta_datas, textstate, color) = decode_text_seq(seq, ctm, textstate, color)
+        if not char_meta_datas:
+            # nothing was shown, as by ()Tj or [-250]TJ
+            return
         char_block = LTCharBlock(
             chars=char_meta_datas,
             color=color,
-- 
2.43.0


From e0dab87691d4f50a96067d3ffb03b2bd643c5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 032/102] fix: add the character spacing after every glyph

It was added before every glyph but the first of a string, so the last glyph of
a string got none and one that follows a number in a TJ array got it twice.
---
 .../commands/state/layout/utils/textdecoder.py            | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 816175f..727a75c 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -22,30 +22,24 @@ def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color:
 
 def __render_string_along(idx: int, seq: bytearray, 
     textstate: PDFTextState, dxscale: float, color: PDFColor):
-    needcharspace = False
     char_meta_datas = []
     for obj in seq:
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
-            needcharspace = True
         else:
             for cid in textstate.font.decode(obj):
-                if needcharspace:
-                    textstate.linematrix[idx] += textstate.charspace
-                
                 text = textstate.to_unichr(cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
                 adv, bbox = __compute_char_bbox(matrix, cid, textstate)
-                textstate.linematrix[idx] += adv
+                textstate.linematrix[idx] += adv + textstate.charspace
 
                 char_meta_datas.append(
                     ( text, bbox )
                 )
                 if cid == 32 and textstate.wordspace:
                     textstate.linematrix[idx] += textstate.wordspace
-                needcharspace = True
                 
     return (char_meta_datas, textstate, color)
 
-- 
2.43.0


From 1708a830d61f7bdaee94e59394a5b8418cc1affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 033/102] fix: place form XObjects with their Matrix and the
 current matrix

The content was drawn with the current matrix only, the box got the form's
Matrix only, and the BBox was taken for x, y, width, height.
---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 5421144..4741c2c 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -131,14 +131,15 @@ def make_image(obj, ctm):
     )
 
 def make_xobject(obj, bbox, ctm, matrix, resources):
-    (x, y, w, h) = bbox
+    (x0, y0, x1, y1) = bbox
+    matrix = mult_matrix(matrix, ctm)
     return LTXObject(
         name=str(id(obj)),
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
-            for (p, q) in ((x, y), (x+w, y), (x, y+h), (x+w, y+h))
+            for (p, q) in ((x0, y0), (x1, y0), (x0, y1), (x1, y1))
         ]),
         xobj_stream=obj,
         resources=resources,
-        t_matrix = ctm
+        t_matrix = matrix
     )
\ No newline at end of file
-- 
2.43.0


From 2a2eb2f80bc2e389bd7172e849d6bf1476771911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 034/102] fix: let form XObjects start from the text state of
 their caller

Like the colours it is part of the graphics state. Without it, ignore_bad_chars
had no effect on the text of forms.
---
 pdfmajor/interpreter/commands/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 5480678..282e165 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -62,6 +62,7 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                     font_cache=font_cache
                 )
                 xobj_state.graphics = state.graphics.copy()
+                xobj_state.text = state.text.copy()
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-- 
2.43.0


From b5b074602e6715606ee568bd89701c8212621844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 035/102] fix: report the size of a page as it is displayed

The content of a page with Rotate 90 or 270 is turned, its width and height were
not. A MediaBox given by other corners than lower left and upper right made
them negative.
---
 pdfmajor/interpreter/PageInterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfmajor/interpreter/PageInterpreter.py b/pdfmajor/interpreter/PageInterpreter.py
index 13de98c..531af75 100644
--- a/pdfmajor/interpreter/PageInterpreter.py
+++ b/pdfmajor/interpreter/PageInterpreter.py
@@ -8,6 +8,8 @@ class PageInterpreter:
 
     def __init__(self, page: PDFPage, page_num: int, font_cache: dict = None, ignore_bad_chars = False):
         (x0, y0, x1, y1) = page.mediabox
+        (x0, x1) = (min(x0, x1), max(x0, x1))
+        (y0, y1) = (min(y0, y1), max(y0, y1))
         if page.rotate == 90:
             ctm = [0, -1, 1, 0, -y0, x1]
         elif page.rotate == 180:
@@ -23,6 +25,8 @@ class PageInterpreter:
         self.page_num = page_num
         self.height = y1-y0
         self.width = x1-x0
+        if page.rotate in (90, 270):
+            (self.width, self.height) = (self.height, self.width)
 
         # Init State
         self.ctm = ctm
-- 
2.43.0


From 81737c4c290dc30fedccc69871a6c66ec2456eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 036/102] fix: do not make an item of an empty text block

Its box is None, which is neither a number in JSON nor usable elsewhere.
---
 pdfmajor/interpreter/commands/commands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 3f0171e..23edf1b 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -359,7 +359,9 @@ def begin_text(stack: PDFStateStack) -> PDFStateStack:
 
 @PDFCommands.add('ET')
 def end_text(stack: PDFStateStack) -> PDFStateStack:
-    stack.complete_layout_items.append(stack.current_textblock)
+    # a block without characters has no place on the page
+    if stack.current_textblock:
+        stack.complete_layout_items.append(stack.current_textblock)
     stack.current_textblock = None
     return stack
 
-- 
2.43.0


From 9a3d7e7fe5bbbae66f72059adcb0a6d4489ff858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 037/102] fix: take off only the line end that precedes EI

In a regular expression $ also matches before a final newline, so image data
which itself ends with one lost it along with the end-of-line before EI.
---
 pdfmajor/parser/PDFContentParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 54c3bc6..8ffd2fd 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -77,7 +77,7 @@ class PDFContentParser(PSStackParser):
                     data += self.buf[self.charpos:]
                     self.charpos = len(self.buf)
         data = data[:-(len(target)+1)]  # strip the last part
-        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])$', b'', data)
+        data = re.sub(br'(\x0d\x0a|[\x0d\x0a])\Z', b'', data)
         return (pos, data)
 
     def flush(self):
-- 
2.43.0


From 804a95c08ac6862f4372a251825721337a58458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 038/102] fix: accept inline images that spell out Width and
 Height

The abbreviated keys of inline images are optional; images that used the full
names were dropped although LTImage understands both.
---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 23edf1b..675f7df 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -477,7 +477,7 @@ def add_dbquoted_char_blocks(stack: PDFStateStack, wordspace, charspace, b) -> P
 
 @PDFCommands.add('EI')
 def insert_image(stack: PDFStateStack, obj) -> PDFStateStack:
-    if 'W' in obj and 'H' in obj:
+    if obj.get_any(('W', 'Width')) is not None and obj.get_any(('H', 'Height')) is not None:
         stack.complete_layout_items.append(make_image(
             obj,  stack.t_matrix
         ))
-- 
2.43.0


From 679810d849c023c3a2a87e8ea70dc197a730fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 039/102] fix: read glyph names made by the rules of the Adobe
 Glyph List

uni0041 was taken for character 41, u1F600 for character 1, and f_f_i or a.sc
were unknown. Names that are no text or hold a number beyond Unicode raised
TypeError or OverflowError instead of KeyError, so that the font could not be
used.
---
 pdfmajor/utils/encoding/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/__init__.py b/pdfmajor/utils/encoding/__init__.py
index 5c339bb..134a0a8 100644
--- a/pdfmajor/utils/encoding/__init__.py
+++ b/pdfmajor/utils/encoding/__init__.py
@@ -3,15 +3,31 @@ from .glyphlist import glyphname2unicode
 from .latin_enc import LATIN_ENCODING
 
 STRIP_NAME = re.compile(r'[0-9]+')
+UNI_NAME = re.compile(r'uni((?:[0-9A-F]{4})+)|u([0-9A-F]{4,6})')
 
 ##  name2unicode
 ##
 def name2unicode(name):
     """Converts Adobe glyph names to Unicode numbers."""
+    if not isinstance(name, str):
+        # not a name of any known glyph
+        raise KeyError(name)
     if name in glyphname2unicode:
         return glyphname2unicode[name]
+    # names made by the rules of the Adobe Glyph List: uni0041, u1F600, f_f_i, a.sc
+    base = name.split('.')[0]
+    if base != name or '_' in base:
+        try:
+            return ''.join(name2unicode(part) for part in base.split('_'))
+        except KeyError:
+            pass
+    m = UNI_NAME.fullmatch(name)
+    if m and m.group(1):
+        return bytes.fromhex(m.group(1)).decode('utf-16be', 'ignore')
+    if m and int(m.group(2), 16) <= 0x10ffff:
+        return chr(int(m.group(2), 16))
     m = STRIP_NAME.search(name)
-    if not m:
+    if not m or int(m.group(0)) > 0x10ffff:
         raise KeyError(name)
     return chr(int(m.group(0)))
 
-- 
2.43.0


From df0ef798a1b3733ecc5a30f9380ca5980f5a505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 040/102] fix: give all WinAnsi codes the characters of the PDF
 reference

In WinAnsiEncoding 255 (octal) is a second code of the hyphen, not of the space,
and the unused codes stand for a bullet.
---
 pdfmajor/utils/encoding/latin_enc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/utils/encoding/latin_enc.py b/pdfmajor/utils/encoding/latin_enc.py
index 2b73bac..5af6595 100644
--- a/pdfmajor/utils/encoding/latin_enc.py
+++ b/pdfmajor/utils/encoding/latin_enc.py
@@ -95,6 +95,12 @@ LATIN_ENCODING = [
   ('breve', 198, 249, None, 24),
   ('brokenbar', None, None, 166, 166),
   ('bullet', 183, 165, 149, 128),
+  ('bullet', None, None, 127, None),
+  ('bullet', None, None, 129, None),
+  ('bullet', None, None, 141, None),
+  ('bullet', None, None, 143, None),
+  ('bullet', None, None, 144, None),
+  ('bullet', None, None, 157, None),
   ('c', 99, 99, 99, 99),
   ('caron', 207, 255, None, 25),
   ('ccedilla', None, 141, 231, 231),
@@ -145,6 +151,7 @@ LATIN_ENCODING = [
   ('h', 104, 104, 104, 104),
   ('hungarumlaut', 205, 253, None, 28),
   ('hyphen', 45, 45, 45, 45),
+  ('hyphen', None, None, 173, None),
   ('i', 105, 105, 105, 105),
   ('iacute', None, 146, 237, 237),
   ('icircumflex', None, 148, 238, 238),
@@ -214,7 +221,6 @@ LATIN_ENCODING = [
   ('slash', 47, 47, 47, 47),
   ('space', 32, 32, 32, 32),
   ('space', None, 202, 160, None),
-  ('space', None, 202, 173, None),
   ('sterling', 163, 163, 163, 163),
   ('t', 116, 116, 116, 116),
   ('thorn', None, None, 254, 254),
-- 
2.43.0


From 89217523567215260b1c8e12ab58b48a72dc9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 041/102] fix: resolve references inside font widths and boxes

The elements of Widths, W, W2, DW2, FontBBox and the value of DW may be indirect
objects; they raised TypeError or were ignored.
---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py       | 2 +-
 .../commands/state/PDFTextState/PDFFont/fonts.py         | 8 ++++----
 .../commands/state/PDFTextState/PDFFont/util.py          | 9 +++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 341add3..967b2fc 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -36,7 +36,7 @@ class PDFFont(object):
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
         self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
         self.leading = num_value(descriptor.get('Leading', 0))
-        self.bbox = list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))
+        self.bbox = [num_value(x) for x in list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))]
         self.hscale = self.vscale = .001
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 51b66a2..53499d5 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -34,7 +34,7 @@ class PDFType1Font(PDFSimpleFont):
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', [0]*256))
-            widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+            widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
             # try to recover the missing encoding info from the font file.
@@ -63,7 +63,7 @@ class PDFType3Font(PDFSimpleFont):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
         widths = list_value(spec.get('Widths', [0]*256))
-        widths = dict((i+firstchar, w) for (i, w) in enumerate(widths))
+        widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor'])
         else:
@@ -137,7 +137,7 @@ class PDFCIDFont(PDFFont):
             # writing mode: vertical
             widths = get_widths2(list_value(spec.get('W2', [])))
             self.disps = dict((cid, (vx, vy)) for (cid, (_, (vx, vy))) in iter(widths.items()))
-            (vy, w) = spec.get('DW2', [880, -1000])
+            (vy, w) = map(num_value, list_value(spec.get('DW2', [880, -1000])))
             self.default_disp = (None, vy)
             widths = dict((cid, w) for (cid, (w, _)) in iter(widths.items()))
             default_width = w
@@ -146,7 +146,7 @@ class PDFCIDFont(PDFFont):
             self.disps = {}
             self.default_disp = 0
             widths = get_widths(list_value(spec.get('W', [])))
-            default_width = spec.get('DW', 1000)
+            default_width = num_value(spec.get('DW', 1000))
         PDFFont.__init__(self, descriptor, widths, default_width=default_width)
         return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index fc01caf..2e59862 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,15 +1,16 @@
+from pdfmajor.parser.PDFStream import resolve1, num_value
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 
 
 def get_widths(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
                 for (i, w) in enumerate(v):
-                    widths[char1+i] = w
+                    widths[char1+i] = num_value(w)
                 r = []
         elif isnumber(v):
             r.append(v)
@@ -26,11 +27,11 @@ assert get_widths([1,[2,3],6,[7,8]]) == {1:2,2:3, 6:7,7:8}
 def get_widths2(seq):
     widths = {}
     r = []
-    for v in seq:
+    for v in map(resolve1, seq):
         if isinstance(v, list):
             if r:
                 char1 = r[-1]
-                for (i, (w, vx, vy)) in enumerate(choplist(3, v)):
+                for (i, (w, vx, vy)) in enumerate(choplist(3, map(num_value, v))):
                     widths[char1+i] = (w, (vx, vy))
                 r = []
         elif isnumber(v):
-- 
2.43.0


From a5d707e45e06f38bb75fef03c766922436aefc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 042/102] fix: accept a default width of zero

DW 0 was replaced by the MissingWidth of the descriptor.
---
 .../interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 967b2fc..bda1696 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -34,7 +34,7 @@ class PDFFont(object):
         self.ascent = num_value(descriptor.get('Ascent', 0))
         self.descent = num_value(descriptor.get('Descent', 0))
         self.italic_angle = num_value(descriptor.get('ItalicAngle', 0))
-        self.default_width = default_width or num_value(descriptor.get('MissingWidth', 0))
+        self.default_width = num_value(descriptor.get('MissingWidth', 0)) if default_width is None else default_width
         self.leading = num_value(descriptor.get('Leading', 0))
         self.bbox = [num_value(x) for x in list_value(descriptor.get('FontBBox', (0, 0, 0, 0)))]
         self.hscale = self.vscale = .001
-- 
2.43.0


From f7d9493a9762baf163aea225a69c7b79a10fc3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 043/102] fix: use the FontBBox of Type 3 fonts that have a
 descriptor

FontBBox is an entry of the Type 3 font; a descriptor (required in tagged files)
does not repeat it, and the glyphs of such fonts had no height.
---
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 53499d5..976c841 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -65,7 +65,9 @@ class PDFType3Font(PDFSimpleFont):
         widths = list_value(spec.get('Widths', [0]*256))
         widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
-            descriptor = dict_value(spec['FontDescriptor'])
+            descriptor = dict_value(spec['FontDescriptor']).copy()
+            # the box belongs to the font, its descriptor need not repeat it.
+            descriptor.setdefault('FontBBox', spec['FontBBox'])
         else:
             descriptor = {'Ascent': 0, 'Descent': 0,
                           'FontBBox': spec['FontBBox']}
-- 
2.43.0


From 2c66ce84f767541d9b8675fddb27cfbd38f15666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 044/102] fix: let Widths and FontDescriptor override the
 standard font metrics

A font named like one of the 14 standard fonts was measured by the built-in
metrics even when the file gives its own.
---
 .../commands/state/PDFTextState/PDFFont/fonts.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 976c841..5ff099d 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -30,7 +30,11 @@ class PDFType1Font(PDFSimpleFont):
         try:
             (descriptor, widths) = FontMetricsDB.get_metrics(self.basefont)
         except KeyError:
-            descriptor = dict_value(spec.get('FontDescriptor', {}))
+            (descriptor, widths) = ({}, None)
+        # what the file says takes precedence over the metrics of the standard fonts.
+        if 'FontDescriptor' in spec:
+            descriptor = dict_value(spec['FontDescriptor'])
+        if widths is None or 'Widths' in spec:
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
             widths = list_value(spec.get('Widths', [0]*256))
-- 
2.43.0


From 9b3bb54787699dcbd4638a0d748cb11e4bcb3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 045/102] fix: read cidchar and cidrange sections of CMaps

Codes are bytes, not str, and cidchar gives the code first and its CID, an
integer, second. Copying and dumping CMaps and resolve_all used iteritems.
---
 pdfmajor/parser/PDFStream/util.py  |  2 +-
 pdfmajor/parser/cmapdb/__init__.py | 18 ++++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index d861af4..c16ca8f 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -30,7 +30,7 @@ def resolve_all(x, default=None):
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-        for (k, v) in x.iteritems():
+        for (k, v) in x.items():
             x[k] = resolve_all(v, default=default)
     return x
 
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 68d9cff..5c559d0 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -77,7 +77,7 @@ class CMap(CMapBase):
         assert isinstance(cmap, CMap), str(type(cmap))
 
         def copy(dst, src):
-            for (k, v) in src.iteritems():
+            for (k, v) in src.items():
                 if isinstance(v, dict):
                     d = {}
                     dst[k] = d
@@ -104,7 +104,7 @@ class CMap(CMapBase):
         if code2cid is None:
             code2cid = self.code2cid
             code = ()
-        for (k, v) in sorted(code2cid.iteritems()):
+        for (k, v) in sorted(code2cid.items()):
             c = code+(k,)
             if isinstance(v, int):
                 out.write('code %r = cid %d\n' % (c, v))
@@ -152,18 +152,16 @@ class UnicodeMap(CMapBase):
 class FileCMap(CMap):
 
     def add_code2cid(self, code, cid):
-        assert isinstance(code, str) and isinstance(cid, int), str((type(code), type(cid)))
+        assert isinstance(code, bytes) and isinstance(cid, int), str((type(code), type(cid)))
         d = self.code2cid
         for c in code[:-1]:
-            c = ord(c)
             if c in d:
                 d = d[c]
             else:
                 t = {}
                 d[c] = t
                 d = t
-        c = ord(code[-1])
-        d[c] = cid
+        d[code[-1]] = cid
         return
 
 
@@ -339,7 +337,7 @@ class CMapParser(PSStackParser):
         if token is self.KEYWORD_ENDCIDRANGE:
             objs = [obj for (__, obj) in self.popall()]
             for (s, e, cid) in choplist(3, objs):
-                if (not isinstance(s, str) or not isinstance(e, str) or
+                if (not isinstance(s, bytes) or not isinstance(e, bytes) or
                    not isinstance(cid, int) or len(s) != len(e)):
                     continue
                 sprefix = s[:-4]
@@ -362,9 +360,9 @@ class CMapParser(PSStackParser):
             return
         if token is self.KEYWORD_ENDCIDCHAR:
             objs = [obj for (__, obj) in self.popall()]
-            for (cid, code) in choplist(2, objs):
-                if isinstance(code, str) and isinstance(cid, str):
-                    self.cmap.add_code2cid(code, nunpack(cid))
+            for (code, cid) in choplist(2, objs):
+                if isinstance(code, bytes) and isinstance(cid, int):
+                    self.cmap.add_code2cid(code, cid)
             return
 
         if token is self.KEYWORD_BEGINBFRANGE:
-- 
2.43.0


From 72d3949ae1027388354d49eb40a1445f5dfe195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 046/102] fix: accept strings of odd length in fonts with an
 Identity encoding

The last byte is no character; it made the whole page fail with struct.error.
---
 pdfmajor/parser/cmapdb/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 5c559d0..328bda9 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -120,7 +120,7 @@ class IdentityCMap(CMapBase):
     def decode(self, code):
         n = len(code)//2
         if n:
-            return struct.unpack('>%dH' % n, code)
+            return struct.unpack('>%dH' % n, code[:2*n])
         else:
             return ()
 
-- 
2.43.0


From d2dc0a79d102580f45b7e5cea4c2fe3da8052d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 047/102] fix: accept bfrange arrays shorter than their range

They raised IndexError, numbers in place of strings TypeError, and the font could
not be used.
---
 pdfmajor/parser/cmapdb/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 328bda9..7eae72a 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -378,9 +378,9 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(e)
                 #assert s1 <= e1, str((s1, e1))
                 if isinstance(code, list):
-                    for i in range(e1-s1+1):
-                        self.cmap.add_cid2unichr(s1+i, code[i])
-                else:
+                    for (i, c) in zip(range(e1-s1+1), code):
+                        self.cmap.add_cid2unichr(s1+i, c)
+                elif isinstance(code, bytes):
                     var = code[-4:]
                     base = nunpack(var)
                     prefix = code[:-4]
-- 
2.43.0


From 546271aeaa887314b825bd8c649525f5b9d4a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 048/102] fix: do not load CMaps from outside the CMap folders

The name of a CMap comes from the document. A name with a path in it made the
library unpickle a file of the choice of the author of the document.
---
 pdfmajor/parser/cmapdb/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 7eae72a..f515e89 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -219,7 +219,10 @@ class CMapDB(object):
 
     @classmethod
     def _load_data(klass, name):
-        name = name.replace("\0", "")
+        name = str(name).replace("\0", "")
+        if os.path.basename(name) != name:
+            # the name comes from the document; it must not lead out of the CMap folders.
+            raise CMapNotFound(name)
         filename = '%s.pickle.gz' % name
         log.info('loading: %r', name)
         cmap_paths = (os.environ.get('CMAP_PATH', '/usr/share/pdfminer/'),
-- 
2.43.0


From c9690a9b95df2cbff6c550254d96c53c087d64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 049/102] fix: JSON strings and keys are escaped in full

Only the double quote was escaped: a backslash or a control character in
the text or in a font descriptor gave a document no parser accepts.
---
 pdfmajor/converters/writers/json.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/converters/writers/json.py b/pdfmajor/converters/writers/json.py
index 90ff2ff..8effd91 100644
--- a/pdfmajor/converters/writers/json.py
+++ b/pdfmajor/converters/writers/json.py
@@ -42,16 +42,15 @@ class JSONMakerObject:
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self.write(f'"{key}": {val}', prefix=',\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix=',\n')
             else:
-                self.write(f'"{key}": {val}', prefix='\n')
+                self.write(f'{json_dump(str(key))}: {val}', prefix='\n')
  
     def number(self, key: str, val: float or int):
         self.write_prop(key, val)
     
     def string(self, key: str, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(key, f'"{val_sant}"')
+        self.write_prop(key, json_dump(str(val)))
     
     @contextmanager
     def object(self, key: str):
@@ -109,8 +108,7 @@ class JSONMakerArray:
         self.write_prop(val)
     
     def string(self, val: str):
-        val_sant = str(val).replace('"', '\\"')
-        self.write_prop(f'"{val_sant}"')
+        self.write_prop(json_dump(str(val)))
     
     @contextmanager
     def object(self):
-- 
2.43.0


From 30395a5151cd0daf85b483996a5de951f82c6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 050/102] fix: colours in JSON and YAML are not HTML-escaped

A pattern named A&B came out as A&amp;B; neither format knows entities.
---
 pdfmajor/converters/json.py | 10 +++++-----
 pdfmajor/converters/yaml.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 2e3197d..75c17e4 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -13,9 +13,9 @@ def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_json(
@@ -100,7 +100,7 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
     json.number("y1", char_block.y1)
     if char_block.color.color_space is not None:
         json.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -120,12 +120,12 @@ def place_curve(json: JSONMakerObject, item: LTCurve):
     json.number("y1", item.y1)
     if item.fill.color_space is not None:
         json.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         json.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
                     
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 9697958..fa47759 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -13,9 +13,9 @@ def normalize_color_values(values: list):
     ret = []
     for v in values:
         if isinstance(v, PSLiteral):
-            ret.append( enc(str(v.name)).decode() )
+            ret.append( str(v.name) )
         else:
-            ret.append( enc(str(v)).decode() )
+            ret.append( str(v) )
     return ret
 
 def convert_to_yaml(
@@ -100,7 +100,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     yaml.write("y1", char_block.y1)
     if char_block.color.color_space is not None:
         yaml.place_object("color", {
-            "type": enc(char_block.color.color_space.name).decode(),
+            "type": char_block.color.color_space.name,
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
@@ -136,11 +136,11 @@ def place_curve(yaml: YAMLMakerObject, item: LTCurve):
     yaml.write("y1", item.y1)
     if item.fill.color_space is not None:
         yaml.place_object("fill", {
-            "type": enc(item.fill.color_space.name).decode(),
+            "type": item.fill.color_space.name,
             "value": normalize_color_values(item.fill.values)
         })
     if item.stroke.color_space is not None:
         yaml.place_object("stroke", {
-            "type": enc(item.stroke.color_space.name).decode(),
+            "type": item.stroke.color_space.name,
             "value": normalize_color_values(item.stroke.values)
         })
\ No newline at end of file
-- 
2.43.0


From 8465e957ede1213c32bc379c9757116d680cd292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 051/102] fix: XML attributes are escaped, characters XML does
 not know replaced

A reference, a quote or an ampersand in a font descriptor, or a control
character in the text, made the document malformed. 1.0.0 is no XML version.
---
 pdfmajor/converters/writers/xml.py | 21 +++++++++++++++++----
 pdfmajor/converters/xml.py         | 11 +++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/converters/writers/xml.py b/pdfmajor/converters/writers/xml.py
index 4d71dc1..ead611b 100644
--- a/pdfmajor/converters/writers/xml.py
+++ b/pdfmajor/converters/writers/xml.py
@@ -1,7 +1,19 @@
+import re
 from io import TextIOWrapper
+from xml.sax import saxutils
 from contextlib import contextmanager
 from pdfmajor.execptions import FileAccessException
 
+ILLEGAL_CHARS_RE = re.compile('[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]')
+ATTR_NAME_RE = re.compile(r'[A-Za-z_][A-Za-z0-9_.\-]*')
+
+def escape_text(text) -> str:
+    """Text that cannot be written down in XML is replaced."""
+    return saxutils.escape(ILLEGAL_CHARS_RE.sub('\uFFFD', str(text)), {'\r': '&#13;'})
+
+def escape_attr(value) -> str:
+    return escape_text(value).replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
+
 class XMLMaker:
     def __init__(self, file_path: str, codec: str = 'utf-8'):
         self.file_path = file_path
@@ -10,9 +22,9 @@ class XMLMaker:
     def __enter__(self):
         self.outfile = open(self.file_path, 'wb')
         if self.codec:
-            self.write_raw(f'<?xml version="1.0.0" encoding="{self.codec}" ?>')
+            self.write_raw(f'<?xml version="1.0" encoding="{self.codec}" ?>')
         else:
-            self.write_raw(f'<?xml version="1.0.0" ?>')
+            self.write_raw(f'<?xml version="1.0" ?>')
         self.__levels_deep = 0
         return self
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -22,7 +34,7 @@ class XMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -41,8 +53,9 @@ class XMLMaker:
         if attrs is None:
             attrs = {}
         attrs = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape_attr(value)}"'
             for name, value in attrs.items()
+            if ATTR_NAME_RE.fullmatch(name)
         ])
         if not singleton:
             self.write(f"<{tag_name} {attrs}>", lineend=lineend)
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 8aaaa26..7c166c6 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -1,8 +1,7 @@
 import re
 from typing import List
-from xml.sax import saxutils
 
-from .writers.xml import XMLMaker
+from .writers.xml import XMLMaker, escape_text
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
 from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
@@ -23,15 +22,15 @@ def normalize_color_values(values: list):
         if i > 0:
             ret += ','
         if isinstance(v, PSLiteral):
-            ret += enc(str(v.name)).decode()
+            ret += str(v.name)
         else:
-            ret += enc(str(v)).decode()
+            ret += str(v)
     return ret
 
 def get_color(col: PDFColor, prefix: str = 'color', codec = 'utf-8'):
     if col.color_space is not None:
         return {
-            f"{prefix}-type": enc(col.color_space.name).decode(),
+            f"{prefix}-type": col.color_space.name,
             f"{prefix}-values": normalize_color_values(col.values)
         }
     return {}
@@ -105,7 +104,7 @@ def place_char(xml: XMLMaker, char: LTChar):
         'y0': char.y0,
         'y1': char.y1,
     }, no_additional_char=True):
-        xml.write(saxutils.escape(char.get_text()), lineend='', deep_space="")
+        xml.write(escape_text(char.get_text()), lineend='', deep_space="")
 
 def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
     attr = {
-- 
2.43.0


From 8f0ffeb80bfb0e4b69ef4970959c635039dd7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 052/102] fix: text and attribute values are escaped in HTML

Text such as "a<b" or "&amp;" was written as markup.
---
 pdfmajor/converters/html.py         | 3 ++-
 pdfmajor/converters/writers/html.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 9b8b335..86cb1b3 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -1,3 +1,4 @@
+from html import escape
 from typing import List, Optional
 from .writers.html import HTMLMaker
 from ..interpreter import PDFInterpreter, PageInterpreter, logging
@@ -81,7 +82,7 @@ def render_page(html: HTMLMaker, ltpage: PageInterpreter):
                 'min-height': str(item.height) + "px",
                 'max-height': str(item.height) + "px",
             }):
-                html.write(item.get_text())
+                html.write(escape(item.get_text()))
         elif isinstance(item, LTTextBlock):
             with html.elm('span', {'class': 'text-block'}):
                 for char in item:
diff --git a/pdfmajor/converters/writers/html.py b/pdfmajor/converters/writers/html.py
index 89961e6..59a10f3 100644
--- a/pdfmajor/converters/writers/html.py
+++ b/pdfmajor/converters/writers/html.py
@@ -1,4 +1,5 @@
 from typing import Optional
+from html import escape
 from io import TextIOWrapper
 from contextlib import contextmanager
 
@@ -21,7 +22,7 @@ class HTMLMaker:
     def write_raw(self, text):
         if self.outfile is not None:
             if self.codec:
-                text = text.encode(self.codec)
+                text = text.encode(self.codec, 'xmlcharrefreplace')
             self.outfile.write(text)
         else:
             raise FileAccessException("Attempting to write to file without an open connection")
@@ -45,7 +46,7 @@ class HTMLMaker:
                 for name, value in css.items()
             ])
         attrs_str = " ".join([
-            f'{name}="{value}"'
+            f'{name}="{escape(str(value))}"'
             for name, value in attrs.items()
         ])
         if not singleton:
-- 
2.43.0


From 1eced865c64f8d12552134b2219ec0cca6108d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 053/102] fix: curves of the operators v and y, and curves
 without extent, in HTML

v and y segments were left out of the SVG path; a curve with neither
width nor height raised ZeroDivisionError.
---
 pdfmajor/converters/html.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/converters/html.py b/pdfmajor/converters/html.py
index 86cb1b3..bb6671c 100644
--- a/pdfmajor/converters/html.py
+++ b/pdfmajor/converters/html.py
@@ -174,7 +174,7 @@ def create_svg_path(item: LTCurve):
             "viewBox": "0 0 %s %s" % ( item.width/item.height, 1 )
         })
     else:
-        dx = 1.0/(item.x1-item.x0)
+        dx = 1.0/max([(item.x1-item.x0),0.01])
         dy = 1.0
         svg_attr.update({
             "viewBox": "0 0 1 1"
@@ -203,6 +203,7 @@ def create_svg_path(item: LTCurve):
     def pY(val: float) -> float:
         return ( item.height- (val-item.y0) )*dy
 
+    current = start = None
     for p in item.paths:
         if p.method == CurvePath.METHOD.MOVE_TO:
             path += f'M{" ".join( f"{pX(p.x)} {pY(p.y)}" for p in p.points )} '
@@ -212,6 +213,15 @@ def create_svg_path(item: LTCurve):
             path += 'Z'
         elif p.method == CurvePath.METHOD.CURVE_BOTH_TO:
             path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in p.points )} '
+        elif p.method == CurvePath.METHOD.CURVE_NEXT_TO:
+            # the current point is the first control point
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in [current or p.points[0], *p.points] )} '
+        elif p.method == CurvePath.METHOD.CURVE_FIRST_TO:
+            # the end point is the second control point
+            path += f'C{" ".join( f"{pX(pt.x)} {pY(pt.y)}" for pt in [*p.points, p.points[-1]] )} '
+        if p.method == CurvePath.METHOD.MOVE_TO:
+            start = p.points[-1]
+        current = p.points[-1] if p.points else start
     
     return path, svg_attr
 
-- 
2.43.0


From 4cc96d9f119e19ded9b7e7b2dcde10c007e3af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 054/102] fix: YAML keys, strings and lists are quoted where
 plain text means something else

Text with a colon, a quote, a leading dash or a line end, and references in
font descriptors, gave malformed documents; text such as 'null' or '1.0' was
read back as something else.
---
 pdfmajor/converters/writers/yaml.py | 47 ++++++++++++++++++++++++++---
 pdfmajor/converters/yaml.py         |  2 +-
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/converters/writers/yaml.py b/pdfmajor/converters/writers/yaml.py
index 6bdfefc..a6584bd 100644
--- a/pdfmajor/converters/writers/yaml.py
+++ b/pdfmajor/converters/writers/yaml.py
@@ -1,8 +1,36 @@
-from json import dumps as json_dump
+import re
 from io import TextIOWrapper
 from contextlib import contextmanager     
 from pdfmajor.execptions import FileAccessException
 
+PLAIN_RE = re.compile(r'[A-Za-z0-9.][A-Za-z0-9_.+\-]*|-[0-9.][0-9.eE+\-]*')
+PRINTABLE_RE = re.compile(r'[ -~]*')
+
+def quote(value) -> str:
+    """A string in double quotes, which may hold any character."""
+    return '"' + ''.join(
+        c if ' ' <= c <= '~' and c not in '"\\' else '\\U%08x' % ord(c)
+        for c in str(value)
+    ) + '"'
+
+def scalar(value) -> str:
+    """A value on one line."""
+    if isinstance(value, (list, tuple)):
+        return '[' + ', '.join(map(flow, value)) + ']'
+    text = str(value)
+    return text if PLAIN_RE.fullmatch(text) else quote(text)
+
+def flow(value) -> str:
+    """A value inside a one-line list or object."""
+    if isinstance(value, (int, float)):
+        return str(value)
+    if isinstance(value, (list, tuple)):
+        return scalar(value)
+    if isinstance(value, dict):
+        return '{' + ', '.join(f'{flow(str(key))}: {flow(val)}' for key, val in value.items()) + '}'
+    text = str(value)
+    return "'" + text.replace("'", "''") + "'" if PRINTABLE_RE.fullmatch(text) else quote(text)
+
 @contextmanager
 def YAMLMaker(file_path: str, codec: str = 'utf-8'):
     with open(file_path, 'wb') as outf:
@@ -48,12 +76,21 @@ class YAMLMakerObject(YAMLMakerWriter):
         if key not in self.keys:
             self.keys.add(key)
             if len(self.keys) > 1:
-                self._write(f'{key}: {value}', prefix='\n')
+                self._write(f'{scalar(key)}: {scalar(value)}', prefix='\n')
             else:
-                self._write(f'{key}: {value}', prefix='', 
+                self._write(f'{scalar(key)}: {scalar(value)}', prefix='', 
                     append_deep=not self.parent_is_array
                 )
     
+    def string(self, key: str, value: str):
+        """Writes a text, which stays a text whatever it looks like."""
+        if key not in self.keys:
+            self.keys.add(key)
+            self._write(f'{scalar(key)}: {quote(value)}',
+                prefix='\n' if len(self.keys) > 1 else '',
+                append_deep=len(self.keys) > 1 or not self.parent_is_array
+            )
+
     @contextmanager
     def object(self, key: str):
         if key not in self.keys:
@@ -95,9 +132,9 @@ class YAMLMakerArray(YAMLMakerWriter):
     def write(self, value: str = ""):
         self.childrencount += 1
         if self.childrencount > 1:
-            self._write(f'- {value}', prefix='\n')
+            self._write(f'- {scalar(value)}', prefix='\n')
         else:
-            self._write(f'- {value}', prefix='')
+            self._write(f'- {scalar(value)}', prefix='')
     
     @contextmanager
     def object(self):
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index fa47759..64b57a5 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -106,7 +106,7 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
     for key, value in char_block.font.descriptor.items():
         if key != "Type" and "FontFile" not in key:
             yaml.write(key, value)
-    yaml.write("text", 
+    yaml.string("text", 
         "".join([
             char.get_text()
             for char in char_block
-- 
2.43.0


From 50803709c96f8a70071c224790ae88cf8b93ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 055/102] fix: convert_to_json takes no password by default

The default was the class NoneType, which fails on every encrypted file.
---
 pdfmajor/converters/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index 75c17e4..ede83b4 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -25,7 +25,7 @@ def convert_to_json(
     dont_export_images: bool = False,
     codec: str = 'utf-8',
     maxpages: int = 0, 
-    password: str = Optional[None], 
+    password: Optional[str] = None, 
     caching: bool = True, 
     check_extractable: bool = True,
     ignore_bad_chars: bool = False,
-- 
2.43.0


From b77aca6287d32727f793a54bcdfb4ab869bb35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 056/102] fix: a conversion does not overwrite the file it
 reads

Output is opened before the input is read, so with the input's own name
(given, or derived from an input called x.html) the input was lost.
---
 pdfmajor/converters/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/converters/__init__.py b/pdfmajor/converters/__init__.py
index f5ac0ef..24692d2 100644
--- a/pdfmajor/converters/__init__.py
+++ b/pdfmajor/converters/__init__.py
@@ -36,6 +36,8 @@ def convert_file(
         )
     if re.search(re.escape(out_type) + r'$', output_file ) is None:
         raise ConverterException("Please make sure that the file name and output type match!")
+    if os.path.realpath(output_file) == os.path.realpath(input_file):
+        raise ConverterException("The output file is the input file!")
     if out_type == 'html':
         return convert_to_html(
             input_file_path=input_file, 
-- 
2.43.0


From 1191efc30d1304855ad586c45247166df275a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 057/102] fix: pdfconvert.py honours -t, -o, -d and writes to
 stdout by default

-o passed an open file where convert_file wants a path and raised
TypeError, -t was ignored, and without -o the result went next to the
input, as HTML.
---
 tools/pdfconvert.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/tools/pdfconvert.py b/tools/pdfconvert.py
index bf8706f..b5d8d3f 100755
--- a/tools/pdfconvert.py
+++ b/tools/pdfconvert.py
@@ -5,7 +5,10 @@ Converts PDF text content (though not images containing text) to plain text, htm
 """
 import argparse
 import logging
+import os
+import shutil
 import sys
+import tempfile
 from pdfmajor.converters import convert_file
 
 def make_argparser():
@@ -36,6 +39,8 @@ def main(args=None):
         'password': parsed_args.password, 
         'codec': parsed_args.codec, 
         'caching': not parsed_args.disable_caching,
+        'debug_level': logging.DEBUG if parsed_args.debug else logging.WARNING,
+        'out_type': parsed_args.output_type,
     }
 
     if parsed_args.pagenos:
@@ -51,11 +56,22 @@ def main(args=None):
 
     if len(parsed_args.files) == 1:
         if parsed_args.output_file != "-":
-            func_args['output_file'] = open(parsed_args.output_file, "wb")
-        convert_file(
-            parsed_args.files[0],
-            **func_args
-        )
+            func_args['output_file'] = parsed_args.output_file
+            convert_file(
+                parsed_args.files[0],
+                **func_args
+            )
+        else:
+            # the converters write to files only
+            with tempfile.TemporaryDirectory() as folder:
+                func_args['output_file'] = os.path.join(folder, "out." + func_args['out_type'])
+                convert_file(
+                    parsed_args.files[0],
+                    **func_args
+                )
+                with open(func_args['output_file'], 'rb') as converted:
+                    shutil.copyfileobj(converted, sys.stdout.buffer)
+                sys.stdout.flush()
     else:
         print("Multiple files not supported yet.")
         return 1
-- 
2.43.0


From f0fddd32e234c8bef93515c57f4cd233fd0adc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 058/102] fix: pages without contents have no items

Iterating over such a page raised PSEOF, and a document with a blank
page could not be converted.
---
 pdfmajor/interpreter/commands/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 282e165..9275997 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -21,6 +21,9 @@ log = get_logger('process_command_stream')
 def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
     if font_cache is None:
         font_cache = {}
+    if not streams:
+        # a page without contents is blank
+        return
     parser = PDFContentParser(streams)
     for obj in parser:
         if isinstance(obj, PSKeyword):
-- 
2.43.0


From 987063c25d56b2f618bb6ed231c9d2038d3e1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 059/102] fix: recovery reads a trailer that no startxref
 follows

The dictionary was only taken when a keyword that ends objects came, so
a trailer without startxref was lost, and with it the object after it.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 3 +++
 pdfmajor/parser/PDFParser.py           | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 0cabdab..be494a6 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -85,12 +85,15 @@ class PDFXRef(PDFBaseXRef):
         try:
             (_, kwd) = parser.nexttoken()
             assert kwd is KWD(b'trailer'), str(kwd)
+            parser.in_trailer = True
             (_, dic) = parser.nextobject()
         except PSEOF:
             x = parser.pop(1)
             if not x:
                 raise PDFNoValidXRef('Unexpected EOF - file corrupted')
             (_, dic) = x[0]
+        finally:
+            parser.in_trailer = False
         self.trailer.update(dict_value(dic))
         log.debug('trailer=%r', self.trailer)
         return
diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 8912760..6c127b7 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -42,6 +42,7 @@ class PDFParser(PSStackParser):
         PSStackParser.__init__(self, fp)
         self.doc = None
         self.fallback = False
+        self.in_trailer = False
         return
 
     def set_document(self, doc):
@@ -49,6 +50,12 @@ class PDFParser(PSStackParser):
         self.doc = doc
         return
 
+    def flush(self):
+        # the object after "trailer" needs no keyword to end it.
+        if self.in_trailer:
+            self.add_results(*self.pop(1))
+        return
+
     KEYWORD_R = KWD(b'R')
     KEYWORD_NULL = KWD(b'null')
     KEYWORD_ENDOBJ = KWD(b'endobj')
-- 
2.43.0


From ee688192e2e786087915e7937cb0658fdf1cc155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 060/102] fix: recovery finds the catalog when no trailer is
 left

A file cut off before its trailer could not be opened although all of its
objects were there.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index be494a6..5ac6e04 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -8,9 +8,10 @@ from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
 from ..PDFParser import PDFStreamParser
 from ..PDFStream import PDFStream
+from ..PDFStream.PDFObjRef import PDFObjRef
 from ..PDFStream import dict_value
 
-from .constants import LITERAL_OBJSTM, LITERAL_XREF
+from .constants import LITERAL_CATALOG, LITERAL_OBJSTM, LITERAL_XREF
 
 
 log = getLogger(__name__)
@@ -118,18 +119,27 @@ class PDFXRefFallback(PDFXRef):
     def __repr__(self):
         return '<PDFXRefFallback: offsets=%r>' % (self.offsets.keys())
 
+    def __init__(self):
+        PDFXRef.__init__(self)
+        self.catalogs = []
+        return
+
     PDFOBJ_CUE = re.compile(r'^(\d+)\s+(\d+)\s+obj\b')
 
     def load(self, parser):
         parser.seek(0)
         while 1:
             try:
-                return self.scan(parser)
+                self.scan(parser)
+                break
             except Exception as e:
                 # damaged: go on after the line that could not be read.
                 log.warning('cannot recover line at %r: %r', self.linepos, e)
                 parser.seek(self.linepos)
                 parser.nextline()
+        if 'Root' not in self.trailer and self.catalogs:
+            # there is no trailer left, but a catalog.
+            self.trailer['Root'] = PDFObjRef(parser.doc, self.catalogs[-1], 0)
 
     def scan(self, parser):
         while 1:
@@ -155,6 +165,11 @@ class PDFXRefFallback(PDFXRef):
             # expand ObjStm.
             parser.seek(pos)
             (_, obj) = parser.nextobject()
+            if obj == objid and len(parser.results) == 3:
+                # what follows the numbers and "obj"
+                (_, obj) = parser.results[-1]
+            if isinstance(obj, dict) and obj.get('Type') is LITERAL_CATALOG:
+                self.catalogs.append(objid)
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_XREF:
                 # a cross-reference stream takes the place of a trailer.
                 self.trailer.update(obj.attrs)
@@ -178,6 +193,9 @@ class PDFXRefFallback(PDFXRef):
                 for index in range(n):
                     objid1 = objs[index*2]
                     self.offsets[objid1] = (objid, index, 0)
+                    obj = objs[n*2+index] if n*2+index < len(objs) else None
+                    if isinstance(obj, dict) and obj.get('Type') is LITERAL_CATALOG:
+                        self.catalogs.append(objid1)
         return
 
 ##  PDFXRefStream
-- 
2.43.0


From 798c5a71cbc2b70b3d91921ef44f758c9c569947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 061/102] fix: a form with an empty resource dictionary has no
 resources

An empty dictionary was taken for a missing one, so names in the form
resolved in the caller's resources.
---
 pdfmajor/interpreter/commands/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index 675f7df..d2826e2 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -500,7 +500,7 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
         xobjres = xobj.get('Resources')
-        resources = dict_value(xobjres) if xobjres else stack.resources.copy()
+        resources = stack.resources.copy() if xobjres is None else dict_value(xobjres)
         stack.complete_layout_items.append(make_xobject(
             obj=xobj, 
             bbox=bbox, 
-- 
2.43.0


From 1b16f8998b6c48d111412413855bfb61a9d5a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 062/102] fix: page types and box numbers may be references

Pages whose Type was an indirect object were skipped, boxes with indirect
numbers raised TypeError.
---
 pdfmajor/parser/PDFPage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index a1d8897..78e7891 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -4,7 +4,7 @@ import logging
 from pdfmajor.execptions import PDFTextExtractionNotAllowed, PDFObjectNotFound
 from ..utils import settings
 from .constants import LIT
-from .PDFStream import resolve1, int_value, list_value, dict_value
+from .PDFStream import resolve1, int_value, num_value, list_value, dict_value
 from .PDFParser import PDFParser
 from .PDFDocument import PDFDocument
 
@@ -52,9 +52,9 @@ class PDFPage(object):
         self.attrs = dict_value(attrs)
         self.lastmod = resolve1(self.attrs.get('LastModified'))
         self.resources = resolve1(self.attrs.get('Resources', dict()))
-        self.mediabox = resolve1(self.attrs['MediaBox'])
+        self.mediabox = [num_value(x) for x in list_value(self.attrs['MediaBox'])]
         if 'CropBox' in self.attrs:
-            self.cropbox = resolve1(self.attrs['CropBox'])
+            self.cropbox = [num_value(x) for x in list_value(self.attrs['CropBox'])]
         else:
             self.cropbox = self.mediabox
         self.rotate = (int_value(self.attrs.get('Rotate', 0))+360) % 360
@@ -87,7 +87,7 @@ class PDFPage(object):
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
 
-            tree_type = tree.get('Type')
+            tree_type = resolve1(tree.get('Type'))
             if tree_type is None and not settings.STRICT:  # See #64
                 tree_type = tree.get('type')
 
@@ -116,7 +116,7 @@ class PDFPage(object):
                     done.add(objid)
                     try:
                         obj = document.getobj(objid)
-                        if isinstance(obj, dict) and obj.get('Type') is LITERAL_PAGE:
+                        if isinstance(obj, dict) and resolve1(obj.get('Type')) is LITERAL_PAGE:
                             yield cls(document, objid, obj)
                     except PDFObjectNotFound:
                         pass
-- 
2.43.0


From c75b242199fde8a9a0f0e71576f821e2ee67b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 063/102] fix: entries of form and image dictionaries may be
 references

An indirect Subtype made the XObject disappear, indirect numbers in BBox
and Matrix raised TypeError, and images kept the references as their size,
depth and colour space.
---
 pdfmajor/interpreter/commands/commands.py            |  8 ++++----
 .../interpreter/commands/state/layout/LTImage.py     | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdfmajor/interpreter/commands/commands.py b/pdfmajor/interpreter/commands/commands.py
index d2826e2..0cfafb0 100644
--- a/pdfmajor/interpreter/commands/commands.py
+++ b/pdfmajor/interpreter/commands/commands.py
@@ -1,7 +1,7 @@
 from pdfmajor.execptions import InvalidOperation
 from pdfmajor.utils import mult_matrix, MATRIX_IDENTITY, apply_matrix_pt, get_logger
 from pdfmajor.parser.PSStackParser import literal_name
-from pdfmajor.parser.PDFStream import PDFStream, list_value, dict_value
+from pdfmajor.parser.PDFStream import PDFStream, resolve1, num_value, list_value, dict_value
 from pdfmajor.parser.constants import LITERAL_FORM, LITERAL_IMAGE
 
 from .PDFCommands import PDFCommands
@@ -492,10 +492,10 @@ def insert_xobject(stack: PDFStateStack, xobjid) -> PDFStateStack:
     except KeyError:
         raise InvalidOperation('Undefined xobject id: %r' % xobjid)
     # log.info('Processing xobj: %r', xobj)
-    subtype = xobj.get('Subtype')
+    subtype = resolve1(xobj.get('Subtype'))
     if subtype is LITERAL_FORM and 'BBox' in xobj:
-        bbox = list_value(xobj['BBox'])
-        matrix = list_value(xobj.get('Matrix', MATRIX_IDENTITY))
+        bbox = [num_value(x) for x in list_value(xobj['BBox'])]
+        matrix = [num_value(x) for x in list_value(xobj.get('Matrix', MATRIX_IDENTITY))]
         # According to PDF reference 1.7 section 4.9.1, XObjects in
         # earlier PDFs (prior to v1.2) use the page's Resources entry
         # instead of having their own Resources entry.
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index f2e7bc1..23fbcb9 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ import PIL as pillow
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, resolve1, LITERALS_DCT_DECODE
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -22,11 +22,11 @@ class LTImage(LTComponent):
         LTComponent.__init__(self, bbox)
         self.name = name
         self.stream = stream
-        self.srcsize = (stream.get_any(('W', 'Width')),
-                        stream.get_any(('H', 'Height')))
-        self.imagemask = stream.get_any(('IM', 'ImageMask'))
-        self.bits = stream.get_any(('BPC', 'BitsPerComponent'), 1)
-        self.colorspace = stream.get_any(('CS', 'ColorSpace'))
+        self.srcsize = (resolve1(stream.get_any(('W', 'Width'))),
+                        resolve1(stream.get_any(('H', 'Height'))))
+        self.imagemask = resolve1(stream.get_any(('IM', 'ImageMask')))
+        self.bits = resolve1(stream.get_any(('BPC', 'BitsPerComponent'), 1))
+        self.colorspace = resolve1(stream.get_any(('CS', 'ColorSpace')))
         if not isinstance(self.colorspace, list):
             self.colorspace = [self.colorspace]
         return
-- 
2.43.0


From a8abb2b9c60e054f78d204714640407288d1311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 064/102] fix: colour space names and ICC component counts may
 be references

A colour space whose family name was indirect was undefined, and an
indirect N of an ICC profile failed at the first sc.
---
 pdfmajor/interpreter/commands/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/utils.py b/pdfmajor/interpreter/commands/utils.py
index 1d7fce2..6de6d49 100644
--- a/pdfmajor/interpreter/commands/utils.py
+++ b/pdfmajor/interpreter/commands/utils.py
@@ -1,5 +1,5 @@
 from pdfmajor.parser.PDFParser import PDFStream
-from pdfmajor.parser.PDFStream import list_value, dict_value, resolve1
+from pdfmajor.parser.PDFStream import int_value, list_value, dict_value, resolve1
 from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
 from pdfmajor.parser.PSStackParser import literal_name
 from pdfmajor.parser.constants import LITERAL_PDF, LITERAL_TEXT
@@ -9,11 +9,11 @@ from .state import PDFStateStack, get_font
 
 def get_colorspace(spec):
     if isinstance(spec, list):
-        name = literal_name(spec[0])
+        name = literal_name(resolve1(spec[0]))
     else:
         name = literal_name(spec)
     if name == 'ICCBased' and isinstance(spec, list) and 2 <= len(spec):
-        return PDFColorSpace(name, PDFStream.validated_stream(spec[1])['N'])
+        return PDFColorSpace(name, int_value(PDFStream.validated_stream(spec[1])['N']))
     elif name == 'DeviceN' and isinstance(spec, list) and 2 <= len(spec):
         return PDFColorSpace(name, len(list_value(spec[1])))
     else:
-- 
2.43.0


From b4e2530514196bbf44557933766c24045c89e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 065/102] fix: entries of font and encoding dictionaries may be
 references

An indirect Subtype made any font a Type 1 font, an indirect BaseFont lost
the standard metrics, indirect elements of Differences and an indirect
BaseEncoding were ignored, and an indirect number in FontMatrix raised
TypeError.
---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py        | 4 ++--
 .../commands/state/PDFTextState/PDFFont/__init__.py       | 2 +-
 .../commands/state/PDFTextState/PDFFont/fonts.py          | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index bda1696..2e3deb8 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -114,8 +114,8 @@ class PDFSimpleFont(PDFFont):
         else:
             encoding = LITERAL_STANDARD_ENCODING
         if isinstance(encoding, dict):
-            name = literal_name(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING))
-            diff = list_value(encoding.get('Differences', []))
+            name = literal_name(resolve1(encoding.get('BaseEncoding', LITERAL_STANDARD_ENCODING)))
+            diff = [resolve1(x) for x in list_value(encoding.get('Differences', []))]
             self.cid2unicode = EncodingDB.get_encoding(name, diff)
         else:
             self.cid2unicode = EncodingDB.get_encoding(literal_name(encoding))
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 4ef00d7..65cc6b2 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -20,7 +20,7 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
                 raise FontError('Type is not /Font')
         # Create a Font object.
         if 'Subtype' in spec:
-            subtype = literal_name(spec['Subtype'])
+            subtype = literal_name(resolve1(spec['Subtype']))
         else:
             if settings.STRICT:
                 raise FontError('Font Subtype is not specified.')
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 5ff099d..aa4ace9 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -22,7 +22,7 @@ class PDFType1Font(PDFSimpleFont):
 
     def __init__(self, spec):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if settings.STRICT:
                 raise FontError('BaseFont is missing')
@@ -76,7 +76,7 @@ class PDFType3Font(PDFSimpleFont):
             descriptor = {'Ascent': 0, 'Descent': 0,
                           'FontBBox': spec['FontBBox']}
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
-        self.matrix = tuple(list_value(spec.get('FontMatrix')))
+        self.matrix = tuple(map(num_value, list_value(spec.get('FontMatrix'))))
         (_, self.descent, _, self.ascent) = self.bbox
         (self.hscale, self.vscale) = apply_matrix_norm(self.matrix, (1, 1))
         return
@@ -90,7 +90,7 @@ class PDFCIDFont(PDFFont):
 
     def __init__(self, spec, strict=settings.STRICT):
         try:
-            self.basefont = literal_name(spec['BaseFont'])
+            self.basefont = literal_name(resolve1(spec['BaseFont']))
         except KeyError:
             if strict:
                 raise FontError('BaseFont is missing')
@@ -99,7 +99,7 @@ class PDFCIDFont(PDFFont):
         self.cidcoding = '%s-%s' % (resolve1(self.cidsysteminfo.get('Registry', b'unknown')).decode("latin1"),
                                     resolve1(self.cidsysteminfo.get('Ordering', b'unknown')).decode("latin1"))
         try:
-            name = literal_name(spec['Encoding'])
+            name = literal_name(resolve1(spec['Encoding']))
         except KeyError:
             if strict:
                 raise FontError('Encoding is unspecified')
-- 
2.43.0


From 6ee14c93cd6aca8e736319fdd5df10afdf91ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 066/102] fix: parameters of the CCITT filter may be references

An indirect K, Columns or EncodedByteAlign raised, an indirect BlackIs1
counted as true.
---
 pdfmajor/parser/PDFStream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 1f48db5..a32c3df 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -106,7 +106,7 @@ class PDFStream(PDFObject):
             elif f in LITERALS_RUNLENGTH_DECODE:
                 data = rldecode(data)
             elif f in LITERALS_CCITTFAX_DECODE:
-                data = ccittfaxdecode(data, params)
+                data = ccittfaxdecode(data, {k: resolve1(v) for (k, v) in (params or {}).items()})
             elif f in LITERALS_DCT_DECODE:
                 # This is probably a JPG stream - it does not need to be decoded twice.
                 # Just return the stream to the user.
-- 
2.43.0


From 1a324c8c2749c0d567710df56a2d5a49ec824c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 067/102] fix: font descriptors with references or odd keys
 convert

Entries of a font descriptor may be indirect references, and a key that is not
UTF-8 stays bytes: the converters failed on either.
---
 pdfmajor/converters/json.py                                  | 5 +++--
 pdfmajor/converters/xml.py                                   | 5 +++--
 pdfmajor/converters/yaml.py                                  | 5 +++--
 .../commands/state/PDFTextState/PDFFont/PDFFont.py           | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/converters/json.py b/pdfmajor/converters/json.py
index ede83b4..8b1df05 100644
--- a/pdfmajor/converters/json.py
+++ b/pdfmajor/converters/json.py
@@ -6,6 +6,7 @@ from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
+from ..parser.PDFStream import resolve1
 from ..parser.PSStackParser import PSLiteral
 from ..utils import enc
 
@@ -104,8 +105,8 @@ def place_char_block(json: JSONMakerObject, char_block: LTCharBlock):
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            json.string(key, value)
+        if key != "Type" and "FontFile" not in str(key):
+            json.string(key, resolve1(value))
     json.string("text", 
         "".join([
             char.get_text()
diff --git a/pdfmajor/converters/xml.py b/pdfmajor/converters/xml.py
index 7c166c6..6bbebbd 100644
--- a/pdfmajor/converters/xml.py
+++ b/pdfmajor/converters/xml.py
@@ -7,6 +7,7 @@ from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTChar, LTCurve, LT
 from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
+from ..parser.PDFStream import resolve1
 from ..parser.PSStackParser import PSLiteral
 from ..utils import enc
 
@@ -116,8 +117,8 @@ def place_char_block(xml: XMLMaker, char_block: LTCharBlock):
         **get_color(char_block.color, codec=xml.codec),
     }
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            attr[convert_capcase_to_snakecase(key)] = value
+        if key != "Type" and "FontFile" not in str(key):
+            attr[convert_capcase_to_snakecase(str(key))] = resolve1(value)
     with xml.elm("char-block", attr):
         for char in char_block:
             place_char(xml, char)
diff --git a/pdfmajor/converters/yaml.py b/pdfmajor/converters/yaml.py
index 64b57a5..c2b5b7a 100644
--- a/pdfmajor/converters/yaml.py
+++ b/pdfmajor/converters/yaml.py
@@ -6,6 +6,7 @@ from ..interpreter import LTImage, LTTextBlock, LTCharBlock, LTCurve, LTXObject
 from ..interpreter.commands import LTItem
 from ..interpreter.commands import LTRect, LTLine
 from ..interpreter.commands.state import CurvePath, PDFColor
+from ..parser.PDFStream import resolve1
 from ..parser.PSStackParser import PSLiteral
 from ..utils import enc
 
@@ -104,8 +105,8 @@ def place_char_block(yaml: YAMLMakerObject, char_block: LTCharBlock):
             "value": normalize_color_values(char_block.color.values)
         })
     for key, value in char_block.font.descriptor.items():
-        if key != "Type" and "FontFile" not in key:
-            yaml.write(key, value)
+        if key != "Type" and "FontFile" not in str(key):
+            yaml.write(key, resolve1(value))
     yaml.string("text", 
         "".join([
             char.get_text()
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 2e3deb8..8e297b6 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -92,7 +92,7 @@ class PDFFont(object):
     @property
     def font_weight(self):
         if 'FontWeight' in self.descriptor.keys():
-            return self.descriptor['FontWeight']
+            return resolve1(self.descriptor['FontWeight'])
         elif 'bold' in self.fontname.lower():
             return 'bold'
         else:
-- 
2.43.0


From 472a00e4216699d21a3e9a616500a263300ee007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 068/102] fix: null in the dictionaries and arrays of content
 streams

It was taken for an operator's keyword, so an inline image with null among its
filter parameters raised.
---
 pdfmajor/parser/PDFContentParser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index 8ffd2fd..a3e5177 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -87,6 +87,7 @@ class PDFContentParser(PSStackParser):
     KEYWORD_BI = KWD(b'BI')
     KEYWORD_ID = KWD(b'ID')
     KEYWORD_EI = KWD(b'EI')
+    KEYWORD_NULL = KWD(b'null')
 
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_BI:
@@ -97,7 +98,7 @@ class PDFContentParser(PSStackParser):
                 (_, objs) = self.end_type('inline')
                 if len(objs) % 2 != 0:
                     raise PSTypeError('Invalid dictionary construct: %r' % objs)
-                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs))
+                d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
                 (pos, data) = self.get_inline_data(pos+len(b'ID '))
                 obj = PDFStream(d, data)
                 self.push((pos, obj))
@@ -105,6 +106,9 @@ class PDFContentParser(PSStackParser):
             except PSTypeError as e:
                 if settings.STRICT:
                     raise e
+        elif token is self.KEYWORD_NULL:
+            # null object
+            self.push((pos, None))
         else:
             self.push((pos, token))
         return
-- 
2.43.0


From 8b773001c4a3868c64cbed4b2c20327ee7781a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 069/102] fix: saved images have the size, depth and samples of
 the image

The BMP had the size of the painted box, which need not be whole numbers, and one
bit per pixel; colour spaces never compared equal, so gray and colour images went
to raw files; encrypted JPEG data was written as stored, JPEG data inside another
filter as a BMP; Pillow's modules for CMYK were not imported.
---
 pdfmajor/BMPWriter/__init__.py                | 11 +++++--
 .../commands/state/layout/LTImage.py          | 30 ++++++++++---------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/pdfmajor/BMPWriter/__init__.py b/pdfmajor/BMPWriter/__init__.py
index 2e93a9a..29bc5f4 100644
--- a/pdfmajor/BMPWriter/__init__.py
+++ b/pdfmajor/BMPWriter/__init__.py
@@ -12,8 +12,8 @@ def align32(x):
 class BMPWriter(object):
 
     @classmethod
-    def write_all(cls, fp, stream: PDFStream, bits: int, width: float, height: float, step: float):
-        bmp = cls(fp, 1, width, height)
+    def write_all(cls, fp, stream: PDFStream, bits: int, width: int, height: int, step: int):
+        bmp = cls(fp, bits, width, height)
         data = stream.get_data()
         i = 0
         for y in range(height):
@@ -56,5 +56,10 @@ class BMPWriter(object):
 
     def write_line(self, y, data):
         self.fp.seek(self.pos1 - (y+1)*self.linesize)
-        self.fp.write(data)
+        if self.bits == 24:
+            # BMP keeps blue, green and red in this order
+            pixels = bytearray(data[:len(data)//3*3])
+            pixels[0::3], pixels[2::3] = pixels[2::3], pixels[0::3]
+            data = bytes(pixels)
+        self.fp.write(data.ljust(self.linesize, b'\0'))
         return
diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 23fbcb9..634de0b 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -1,7 +1,7 @@
 import os
 from io import BytesIO
 
-import PIL as pillow
+from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
@@ -10,9 +10,10 @@ from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
 
-LITERAL_DEVICE_GRAY = LIT('DeviceGray')
-LITERAL_DEVICE_RGB = LIT('DeviceRGB')
-LITERAL_DEVICE_CMYK = LIT('DeviceCMYK')
+# names in full and as inline images abbreviate them
+LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
+LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
+LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
 
 ##  LTImage
 ##
@@ -39,14 +40,14 @@ class LTImage(LTComponent):
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
-        width = self.bbox.width
-        height = self.bbox.height
+        (width, height) = self.srcsize
         bits = self.bits
+        colorspace = resolve1(self.colorspace[0])
 
-        if len(filters) == 1 and filters[0][0] in LITERALS_DCT_DECODE:
+        if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
         elif (bits == 1 or
-                bits == 8 and self.colorspace in (LITERAL_DEVICE_RGB, LITERAL_DEVICE_GRAY)):
+                bits == 8 and colorspace in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
             ext = '.b%dw%dh%d.img' % (bits, width, height)
@@ -59,20 +60,21 @@ class LTImage(LTComponent):
         
         with open(path, 'wb') as fp:
             if ext == '.jpg':
-                raw_data = stream.get_rawdata()
-                if LITERAL_DEVICE_CMYK in self.colorspace:
+                # deciphered, and decoded up to the JPEG data
+                raw_data = stream.get_data()
+                if colorspace in LITERALS_DEVICE_CMYK:
                     ifp = BytesIO(raw_data)
-                    i = pillow.Image.open(ifp)
-                    i = pillow.ImageChops.invert(i)
+                    i = Image.open(ifp)
+                    i = ImageChops.invert(i)
                     i = i.convert('RGB')
                     i.save(fp, 'JPEG')
                 else:
                     fp.write(raw_data)
             elif bits == 1:
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_RGB:
+            elif bits == 8 and colorspace in LITERALS_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-            elif bits == 8 and self.colorspace is LITERAL_DEVICE_GRAY:
+            elif bits == 8 and colorspace in LITERALS_DEVICE_GRAY:
                 BMPWriter.write_all(fp, stream, 8, width, height, width)
             else:
                 fp.write(stream.get_data())
-- 
2.43.0


From 6d8dd5f811b4e6973a9fc1fbb770e14627d1d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 070/102] fix: images of one document have different names

An image was named by its id(), which a later image can get once the first is gone;
saved under these names, the second overwrote the first.
---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 3 ++-
 pdfmajor/parser/PDFStream/__init__.py                  | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 4741c2c..73f84c8 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -122,7 +122,8 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
 def make_image(obj, ctm):
     matrix = mult_matrix(MATRIX_IDENTITY, ctm)
     return LTImage(
-        name=str(id(obj)),
+        # an id alone may be that of an earlier stream that is gone
+        name='%d-%d' % (id(obj), obj.serial),
         stream=obj,
         bbox=Bbox.from_points([
             apply_matrix_pt(matrix, (p, q))
diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index a32c3df..0c509f1 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -1,4 +1,5 @@
 import zlib
+from itertools import count
 
 from pdfmajor.execptions import PDFException, PDFTypeError, PDFNotImplementedError
 
@@ -12,6 +13,9 @@ from .ccitt import ccittfaxdecode
 
 class PDFStream(PDFObject):
 
+    # tells streams apart, those that are gone included
+    SERIALS = count()
+
     @classmethod
     def validated_stream(cls, x):
         x = resolve1(x)
@@ -26,6 +30,7 @@ class PDFStream(PDFObject):
         self.attrs = attrs
         self.rawdata = rawdata
         self.decipher = decipher
+        self.serial = next(self.SERIALS)
         self.data = None
         self.objid = None
         self.genno = None
-- 
2.43.0


From c65efc10b0963319ca522d172a53d99f1e7090ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 071/102] fix: text from embedded font programs

The cmap table of a TrueType program was never found (its name is bytes), glyph
arrays were read from the wrong place, and any other kind of subtable would have
been an assertion error; a CIDToGIDMap stream was ignored. A Type 1 program with
the standard encoding left all codes without text.
---
 .../PDFTextState/PDFFont/TrueTypeFont.py      | 47 ++++++++++++-------
 .../state/PDFTextState/PDFFont/fonts.py       | 13 ++++-
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 55548a9..2d7ae1a 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -23,22 +23,40 @@ class TrueTypeFont(object):
         return
 
     def create_unicode_map(self):
-        if 'cmap' not in self.tables:
+        char2gid = {}
+        try:
+            self.read_cmap(char2gid)
+        except struct.error:
+            # a damaged table, keep what was read.
+            pass
+        # create unicode map
+        unicode_map = FileUnicodeMap()
+        for (char, gid) in char2gid.items():
+            if gid:
+                unicode_map.add_cid2unichr(gid, char)
+        if not unicode_map.cid2unichr:
+            raise CMapNotFound
+        return unicode_map
+
+    def read_cmap(self, char2gid):
+        if b'cmap' not in self.tables:
             raise CMapNotFound
-        (base_offset, _) = self.tables['cmap']
+        (base_offset, _) = self.tables[b'cmap']
         fp = self.fp
         fp.seek(base_offset)
         (_, nsubtables) = struct.unpack('>HH', fp.read(4))
         subtables = []
         for i in range(nsubtables):
             subtables.append(struct.unpack('>HHL', fp.read(8)))
-        char2gid = {}
         # Only supports subtable type 0, 2 and 4.
-        for (_1, _2, st_offset) in subtables:
+        for (platform, encoding, st_offset) in subtables:
+            if platform != 0 and (platform, encoding) not in ((3, 1), (3, 10)):
+                # the characters are not those of Unicode.
+                continue
             fp.seek(base_offset+st_offset)
             (fmttype, _, _) = struct.unpack('>HHH', fp.read(6))
             if fmttype == 0:
-                char2gid.update(enumerate(struct.unpack('>256B', fp.read(256))))
+                char2gid.update((c, gid) for (c, gid) in enumerate(struct.unpack('>256B', fp.read(256))) if gid)
             elif fmttype == 2:
                 subheaderkeys = struct.unpack('>256H', fp.read(512))
                 firstbytes = [0]*8192
@@ -55,7 +73,7 @@ class TrueTypeFont(object):
                     first = firstcode + (firstbytes[i] << 8)
                     fp.seek(pos)
                     for c in range(entcount):
-                        gid = struct.unpack('>H', fp.read(2))
+                        (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
                             gid += delta
                         char2gid[first+c] = gid
@@ -68,19 +86,16 @@ class TrueTypeFont(object):
                 idds = struct.unpack('>%dh' % segcount, fp.read(2*segcount))
                 pos = fp.tell()
                 idrs = struct.unpack('>%dH' % segcount, fp.read(2*segcount))
-                for (ec, sc, idd, idr) in zip(ecs, scs, idds, idrs):
+                for (i, (ec, sc, idd, idr)) in enumerate(zip(ecs, scs, idds, idrs)):
                     if idr:
-                        fp.seek(pos+idr)
+                        # the offset counts from where it stands.
+                        fp.seek(pos+2*i+idr)
                         for c in range(sc, ec+1):
-                            char2gid[c] = (struct.unpack('>H', fp.read(2))[0] + idd) & 0xffff
+                            (gid,) = struct.unpack('>H', fp.read(2))
+                            if gid:
+                                char2gid[c] = (gid + idd) & 0xffff
                     else:
                         for c in range(sc, ec+1):
                             char2gid[c] = (c + idd) & 0xffff
-            else:
-                assert False, str(('Unhandled', fmttype))
-        # create unicode map
-        unicode_map = FileUnicodeMap()
-        for (char, gid) in char2gid.items():
-            unicode_map.add_cid2unichr(gid, char)
-        return unicode_map
+        return
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index aa4ace9..9bcca86 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -46,7 +46,8 @@ class PDFType1Font(PDFSimpleFont):
             length1 = int_value(self.fontfile['Length1'])
             data = self.fontfile.get_data()[:length1]
             parser = Type1FontHeaderParser(BytesIO(data))
-            self.cid2unicode = parser.get_encoding()
+            # (it names no glyphs when it is the standard encoding)
+            self.cid2unicode = parser.get_encoding() or self.cid2unicode
         return
 
     def __repr__(self):
@@ -130,6 +131,16 @@ class PDFCIDFont(PDFFont):
             if ttf:
                 try:
                     self.unicode_map = ttf.create_unicode_map()
+                    cidtogid = resolve1(spec.get('CIDToGIDMap'))
+                    if isinstance(cidtogid, PDFStream):
+                        # the glyphs of the font file have other numbers.
+                        data = cidtogid.get_data()
+                        glyphs = self.unicode_map.cid2unichr
+                        self.unicode_map = FileUnicodeMap()
+                        for cid in range(len(data)//2):
+                            gid = data[2*cid] << 8 | data[2*cid+1]
+                            if gid in glyphs:
+                                self.unicode_map.cid2unichr[cid] = glyphs[gid]
                 except CMapNotFound:
                     pass
         else:
-- 
2.43.0


From 4030c78c8e96d977381fdb2ba64a01633f3fc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 072/102] fix: outlines of any length, and names that are not
 in the name tree

An outline level of about a thousand entries exceeded the recursion limit, as did
a circular one. A name outside the limits of the tree's root gave None, one with
an empty value was not found, and one given as a name object (PDF 1.1) could not
be compared with the limits of a tree.
---
 pdfmajor/parser/PDFDocument/__init__.py | 52 +++++++++++++++----------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index afaa334..bf74514 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -19,7 +19,7 @@ from pdfmajor.execptions import (
 from ...utils import settings, choplist, decode_text
 from ..PSStackParser import KWD
 from ..PSStackParser import literal_name
-from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all
+from ..PDFStream import int_value, str_value, dict_value, list_value, decipher_all, PDFObjRef, resolve1
 from ..PDFParser import PDFStreamParser, PDFStream
 
 from .PDFSecurityHandler import PDFStandardSecurityHandler
@@ -232,21 +232,27 @@ class PDFDocument(object):
         if 'Outlines' not in self.catalog:
             raise PDFNoOutlines
 
+        done = set()
+
         def search(entry, level):
-            entry = dict_value(entry)
-            if 'Title' in entry:
-                if 'A' in entry or 'Dest' in entry:
-                    title = decode_text(str_value(entry['Title']))
-                    dest = entry.get('Dest')
-                    action = entry.get('A')
-                    se = entry.get('SE')
-                    yield (level, title, dest, action, se)
-            if 'First' in entry and 'Last' in entry:
-                for x in search(entry['First'], level+1):
-                    yield x
-            if 'Next' in entry:
-                for x in search(entry['Next'], level):
-                    yield x
+            # a level may have any number of entries.
+            while entry is not None:
+                if isinstance(entry, PDFObjRef):
+                    if entry.objid in done:
+                        return # the chain of a damaged file may be circular.
+                    done.add(entry.objid)
+                entry = dict_value(entry)
+                if 'Title' in entry:
+                    if 'A' in entry or 'Dest' in entry:
+                        title = decode_text(str_value(entry['Title']))
+                        dest = entry.get('Dest')
+                        action = entry.get('A')
+                        se = entry.get('SE')
+                        yield (level, title, dest, action, se)
+                if 'First' in entry and 'Last' in entry:
+                    for x in search(entry['First'], level+1):
+                        yield x
+                entry = entry.get('Next')
             return
         return search(self.catalog['Outlines'], 0)
 
@@ -255,25 +261,31 @@ class PDFDocument(object):
             names = dict_value(self.catalog['Names'])
         except (PDFTypeError, KeyError):
             raise KeyError((cat, key))
+        if not isinstance(key, bytes):
+            # the names of a name tree are strings.
+            raise KeyError((cat, key))
         # may raise KeyError
         d0 = dict_value(names[cat])
 
         def lookup(d):
             if 'Limits' in d:
-                (k1, k2) = list_value(d['Limits'])
+                (k1, k2) = map(resolve1, list_value(d['Limits']))
                 if key < k1 or k2 < key:
                     return None
             if 'Names' in d:
                 objs = list_value(d['Names'])
-                names = dict(choplist(2, objs))
-                return names[key]
+                names = dict((resolve1(k), v) for (k, v) in choplist(2, objs))
+                return names.get(key)
             if 'Kids' in d:
                 for c in list_value(d['Kids']):
                     v = lookup(dict_value(c))
-                    if v:
+                    if v is not None:
                         return v
+            return None
+        obj = lookup(d0)
+        if obj is None:
             raise KeyError((cat, key))
-        return lookup(d0)
+        return obj
 
     def get_dest(self, name):
         try:
-- 
2.43.0


From 85d94927ccc42f50a396a1001d5394c8583a833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 073/102] fix: big endian fields may have any number of bytes

nunpack knew fields of 1 to 4 and of 8 bytes only: a cross-reference
stream with /W [1 5 2], which is as legal, raised TypeError and the
document was read by scanning the file instead.
---
 pdfmajor/utils/generic.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 0023ab0..17319f0 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -132,22 +132,10 @@ def choplist(n, seq):
 
 # nunpack
 def nunpack(s, default=0):
-    """Unpacks 1 to 4 or 8 byte integers (big endian)."""
-    l = len(s)
-    if not l:
+    """Unpacks integers of any number of bytes (big endian)."""
+    if not s:
         return default
-    elif l == 1:
-        return ord(s)
-    elif l == 2:
-        return struct.unpack('>H', s)[0]
-    elif l == 3:
-        return struct.unpack('>L', b'\x00'+s)[0]
-    elif l == 4:
-        return struct.unpack('>L', s)[0]
-    elif l == 8:
-        return struct.unpack('>Q', s)[0]
-    else:
-        raise TypeError('invalid length: %d' % l)
+    return int.from_bytes(s, 'big')
 
 ##  Plane
 ##
-- 
2.43.0


From 93707649a91b73e574be6b5d25c52284afd4f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 074/102] fix: objects that are references to each other, or
 needed to read themselves

resolve1 looped for ever on references in a circle, and a stream whose
/Length is in itself, or an object stream that is in itself, overflowed
the stack. Such a reference leads nowhere, as one to a missing object.
---
 pdfmajor/parser/PDFDocument/__init__.py | 56 +++++++++++++++----------
 pdfmajor/parser/PDFStream/util.py       |  8 +++-
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index bf74514..00f6d05 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -67,6 +67,7 @@ class PDFDocument(object):
         self._parser = None
         self._cached_objs = {}
         self._parsed_objs = {}
+        self._loading = set()
         self._parser = parser
         self._parser.set_document(self)
         self.is_printable = self.is_modifiable = self.is_extractable = True
@@ -191,6 +192,30 @@ class PDFDocument(object):
         (_, obj) = self._parser.nextobject()
         return obj
 
+    def _load_obj(self, objid):
+        for xref in self.xrefs:
+            try:
+                (strmid, index, genno) = xref.get_pos(objid)
+            except KeyError:
+                continue
+            try:
+                if strmid is not None:
+                    stream = PDFStream.validated_stream(self.getobj(strmid))
+                    obj = self._getobj_objstm(stream, index, objid)
+                else:
+                    obj = self._getobj_parse(index, objid)
+                    if self.decipher:
+                        obj = decipher_all(self.decipher, objid, genno, obj)
+                        if isinstance(obj, PDFStream):
+                            decipher_all(self.decipher, objid, genno, obj.attrs)
+
+                if isinstance(obj, PDFStream):
+                    obj.set_objid(objid, genno)
+                return (obj, genno)
+            except (PSEOF, PDFSyntaxError):
+                continue
+        raise PDFObjectNotFound(objid)
+
     # can raise PDFObjectNotFound
     def getobj(self, objid):
         assert objid != 0
@@ -199,30 +224,15 @@ class PDFDocument(object):
         log.debug('getobj: objid=%r', objid)
         if objid in self._cached_objs:
             (obj, genno) = self._cached_objs[objid]
+        elif objid in self._loading:
+            # it cannot be needed to read itself.
+            raise PDFObjectNotFound(objid)
         else:
-            for xref in self.xrefs:
-                try:
-                    (strmid, index, genno) = xref.get_pos(objid)
-                except KeyError:
-                    continue
-                try:
-                    if strmid is not None:
-                        stream = PDFStream.validated_stream(self.getobj(strmid))
-                        obj = self._getobj_objstm(stream, index, objid)
-                    else:
-                        obj = self._getobj_parse(index, objid)
-                        if self.decipher:
-                            obj = decipher_all(self.decipher, objid, genno, obj)
-                            if isinstance(obj, PDFStream):
-                                decipher_all(self.decipher, objid, genno, obj.attrs)
-
-                    if isinstance(obj, PDFStream):
-                        obj.set_objid(objid, genno)
-                    break
-                except (PSEOF, PDFSyntaxError):
-                    continue
-            else:
-                raise PDFObjectNotFound(objid)
+            self._loading.add(objid)
+            try:
+                (obj, genno) = self._load_obj(objid)
+            finally:
+                self._loading.remove(objid)
             log.debug('register: objid=%r: %r', objid, obj)
             if self.caching:
                 self._cached_objs[objid] = (obj, genno)
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index c16ca8f..3e9b376 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -14,7 +14,12 @@ def resolve1(x, default=None):
     If this is an array or dictionary, it may still contains
     some indirect objects inside.
     """
+    seen = set()
     while isinstance(x, PDFObjRef):
+        if x.objid in seen:
+            # only references, that lead back to each other.
+            return default
+        seen.add(x.objid)
         x = x.resolve(default=default)
     return x
 
@@ -25,8 +30,7 @@ def resolve_all(x, default=None):
     Make sure there is no indirect reference within the nested object.
     This procedure might be slow.
     """
-    while isinstance(x, PDFObjRef):
-        x = x.resolve(default=default)
+    x = resolve1(x, default=default)
     if isinstance(x, list):
         x = [resolve_all(v, default=default) for v in x]
     elif isinstance(x, dict):
-- 
2.43.0


From 3246b3025f48f7be8d244b3b8aceb4c2d6e89d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 075/102] fix: cross-reference chains of any length

A thousand sections overflowed the stack, and sections that are the
previous one of two others were read again for each of them.
---
 pdfmajor/parser/PDFDocument/__init__.py | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 00f6d05..19eebc0 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -329,11 +329,25 @@ class PDFDocument(object):
         return int(prev)
 
     # read xref table
-    def read_xref_from(self, parser, start, xrefs, seen=()):
+    def read_xref_from(self, parser, start, xrefs):
         """Reads XRefs from the given location."""
-        if start in seen:
-            return # the chain of a damaged file may be circular.
-        seen = (*seen, start)
+        seen = set()
+        todo = [start]
+        while todo:
+            pos = todo.pop()
+            if pos in seen:
+                continue # the chain of a damaged file may be circular.
+            seen.add(pos)
+            trailer = self._read_xref(parser, pos, xrefs)
+            if 'Prev' in trailer:
+                # find previous xref
+                todo.append(int_value(trailer['Prev']))
+            if 'XRefStm' in trailer:
+                # it comes before the previous ones
+                todo.append(int_value(trailer['XRefStm']))
+        return
+
+    def _read_xref(self, parser, start, xrefs):
         parser.seek(start)
         parser.reset()
         try:
@@ -355,11 +369,4 @@ class PDFDocument(object):
         xrefs.append(xref)
         trailer = xref.get_trailer()
         log.info('trailer: %r', trailer)
-        if 'XRefStm' in trailer:
-            pos = int_value(trailer['XRefStm'])
-            self.read_xref_from(parser, pos, xrefs, seen)
-        if 'Prev' in trailer:
-            # find previous xref
-            pos = int_value(trailer['Prev'])
-            self.read_xref_from(parser, pos, xrefs, seen)
-        return
+        return trailer
-- 
2.43.0


From c37ab80eec39c23d11875d872a5a545f5c06ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 076/102] fix: name trees with a node below itself

They overflowed the stack.
---
 pdfmajor/parser/PDFDocument/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index 19eebc0..eebc1c5 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -277,6 +277,8 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
+        done = set()
+
         def lookup(d):
             if 'Limits' in d:
                 (k1, k2) = map(resolve1, list_value(d['Limits']))
@@ -288,6 +290,10 @@ class PDFDocument(object):
                 return names.get(key)
             if 'Kids' in d:
                 for c in list_value(d['Kids']):
+                    if isinstance(c, PDFObjRef):
+                        if c.objid in done:
+                            continue # the tree of a damaged file may be circular.
+                        done.add(c.objid)
                     v = lookup(dict_value(c))
                     if v is not None:
                         return v
-- 
2.43.0


From 6a717a0399d7c4fc488fcd4c320383600a42893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 077/102] fix: page trees with a node below itself

They overflowed the stack. The node is skipped there.
---
 pdfmajor/parser/PDFPage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 78e7891..10b3121 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -76,13 +76,15 @@ class PDFPage(object):
 
     @classmethod
     def create_pages(cls, document: PDFDocument):
-        def search(obj, parent):
+        def search(obj, parent, ancestors=()):
             if isinstance(obj, int):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
             else:
                 objid = obj.objid
                 tree = dict_value(obj).copy()
+            if objid in ancestors:
+                return # a node of a damaged file may be below itself.
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
@@ -94,7 +96,7 @@ class PDFPage(object):
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
                 for c in list_value(tree['Kids']):
-                    for x in search(c, tree):
+                    for x in search(c, tree, (*ancestors, objid)):
                         yield x
             elif tree_type is LITERAL_PAGE:
                 log.debug('Page: %r', tree)
-- 
2.43.0


From 5d4606297b31ebd1ab6a170e4125760741e2c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 078/102] fix: forms that draw themselves

They overflowed the stack. A form does not draw within itself.
---
 pdfmajor/interpreter/commands/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/__init__.py b/pdfmajor/interpreter/commands/__init__.py
index 9275997..32fe54f 100644
--- a/pdfmajor/interpreter/commands/__init__.py
+++ b/pdfmajor/interpreter/commands/__init__.py
@@ -18,7 +18,7 @@ from .utils import init_resources
 
 log = get_logger('process_command_stream')
 
-def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None):
+def process_command_stream(streams: List[PDFStream], font_cache: dict = None, state: PDFStateStack = None, drawing: tuple = ()):
     if font_cache is None:
         font_cache = {}
     if not streams:
@@ -58,6 +58,11 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 # painting an empty path, or ET without BT
                 continue
             if isinstance(complete_item, LTXObject):
+                # without caching, one form may be several objects
+                form = id(complete_item.stream) if complete_item.stream.objid is None else complete_item.stream.objid
+                if form in drawing:
+                    # a form of a damaged file may draw itself
+                    continue
                 xobj_state = prep_state(
                     state=PDFStateStack(),
                     ctm=complete_item.t_matrix,
@@ -69,7 +74,8 @@ def process_command_stream(streams: List[PDFStream], font_cache: dict = None, st
                 for item in process_command_stream(
                     [complete_item.stream], 
                     font_cache=font_cache, 
-                    state=xobj_state
+                    state=xobj_state,
+                    drawing=(*drawing, form)
                 ):
                     complete_item.add(item)
             yield complete_item
-- 
2.43.0


From 5a408d2d185a2ec8ea396ec517e0feb8cf7174d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 079/102] fix: a Type0 font whose descendant is a Type0 font is
 an error

One that is its own descendant overflowed the stack.
---
 .../interpreter/commands/state/PDFTextState/PDFFont/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
index 65cc6b2..7649323 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/__init__.py
@@ -42,6 +42,8 @@ def get_font(objid: int, spec: dict, cached_fonts: dict = {}):
             dfonts = list_value(spec['DescendantFonts'])
             assert dfonts
             subspec = dict_value(dfonts[0]).copy()
+            if resolve1(subspec.get('Subtype')) is resolve1(spec['Subtype']):
+                raise FontError('Descendant of a Type0 font must be a CIDFont: %r' % spec)
             for k in ('Encoding', 'ToUnicode'):
                 if k in spec:
                     subspec[k] = resolve1(spec[k])
-- 
2.43.0


From 22aebf844aab8ce52a01d4229b5cb1b0162c9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 080/102] fix: ranges far larger than any font or file

Ranges of billions of codes, characters or objects in CMaps, widths and
cross-reference streams, and predictor rows of as many columns, looped
and took memory without end.
---
 .../commands/state/PDFTextState/PDFFont/util.py           | 8 ++++++--
 pdfmajor/parser/PDFDocument/PDFXRef.py                    | 2 ++
 pdfmajor/parser/cmapdb/__init__.py                        | 6 ++++--
 pdfmajor/parser/constants.py                              | 3 +++
 pdfmajor/utils/generic.py                                 | 2 +-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
index 2e59862..11aab41 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/util.py
@@ -1,6 +1,10 @@
 from pdfmajor.parser.PDFStream import resolve1, num_value
+from pdfmajor.parser.constants import MAX_CID
 from pdfmajor.utils import FONT_METRICS, choplist, isnumber
 
+def cids(first, last):
+    # a damaged range may be far larger than any font.
+    return range(max(int(first), 0), min(int(last), MAX_CID)+1)
 
 def get_widths(seq):
     widths = {}
@@ -16,7 +20,7 @@ def get_widths(seq):
             r.append(v)
             if len(r) == 3:
                 (char1, char2, w) = r
-                for i in range(char1, char2+1):
+                for i in cids(char1, char2):
                     widths[i] = w
                 r = []
     return widths
@@ -38,7 +42,7 @@ def get_widths2(seq):
             r.append(v)
             if len(r) == 5:
                 (char1, char2, w, vx, vy) = r # pylint: disable=E0632
-                for i in range(char1, char2+1):
+                for i in cids(char1, char2):
                     widths[i] = (w, (vx, vy))
                 r = []
     return widths
diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 5ac6e04..b336e06 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -241,6 +241,8 @@ class PDFXRefStream(PDFBaseXRef):
         for (start, nobjs) in self.ranges:
             for i in range(nobjs):
                 offset = self.entlen * (index+i)
+                if len(self.data) <= offset:
+                    return # a damaged range may be longer than the data.
                 ent = self.data[offset:offset+self.entlen]
                 f1 = nunpack(ent[:self.fl1], 1)
                 if f1 == 1 or f1 == 2:
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index f515e89..765aec7 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -24,6 +24,7 @@ from pdfmajor.execptions import (
     PSEOF, 
     PSSyntaxError,
 )
+from ..constants import MAX_CID
 from ...utils import choplist, nunpack, name2unicode
 from ..PSStackParser import PSStackParser
 from ..PSStackParser import PSLiteral
@@ -353,7 +354,8 @@ class CMapParser(PSStackParser):
                 e1 = nunpack(evar)
                 vlen = len(svar)
                 #assert s1 <= e1, str((s1, e1))
-                for i in range(e1-s1+1):
+                # a damaged range may be far larger than any font.
+                for i in range(min(e1-s1, MAX_CID)+1):
                     x = sprefix+struct.pack('>L', s1+i)[-vlen:]
                     self.cmap.add_code2cid(x, cid+i)
             return
@@ -388,7 +390,7 @@ class CMapParser(PSStackParser):
                     base = nunpack(var)
                     prefix = code[:-4]
                     vlen = len(var)
-                    for i in range(e1-s1+1):
+                    for i in range(min(e1-s1, MAX_CID)+1):
                         x = prefix+struct.pack('>L', base+i)[-vlen:]
                         self.cmap.add_cid2unichr(s1+i, x)
             return
diff --git a/pdfmajor/parser/constants.py b/pdfmajor/parser/constants.py
index e474703..23cf776 100644
--- a/pdfmajor/parser/constants.py
+++ b/pdfmajor/parser/constants.py
@@ -9,6 +9,9 @@ LITERAL_FONT = LIT("Font")
 LITERAL_FORM = LIT("Form")
 LITERAL_IMAGE = LIT("Image")
 
+# The highest number of a character in a CID-keyed font
+MAX_CID = 0xffff
+
 COMMON_FONT_ATTRIBUTES = [
     "Type",
     "FontName",
diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 17319f0..8d705ab 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -30,7 +30,7 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
     bpp = (colors * bitspercomponent + 7) // 8
     i = 0
     buf = b''
-    line0 = b'\x00' * nbytes
+    line0 = b'\x00' * min(nbytes, len(data))
     for i in range(0, len(data), nbytes+1):
         ft = data[i]
         i += 1
-- 
2.43.0


From 26562e519dd1851540da4bf4d1e14e89d29bb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 081/102] fix: LZW data with EarlyChange 0

The code length grows one code later then; all of a longer stream came out wrong.
---
 pdfmajor/parser/PDFStream/__init__.py |  2 +-
 pdfmajor/utils/lzw.py                 | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 0c509f1..7552bd2 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -103,7 +103,7 @@ class PDFStream(PDFObject):
                         raise PDFException('Invalid zlib bytes: %r, %r' % (e, data))
                     data = b''
             elif f in LITERALS_LZW_DECODE:
-                data = lzwdecode(data)
+                data = lzwdecode(data, int_value((params or {}).get('EarlyChange', 1)))
             elif f in LITERALS_ASCII85_DECODE:
                 data = ascii85decode(data)
             elif f in LITERALS_ASCIIHEX_DECODE:
diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 9811a16..07574fb 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -12,8 +12,10 @@ class CorruptDataError(Exception):
 ##
 class LZWDecoder(object):
 
-    def __init__(self, fp):
+    def __init__(self, fp, early_change=1):
         self.fp = fp
+        # how many codes early the code length grows (EarlyChange)
+        self.early_change = early_change
         self.buff = 0
         self.bpos = 8
         self.nbits = 9
@@ -67,7 +69,7 @@ class LZWDecoder(object):
                 x = self.table[code]
             else:
                 raise CorruptDataError
-            l = len(self.table)
+            l = len(self.table) + self.early_change - 1
             if l == 511:
                 self.nbits = 10
             elif l == 1023:
@@ -98,7 +100,7 @@ class LZWDecoder(object):
 
 
 # lzwdecode
-def lzwdecode(data):
+def lzwdecode(data, early_change=1):
     fp = BytesIO(data)
-    s=LZWDecoder(fp).run()
+    s=LZWDecoder(fp, early_change).run()
     return b''.join(s)
-- 
2.43.0


From 6563257dc386d4e788759ce6003bcb1249ba8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 082/102] fix: boxes of points beyond 2147483647

The integer limit of PDF files was taken for that of page space, so the boxes of
curves, images and forms further out did not hold their points.
---
 pdfmajor/interpreter/commands/state/layout/__init__.py | 6 ++++--
 pdfmajor/utils/types.py                                | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/__init__.py b/pdfmajor/interpreter/commands/state/layout/__init__.py
index 73f84c8..9f200ed 100644
--- a/pdfmajor/interpreter/commands/state/layout/__init__.py
+++ b/pdfmajor/interpreter/commands/state/layout/__init__.py
@@ -1,5 +1,5 @@
 from typing import List
-from pdfmajor.utils import apply_matrix_pt, INF, Bbox, Point, MATRIX_IDENTITY, mult_matrix
+from pdfmajor.utils import apply_matrix_pt, Bbox, Point, MATRIX_IDENTITY, mult_matrix
 
 from ..Curves import CurvePath
 from ..PDFGraphicState import PDFGraphicState, PDFColor
@@ -93,7 +93,9 @@ def make_curve(ctm: tuple, gstate: PDFGraphicState, evenodd: bool, paths: List[C
             fill=gstate.ncolor
         )
     else:
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+        # INF is the largest integer of a file, not of a page.
+        inf = float('inf')
+        (x0, y0, x1, y1) = (inf, inf, -inf, -inf)
         for path in paths:
             if path.method in [CurvePath.METHOD.MOVE_TO, CurvePath.METHOD.LINE_TO]:
                 x0 = min(x0, path.points[0].x)
diff --git a/pdfmajor/utils/types.py b/pdfmajor/utils/types.py
index f649e53..6b8d39c 100644
--- a/pdfmajor/utils/types.py
+++ b/pdfmajor/utils/types.py
@@ -37,7 +37,9 @@ class Bbox:
     @classmethod
     def from_points(cls, pts: List[Point]):
         """Converts a list of points to a Boundary box."""
-        (x0, y0, x1, y1) = (INF, INF, -INF, -INF)
+        # INF is the largest integer of a file, not of a page.
+        inf = float('inf')
+        (x0, y0, x1, y1) = (inf, inf, -inf, -inf)
         for (x, y) in pts:
             x0 = min(x0, x)
             y0 = min(y0, y)
-- 
2.43.0


From 064e5d8f5b896e31bcb7d42a30e5d0753a1356ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 083/102] fix: Plane with lines, fractions and objects added
 again

Objects without width or height raised, cells left of zero were computed wrongly
for fractions, and objects added again came twice and stayed when removed.
---
 pdfmajor/utils/generic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 8d705ab..8bfa5a7 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -104,8 +104,8 @@ def csort(objs, key):
 # drange
 def drange(v0, v1, d):
     """Returns a discrete range."""
-    assert v0 < v1, str((v0, v1, d))
-    return range(int(v0)//d, int(v1+d)//d)
+    assert v0 <= v1, str((v0, v1, d))
+    return range(int(v0//d), int(v1//d)+1)
 
 # pick
 def pick(seq, func, maxobj=None):
@@ -187,6 +187,8 @@ class Plane(object):
 
     # add(obj): place an object.
     def add(self, obj):
+        if obj in self._objs:
+            return
         for k in self._getrange((obj.x0, obj.y0, obj.x1, obj.y1)):
             if k not in self._grid:
                 r = []
@@ -206,6 +208,7 @@ class Plane(object):
             except (KeyError, ValueError):
                 pass
         self._objs.remove(obj)
+        self._seq.remove(obj)
         return
 
     # find(): finds objects that are in a certain area.
-- 
2.43.0


From 1c6042c4304eb42201bdd202d6beba37fdc75b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 084/102] fix: page trees, name trees and outlines thousands of
 levels deep

They were searched recursively, which ran out of stack at some hundred levels.
A node of the page tree listed at several places is read once: such trees may
have 2^n pages otherwise.
---
 pdfmajor/parser/PDFDocument/__init__.py | 40 ++++++++++++++-----------
 pdfmajor/parser/PDFPage.py              | 20 ++++++++-----
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index eebc1c5..e55acd2 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -244,12 +244,16 @@ class PDFDocument(object):
 
         done = set()
 
-        def search(entry, level):
-            # a level may have any number of entries.
-            while entry is not None:
+        def search(entry):
+            # there may be any number of entries and of levels.
+            todo = [(entry, 0)]
+            while todo:
+                (entry, level) = todo.pop()
+                if entry is None:
+                    continue
                 if isinstance(entry, PDFObjRef):
                     if entry.objid in done:
-                        return # the chain of a damaged file may be circular.
+                        continue # the chain of a damaged file may be circular.
                     done.add(entry.objid)
                 entry = dict_value(entry)
                 if 'Title' in entry:
@@ -259,12 +263,11 @@ class PDFDocument(object):
                         action = entry.get('A')
                         se = entry.get('SE')
                         yield (level, title, dest, action, se)
+                todo.append((entry.get('Next'), level))
                 if 'First' in entry and 'Last' in entry:
-                    for x in search(entry['First'], level+1):
-                        yield x
-                entry = entry.get('Next')
+                    todo.append((entry['First'], level+1))
             return
-        return search(self.catalog['Outlines'], 0)
+        return search(self.catalog['Outlines'])
 
     def lookup_name(self, cat, key):
         try:
@@ -277,6 +280,8 @@ class PDFDocument(object):
         # may raise KeyError
         d0 = dict_value(names[cat])
 
+        # a tree may be any number of levels deep.
+        todo = [d0]
         done = set()
 
         def lookup(d):
@@ -289,16 +294,17 @@ class PDFDocument(object):
                 names = dict((resolve1(k), v) for (k, v) in choplist(2, objs))
                 return names.get(key)
             if 'Kids' in d:
-                for c in list_value(d['Kids']):
-                    if isinstance(c, PDFObjRef):
-                        if c.objid in done:
-                            continue # the tree of a damaged file may be circular.
-                        done.add(c.objid)
-                    v = lookup(dict_value(c))
-                    if v is not None:
-                        return v
+                for c in reversed(list_value(d['Kids'])):
+                    todo.append(c)
             return None
-        obj = lookup(d0)
+        obj = None
+        while todo and obj is None:
+            c = todo.pop()
+            if isinstance(c, PDFObjRef):
+                if c.objid in done:
+                    continue # the tree of a damaged file may be circular.
+                done.add(c.objid)
+            obj = lookup(dict_value(c))
         if obj is None:
             raise KeyError((cat, key))
         return obj
diff --git a/pdfmajor/parser/PDFPage.py b/pdfmajor/parser/PDFPage.py
index 10b3121..e14b83c 100644
--- a/pdfmajor/parser/PDFPage.py
+++ b/pdfmajor/parser/PDFPage.py
@@ -76,15 +76,17 @@ class PDFPage(object):
 
     @classmethod
     def create_pages(cls, document: PDFDocument):
-        def search(obj, parent, ancestors=()):
+        # a tree may be any number of levels deep.
+        todo = []
+        done = set()
+
+        def search(obj, parent):
             if isinstance(obj, int):
                 objid = obj
                 tree = dict_value(document.getobj(objid)).copy()
             else:
                 objid = obj.objid
                 tree = dict_value(obj).copy()
-            if objid in ancestors:
-                return # a node of a damaged file may be below itself.
             for (k, v) in parent.items():
                 if k in cls.INHERITABLE_ATTRS and k not in tree:
                     tree[k] = v
@@ -95,16 +97,20 @@ class PDFPage(object):
 
             if tree_type is LITERAL_PAGES and 'Kids' in tree:
                 log.debug('Pages: Kids=%r', tree['Kids'])
-                for c in list_value(tree['Kids']):
-                    for x in search(c, tree, (*ancestors, objid)):
-                        yield x
+                if objid in done:
+                    return # a node of a damaged file may be below itself.
+                done.add(objid)
+                for c in reversed(list_value(tree['Kids'])):
+                    todo.append((c, tree))
             elif tree_type is LITERAL_PAGE:
                 log.debug('Page: %r', tree)
                 yield (objid, tree)
         
         pages = False
         if 'Pages' in document.catalog:
-            for (objid, tree) in search(document.catalog['Pages'], document.catalog):
+            todo.append((document.catalog['Pages'], document.catalog))
+        while todo:
+            for (objid, tree) in search(*todo.pop()):
                 yield cls(document, objid, tree)
                 pages = True
         if not pages:
-- 
2.43.0


From 16ebb22b28416ba47d580edb2954e51f8e987890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 085/102] fix: TrueType cmap format 2, bytes that are
 characters and shared subheaders

All bytes of key 0 are characters by themselves, and a subheader may serve
several first bytes: every pair was given to the last byte of its subheader
only, and the single bytes to 0xff00 and on. Deltas are modulo 65536.
---
 .../PDFTextState/PDFFont/TrueTypeFont.py      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 2d7ae1a..757a0a7 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -59,24 +59,22 @@ class TrueTypeFont(object):
                 char2gid.update((c, gid) for (c, gid) in enumerate(struct.unpack('>256B', fp.read(256))) if gid)
             elif fmttype == 2:
                 subheaderkeys = struct.unpack('>256H', fp.read(512))
-                firstbytes = [0]*8192
-                for (i, k) in enumerate(subheaderkeys):
-                    firstbytes[k//8] = i
                 nhdrs = max(subheaderkeys)//8 + 1
                 hdrs = []
                 for i in range(nhdrs):
                     (firstcode, entcount, delta, offset) = struct.unpack('>HHhH', fp.read(8))
-                    hdrs.append((i, firstcode, entcount, delta, fp.tell()-2+offset))
-                for (i, firstcode, entcount, delta, pos) in hdrs:
-                    if not entcount:
-                        continue
-                    first = firstcode + (firstbytes[i] << 8)
-                    fp.seek(pos)
+                    hdrs.append((firstcode, entcount, delta, fp.tell()-2+offset))
+                for (i, k) in enumerate(subheaderkeys):
+                    (firstcode, entcount, delta, pos) = hdrs[k//8]
+                    # a byte of which the key is 0 is a character by itself.
+                    first = firstcode + (i << 8) if k else firstcode
                     for c in range(entcount):
+                        if not k and first+c != i:
+                            continue
+                        fp.seek(pos+2*c)
                         (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
-                            gid += delta
-                        char2gid[first+c] = gid
+                            char2gid[first+c] = (gid + delta) & 0xffff
             elif fmttype == 4:
                 (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
                 segcount //= 2
-- 
2.43.0


From e5b2a060486608a5e1c46a5696c6160b282d6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 086/102] fix: boxes of characters under turned or slanted
 matrices

The box was spanned by two corners of the glyph cell, which contain the cell
only where the matrix keeps the axes.
---
 .../commands/state/layout/utils/textdecoder.py       | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 727a75c..b9c4b90 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -74,11 +74,9 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         ty = descent + rise
         bll = (0, ty)
         bur = (adv, ty+height)
-    (x0, y0) = apply_matrix_pt(matrix, bll)
-    (x1, y1) = apply_matrix_pt(matrix, bur)
-    if x1 < x0:
-        (x0, x1) = (x1, x0)
-    if y1 < y0:
-        (y0, y1) = (y1, y0)
-    
+    # turned or slanted text: all corners count.
+    corners = [apply_matrix_pt(matrix, (x, y)) for x in (bll[0], bur[0]) for y in (bll[1], bur[1])]
+    x0, y0 = map(min, zip(*corners))
+    x1, y1 = map(max, zip(*corners))
+
     return (adv, ((x0, y0), (x1, y1)))
\ No newline at end of file
-- 
2.43.0


From cf77a659e79b6d4956a43b9973d8b6ecfecfb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 087/102] fix: horizontal scaling leaves vertical text's
 advances alone

Tz scales the text space horizontally. In vertical writing the advances, the
character spacing and the adjustments of TJ are vertical; what is scaled is the
width of the cells.
---
 .../commands/state/layout/utils/textdecoder.py    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index b9c4b90..8b57249 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -4,12 +4,14 @@ from ....state import PDFTextState, PDFColor
 def decode_text_seq(seq: bytearray, ctm: tuple, textstate: PDFTextState, color: PDFColor):
     textstate.matrix = mult_matrix(textstate.matrix, ctm)
     textstate.scaling = textstate.scaling * .01
-    textstate.charspace = textstate.charspace * textstate.scaling
-    textstate.wordspace = textstate.wordspace * textstate.scaling
+    # only what runs horizontally is scaled.
+    scaling = 1 if textstate.font.is_vertical() else textstate.scaling
+    textstate.charspace = textstate.charspace * scaling
+    textstate.wordspace = textstate.wordspace * scaling
     
     if textstate.font.is_multibyte():
         textstate.wordspace = 0
-    dxscale = .001 * textstate.fontsize * textstate.scaling
+    dxscale = .001 * textstate.fontsize * scaling
 
     if textstate.font.is_vertical():
         return __render_string_along(1,
@@ -51,7 +53,7 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
 
     textwidth = font.char_width(char_id)
     textdisp = font.char_disp(char_id)
-    adv = textwidth * fontsize * scaling
+    adv = textwidth * fontsize
 
     # compute the boundary rectangle.
     if font.is_vertical():
@@ -65,10 +67,11 @@ def __compute_char_bbox(matrix, char_id: int, textstate: PDFTextState):
         vy = (1000 - vy) * fontsize * .001
         tx = -vx
         ty = vy + rise
-        bll = (tx, ty+adv)
-        bur = (tx+width, ty)
+        bll = (tx*scaling, ty+adv)
+        bur = ((tx+width)*scaling, ty)
     else:
         # horizontal
+        adv *= scaling
         height = font.get_height() * fontsize
         descent = font.get_descent() * fontsize
         ty = descent + rise
-- 
2.43.0


From 07cbdb15ba0b2d8917f5894466e41c39d7bf86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 088/102] fix: Group 4 data with an invalid code gives the rows
 before it

InvalidData, which is nobody's exception to catch, left the decoder.
---
 pdfmajor/parser/PDFStream/ccitt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFStream/ccitt.py b/pdfmajor/parser/PDFStream/ccitt.py
index 65cf92c..7fd9b5f 100644
--- a/pdfmajor/parser/PDFStream/ccitt.py
+++ b/pdfmajor/parser/PDFStream/ccitt.py
@@ -337,6 +337,9 @@ class CCITTG4Parser(BitParser):
                 self._state = self.MODE
             except EOFB:
                 break
+            except InvalidData:
+                # damaged, keep the rows before.
+                break
         return
 
     def _parse_mode(self, mode):
-- 
2.43.0


From fcda9aff56a5592fd4448d71543c3b65c9d36bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 089/102] fix: damaged ASCII85 data gives what is before the
 damage

Groups beyond 32 bits and a z within a group raised struct.error and
AssertionError.
---
 pdfmajor/utils/ascii85.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/ascii85.py b/pdfmajor/utils/ascii85.py
index 5b7b8d1..ce5e0b8 100644
--- a/pdfmajor/utils/ascii85.py
+++ b/pdfmajor/utils/ascii85.py
@@ -31,15 +31,19 @@ def ascii85decode(data):
             n += 1
             b = b*85+(ord(c)-33)
             if n == 5:
+                if b > 0xffffffff:
+                    # damaged, keep what is before.
+                    break
                 out += struct.pack('>L', b)
                 n = b = 0
         elif c == b'z':
-            assert n == 0, str(n)
+            if n:
+                break
             out += b'\0\0\0\0'
         elif c == b'~':
             if n:
                 for _ in range(5-n):
-                    b = b*85+84
+                    b = min(b*85+84, 0xffffffff)
                 out += struct.pack('>L', b)[:n-1]
             break
     return out
-- 
2.43.0


From 80f707d45f86f92f989c086ae100a163613a62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 090/102] fix: LZW data that begins with an undefined code

The table was not there yet, or had no such code: TypeError and IndexError
instead of the end of what can be decoded.
---
 pdfmajor/utils/lzw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfmajor/utils/lzw.py b/pdfmajor/utils/lzw.py
index 07574fb..e6b6f06 100644
--- a/pdfmajor/utils/lzw.py
+++ b/pdfmajor/utils/lzw.py
@@ -59,6 +59,8 @@ class LZWDecoder(object):
         elif code == 257:
             pass
         elif not self.prevbuf:
+            if self.table is None or code >= len(self.table):
+                raise CorruptDataError
             x = self.prevbuf = self.table[code]
         else:
             if code < len(self.table):
-- 
2.43.0


From 88ac3074e5954360a24d8de80922c841f24c2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 091/102] fix: a row of unknown predictor ends the data, and
 does not lose the rows before

---
 pdfmajor/utils/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/utils/generic.py b/pdfmajor/utils/generic.py
index 8bfa5a7..4ba3fe9 100644
--- a/pdfmajor/utils/generic.py
+++ b/pdfmajor/utils/generic.py
@@ -66,8 +66,8 @@ def apply_png_predictor(pred, colors, columns, bitspercomponent, data):
                 c = (c+b) & 255
                 line2 += int2byte(c)
         else:
-            # unsupported
-            raise ValueError("Unsupported predictor value: %d" % ft)
+            # unsupported: damaged, keep the rows before.
+            break
         buf += line2
         line0 = line2
     return buf
-- 
2.43.0


From 8cf58937763ed901a171be44aa76e76bd798a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 092/102] fix: Flate and RunLength data that is damaged or cut
 off

Flate data with any damage, as little as a missing checksum, gave nothing;
RunLength data cut off in a run raised IndexError. What can be decoded before
the damage is kept.
---
 pdfmajor/parser/PDFStream/__init__.py |  2 +-
 pdfmajor/parser/PDFStream/util.py     | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFStream/__init__.py b/pdfmajor/parser/PDFStream/__init__.py
index 7552bd2..3026f6a 100644
--- a/pdfmajor/parser/PDFStream/__init__.py
+++ b/pdfmajor/parser/PDFStream/__init__.py
@@ -101,7 +101,7 @@ class PDFStream(PDFObject):
                 except zlib.error as e:
                     if settings.STRICT:
                         raise PDFException('Invalid zlib bytes: %r, %r' % (e, data))
-                    data = b''
+                    data = inflate_damaged(data)
             elif f in LITERALS_LZW_DECODE:
                 data = lzwdecode(data, int_value((params or {}).get('EarlyChange', 1)))
             elif f in LITERALS_ASCII85_DECODE:
diff --git a/pdfmajor/parser/PDFStream/util.py b/pdfmajor/parser/PDFStream/util.py
index 3e9b376..ab9e75f 100644
--- a/pdfmajor/parser/PDFStream/util.py
+++ b/pdfmajor/parser/PDFStream/util.py
@@ -1,3 +1,5 @@
+import zlib
+
 from pdfmajor.execptions import PDFTypeError
 
 from .PDFObjRef import PDFObjRef
@@ -111,6 +113,18 @@ def dict_value(x):
 #
 #  * public domain *
 #
+def inflate_damaged(data):
+    "What can be decompressed before the damage, or before the data is cut off."
+    decoder = zlib.decompressobj()
+    decoded = []
+    try:
+        for i in range(len(data)):
+            decoded.append(decoder.decompress(data[i:i+1]))
+    except zlib.error:
+        pass
+    return b''.join(decoded)
+
+
 def rldecode(data):
     """
     RunLength decoder (Adobe version) implementation based on PDF Reference
@@ -132,11 +146,14 @@ def rldecode(data):
         if length == 128:
             break
         if length >= 0 and length < 128:
-            for j in range(i+1,(i+1)+(length+1)):
+            # the data may be cut off.
+            for j in range(i+1,min((i+1)+(length+1), len(data))):
                 decoded+=int2byte(data[j])
             
             i = (i+1) + (length+1)
         if length > 128:
+            if i+1 == len(data):
+                break
             run = int2byte(data[i+1])*(257-length)
             decoded+=run
             i = (i+1) + 1
-- 
2.43.0


From fd11a28b8ff36e7906ca60b26f1e84e3c4045192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 093/102] fix: objects of a damaged object stream that lie
 before the damage

A syntax error in the last bytes of an object stream (a stray delimiter, data
cut off inside a string) lost all objects of the stream, also those that had
been read before it.  The objects read so far are kept now.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 4 ++--
 pdfmajor/parser/PDFDocument/__init__.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index b336e06..94a3784 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -2,7 +2,7 @@ import re
 from logging import getLogger
 from typing import Tuple, Optional, Dict
 
-from pdfmajor.execptions import PSEOF, PDFSyntaxError, PDFNoValidXRef
+from pdfmajor.execptions import PSEOF, PSSyntaxError, PDFSyntaxError, PDFNoValidXRef
 
 from ...utils import settings, choplist, nunpack
 from ..PSStackParser import KWD
@@ -187,7 +187,7 @@ class PDFXRefFallback(PDFXRef):
                     while 1:
                         (_, obj) = parser1.nextobject()
                         objs.append(obj)
-                except PSEOF:
+                except (PSEOF, PSSyntaxError):
                     pass
                 n = min(n, len(objs)//2)
                 for index in range(n):
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index e55acd2..a2e5229 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -10,6 +10,7 @@ from pdfmajor.execptions import (
     PDFDestinationNotFound, 
     PDFNoValidXRef,
     PSEOF,
+    PSSyntaxError,
     PDFObjectNotFound, 
     PDFTypeError,
     PDFSyntaxError,
@@ -164,6 +165,10 @@ class PDFDocument(object):
                 objs.append(obj)
         except PSEOF:
             pass
+        except PSSyntaxError:
+            # damaged, keep the objects before.
+            if settings.STRICT:
+                raise
         return (objs, n)
 
     def _getobj_parse(self, pos, objid):
-- 
2.43.0


From f31a49baeb516c75fc2377a12fecd3f3021b6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 094/102] fix: a stray R or a dictionary with impossible keys

An R without two numbers before it raised ValueError or TypeError and took
away what was before it; a dictionary with an array or a dictionary for a key
raised TypeError.  The first is passed over now, the second is a syntax error
like other malformed dictionaries.
---
 pdfmajor/parser/PDFParser.py              | 16 ++++++++++------
 pdfmajor/parser/PSStackParser/__init__.py |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pdfmajor/parser/PDFParser.py b/pdfmajor/parser/PDFParser.py
index 6c127b7..4310c8b 100644
--- a/pdfmajor/parser/PDFParser.py
+++ b/pdfmajor/parser/PDFParser.py
@@ -78,13 +78,15 @@ class PDFParser(PSStackParser):
 
         elif token is self.KEYWORD_R:
             # reference to indirect object
+            objs = self.pop(2)
             try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
+                ((_, objid), (_, genno)) = objs # pylint: disable=E0632
                 (objid, genno) = (int(objid), int(genno)) # pylint: disable=E0632
                 obj = PDFObjRef(self.doc, objid, genno) # pylint: disable=E0632
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (PSSyntaxError, TypeError, ValueError):
+                # not a reference.
+                self.push(*objs)
 
         elif token is self.KEYWORD_STREAM:
             # stream object
@@ -172,13 +174,15 @@ class PDFStreamParser(PDFParser):
     def do_keyword(self, pos, token):
         if token is self.KEYWORD_R:
             # reference to indirect object
+            objs = self.pop(2)
             try:
-                ((_, objid), (_, genno)) = self.pop(2) # pylint: disable=E0632
+                ((_, objid), (_, genno)) = objs # pylint: disable=E0632
                 (objid, genno) = (int(objid), int(genno))
                 obj = PDFObjRef(self.doc, objid, genno)
                 self.push((pos, obj))
-            except PSSyntaxError:
-                pass
+            except (PSSyntaxError, TypeError, ValueError):
+                # not a reference.
+                self.push(*objs)
             return
         elif token is self.KEYWORD_NULL:
             self.push((pos, None))
diff --git a/pdfmajor/parser/PSStackParser/__init__.py b/pdfmajor/parser/PSStackParser/__init__.py
index 7b790f1..4941045 100644
--- a/pdfmajor/parser/PSStackParser/__init__.py
+++ b/pdfmajor/parser/PSStackParser/__init__.py
@@ -132,7 +132,7 @@ class PSStackParser(PSBaseParser):
                 # end dictionary
                 try:
                     (pos, objs) = self.end_type('d')
-                    if len(objs) % 2 != 0:
+                    if len(objs) % 2 != 0 or any(isinstance(k, (list, dict)) for k in objs[::2]):
                         raise PSSyntaxError('Invalid dictionary construct: %r' % objs)
                     # construct a Python dictionary.
                     d = dict((literal_name(k), v) for (k, v) in choplist(2, objs) if v is not None)
-- 
2.43.0


From 92779ed746a62798291bd2813dbaeba58c8c739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:09 +0000
Subject: [PATCH 095/102] fix: ToUnicode maps with CMaps other than Identity

A ToUnicode map gives the text of character codes, but it was asked for the
CIDs that the font's CMap makes of them, which are other numbers unless the
CMap is Identity-H or Identity-V.  It is asked for the codes now.
---
 .../state/PDFTextState/PDFFont/PDFFont.py     |  7 +++++++
 .../state/PDFTextState/PDFFont/fonts.py       |  5 +++++
 .../state/layout/utils/textdecoder.py         |  4 ++--
 pdfmajor/parser/cmapdb/__init__.py            | 20 +++++++++++++++++++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 8e297b6..2f571fd 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -24,6 +24,9 @@ LITERAL_TYPE1C = LIT('Type1C')
 
 class PDFFont(object):
 
+    # whether to_unichr takes codes instead of CIDs.
+    unicode_by_code = False
+
     def __init__(self, descriptor, widths, default_width=None):
         self.descriptor = descriptor
         self.widths = widths
@@ -52,6 +55,10 @@ class PDFFont(object):
     def decode(self, bytes):
         return bytearray(bytes)  # map(ord, bytes)
 
+    def decode_codes(self, bytes):
+        "Like decode, but with the code before every CID."
+        return ((cid, cid) for cid in self.decode(bytes))
+
     def get_ascent(self):
         return self.ascent * self.vscale
 
diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index 9bcca86..c350897 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -124,6 +124,8 @@ class PDFCIDFont(PDFFont):
                                BytesIO(self.fontfile.get_data()))
         self.unicode_map = None
         if 'ToUnicode' in spec:
+            # it maps the codes of the strings, not their CIDs.
+            self.unicode_by_code = True
             strm = PDFStream.validated_stream(spec['ToUnicode'])
             self.unicode_map = FileUnicodeMap()
             CMapParser(self.unicode_map, BytesIO(strm.get_data())).run()
@@ -179,6 +181,9 @@ class PDFCIDFont(PDFFont):
     def decode(self, bytes):
         return self.cmap.decode(bytes)
 
+    def decode_codes(self, bytes):
+        return self.cmap.decode_codes(bytes)
+
     def char_disp(self, cid):
         "Returns an integer for horizontal fonts, a tuple for vertical fonts."
         return self.disps.get(cid, self.default_disp)
diff --git a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
index 8b57249..504ef21 100644
--- a/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
+++ b/pdfmajor/interpreter/commands/state/layout/utils/textdecoder.py
@@ -29,8 +29,8 @@ def __render_string_along(idx: int, seq: bytearray,
         if isnumber(obj):
             textstate.linematrix[idx] -= obj*dxscale
         else:
-            for cid in textstate.font.decode(obj):
-                text = textstate.to_unichr(cid)
+            for (code, cid) in textstate.font.decode_codes(obj):
+                text = textstate.to_unichr(code if textstate.font.unicode_by_code else cid)
                 assert isinstance(text, str), str(type(text))
 
                 matrix = translate_matrix(textstate.matrix, textstate.linematrix)
diff --git a/pdfmajor/parser/cmapdb/__init__.py b/pdfmajor/parser/cmapdb/__init__.py
index 765aec7..8189bd1 100644
--- a/pdfmajor/parser/cmapdb/__init__.py
+++ b/pdfmajor/parser/cmapdb/__init__.py
@@ -101,6 +101,23 @@ class CMap(CMapBase):
                 d = self.code2cid
         return
 
+    def decode_codes(self, code):
+        "Like decode, but yields every CID after its code (a number)."
+        d = self.code2cid
+        n = 0
+        for i in iter(code):
+            if i in d:
+                d = d[i]
+                n = n << 8 | i
+                if isinstance(d, int):
+                    yield (n, d)
+                    d = self.code2cid
+                    n = 0
+            else:
+                d = self.code2cid
+                n = 0
+        return
+
     def dump(self, out=sys.stdout, code2cid=None, code=None):
         if code2cid is None:
             code2cid = self.code2cid
@@ -125,6 +142,9 @@ class IdentityCMap(CMapBase):
         else:
             return ()
 
+    def decode_codes(self, code):
+        return ((cid, cid) for cid in self.decode(code))
+
 
 ##  UnicodeMap
 ##
-- 
2.43.0


From ab588241edf6ca6b4e30ec3037b5f4c0e09eef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 096/102] fix: a TrueType cmap subtable without a character
 does not hide another's

A format 4 segment that gives glyph 0 (as the last one does for U+FFFF) took
away the glyph that another subtable has for the character.
---
 .../state/PDFTextState/PDFFont/TrueTypeFont.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
index 757a0a7..ee7e493 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py
@@ -48,6 +48,10 @@ class TrueTypeFont(object):
         subtables = []
         for i in range(nsubtables):
             subtables.append(struct.unpack('>HHL', fp.read(8)))
+        def add(c, gid):
+            # glyph 0 stands for a missing one, another subtable may have it.
+            if gid:
+                char2gid[c] = gid
         # Only supports subtable type 0, 2 and 4.
         for (platform, encoding, st_offset) in subtables:
             if platform != 0 and (platform, encoding) not in ((3, 1), (3, 10)):
@@ -74,7 +78,7 @@ class TrueTypeFont(object):
                         fp.seek(pos+2*c)
                         (gid,) = struct.unpack('>H', fp.read(2))
                         if gid:
-                            char2gid[first+c] = (gid + delta) & 0xffff
+                            add(first+c, (gid + delta) & 0xffff)
             elif fmttype == 4:
                 (segcount, _1, _2, _3) = struct.unpack('>HHHH', fp.read(8))
                 segcount //= 2
@@ -91,9 +95,9 @@ class TrueTypeFont(object):
                         for c in range(sc, ec+1):
                             (gid,) = struct.unpack('>H', fp.read(2))
                             if gid:
-                                char2gid[c] = (gid + idd) & 0xffff
+                                add(c, (gid + idd) & 0xffff)
                     else:
                         for c in range(sc, ec+1):
-                            char2gid[c] = (c + idd) & 0xffff
+                            add(c, (c + idd) & 0xffff)
         return
 
-- 
2.43.0


From 424ca9983f6dc5a3e2b3dea17067eebb62f288d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 097/102] fix: the end of inline image data after an E

Data that ends in E without white space before EI was read on to the next EI,
or to the end of the content.
---
 pdfmajor/parser/PDFContentParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/parser/PDFContentParser.py b/pdfmajor/parser/PDFContentParser.py
index a3e5177..eacb1bd 100644
--- a/pdfmajor/parser/PDFContentParser.py
+++ b/pdfmajor/parser/PDFContentParser.py
@@ -66,7 +66,8 @@ class PDFContentParser(PSStackParser):
                 elif i < len(target) and c == (int2byte(target[i])):
                     i += 1
                 else:
-                    i = 0
+                    # it may be the first byte of the target again.
+                    i = 1 if c == int2byte(target[0]) else 0
             else:
                 try:
                     j = self.buf.index(target[0], self.charpos)
-- 
2.43.0


From 0fee7c5407d6cfa5710703d8685bc6af1abc7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 098/102] fix: AES-256 documents whose /O and /U are padded

The strings of a revision 5 document are a hash and two salts, 48 bytes.
Acrobat pads them with zeros to 127 bytes; the padding was taken for part
of the salts, and every password was refused.
---
 pdfmajor/parser/PDFDocument/PDFSecurityHandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
index 036806b..bade201 100644
--- a/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
+++ b/pdfmajor/parser/PDFDocument/PDFSecurityHandler.py
@@ -212,6 +212,9 @@ class PDFStandardSecurityHandlerV5(PDFStandardSecurityHandlerV4):
         self.length = 256
         self.oe = str_value(self.param['OE'])
         self.ue = str_value(self.param['UE'])
+        # a hash and two salts, which some writers pad with zeros
+        self.o = self.o[:48]
+        self.u = self.u[:48]
         self.o_hash = self.o[:32]
         self.o_validation_salt = self.o[32:40]
         self.o_key_salt = self.o[40:]
-- 
2.43.0


From 3860bd4dbac132a4caa2f2d7f9bef05c64d30e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 099/102] fix: object streams of encrypted documents with
 damaged cross-reference data

The scan that recovers the objects reads the object streams before the
password is known, so that nothing packed in them was found. It is made
again once the key is there, if there are object streams at all.
---
 pdfmajor/parser/PDFDocument/PDFXRef.py  | 3 +++
 pdfmajor/parser/PDFDocument/__init__.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pdfmajor/parser/PDFDocument/PDFXRef.py b/pdfmajor/parser/PDFDocument/PDFXRef.py
index 94a3784..e05af96 100644
--- a/pdfmajor/parser/PDFDocument/PDFXRef.py
+++ b/pdfmajor/parser/PDFDocument/PDFXRef.py
@@ -122,6 +122,7 @@ class PDFXRefFallback(PDFXRef):
     def __init__(self):
         PDFXRef.__init__(self)
         self.catalogs = []
+        self.packed = False     # whether there are object streams
         return
 
     PDFOBJ_CUE = re.compile(r'^(\d+)\s+(\d+)\s+obj\b')
@@ -175,6 +176,8 @@ class PDFXRefFallback(PDFXRef):
                 self.trailer.update(obj.attrs)
             if isinstance(obj, PDFStream) and obj.get('Type') is LITERAL_OBJSTM:
                 stream = PDFStream.validated_stream(obj)
+                stream.set_objid(objid, genno)
+                self.packed = True
                 try:
                     n = stream['N']
                 except KeyError:
diff --git a/pdfmajor/parser/PDFDocument/__init__.py b/pdfmajor/parser/PDFDocument/__init__.py
index a2e5229..605793e 100644
--- a/pdfmajor/parser/PDFDocument/__init__.py
+++ b/pdfmajor/parser/PDFDocument/__init__.py
@@ -99,6 +99,12 @@ class PDFDocument(object):
                 self.encryption = (list_value(trailer['ID']),
                                    dict_value(trailer['Encrypt']))
                 self._initialize_password(password)
+                if fallback and self.xrefs[-1].packed:
+                    # what is in the object streams shows only now.
+                    parser.fallback = True
+                    self.xrefs[-1] = PDFXRefFallback()
+                    self.xrefs[-1].load(parser)
+                    parser.fallback = False
             if 'Info' in trailer:
                 self.info.append(dict_value(trailer['Info']))
             if 'Root' in trailer:
-- 
2.43.0


From 6611ba1bca40ff0cd67c4ed0209dd75d433a88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 100/102] fix: standard metrics go by the glyph, not by its
 ToUnicode text

The width of a character of a standard font without Widths was looked up
by the text that ToUnicode gives its code, so that it was that of another
glyph, or 0, where the text is not that of the glyph (ligatures, or codes
mapped to several characters).
---
 .../commands/state/PDFTextState/PDFFont/PDFFont.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
index 2f571fd..74cb8fa 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py
@@ -82,10 +82,13 @@ class PDFFont(object):
             return self.widths[cid] * self.hscale
         except KeyError:
             try:
-                return self.widths[self.to_unichr(cid)] * self.hscale
+                return self.widths[self.metrics_key(cid)] * self.hscale
             except (KeyError, UnicodeNotDefined):
                 return self.default_width * self.hscale
 
+    def metrics_key(self, cid):
+        return self.to_unichr(cid)
+
     def char_disp(self, cid):
         return 0
 
@@ -134,6 +137,10 @@ class PDFSimpleFont(PDFFont):
         PDFFont.__init__(self, descriptor, widths)
         return
 
+    def metrics_key(self, cid):
+        # the glyph is that of the encoding, whatever text ToUnicode gives it.
+        return self.cid2unicode[cid]
+
     def to_unichr(self, cid):
         if self.unicode_map:
             try:
-- 
2.43.0


From 98862b343b0f1782b04705387ec47e192fa758f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 101/102] fix: MissingWidth in fonts without Widths

All codes of such a font are outside of Widths, but were given the
width 0 instead of the MissingWidth of the descriptor.
---
 .../interpreter/commands/state/PDFTextState/PDFFont/fonts.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
index c350897..c35098e 100644
--- a/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
+++ b/pdfmajor/interpreter/commands/state/PDFTextState/PDFFont/fonts.py
@@ -37,7 +37,7 @@ class PDFType1Font(PDFSimpleFont):
         if widths is None or 'Widths' in spec:
             firstchar = int_value(spec.get('FirstChar', 0))
             #lastchar = int_value(spec.get('LastChar', 255))
-            widths = list_value(spec.get('Widths', [0]*256))
+            widths = list_value(spec.get('Widths', []))
             widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         PDFSimpleFont.__init__(self, descriptor, widths, spec)
         if 'Encoding' not in spec and 'FontFile' in descriptor:
@@ -67,7 +67,7 @@ class PDFType3Font(PDFSimpleFont):
     def __init__(self, spec):
         firstchar = int_value(spec.get('FirstChar', 0))
         #lastchar = int_value(spec.get('LastChar', 0))
-        widths = list_value(spec.get('Widths', [0]*256))
+        widths = list_value(spec.get('Widths', []))
         widths = dict((i+firstchar, num_value(w)) for (i, w) in enumerate(widths))
         if 'FontDescriptor' in spec:
             descriptor = dict_value(spec['FontDescriptor']).copy()
-- 
2.43.0


From dcb52bdb369e8241d84231e1a0e72dac26fa277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 102/102] fix: images of several components of one bit are not
 bitmaps

save_image wrote every image of 1 bit per component to a BMP file of 1
bit per pixel, which for DeviceRGB and the like has a third of the
samples, shifted.
---
 .../commands/state/layout/LTImage.py          | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pdfmajor/interpreter/commands/state/layout/LTImage.py b/pdfmajor/interpreter/commands/state/layout/LTImage.py
index 634de0b..d65f40e 100644
--- a/pdfmajor/interpreter/commands/state/layout/LTImage.py
+++ b/pdfmajor/interpreter/commands/state/layout/LTImage.py
@@ -5,7 +5,7 @@ from PIL import Image, ImageChops
 
 from pdfmajor.BMPWriter import BMPWriter
 from pdfmajor.utils import Bbox
-from pdfmajor.parser.PDFStream import PDFStream, resolve1, LITERALS_DCT_DECODE
+from pdfmajor.parser.PDFStream import PDFStream, resolve1, int_value, list_value, LITERALS_DCT_DECODE
 from pdfmajor.parser.constants import LIT
 
 from ._base import LTComponent
@@ -14,6 +14,9 @@ from ._base import LTComponent
 LITERALS_DEVICE_GRAY = (LIT('DeviceGray'), LIT('G'))
 LITERALS_DEVICE_RGB = (LIT('DeviceRGB'), LIT('RGB'))
 LITERALS_DEVICE_CMYK = (LIT('DeviceCMYK'), LIT('CMYK'))
+LITERALS_CIE_BASED = (LIT('CalRGB'), LIT('Lab'))
+LITERAL_ICC_BASED = LIT('ICCBased')
+LITERAL_DEVICE_N = LIT('DeviceN')
 
 ##  LTImage
 ##
@@ -37,6 +40,17 @@ class LTImage(LTComponent):
                 (self.__class__.__name__, self.name,
                  str(self.bbox), self.srcsize))
     
+    def is_bilevel(self):
+        "Whether every pixel is one sample of one bit."
+        colorspace = resolve1(self.colorspace[0])
+        if self.bits != 1:
+            return False
+        if colorspace is LITERAL_ICC_BASED:
+            return int_value(PDFStream.validated_stream(self.colorspace[1])['N']) == 1
+        if colorspace is LITERAL_DEVICE_N:
+            return len(list_value(self.colorspace[1])) == 1
+        return colorspace not in LITERALS_DEVICE_RGB + LITERALS_DEVICE_CMYK + LITERALS_CIE_BASED
+
     def save_image(self, outdir: str, file_name: str = None):
         stream = self.stream
         filters = stream.get_filters()
@@ -46,7 +60,7 @@ class LTImage(LTComponent):
 
         if filters and filters[-1][0] in LITERALS_DCT_DECODE:
             ext = '.jpg'
-        elif (bits == 1 or
+        elif (self.is_bilevel() or
                 bits == 8 and colorspace in LITERALS_DEVICE_RGB + LITERALS_DEVICE_GRAY):
             ext = '.w%dh%d.bmp' % (width, height)
         else:
@@ -70,7 +84,7 @@ class LTImage(LTComponent):
                     i.save(fp, 'JPEG')
                 else:
                     fp.write(raw_data)
-            elif bits == 1:
+            elif self.is_bilevel():
                 BMPWriter.write_all(fp, stream, 1, width, height, (width+7)//8)
             elif bits == 8 and colorspace in LITERALS_DEVICE_RGB:
                 BMPWriter.write_all(fp, stream, 24, width, height, width*3)
-- 
2.43.0

