From c998ebeeb2c471d7da16feb67a0e1ad84593bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 01/47] fix: count the bytes actually read when a
 Content-Length body arrives in short reads

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..b7f375c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
-- 
2.43.0


From ad044a52ccb3464bf968b00d2f68f43c708f5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 02/47] fix: decode chunked bodies exactly when the stream
 returns short reads

---
 ombott/request_pkg/body_mixin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7f375c..cc54ca1 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -30,7 +30,7 @@ def _iter_body(read, buff_size, *, content_length):
 
 
 def _iter_chunked(read, buff_size):
-    r, n, rn, sem = b'\r', b'\n', b'\r\n', b';'
+    r, n, sem = b'\r', b'\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
     while True:
@@ -73,8 +73,9 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+        # the stream may deliver `\r\n` in two reads
+        if read(1) != r or read(1) != n:
             raise parsing_err
 
 
-- 
2.43.0


From 46cc3a45a864165888474352d3b8f04209fa116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 03/47] fix: accept the second closing hyphen of a multipart
 body when data follows it in the same chunk

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..2a9c5d3 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
-- 
2.43.0


From 5c6754bfbf7ca40ac10d1d5529b5451de8fa0e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 04/47] fix: ignore a multipart epilogue that arrives in a
 separate chunk

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 2a9c5d3..56ca3e1 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -186,7 +186,7 @@ class BodyMarkuper:
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
         if self.stopped:
-            raise StopMarkupException()
+            return  # epilogue
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
-- 
2.43.0


From 7a96269710a300812076008fddff080e4f950a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 05/47] fix: report an invalid multipart section start however
 the body is split

---
 ombott/request_pkg/multipart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 56ca3e1..9d49bc2 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -120,6 +120,8 @@ class HeadersEaeter:
         elif chunk_start == HYPHENx2:
             self.stopped = True
             return base + 2
+        else:
+            self.eat_meth = None
 
         if self.eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
-- 
2.43.0


From baeece77bdf783e5d0e50ad0c3db308f87b7b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 06/47] fix: keep semicolons inside quoted multipart header
 parameters

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 9d49bc2..24677f8 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -406,7 +406,7 @@ class Header(SimpleNamespace):
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    _patt = re.compile(r'(.+?)(=("[^"]*"\s*|.+?))?(;|$)')
 
     name: str
     value: Optional[str]
@@ -471,7 +471,7 @@ class FieldStorage:
             k = it.group(1).strip()
             v = it.group(3)
             if v is not None:
-                v = v.strip('"')
+                v = v.strip().strip('"')
             dct[k.lower()] = v
         return Header(name=htype, value=hvalue, options=dct)
 
-- 
2.43.0


From 51a0af84b33115f2e16f4c3e368c0373d00b0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 07/47] fix: split multipart part headers at CRLF only

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 24677f8..72d028e 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -434,7 +434,7 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-- 
2.43.0


From af564fd7a97e0dd2bc49dd7193e0e238ca832c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 08/47] fix: accept quoted and mixed-case multipart boundary
 parameters

---
 ombott/request_pkg/body_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index cc54ca1..fe648ba 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,7 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)', re.I)
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -244,7 +244,7 @@ class BodyMixin:
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+            markup = MultipartMarkup(mp.group(1).strip().strip('"'))
         try:
             body = _body_read(
                 self.environ['wsgi.input'].read,
-- 
2.43.0


From 1d9bd9959c4c980db6bbe9040ff282ee8681b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 09/47] fix: treat multipart part header names
 case-insensitively

---
 ombott/request_pkg/helpers.py   | 2 +-
 ombott/request_pkg/multipart.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index acadd65..090e845 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -266,7 +266,7 @@ class FileUpload:
 
     def get_header(self, name, default=None):
         """ Return the value of a header within the multipart part. """
-        return self.headers.get(name, default)
+        return self.headers.get(name.title(), default)
 
     @cached_property
     def filename(self):
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 72d028e..ff2fe35 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -473,7 +473,7 @@ class FieldStorage:
             if v is not None:
                 v = v.strip().strip('"')
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype.strip().title(), value=hvalue, options=dct)
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 895b733ff566d559d477a0393e94b5c47dccf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 10/47] fix: give uploads their part headers as strings

---
 ombott/request_pkg/body_mixin.py | 2 +-
 ombott/request_pkg/multipart.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index fe648ba..fcb4538 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -202,7 +202,7 @@ class BodyMixin:
             if item.filename:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename, {name: h.raw for name, h in item.headers.items()}
                 )
                 dct = files
             else:
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index ff2fe35..87634a4 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -402,6 +402,7 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
@@ -473,7 +474,7 @@ class FieldStorage:
             if v is not None:
                 v = v.strip().strip('"')
             dct[k.lower()] = v
-        return Header(name=htype.strip().title(), value=hvalue, options=dct)
+        return Header(name=htype.strip().title(), value=hvalue, options=dct, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 20b4bf03b7c7c230084c4b71685b848375c58c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/47] fix: collect an upload with an empty file name as an
 upload

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index fcb4538..846afae 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -199,7 +199,7 @@ class BodyMixin:
             raise markup.error
         listified = set()
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.filename is not None:
                 it = FileUpload(
                     item.file, item.name,
                     item.filename, {name: h.raw for name, h in item.headers.items()}
-- 
2.43.0


From 531bb104bef5fa277463449ea28c43b3fd3ea784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 12/47] fix: keep text fields and uploads that share a name
 apart

---
 ombott/request_pkg/body_mixin.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 846afae..e814513 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -210,14 +210,15 @@ class BodyMixin:
                 dct = forms
             key = item.name
 
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            for d in (post, dct):
+                if key in d:
+                    el = d[key]
+                    if (id(d), key) not in listified:
+                        el = d[key] = [el]
+                        listified.add((id(d), key))
+                    el.append(it)
+                else:
+                    d[key] = it
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From 88b9b1a5c3f6ecb715016f098426e41269918d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 13/47] fix: BytesIOProxy.read(0) reads nothing

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 87634a4..9ce13c6 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -373,7 +373,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From c3bfd120ebb55eee6fa51adb532029694ef303fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 14/47] fix: answer malformed multipart bodies with a client
 error

---
 ombott/request_pkg/body_mixin.py | 26 +++++++++++++++++---------
 ombott/request_pkg/multipart.py  |  7 +++++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index e814513..a445409 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -189,16 +189,8 @@ class BodyMixin:
 
         forms = env['ombott.request.forms'] = self._forms_factory()
 
-        body = self.body
-        markup: MultipartMarkup = body.ombott_markup
-        if markup is None:
-            # should never happen since we check content-type
-            # when reading body
-            raise BodyParsingError()
-        elif markup.error is not None:
-            raise markup.error
         listified = set()
-        for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
+        for item in self._iter_multipart():
             if item.filename is not None:
                 it = FileUpload(
                     item.file, item.name,
@@ -221,6 +213,22 @@ class BodyMixin:
                     d[key] = it
         return post
 
+    def _iter_multipart(self):
+        ''' Yield the fields of a multipart body, parsing errors are translated
+            into the configured HTTP errors.
+
+        '''
+        body = self.body
+        markup: MultipartMarkup = body.ombott_markup
+        try:
+            if markup is None:
+                raise BodyParsingError('No multipart boundary')
+            elif markup.error is not None:
+                raise BodyParsingError('Malformed multipart body') from markup.error
+            yield from FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size)
+        except RequestError as err:
+            self._raise(err, RequestError)
+
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
     def forms(self):
         """ Form values parsed from an `url-encoded` or `multipart/form-data`
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 9ce13c6..b28c31a 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -445,7 +445,7 @@ class FieldStorage:
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -506,7 +506,10 @@ class FieldStorage:
             assert sec_name == 'data'
 
             field = cls()
-            has_read = field.read(src, headers_slice, data_slice, max_read=max_read)
+            try:
+                has_read = field.read(src, headers_slice, data_slice, max_read=max_read)
+            except (ValueError, KeyError, StopIteration) as err:
+                raise BodyParsingError(f'Malformed multipart/formdata field: {err!r}') from err
             max_read -= has_read
             yield field
 
-- 
2.43.0


From 177df8347377e11a8584009cf59865d0c9253d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 15/47] fix: map an invalid multipart boundary to a client
 error

---
 ombott/request_pkg/body_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index a445409..c8fc2d0 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -252,9 +252,9 @@ class BodyMixin:
     def _body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1).strip().strip('"'))
         try:
+            if mp is not None:
+                markup = MultipartMarkup(mp.group(1).strip().strip('"'))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From e448da778e9de882f5217647429b581c2a176143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 16/47] fix: answer undecodable JSON bodies with a client error

---
 ombott/request_pkg/body_mixin.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index c8fc2d0..b7ac46b 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -159,7 +159,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError):
+                self._raise(BodyParsingError('Malformed JSON body'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
@@ -178,7 +181,11 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if isinstance(data, dict):
+                    post.update(data)
+                elif data is not None:
+                    self._raise(BodyParsingError('JSON object was expected'), RequestError)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From 109b453bf2d72a63d464c1ca05200a001e215b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 17/47] fix: never match a carriage return in a path as the
 wildcard token

---
 ombott/router/radidict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..165754b 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,7 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 539a14a1baef3ff5f9c1d28f357b5f681ee6e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 18/47] fix: reject rules with repeated wildcard names or a
 carriage return

---
 ombott/router/radirouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..439671b 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,7 +1,7 @@
 from enum import IntEnum
 from .radidict import RadiDict, DATA, HOOKS
 from .filter_factory import FilterFactory
-from .errors import RouteBuildError, RouteMethodError
+from .errors import RouteBuildError, RouteMethodError, RouteSyntaxError
 from .parser import Parser
 
 
@@ -189,10 +189,14 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                elif param in params:
+                    raise RouteSyntaxError(f'Wildcard name `{param}` is used twice in {rule!r}')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
                 filters_out.append(f_out)
+            elif '\r' in part:
+                raise RouteSyntaxError(f'Carriage return is not allowed in {rule!r}')
             pattern.append(part + filter_selector)
             pattern_out.append(part)
         return ''.join(pattern), params, filters, ''.join(pattern_out), filters_out
-- 
2.43.0


From 6575807abe63215223d9bec37709472a6eca057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 19/47] fix: call a handler with the wildcard names of the rule
 it was registered under

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 439671b..bc7af65 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        #: wildcard names of the rule the handler is registered under
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -320,7 +322,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -377,6 +379,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -385,9 +388,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From a0a2cfe0a2a0cfb9fdfa3992aca7ca2105cddc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 20/47] fix: build the error page URL without parsing the path
 as a URL

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..bbbff5a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From 98ce8ef39ee524acf6ce5188e52b3653ddbcda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 21/47] fix: match method names case-insensitively wherever a
 route is edited

---
 ombott/router/radirouter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index bc7af65..af70934 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -113,7 +113,7 @@ class Route:
         return ''.join(ret)
 
     def _set_methods(self, methods, handler, meta=None, params=None):
-        for meth in methods:
+        for meth in [m.upper() for m in methods]:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
     def set_method(self, method, handler, meta=None, params=None):
@@ -122,7 +122,7 @@ class Route:
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
-        registered = set(self._methods) & set(method)
+        registered = set(self._methods) & {m.upper() for m in method}
         if registered:
             registered_fullnames = {
                 m: self._methods[m].handler_fullname
@@ -144,7 +144,7 @@ class Route:
     def remove_method(self, method):
         if isinstance(method, str):
             method = [method]
-        [self._methods.pop(m, None) for m in method]
+        [self._methods.pop(m.upper(), None) for m in method]
 
     @property
     def methods(self):
@@ -154,7 +154,7 @@ class Route:
         if isinstance(method, str):
             method = [method]
         for name in method:
-            meth = self._methods.get(name)
+            meth = self._methods.get(name.upper())
             if meth:
                 return meth
         raise RouteMethodError()
-- 
2.43.0


From 38231610cdd985b5c506b8661a9d6a4e0646cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 22/47] fix: send no body with any 1xx status

---
 ombott/ombott.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..1eb9a47 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -386,7 +386,8 @@ class Ombott:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
+                response._status_code < 200
+                or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'] == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
-- 
2.43.0


From 43f10b70c66293f08711b246f4da947ae4bc97a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 23/47] fix: send no body when a HEAD request ends in the
 critical error page

---
 ombott/ombott.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1eb9a47..268bbe2 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -413,7 +413,7 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 4a87d71aa57641053f35e6368963aa1c396c2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 24/47] fix: close the handler iterable when the response
 cannot be started

---
 ombott/ombott.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 268bbe2..e7ca825 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -382,6 +382,7 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
+        out = None
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -390,10 +391,10 @@ class Ombott:
                 or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'] == 'HEAD'
             ):
-                close = getattr(out, 'close', None)
+                out, suppressed = [], out
+                close = getattr(suppressed, 'close', None)
                 if close:
                     close()
-                out = []
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
@@ -411,6 +412,12 @@ class Ombott:
                     % (html_escape(repr(_e)), html_escape(format_exc()))
                 )
             environ['wsgi.errors'].write(err)
+            try:
+                close = getattr(out, 'close', None)
+                if close:
+                    close()
+            except Exception:
+                environ['wsgi.errors'].write(format_exc())
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []
-- 
2.43.0


From d733dff68e232a4b0fe564843d5eb4d73425d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 25/47] fix: answer 500 when the first text chunk of a handler
 iterable cannot be encoded

---
 ombott/ombott.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index e7ca825..07c2f0b 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -346,6 +346,10 @@ class Ombott:
                 first = next(iout)
                 while not first:
                     first = next(iout)
+                if isinstance(first, str):
+                    charset = response.charset
+                    first = first.encode(charset)
+                    iout = map(lambda it: it.encode(charset), iout)
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
@@ -361,8 +365,6 @@ class Ombott:
                 out = first; continue                            # -----------------^
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
-            elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-- 
2.43.0


From 27849767aabd01363e8a175c5da24ceaa04ca7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 26/47] fix: copy responses with multi-valued headers

---
 ombott/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..94c57f5 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -95,7 +95,9 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        for name, value in self._headers.items():
+            copy._headers[name] = value[:] if isinstance(value, list) else value
         if self._cookies:
             copy._cookies = SimpleCookie()
             copy._cookies.load(self._cookies.output(header=''))
-- 
2.43.0


From ef3d4cea3cd7d15e7f5823d37aeee38ab3a1c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 27/47] fix: reject status lines with control characters or
 without a reason phrase

---
 ombott/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 94c57f5..c3eb325 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -137,8 +137,10 @@ class BaseResponse:
     def status(self, status):
         if isinstance(status, int):
             code, status = status, _HTTP_STATUS_LINES.get(status)
-        elif ' ' in status:
+        elif ' ' in status.strip():
             status = status.strip()
+            if any(c in status for c in '\r\n\0'):
+                raise ValueError('Status line must not contain control characters.')
             code = int(status.split()[0])
         else:
             raise ValueError('String status line without a reason phrase.')
-- 
2.43.0


From 12eae87a505ba3221cad80b3aba76331bdbfdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 28/47] fix: close a handler iterable whose first chunk is not
 sent

---
 ombott/ombott.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 07c2f0b..9accfd4 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -360,6 +360,11 @@ class Ombott:
                 # if not self.catchall: raise
                 first = HTTPError(500, 'Unhandled exception', err500, format_exc())
 
+            if not isinstance(first, bytes):  # the iterable itself is dropped
+                close = getattr(out, 'close', None)
+                if close:
+                    close()
+
             # These are the inner types allowed in iterator or generator objects.
             if isinstance(first, HTTPResponse):
                 out = first; continue                            # -----------------^
-- 
2.43.0


From a1f41c781a5e153965b09610077b52223ec64376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 29/47] fix: forget the previous request before an undecodable
 path is answered

---
 ombott/ombott.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 9accfd4..00b4366 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,16 +259,16 @@ class Ombott:
         response = self.response
         request = self.request
 
+        environ['ombott.app'] = self
+        request.__init__(environ)  # init thread
+        response.__init__()
         path = environ['ombott.raw_path'] = environ['PATH_INFO']
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From b3c8f8dab6ffc7bf655e06ccc82a48b27aef5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 30/47] fix: raise a fresh copy of the shared request error
 responses

---
 ombott/request_pkg/request.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..5669c50 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,6 +1,7 @@
 
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
+from ..response import HTTPResponse
 
 from .props_mixin import PropsMixin
 from .body_mixin import BodyMixin
@@ -41,10 +42,22 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                err = self._fresh(out_err)
                 break
         raise err
 
+    @staticmethod
+    def _fresh(err):
+        ''' The instances in errors_map are shared between all requests,
+            raising them as is would chain tracebacks (and environs) on them.
+
+        '''
+        if not isinstance(err, HTTPResponse):
+            return err
+        fresh = err.copy(cls=err.__class__)
+        fresh.body = err.body
+        return fresh
+
     @staticmethod
     def _on_env_changed(request, key, v):
         todelete = ()
-- 
2.43.0


From 4c82db294768b535a4d3532df24d78ecb3f6caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 31/47] fix: do not alias headers and cookies of a raised
 response

---
 ombott/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index c3eb325..add6c72 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -279,9 +279,10 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        for name, value in self._headers.items():
+            response._headers[name] = value[:] if isinstance(value, list) else value
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = SimpleCookie({k: c.copy() for k, c in self._cookies.items()})
         response.body = self.body
 
 
-- 
2.43.0


From 32737a2e6792c5bc31fef1330d7633bbf4d3f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 32/47] fix: select the thread-local store from the instance,
 not from the class

---
 ombott/common_helpers.py |  8 +++-----
 ombott/ombott.py         | 17 +++++++++++++++--
 ombott/static_stream.py  |  2 +-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..c39948a 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +84,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
diff --git a/ombott/ombott.py b/ombott/ombott.py
index 00b4366..5349a30 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -3,6 +3,7 @@ import json
 import functools
 from traceback import format_exc
 import itertools
+import threading
 from urllib.parse import urljoin
 
 from .common_helpers import (
@@ -390,6 +391,8 @@ class Ombott:
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
         out = None
+        outer_app = Globals.serving_app()
+        Globals.serving.app = self
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -428,6 +431,8 @@ class Ombott:
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []
+        finally:
+            Globals.serving.app = outer_app
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
@@ -448,8 +453,9 @@ def redirect(location, code=None):
         the HTTP protocol version.
 
     """
-    response = Globals.response
-    request = Globals.request
+    app = Globals.serving_app() or Globals
+    response = app.response
+    request = app.request
     url = location
     if not code:
         code = 303 if request.get('SERVER_PROTOCOL') == "HTTP/1.1" else 302
@@ -461,6 +467,13 @@ def redirect(location, code=None):
 
 
 class Globals:
+    serving = threading.local()
+
+    @classmethod
+    def serving_app(cls):
+        ''' The application that is serving a request in the current thread. '''
+        return getattr(cls.serving, 'app', None)
+
     app = Ombott()
     route = app.route
     on_route = app.on_route
diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..1ac0cf1 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -69,7 +69,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         :param charset: The charset to use for files with a ``text/*``
             mime-type. (default: UTF-8)
     """
-    request = Globals.request
+    request = (Globals.serving_app() or Globals).request
     os_path = os.path
     root = os_path.abspath(root) + os.sep
     filename = os_path.abspath(os_path.join(root, filename.strip('/\\')))
-- 
2.43.0


From 5484ad9715043f0f340e0113ca6bc578bdbd6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 33/47] fix: remove a route hook from a node that has no route
 of its own

---
 ombott/router/radidict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 165754b..8285d4f 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -345,9 +345,10 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
+        if hooks_only:
             node[HOOKS] = None
-            return
+            if node[DATA] is not None:
+                return
 
         stack.reverse()
         assert node is stack[0]
-- 
2.43.0


From c7363ca36aadb0a30251ac096bfe5fcd08453868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 34/47] fix: keep the route hook of a removed route

---
 ombott/router/radidict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 8285d4f..6663433 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -365,7 +365,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[IDX] or node[HOOKS]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From 1834e0264df4809a08be9ca2ae313b16f6f00378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 35/47] fix: drop every name of a route removed by object or by
 name

---
 ombott/router/radirouter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index af70934..efd523d 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -282,12 +282,13 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
         self.radidict.remove(route_pattern)
         if route:
             del self.routes[route.pattern]
+            self._remove_named_routers({route.pattern})
         else:
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
-- 
2.43.0


From 20519b6e6d0287070e75a9259873fe70ce0c63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 36/47] fix: check a route name before the route is registered

---
 ombott/router/radirouter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index efd523d..b938b7a 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -382,6 +382,9 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        registered = name and self.named_routes.get(name)
+        if not overwrite and registered and registered is not route_:
+            raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
         if route_:
             route = route_
         else:
@@ -394,9 +397,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From 4cea0561e6fa1fe17ba26315b6b9840dba12d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 37/47] fix: remove a route by name or object without reading a
 literal star as a wildcard

---
 ombott/router/radidict.py   | 4 ++--
 ombott/router/radirouter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 6663433..79f259e 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -322,10 +322,10 @@ class RadiDict:
             hooks = hooks, params = params, overwrite = overwrite
         )
 
-    def remove(self, route_pattern, hooks_only=False):
+    def remove(self, route_pattern, hooks_only=False, exact=False):
 
         is_wildcard = False
-        if route_pattern and route_pattern[-1] == '*':
+        if not exact and route_pattern and route_pattern[-1] == '*':
             route_pattern = route_pattern[:-1]
             is_wildcard = True
             if hooks_only:
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index b938b7a..5898b26 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -285,7 +285,7 @@ class RadiRouter:
             route = self.named_routes[name]
             route_pattern = route.pattern
 
-        self.radidict.remove(route_pattern)
+        self.radidict.remove(route_pattern, exact=bool(route))
         if route:
             del self.routes[route.pattern]
             self._remove_named_routers({route.pattern})
-- 
2.43.0


From be92fe63a0077a1bb0e8fea9cd4d441cbb946cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 38/47] fix: withhold forbidden entity headers whatever their
 letter case

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index add6c72..83afadd 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -155,7 +155,7 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].title() not in bad_headers)
             need_ctype = False
         else:
             need_ctype = 'Content-Type' not in self._headers
-- 
2.43.0


From bb6c014f1aebaa5e82332695ccd17ce3863d363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 39/47] fix: read back empty and non-ASCII plain cookies
 unchanged

---
 ombott/request_pkg/props_mixin.py | 4 +++-
 ombott/response.py                | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index bbbff5a..d3e1943 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -64,7 +64,9 @@ class PropsMixin:
         if secret and value:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        if value is None:
+            return default
+        return self.cookies.getunicode(key, value)
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
diff --git a/ombott/response.py b/ombott/response.py
index 83afadd..e8efaa7 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -232,7 +232,8 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
+        # SimpleCookie escapes Latin-1 only, see also `Request.get_cookie`
+        self._cookies[name] = value.encode('utf8').decode('latin1')
 
         for key, value in options.items():
             if key == 'max_age':
-- 
2.43.0


From fee0fb845ea4c3de1c64f9a076667aec746cd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 40/47] fix: parse HTTP dates independently of the local time
 zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index c39948a..e2bf506 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:8] + (0,)) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From c929cd2232e60551246976eb4d6039a787de5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 41/47] fix: validate built URL parts in the context of the
 whole URL

---
 ombott/router/radirouter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 5898b26..d3b3173 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -74,6 +74,7 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        to_check = {}
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -103,14 +104,23 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check[len(ret)] = f_in
             ret.append(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        url = ''.join(ret)
+        # each filter must accept its part exactly, as it will while matching the url
+        pos = 0
+        for idx, prt in enumerate(ret):
+            f_in = to_check.get(idx)
+            if f_in:
+                value, matched_len, _ = f_in(url[pos:])
+                assert value is not None and matched_len == len(prt)
+            pos += len(prt)
+        return url
 
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in [m.upper() for m in methods]:
-- 
2.43.0


From 4ec83bc964a00e59d5833bde4349336a5c411e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 42/47] fix: format float URL parts so that the float filter
 accepts them

---
 ombott/router/filter_factory.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..52e8feb 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,6 @@
+import math
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -26,12 +28,21 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float_out(x):
+    ''' Positional notation, the filter does not accept exponents. '''
+    x = float(x)
+    if math.isinf(x):
+        return f'{"-" if x < 0 else ""}1{"0" * 309}.0'
+    ret = format(Decimal(repr(x)), 'f')
+    return ret if '.' in ret else ret + '.0'
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 8fdda826118d09ccc31d4b7c229f8da1dfc010d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 43/47] fix: withhold exception and traceback from JSON errors
 unless debug is on

---
 ombott/ombott.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 5349a30..80188c6 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -224,8 +224,8 @@ class Ombott:
         if self.request.is_json_requested:
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
+                exception = repr(res.exception) if self.config.debug else None,
+                traceback = res.traceback if self.config.debug else None
             ))
             self.response.headers['Content-Type'] = 'application/json'
         else:
-- 
2.43.0


From 46199969fc4101d1dbb61f4529805b5994613a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 44/47] fix: answer the critical error in JSON when JSON is
 requested

---
 ombott/ombott.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 80188c6..2d7fc86 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -429,6 +429,13 @@ class Ombott:
             except Exception:
                 environ['wsgi.errors'].write(format_exc())
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            if (environ.get('HTTP_ACCEPT') or '').startswith('application/json'):
+                headers = [('Content-Type', 'application/json')]
+                err = json.dumps(dict(
+                    body = 'Critical error while processing request',
+                    exception = repr(_e) if self.config.debug else None,
+                    traceback = format_exc() if self.config.debug else None
+                ))
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []
         finally:
-- 
2.43.0


From 57ea637ea03ea854a26f46bfa25a36f6acb6c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 45/47] fix: static_file fails on an empty If-Modified-Since
 header

---
 ombott/static_stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 1ac0cf1..38a4f55 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,8 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
-        ims = parse_date(ims.split(";")[0].strip())
+    ims = parse_date(ims.split(";")[0].strip()) if ims else None
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
-- 
2.43.0


From f327bcfd08c0fa1afe4cbdad7971fb80923141f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 46/47] fix: read an emptied signed cookie as absent

---
 ombott/request_pkg/props_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index d3e1943..bca7a2b 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,8 +61,8 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
-            dec = cookie_decode(value, secret)  # (key, value) tuple or None
+        if secret:
+            dec = cookie_decode(value, secret) if value else None  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
         if value is None:
             return default
-- 
2.43.0


From c1bdbc1882e62b9cf42dea4a23f05c37714c51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 47/47] fix: route hooks after a filter selector got a wrong
 path prefix

---
 ombott/router/radidict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 79f259e..086b20f 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -384,6 +384,7 @@ class RadiDict:
         do_look_back = False
         selector = None
         i = 0
+        shift = 0  # route[i] is at (i + shift) in the path
         while True:
             while i < L:
                 idx = pnode[IDX]
@@ -423,11 +424,12 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([i + shift, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, params[:], hooks[:], shift, False]
                                 )
+                                shift += i - len(str(selector))
                                 route = str(selector) + route[i:]
                                 i = 0
                                 L = len(route)
@@ -441,7 +443,7 @@ class RadiDict:
                 # regular logic
                 if idx[-1] == TOKEN:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, params[:], hooks[:], shift, True]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -450,7 +452,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([i + shift, h])
                 else:
                     break  # while
 
@@ -468,7 +470,7 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, params, hooks, shift, look_type = look_back.pop()
                 do_look_back = look_type
             else:
                 return None if not allow_partial else (
-- 
2.43.0

