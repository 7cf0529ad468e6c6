From a2a082d17b1d636427a638b2c4340075148604c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 01/33] fix: end the base64 re-alignment loop when the content
 ends

A base64 file part whose length (without white space) is not a multiple of 4
made MultiPartParser.parse() loop for ever at the end of the part.
---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..51bb160 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -261,6 +261,9 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        #the content ends inside a group of 4
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 6bc8cfe6e3f3eb71bf64c80f5957dbdec566dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 02/33] fix: re-raise errors as the exception they are meant to
 be

six.reraise() takes (type, value, traceback). Called with an instance and the
original exception it raised TypeError: an I/O error of the request stream came
out of body(), read() and readline() as TypeError and not UnreadablePostError,
undecodable base64 not as MultiPartParserError, a wrong handler path not as
ImportError and a wrong date not as ValueError.
---
 request_parser/http/multipartparser.py | 3 ++-
 request_parser/http/request.py         | 7 ++++---
 request_parser/utils/http.py           | 3 ++-
 request_parser/utils/module_loading.py | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 51bb160..1cd7fb3 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import sys
 
 from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
@@ -271,7 +272,7 @@ class MultiPartParser:
                                     chunk = base64.b64decode(stripped_chunk)
                                 except Exception as exc:
                                     # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                    raise_from(MultiPartParserError, MultiPartParserError("Could not decode base64 data."), sys.exc_info()[2])
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..89a9ba6 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -1,5 +1,6 @@
 import copy
 import re
+import sys
 import warnings
 from io import BytesIO
 from itertools import chain
@@ -384,7 +385,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -570,14 +571,14 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
             #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
 
     def __iter__(self):
         return iter(self.readline, b'')
diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..ee6b912 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -2,6 +2,7 @@ import base64
 import calendar
 import datetime
 import re
+import sys
 import unicodedata
 from binascii import Error as BinasciiError
 from email.utils import formatdate
@@ -169,7 +170,7 @@ def parse_http_date(date):
         return calendar.timegm(result.utctimetuple())
     except Exception as exc:
         #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+        raise_(ValueError, ValueError("%r is not a valid date" % date), sys.exc_info()[2])
 
 
 def parse_http_date_safe(date):
diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..06302b5 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -1,5 +1,6 @@
 import copy
 import os
+import sys
 from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
@@ -15,7 +16,7 @@ def import_string(dotted_path):
         module_path, class_name = dotted_path.rsplit('.', 1)
     except ValueError as err:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise_(ImportError, ImportError("%s doesn't look like a module path" % dotted_path), sys.exc_info()[2])
 
     module = import_module(module_path)
 
@@ -25,7 +26,7 @@ def import_string(dotted_path):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise_(ImportError, ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name)), sys.exc_info()[2])
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From ea9d5058ed26f702e858ed98df22e49306857119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 03/33] fix: keep uploaded files that are empty

A File's truth value is its length on Python 2 (__bool__ is not looked at), so
handle_file_complete() dropped the file object of every empty upload.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1cd7fb3..b422811 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -325,7 +325,7 @@ class MultiPartParser:
         """
         for i, handler in enumerate(self._upload_handlers):
             file_obj = handler.file_complete(counters[i])
-            if file_obj:
+            if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
                 break
-- 
2.43.0


From 1f566f953c22a0bbef9dd01eae6defd2a80c7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 04/33] fix: use up parts without a field name or a file name

What the parser had not read yet of such a part was parsed as a part of its
own: content that looked like a part header became a form field or a file,
depending on where the chunks happened to end.
---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index b422811..7444867 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -160,6 +160,8 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    #use up the part, or its rest is read as another part
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -226,6 +228,7 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 5eb59eb432ae947e799e7cc66963db39d4094fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 05/33] fix: report a missing multipart boundary as
 MultiPartParserError

Without a boundary parameter the error path itself failed with AttributeError
('NoneType' object has no attribute 'decode').
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 7444867..90737d8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -65,7 +65,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From 72d24723d5b49480f8d2c7857d196c88c2b43c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 06/33] fix: keep the raw data of base64 fields that do not
 decode

base64.b64decode() reports bad input as TypeError on Python 2, which escaped
from the parser; the intended fallback is the raw data.
---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 90737d8..a081172 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -192,7 +192,8 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (TypeError, binascii.Error):
+                            #b64decode() raises TypeError on Python 2
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From c3414781bd89863ab8023baf54eb632c06a5802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 07/33] fix: do not complete a file whose delimiter never
 arrived

When the input ended inside a part, its last bytes were pushed back and came
out as another, empty part. That part made the truncated file complete: it was
handed out without its last bytes.
---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a081172..f148fae 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -447,7 +447,8 @@ class BoundaryIter:
             # its separators) as data
 
             #if there's no data from beginning to end - 6
-            if not chunk[:-rollback]:  # and len(chunk) >= (len(self._boundary) + 6):
+            #or nothing is to follow in which the rest of a boundary could be
+            if self._done or not chunk[:-rollback]:  # and len(chunk) >= (len(self._boundary) + 6):
                 # There's nothing left, we should just return and mark as done.
                 self._done = True
                 return chunk
-- 
2.43.0


From c4c793052bb53eb2dab452e2a072f3be6e59cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 08/33] fix: let requests be read line by line

HttpRequest.readline(), iteration, xreadlines() and readlines() all call
readline() of the request's LazyStream, which did not have one.
---
 request_parser/utils/datastructures.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..f0e5ef1 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -411,6 +411,28 @@ class LazyStream:
         self.position += len(output)
         return output
 
+    def readline(self, size=None):
+        """
+        Return the bytes up to and including the next newline, the rest of the
+        stream if there's none, and no more than size bytes if size is given.
+        """
+        parts = []
+        remaining = size if size is not None and size >= 0 else None
+        while remaining != 0:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1 or len(chunk)
+            if remaining is not None:
+                end = min(end, remaining)
+                remaining -= end
+            self.unget(chunk[end:])
+            parts.append(chunk[:end])
+            if parts[-1].endswith(b'\n'):
+                break
+        return b''.join(parts)
+
     def close(self):
         """
         Used to invalidate/disable this lazy stream.
-- 
2.43.0


From 1f897a9212df79e26962ae9a332a4fe484c9dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 09/33] fix: encode unicode strings in force_str()

A file name given as filename*=UTF-8''... is a unicode string; str() of it
failed with UnicodeEncodeError for any character outside ASCII.
---
 request_parser/utils/encoding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..33465ee 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -51,6 +51,9 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
             s = str(s, encoding, errors)
         else:
             s = str(s)
+    except UnicodeEncodeError:
+        #a unicode string with characters outside ASCII
+        s = s.encode(encoding, errors)
     except UnicodeDecodeError as e:
         raise DjangoUnicodeDecodeError(s, *e.args)
     return s
-- 
2.43.0


From 55416de45b5fbd10711952ccee4b2493b8c6ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 10/33] fix: create temporary files whatever the client's file
 extension is

The extension of the uploaded file's name is used for the temporary file. One
that is too long for a file name, or has a NUL in it, made the upload fail.
---
 request_parser/files/uploadedfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..1c7f329 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,6 +3,7 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
@@ -56,6 +57,8 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        #the extension is the client's: make sure that a file can have it
+        ext = re.sub(r'[^A-Za-z0-9._-]', '_', ext)[:128]
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-- 
2.43.0


From cf68519f28d2fbd08a4ff73342761d03f2d852b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 11/33] fix: accept bodies of any size if
 DATA_UPLOAD_MAX_MEMORY_SIZE is None

None means no limit, as the multipart parser and the field count have it, but
body() compared sizes with it, and everything is greater than None on Python 2.
---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 89a9ba6..341aae5 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -373,21 +373,21 @@ class HttpRequest(object,):
 
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             read_size = 0
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
-                        chunk:
+                while (max_size is None or read_size <= max_size) and chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
                 raise_(UnreadablePostError, UnreadablePostError(*e.args), sys.exc_info()[2])
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From 68201c52d74fa56d3420bd2981d986907ed18ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 12/33] fix: do not read what a multipart parse has left of the
 stream

After StopUpload(connection_reset=True), or a handler that parses the input
itself, parse_request_body() went on to read the rest of the stream into
memory, and failed if that was more than DATA_UPLOAD_MAX_MEMORY_SIZE.
---
 request_parser/http/request.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 341aae5..d0d07b2 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -542,13 +542,11 @@ class HttpRequest(object,):
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
-        #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
+        #the body of a multipart request has been consumed, or what's left of it
+        #isn't wanted
+        if self.content_type != 'multipart/form-data':
             self._body = self.body().decode(self.encoding)
-        else:
-            self._body = self.body().decode(self.encoding)
-        
+
         self._request_body_parsed = True
         self.POST = self._post
         self.FILES = self._files
-- 
2.43.0


From 58105b8b05876bd5a837188b3071a047b02b18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 13/33] fix: only a complete request header counts as parsed

The flag was set after the first few bytes of the header, so that the body of a
request whose header had been refused, or had failed to arrive, was parsed (as
no particular content type) and reported as a success.
---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index d0d07b2..183afcd 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -416,7 +416,6 @@ class HttpRequest(object,):
         request_header_end = -1
         while request_header_end == -1:
             chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
-            self._request_header_parsed = True
             if not chunk:
                 break
             
@@ -488,6 +487,7 @@ class HttpRequest(object,):
         self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
+        self._request_header_parsed = True
 
     def _mark_post_parse_error(self):
         self._post = QueryDict(self.settings)
-- 
2.43.0


From 072936d4ca3b49c901662982e2082a9461ee7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 14/33] fix: forget the earlier request when a new stream is
 set

_body was kept: the body of a second request was that of the first one, which
was decoded once more. POST and FILES were kept if the second request had no
body, or could not be parsed.
---
 request_parser/http/request.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 183afcd..5437b31 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -224,8 +224,7 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
-        possible.
+        The body of the earlier request (POST, FILES and _body) is dropped too.
         """
         self._stream = val
         #create a LazyStream out of the _stream
@@ -235,6 +234,11 @@ class HttpRequest(object,):
 
         #reset the header META data
         self._reset_header_meta_data()
+        #reset the body
+        if hasattr(self, '_body'):
+            del self._body
+        self.POST = QueryDict(self.settings, mutable=True)
+        self.FILES = MultiValueDict()
         #reset parse status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
@@ -278,8 +282,7 @@ class HttpRequest(object,):
     def _reset_header_meta_data(self):
         """
         Remove the listed below META data for a parser instance.
-        Note that the POST, FILES and _body are exempt because they're context
-        dependant.
+        Note that the POST, FILES and _body are reset by the setter itself.
 
         Called by stream.setter to reset parser status.
         """
-- 
2.43.0


From 24b4c6460ed0587c252f09bb48c916a28716fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 15/33] fix: keep a request's charset out of the shared
 settings

The charset of a Content-Type header, and HttpRequest.encoding, were written to
the Settings object the caller passed in: all later, and concurrent, requests
with these settings were decoded with it. The charset belongs to the request
now, and ends with it. GET is decoded again when the charset is set: it was
deleted and came back only with the next header.
---
 request_parser/http/multipartparser.py |  2 +-
 request_parser/http/request.py         | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f148fae..5fd0a5d 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -130,7 +130,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=encoding)
         self._files = MultiValueDict()
 
         # Instantiate the stream:
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5437b31..2d6aab8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -83,6 +83,9 @@ class HttpRequest(object,):
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
 
+        #charset of this request, if it's not the one of the settings
+        self._encoding = None
+
         self._re_init()
 
     def _re_init(self):
@@ -189,7 +192,7 @@ class HttpRequest(object,):
 
     @property
     def encoding(self):
-        return self.settings.DEFAULT_CHARSET
+        return self._encoding or self.settings.DEFAULT_CHARSET
 
     @encoding.setter
     def encoding(self, val):
@@ -201,9 +204,10 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
-        self.settings.DEFAULT_CHARSET = val
-        if hasattr(self, 'GET'):
-            del self.GET
+        #the settings may be those of other requests too
+        self._encoding = val
+        query_string = self.META.get(MetaDict.Info.QUERY_STRING)
+        self.GET = QueryDict(self.settings, query_string, mutable=not query_string, encoding=self.encoding)
         if hasattr(self, '_post'):
             del self._post
         if hasattr(self, '_body'):
@@ -232,6 +236,8 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #reset the charset
+        self._encoding = None
         #reset the header META data
         self._reset_header_meta_data()
         #reset the body
@@ -487,7 +493,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
         self._request_header_parsed = True
@@ -621,7 +627,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From 2fcbfdd4f268022f2f15e70556bee32fdf5600dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 16/33] fix: use the upload handlers that were set on the
 request

parse_request_body() always replaced them by those of the settings, and the
getter failed with AttributeError before that.
---
 request_parser/http/request.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 2d6aab8..6c7ff4f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -83,6 +83,10 @@ class HttpRequest(object,):
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
 
+        #upload handlers, which serve one parse
+        self._upload_handlers = []
+        self._upload_handlers_used = False
+
         #charset of this request, if it's not the one of the settings
         self._encoding = None
 
@@ -346,9 +350,10 @@ class HttpRequest(object,):
 
     @upload_handlers.setter
     def upload_handlers(self, upload_handlers):
-        if hasattr(self, '_files'):
+        if self._request_body_parsed:
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
+        self._upload_handlers_used = False
 
     def parse(self):
         """
@@ -362,6 +367,7 @@ class HttpRequest(object,):
     def _parse_file_upload(self, META, post_data):
         """Return a tuple of (POST QueryDict, FILES MultiValueDict)."""
         parser = MultiPartParser(META, post_data, self.upload_handlers, self.settings ,self.encoding)        
+        self._upload_handlers_used = True
         return parser.parse()
     
     def body(self):
@@ -511,8 +517,9 @@ class HttpRequest(object,):
         if self._request_body_parsed:
             return
         
-        #initialize the upload_hanldlers
-        self._initialize_handlers()
+        #initialize the upload_hanldlers, unless they were set for this parse
+        if self._upload_handlers_used or not self._upload_handlers:
+            self._initialize_handlers()
 
         #if header not parsed already
         #if parse_request_body is called, then it means
-- 
2.43.0


From ac5646ef01bb89857859bcc9e19f7ee515a95d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 17/33] fix: on SkipFile and StopUpload close the unfinished
 files only

A handler's 'file' may be that of an earlier upload which is complete and
handed out: it was closed (and deleted) when a later file was skipped before
the handler had started it. On the other hand the default handler had no
'file', so that its temporary file was left open on disk.
---
 request_parser/files/uploadhandler.py  | 11 ++++++++---
 request_parser/http/multipartparser.py |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..94e36fa 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -211,6 +211,11 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
         self._received_data_size = 0
         self._switched_to_temp_file = False
     
+    @property
+    def file(self):
+        #the file being received, which the parser closes if it's given up
+        return self._handler.file
+
     def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
         #We grab the settings object and call the handler's handle_raw_input to activate it.
         self._settings = settings
@@ -242,14 +247,14 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
             #create a new file
             temp_upload_handler.new_file(self._handler.field_name, self._handler.file_name, self._handler.content_type, 0, self._handler.charset, self._handler.content_type_extra, self._handler.transfer_encoding)
 
-            #stream all of the read data into the temp file
-            temp_upload_handler.receive_data_chunk(content, 0)
-
             #reset the current file handler
             self._handler = temp_upload_handler
 
             #flag that we've switched to temp file
             self._switched_to_temp_file = True
+
+            #stream all of the read data into the temp file
+            temp_upload_handler.receive_data_chunk(content, 0)
         
         #stream the raw into the current handle
         self._handler.receive_data_chunk(raw_data, start)
diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 5fd0a5d..21542fa 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -343,8 +343,11 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        completed = [id(f) for files in self._files.lists() for f in files[1]]
+        completed += [id(f.file) for files in self._files.lists() for f in files[1] if hasattr(f, 'file')]
         for handler in self._upload_handlers:
-            if hasattr(handler, 'file'):
+            #the file may be one that was completed before
+            if hasattr(handler, 'file') and id(handler.file) not in completed:
                 handler.file.close()
 
 class InterBoundaryIter:
-- 
2.43.0


From 7b9dc38338ef8732b55e44c0eff5b13393112a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 18/33] fix: remove the temporary files of failed and
 interrupted uploads

When parsing failed (stream error, limit exceeded, bad data, full disk) the
files received so far, and the one being received, were neither handed out nor
closed and stayed on disk; so did the last file of a body that was cut off.
---
 request_parser/http/multipartparser.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 21542fa..4b7f886 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -100,6 +100,15 @@ class MultiPartParser:
 
         Return a tuple containing the POST and FILES dictionary, respectively.
         """
+        try:
+            return self._parse()
+        except:
+            #no file of a failed upload is handed out
+            exc_info = sys.exc_info()
+            self._discard_files()
+            raise_from(*exc_info)
+
+    def _parse(self):
         from request_parser.http.request import QueryDict
 
         encoding = self._encoding
@@ -314,6 +323,9 @@ class MultiPartParser:
         else:
             # Make sure that the request data is all fed
             exhaust(self._input_data)
+            if old_field_name:
+                # The input ended before the file did.
+                self._close_files()
 
         # Signal that the upload has completed.
         # any() shortcircuits if a handler's upload_complete() returns a value.
@@ -350,6 +362,17 @@ class MultiPartParser:
             if hasattr(handler, 'file') and id(handler.file) not in completed:
                 handler.file.close()
 
+    def _discard_files(self):
+        # Free up all files, complete or not, of an upload that has failed.
+        files = [f for l in self._files.lists() for f in l[1]] if hasattr(self, '_files') else []
+        files += [handler.file for handler in self._upload_handlers if hasattr(handler, 'file')]
+        for f in files:
+            try:
+                f.close()
+            except Exception:
+                # The failure that matters is that of the upload.
+                pass
+
 class InterBoundaryIter:
     """
     A Producer that will iterate over boundaries.
-- 
2.43.0


From 9a5bef07fe03eae66ebfd92f6ac80a9e89a98bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 19/33] fix: let an uploaded file be closed after it was moved
 or deleted

unlink() of the temporary file raises OSError, which is no IOError on Python 2,
so that close() failed, and HttpRequest.close() left the other files open.
---
 request_parser/files/uploadedfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 1c7f329..6a05182 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -72,7 +72,7 @@ class TemporaryUploadedFile(UploadedFile, object):
     def close(self):
         try:
             return self.file.close()
-        except IOError:
+        except (IOError, OSError):
             # The file was moved or deleted before the tempfile could unlink
             # it. Still sets self.file.close_called and calls
             # self.file.file.close() before the exception.     
-- 
2.43.0


From b31ba9581bc9abdc79a0c7c2566dbe80fadd0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 20/33] fix: do not reopen a closed upload by the client's file
 name

A closed temporary upload is gone, but open() looked for a file with the name
the client had sent in the working directory, and opened that instead.
---
 request_parser/files/uploadedfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6a05182..8ac2a43 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -69,6 +69,12 @@ class TemporaryUploadedFile(UploadedFile, object):
         """Return the full path of this file."""
         return self.file.name
 
+    def open(self, mode=None):
+        #closed means deleted, and the name is the client's: whatever has that name here is another file
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        return super(TemporaryUploadedFile, self).open(mode)
+
     def close(self):
         try:
             return self.file.close()
-- 
2.43.0


From b1311b436a6470979fffd12b861699f3cd4866ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 21/33] fix: make the upload directory check report, clean up
 and run in parallel

OSErrors of mkdir() and remove() escaped instead of InvalidDirectory, also when
another thread or process had just made the directory. The probe file had a
fixed name: an existing file of that name was overwritten and removed, parallel
checks removed each other's, and it was left behind if it could not be written.
---
 request_parser/conf/settings.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..badc508 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -1,5 +1,6 @@
 from os.path import normpath, isdir, join, isabs
-from os import errno, mkdir, remove
+from os import errno, fdopen, mkdir, remove
+from tempfile import mkstemp
 from request_parser.files.utils import get_abs_path
 
 class InvalidDirectory(Exception):
@@ -133,14 +134,24 @@ class Settings:
             try:
                 #check if directory exists if not create
                 if not isdir(file_upload_dir):
-                    mkdir(file_upload_dir)
-                            
-                test_file_path = join(file_upload_dir, "acdr423x.tmp")        
-                test_file = open(test_file_path, "w+")
-                test_file.write("Permissions Check!")
-                test_file.close()
-                remove(test_file_path)                
-            except IOError as ioError:
+                    try:
+                        mkdir(file_upload_dir)
+                    except OSError:
+                        #someone else may have been faster
+                        if not isdir(file_upload_dir):
+                            raise
+
+                #checks may run in parallel: each has a file of its own
+                test_fd, test_file_path = mkstemp(suffix=".tmp", prefix="acdr423x", dir=file_upload_dir)
+                try:
+                    test_file = fdopen(test_fd, "w+")
+                    try:
+                        test_file.write("Permissions Check!")
+                    finally:
+                        test_file.close()
+                finally:
+                    remove(test_file_path)
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From e97de83c9faeb6a17b569e3f257752b4fb5b2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 22/33] fix: keep multipart fields whose name is not ASCII

bytes_to_text() encoded bytes that were encoded already. With charset=utf-8
(or utf-16, for any name) the field was stored under a garbled name, and its
value was lost, as it was appended under the name before.
---
 request_parser/http/request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 6c7ff4f..0984a1b 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -786,7 +786,8 @@ def bytes_to_text(s, encoding):
     """
     if isinstance(s, bytes):
         #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        #bytes are strings on Python 2, and these are in the encoding already
+        return str(s)
     else:
         return s
 
-- 
2.43.0


From c13b5f1cc11d6f2f05499f8cea39a0a521e9f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 23/33] fix: recognise Host, Content-Type and Content-Length in
 any letter case

---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 4b7f886..d19a46e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -58,7 +58,7 @@ class MultiPartParser:
 
         # Content-Type should contain multipart and the boundary information.
         content_type = META.get('Content-Type', '')
-        if not content_type.startswith('multipart/'):
+        if not content_type.lower().startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0984a1b..20013c8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -812,6 +812,13 @@ def split_domain_port(host):
     domain = domain[:-1] if domain.endswith('.') else domain
     return domain, port
 
+#the headers that are looked up by name
+KNOWN_HEADERS = {
+    'host'           : 'Host',
+    'content-type'   : 'Content-Type',
+    'content-length' : 'Content-Length'
+}
+
 def parse_request_headers(request_header_stream):
     """
     Parse the request header's individual headers into key, value-list
@@ -845,6 +852,8 @@ def parse_request_headers(request_header_stream):
         if end_index != -1:
             header =  request_header[:end_index]
             header = header.encode('ascii','')
+            #header names are case-insensitive
+            header = KNOWN_HEADERS.get(header.lower(), header)
             value = request_header[end_index+1:]
             value = value.strip()
             value = value.encode('ascii','')
-- 
2.43.0


From 620b2d235bc63cb700fd9c433137694dd4541d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 24/33] fix: refuse codecs that are no character encodings as
 charsets

---
 request_parser/http/multipartparser.py |  3 ++-
 request_parser/http/request.py         |  3 ++-
 request_parser/utils/encoding.py       | 21 +++++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index d19a46e..f8f549a 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -20,7 +20,7 @@ from request_parser.files.uploadhandler import (
     SkipFile, StopFutureHandlers, StopUpload,
 )
 from request_parser.utils.datastructures import MultiValueDict
-from request_parser.utils.encoding import force_text
+from request_parser.utils.encoding import check_charset, force_text
 from request_parser.utils.text import unescape_entities
 from request_parser.utils.datastructures import LazyStream, ChunkIter
 
@@ -626,6 +626,7 @@ def parse_header(line):
             value = p[i + 1:].strip()
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
+                check_charset(encoding)
                 #will come back to bite us. Investigate -> DONE
                 value = unquote(value.decode(), encoding=encoding.decode())
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 20013c8..fae0ee1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -13,7 +13,7 @@ from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
-from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
+from request_parser.utils.encoding import check_charset, escape_uri_path, iri_to_uri, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
@@ -495,6 +495,7 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
+                    check_charset(value)
                     self.encoding = value
                     break
 
diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 33465ee..b7b8f1b 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -20,6 +20,27 @@ def force_text(s, encoding='utf-8', strings_only=False, errors='strict'):
     return force_str(s, encoding, strings_only, errors)
 
 
+#codecs of Python that are no character encodings of a text
+_NO_CHARSETS = frozenset((
+    'base64', 'bz2', 'hex', 'idna', 'punycode', 'quopri', 'rot-13',
+    'string-escape', 'uu', 'zlib',
+))
+
+
+def check_charset(charset):
+    """
+    Raise LookupError if charset is the name of a codec that isn't a character
+    encoding (as decoding does on Python 3). A name that isn't known at all is
+    left to the decoding.
+    """
+    try:
+        name = codecs.lookup(charset).name
+    except (LookupError, ValueError):
+        return
+    if name.replace('_', '-') in _NO_CHARSETS:
+        raise LookupError("%r is not a character encoding" % (charset,))
+
+
 _PROTECTED_TYPES = (
     type(None), int, float, Decimal, datetime.datetime, datetime.date, datetime.time,
 )
-- 
2.43.0


From 757ce7a93ada90148302b6dd11e8bb7ba274d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 25/33] fix: an escaped quote in a parameter of a part header
 swallowed the parameters after it

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f8f549a..a14325f 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -655,7 +655,8 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        #an escaped " (\") inside a quoted string doesn't count
+        while end > 0 and s[:end].replace(b'\\\\', b'').replace(b'\\"', b'').count(b'"') % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From af0b995cde7f71b5b5fe1eb06ccf8c52995fc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 26/33] fix: parsing the body after a call of body() saw an
 empty one

---
 request_parser/http/request.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index fae0ee1..74ccf35 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -532,6 +532,9 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
+        #body() has read the stream already
+        if hasattr(self, '_body'):
+            body_stream = LazyStream(BytesIO(self._body))
         data = body_stream.read(1)
 
         #check if the body is empty
-- 
2.43.0


From 566b1945ddd28aedca936caff6a5e2a06905b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 27/33] fix: a file claimed by an upload handler still reached
 those behind it

---
 request_parser/http/multipartparser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a14325f..20de2b1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -162,7 +162,7 @@ class MultiPartParser:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
-                    self.handle_file_complete(old_field_name, counters)
+                    self.handle_file_complete(old_field_name, counters[:len(file_handlers)])
                     old_field_name = None
 
                 try:
@@ -251,8 +251,10 @@ class MultiPartParser:
                         content_length = None
 
                     counters = [0] * len(handlers)
+                    #a handler that claims the file hides it from those behind it
+                    file_handlers = handlers
                     try:
-                        for handler in handlers:
+                        for i, handler in enumerate(handlers):
                             try:
                                 handler.new_file(
                                     field_name, file_name, content_type,
@@ -262,6 +264,7 @@ class MultiPartParser:
                             #if a handler is handling a new file, it raises StopFutureHandlers
                             #to prevent others from handling it
                             except StopFutureHandlers:
+                                file_handlers = handlers[:i + 1]
                                 break
 
                         for chunk in field_stream:
@@ -287,7 +290,7 @@ class MultiPartParser:
                                     # Since this is only a chunk, any error is an unfixable error.                                
                                     raise_from(MultiPartParserError, MultiPartParserError("Could not decode base64 data."), sys.exc_info()[2])
 
-                            for i, handler in enumerate(handlers):
+                            for i, handler in enumerate(file_handlers):
                                 chunk_length = len(chunk)
                                 #stream data into the temp file
                                 chunk = handler.receive_data_chunk(chunk, counters[i])
@@ -339,8 +342,8 @@ class MultiPartParser:
         """
         Handle all the signaling that takes place when a file is complete.
         """
-        for i, handler in enumerate(self._upload_handlers):
-            file_obj = handler.file_complete(counters[i])
+        for handler, counter in zip(self._upload_handlers, counters):
+            file_obj = handler.file_complete(counter)
             if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
-- 
2.43.0


From eac243b819c4120270404f5494b45a0e60d68ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 28/33] fix: temporary files of handlers behind the one that
 returned the file were left

---
 request_parser/http/multipartparser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 20de2b1..8c49861 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -342,11 +342,13 @@ class MultiPartParser:
         """
         Handle all the signaling that takes place when a file is complete.
         """
-        for handler, counter in zip(self._upload_handlers, counters):
+        for i, (handler, counter) in enumerate(zip(self._upload_handlers, counters)):
             file_obj = handler.file_complete(counter)
             if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
+                # What the handlers behind it have received isn't needed.
+                self._close_files(self._upload_handlers[i + 1:])
                 break
 
     #What the hell is this for?
@@ -354,13 +356,13 @@ class MultiPartParser:
         """Cleanup filename from Internet Explorer full paths."""
         return filename and filename[filename.rfind("\\") + 1:].strip()
 
-    def _close_files(self):
+    def _close_files(self, handlers=None):
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
         completed = [id(f) for files in self._files.lists() for f in files[1]]
         completed += [id(f.file) for files in self._files.lists() for f in files[1] if hasattr(f, 'file')]
-        for handler in self._upload_handlers:
+        for handler in self._upload_handlers if handlers is None else handlers:
             #the file may be one that was completed before
             if hasattr(handler, 'file') and id(handler.file) not in completed:
                 handler.file.close()
-- 
2.43.0


From 939a164cf6859a9b2a9e31fbc8fdd9f6f0664d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 29/33] fix: character references in file names ignored the
 charset, and large ones were a TypeError

---
 request_parser/http/multipartparser.py |  2 +-
 request_parser/utils/text.py           | 26 ++++++++++++--------------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 8c49861..bcdd22d 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -236,7 +236,7 @@ class MultiPartParser:
                     file_name = disposition.get('filename')
                     if file_name:
                         file_name = force_text(file_name, encoding, errors='replace')
-                        file_name = self.IE_sanitize(unescape_entities(file_name))
+                        file_name = self.IE_sanitize(unescape_entities(file_name, encoding))
                     if not file_name:
                         exhaust(field_stream)
                         continue
diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..0e948f1 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -3,23 +3,21 @@ import htmlentitydefs
 
 _entity_re = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")
 
-def _replace_entity(match):
+def _replace_entity(match, encoding):
     text = match.group(1)
-    if text[0] == '#':
-        text = text[1:]
-        try:
+    try:
+        if text[0] == '#':
+            text = text[1:]
             if text[0] in 'xX':
                 c = int(text[1:], 16)
             else:
                 c = int(text)
-            return chr(c)
-        except ValueError:
-            return match.group(0)
-    else:
-        try:
-            return chr(htmlentitydefs.name2codepoint[text])
-        except (ValueError, KeyError):
-            return match.group(0)
+        else:
+            c = htmlentitydefs.name2codepoint[text]
+        #the text is in the given encoding
+        return chr(c) if c < 128 else unichr(c).encode(encoding)
+    except (ValueError, OverflowError, LookupError):
+        return match.group(0)
 
-def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+def unescape_entities(text, encoding='iso-8859-1'):
+    return _entity_re.sub(lambda match: _replace_entity(match, encoding), str(text))
-- 
2.43.0


From b45ca9eb76537bce0d5905698b019a777b3ba4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 30/33] fix: an interrupted parse shows the form without the
 files

The request was marked as parsed before its form and files were set, one after
the other: an exception from outside in between (a signal, a time limit) left
a form without files, or an empty request that counts as parsed.
---
 request_parser/http/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 74ccf35..dc6ed28 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -567,9 +567,10 @@ class HttpRequest(object,):
         if self.content_type != 'multipart/form-data':
             self._body = self.body().decode(self.encoding)
 
+        #the form and the files appear together, or a parse that is interrupted
+        #here would leave one without the other
+        self.POST, self.FILES = self._post, self._files
         self._request_body_parsed = True
-        self.POST = self._post
-        self.FILES = self._files
         return
 
     def close(self):
-- 
2.43.0


From feb5e080f096464a2bf776110140fc00624d0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 31/33] fix: running out of memory is reported as undecodable
 base64

Only what b64decode() raises for bad data is a parser error. MemoryError, or an
exception from a signal handler, came out as 'Could not decode base64 data.'
---
 request_parser/http/multipartparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index bcdd22d..eb3e73a 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -286,8 +286,9 @@ class MultiPartParser:
 
                                 try:
                                     chunk = base64.b64decode(stripped_chunk)
-                                except Exception as exc:
-                                    # Since this is only a chunk, any error is an unfixable error.                                
+                                except (TypeError, binascii.Error):
+                                    # Since this is only a chunk, any error is an unfixable error.
+                                    # (Any other exception isn't about the data.)
                                     raise_from(MultiPartParserError, MultiPartParserError("Could not decode base64 data."), sys.exc_info()[2])
 
                             for i, handler in enumerate(file_handlers):
-- 
2.43.0


From af3408d807f48e7600087b4f8a37e370cf56c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 32/33] fix: take back a condition that could never be true
 (c341478)

When the input ends in BoundaryIter.next(), what was read since the last push
back is never longer than the rollback, so the condition changed nothing: the
file was not completed before c341478 either.
---
 request_parser/http/multipartparser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb3e73a..b921c05 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -479,8 +479,7 @@ class BoundaryIter:
             # its separators) as data
 
             #if there's no data from beginning to end - 6
-            #or nothing is to follow in which the rest of a boundary could be
-            if self._done or not chunk[:-rollback]:  # and len(chunk) >= (len(self._boundary) + 6):
+            if not chunk[:-rollback]:  # and len(chunk) >= (len(self._boundary) + 6):
                 # There's nothing left, we should just return and mark as done.
                 self._done = True
                 return chunk
-- 
2.43.0


From 48324daeac39c0936543f896fac9dddb2489f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 33/33] fix: a field limit of 0 did not hold for queries and
 form-encoded bodies

Only None means no limit, and multipart forms were refused already.
---
 request_parser/utils/http.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index ee6b912..de520f0 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -399,9 +399,10 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
     fields_limit: maximum number of fields parsed or an exception
         is raised. None means no limit and is the default.
     """
-    if fields_limit:
-        pairs = FIELDS_MATCH.split(qs, fields_limit)
-        if len(pairs) > fields_limit:
+    if fields_limit is not None:
+        #a maximum of 0 splits is none for split()
+        pairs = FIELDS_MATCH.split(qs, fields_limit or 1)
+        if qs and len(pairs) > fields_limit:
             raise TooManyFieldsSent(
                 'The number of GET/POST parameters exceeded '
                 'settings.DATA_UPLOAD_MAX_NUMBER_FIELDS.'
-- 
2.43.0

