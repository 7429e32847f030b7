From c03336edffc33b3c9350c54f001b89397783aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 01/69] fix: stop waiting for more base64 data once a file part
 is exhausted

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..e3a7b55 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -261,6 +261,8 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 47766633f88e109f1f08b8f82938e32c4fbd2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 02/69] fix: raise the intended exception where six.reraise was
 misused for "raise from"

---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 2 +-
 request_parser/utils/http.py           | 2 +-
 request_parser/utils/module_loading.py | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index e3a7b55..3fad897 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -8,7 +8,7 @@ import base64
 import binascii
 import cgi
 
-from six import reraise as raise_from
+from six import raise_from
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..ca820de 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,7 +16,7 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
-from six import reraise as raise_
+from six import raise_from as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..f2e99a8 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -16,7 +16,7 @@ from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
 #Python 2 replacement for raise_from
-from six import reraise as raise_
+from six import raise_from as raise_
 
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..4774c6b 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -4,7 +4,7 @@ from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
 
-from six import reraise as raise_
+from six import raise_from as raise_
 
 def import_string(dotted_path):
     """
@@ -15,7 +15,7 @@ def import_string(dotted_path):
         module_path, class_name = dotted_path.rsplit('.', 1)
     except ValueError as err:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise_(ImportError("%s doesn't look like a module path" % dotted_path), err)
 
     module = import_module(module_path)
 
@@ -25,7 +25,7 @@ def import_string(dotted_path):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise_(ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name)), err)
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 3a7e450a4c3591c10bcff85739d8f25985456189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 03/69] fix: keep uploaded files of zero bytes (truth value is
 __nonzero__ in Python 2)

---
 request_parser/files/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..4328ef8 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -24,6 +24,10 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    #Python 2 spells it __nonzero__; without it an empty file is false
+    def __nonzero__(self):
+        return self.__bool__()
+
     def __len__(self):
         return int(self.size)
 
-- 
2.43.0


From 1b633c0b641c5cbad609a3d07d84f23fc47b207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 04/69] fix: reject header fields with non-ASCII bytes as an
 invalid request

---
 request_parser/http/request.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index ca820de..861ebd3 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -828,10 +828,13 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
+            try:
+                header = header.encode('ascii')
+                value = value.encode('ascii')
+            except UnicodeError:
+                raise InvalidHttpRequest("Invalid request header: {!r}".format(request_header), 400)
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From ff8db0e4dbd67a1e46a4a2a5169bee0c9afa0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 05/69] fix: reject a request target that cannot be parsed as
 an invalid request line

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 861ebd3..14d59b2 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -867,7 +867,11 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        #non-ASCII bytes or an invalid IPv6 host
+        raise InvalidHttpRequest("Invalid request line.", 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From 2f9c9ebf610cfe81d09582ece26462922980ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 06/69] fix: do not change the caller's settings when a request
 declares a charset

---
 request_parser/http/request.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 14d59b2..3b17d8b 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -200,9 +200,12 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
+        #the settings object may be shared with other requests
+        self.settings = copy.copy(self.settings)
         self.settings.DEFAULT_CHARSET = val
-        if hasattr(self, 'GET'):
-            del self.GET
+        #redo GET, since it depends on the encoding
+        query_string = self.META.get(MetaDict.Info.QUERY_STRING, '')
+        self.GET = QueryDict(self.settings, query_string, mutable=not query_string)
         if hasattr(self, '_post'):
             del self._post
         if hasattr(self, '_body'):
-- 
2.43.0


From 6bd3a0e79a28baab490f0b9b46761be6ea294bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 07/69] fix: ignore a declared charset that is not a known text
 encoding

---
 request_parser/http/request.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3b17d8b..17dba79 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -483,7 +483,8 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
-                    self.encoding = value
+                    if is_text_encoding(value):
+                        self.encoding = value
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
@@ -778,6 +779,15 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def is_text_encoding(encoding):
+    """
+    Return True if encoding names a codec that decodes bytes to text.
+    """
+    try:
+        return isinstance(b''.decode(encoding), type(u''))
+    except Exception:
+        return False
+
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
-- 
2.43.0


From d3115ce1e2dbf5f97f87e8d0b5b67e3cd46399e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 08/69] fix: do not report body, POST and FILES of the previous
 request after a new stream is set

---
 request_parser/http/request.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 17dba79..a459dbd 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -226,8 +226,8 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
-        possible.
+        This reset doesn't reset POST and FILES. They're replaced when parse_request_body()
+        is called.
         """
         self._stream = val
         #create a LazyStream out of the _stream
@@ -235,6 +235,10 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #the raw body belongs to the previous stream
+        if hasattr(self, '_body'):
+            del self._body
+
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
@@ -523,6 +527,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From 7e3fd3dc8d3bb2c4ba85316dfa85146422a39cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 09/69] fix: make the body available to parse_request_body()
 after body() has been called

---
 request_parser/http/request.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index a459dbd..11d14a2 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -396,7 +396,9 @@ class HttpRequest(object,):
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
-            
+            #let the parser (and read()) still see the data
+            self._stream = LazyStream(BytesIO(_body))
+
         elif not self._request_header_parsed:
             self.parse_request_header()
             return self.body()
-- 
2.43.0


From 09bffef267178fa2556799b27857e88b034512ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 10/69] fix: pass settings when a QueryDict is copied or made
 from keys

---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 11d14a2..325700f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -659,7 +659,7 @@ class QueryDict(MultiValueDict):
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(Settings.default(), '', mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -691,13 +691,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, '', mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, '', mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From 894009b513c6f714323cfce1f574acd80d4c23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 11/69] fix: url-encode non-ASCII keys and values of a
 QueryDict

---
 request_parser/http/request.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 325700f..69f9f98 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -765,7 +765,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(text_to_bytes(k, self.encoding), text_to_bytes(v, self.encoding))
                 for v in list_
             )
         return '&'.join(output)
@@ -787,6 +787,14 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def text_to_bytes(s, encoding):
+    """
+    Return s, or what str() makes of it, as bytes in the given encoding.
+    """
+    if isinstance(s, type(u'')):
+        return s.encode(encoding)
+    return str(s)
+
 def is_text_encoding(encoding):
     """
     Return True if encoding names a codec that decodes bytes to text.
-- 
2.43.0


From ae242ae1642dda2c25ca6788459bc32afde215d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 12/69] fix: keep byte strings set on a QueryDict as they are
 instead of encoding them again

---
 request_parser/http/request.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 69f9f98..057c4b1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -775,15 +775,15 @@ class QueryDict(MultiValueDict):
 # this slightly more restricted function, used by QueryDict.
 def bytes_to_text(s, encoding):
     """
-    Convert bytes objects to strings, using the given encoding. Illegally
-    encoded input characters are replaced with Unicode "unknown" codepoint
-    (\ufffd).
+    Convert bytes objects to native strings. In Python 2 these are the same
+    type, so they're kept: encoding them (again) would change any non-ASCII
+    byte.
 
     Return any non-bytes objects without change.
     """
     if isinstance(s, bytes):
         #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return str(s)
     else:
         return s
 
-- 
2.43.0


From d67a6deda5b2f04837a2f02168c09647502a49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/69] fix: guard pop, popitem and clear of
 ImmutableMultiValueDict, and repair its methods when mutable

---
 request_parser/utils/datastructures.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..86f837b 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -288,9 +288,8 @@ class ImmutableMultiValueDict(MultiValueDict):
             raise AttributeError("This ImmutableMultiValueDict instance is immutable.")
 
     def __setitem__(self, key, value):
-        #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -322,14 +321,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -339,7 +338,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 2d18834f30eada28577fd648fc861210dd5b64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 14/69] fix: make MultiValueDict picklable

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 86f837b..91270e1 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -76,7 +76,7 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
-- 
2.43.0


From 689662269fad21924de6370a5203ed3b6b54b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 15/69] fix: report the end of a closed LazyStream instead of
 failing

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 91270e1..1bd7bec 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -429,7 +429,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From ba5d79b2c1770574e94f4c8b0cdd9b28c873481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 16/69] fix: give LazyStream the readline() that HttpRequest
 relies on

---
 request_parser/utils/datastructures.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 1bd7bec..cb453ea 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -422,6 +422,28 @@ class LazyStream:
         self.position += len(output)
         return output
 
+    def readline(self, size=None):
+        """
+        Return the bytes up to and including the next newline, or up to the
+        end of the stream. Return at most size bytes if size is not negative.
+        """
+        remaining = -1 if size is None else size
+        parts = []
+        while remaining != 0:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1 or len(chunk)
+            if remaining > 0:
+                end = min(end, remaining)
+                remaining -= end
+            self.unget(chunk[end:])
+            parts.append(chunk[:end])
+            if parts[-1].endswith(b'\n'):
+                break
+        return b''.join(parts)
+
     def close(self):
         """
         Used to invalidate/disable this lazy stream.
-- 
2.43.0


From a5ba058a37ef0d262b80ddd599225be056c0d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 17/69] fix: return the stream from the stream and body_stream
 properties

---
 request_parser/http/request.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 057c4b1..fafab20 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -213,9 +213,7 @@ class HttpRequest(object,):
     
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @stream.setter
     def stream(self, val):
@@ -247,9 +245,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @body_stream.setter
     def body_stream(self, val):
-- 
2.43.0


From 4165e233cd762105cf585aea1158f87e6649f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 18/69] fix: use the upload handlers set on a request

---
 request_parser/http/request.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index fafab20..7724dbc 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -69,6 +69,10 @@ class HttpRequest(object,):
         else:
             self.settings = Settings.default()        
 
+        #upload handlers, loaded from settings unless set by the user
+        self._upload_handlers = []
+        self._custom_upload_handlers = False
+
         #Parsing status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
@@ -342,6 +346,7 @@ class HttpRequest(object,):
         if hasattr(self, '_files'):
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
+        self._custom_upload_handlers = True
 
     def parse(self):
         """
@@ -508,7 +513,8 @@ class HttpRequest(object,):
             return
         
         #initialize the upload_hanldlers
-        self._initialize_handlers()
+        if not self._custom_upload_handlers:
+            self._initialize_handlers()
 
         #if header not parsed already
         #if parse_request_body is called, then it means
-- 
2.43.0


From e70e87941363e248434119bf9d20e37f27f8c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 19/69] fix: treat a body size limit of None as no limit

---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 7724dbc..e7057a8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -381,20 +381,20 @@ class HttpRequest(object,):
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
             read_size = 0
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
-                        chunk:
+                while (max_size is None or read_size <= max_size) and chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
                 raise_(UnreadablePostError(*e.args), e)
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             #let the parser (and read()) still see the data
-- 
2.43.0


From b927132af9e5e8d2e1b66e0ebfb12f2be0ea021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 20/69] fix: is_ajax() looks at the X-Requested-With header

---
 request_parser/http/request.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e7057a8..bd84e0b 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -176,9 +176,7 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        if 'XMLHttpRequest' in self.META[MetaDict.Info.REQ_HEADERS]:
-            return True
-        return False
+        return self.META[MetaDict.Info.REQ_HEADERS].get('X-Requested-With') == 'XMLHttpRequest'
 
     def is_plain_text(self):
         """
-- 
2.43.0


From 3466af706173f712b9a6f2085cce4b32f4a8c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 21/69] fix: iri_to_uri() accepts unicode strings

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..3411477 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -85,7 +85,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, (bytes, type(u''))):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From d04b19051d2a563b03fe8178a4ead870d86e3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 22/69] fix: is_safe_url() accepts byte strings, and takes a
 unicode allowed_hosts as one host

---
 request_parser/utils/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index f2e99a8..b9253c2 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -287,9 +287,11 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         url = url.strip()
     if not url:
         return False
+    if isinstance(url, bytes):
+        url = url.decode('utf-8', 'replace')
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, (bytes, type(u''))):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From d601e9bddf6afbe23f949c8f5cdddd126f17f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 23/69] fix: is_safe_url() refuses tabs and line breaks, which
 browsers drop from a URL

---
 request_parser/utils/http.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index b9253c2..1fb1ec5 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -293,6 +293,9 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         allowed_hosts = set()
     elif isinstance(allowed_hosts, (bytes, type(u''))):
         allowed_hosts = {allowed_hosts}
+    # Browsers drop these anywhere in a URL: "/\t/example.com" is "//example.com".
+    if any(char in url for char in '\t\r\n'):
+        return False
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
     return (_is_safe_url(url, allowed_hosts, require_https=require_https) and
-- 
2.43.0


From 79460ff4a7c443c859b38e2d9d75d62771833fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 24/69] fix: urlsafe_base64_decode() raises ValueError for
 malformed input

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 1fb1ec5..b9790f5 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -225,7 +225,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, TypeError, BinasciiError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From 4bb7eb7a2a74de1233de129c816a3982a86b4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 25/69] fix: urlencode() takes unicode values as strings

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index b9790f5..0d751c9 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -97,7 +97,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, (bytes, type(u''))):
             query_val = value
         else:
             try:
@@ -114,7 +114,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, (bytes, type(u''))):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From 71fa4f14c76274365286dbeaa40c8f653c2cd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 26/69] fix: an unusable upload directory raises
 InvalidDirectory when it cannot be created either

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 71c02cd464ebf11b15d8c38ba28b4cfdc5ca2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 27/69] fix: report a multipart request without boundary as
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 3fad897..0b2c2c6 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -64,7 +64,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From c70efdec44e000f78db9805d8345e334e4a91f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 28/69] fix: keep the raw data of a multipart field that is not
 valid base64

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 0b2c2c6..634cc5e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -189,7 +189,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (TypeError, binascii.Error):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From 0eefb6b436329b94fc97274673fc4683834321ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 29/69] fix: decode RFC 2231 parameters to byte strings like
 all others

---
 request_parser/http/multipartparser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 634cc5e..10b3371 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -588,13 +588,17 @@ def parse_header(line):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if p[i + 1:].count(b"'") == 2:
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
+                except LookupError:
+                    #unknown encoding, keep the quoted value
+                    pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
-- 
2.43.0


From dc92985cd505994f7bec491b5a114fd9016f31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 30/69] fix: reduce an uploaded file name to its last component
 and skip the file if nothing is left

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 10b3371..a3fc8b8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -331,7 +331,11 @@ class MultiPartParser:
     #What the hell is this for?
     def IE_sanitize(self, filename):
         """Cleanup filename from Internet Explorer full paths."""
-        return filename and filename[filename.rfind("\\") + 1:].strip()
+        filename = filename and filename.replace("\\", "/").rsplit("/", 1)[-1].strip()
+        #these aren't names of files
+        if filename in ('.', '..'):
+            return ''
+        return filename
 
     def _close_files(self):
         # Free up all file handles.
-- 
2.43.0


From bbd1d84a4c8d7360f454bb2f5340afca8545860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 31/69] fix: drop the data of a skipped multipart part instead
 of parsing the rest of it as a part

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a3fc8b8..80b05a6 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -159,6 +159,7 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -225,6 +226,7 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From cdc2e7871cd8309799b6ec468474ceef03b7efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 32/69] fix: complete files of parts with an empty name

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 80b05a6..ba805b0 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -148,7 +148,7 @@ class MultiPartParser:
 
         try:
             for item_type, meta_data, field_stream in Parser(stream, self._boundary):
-                if old_field_name:
+                if old_field_name is not None:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
-- 
2.43.0


From 6ff194694f26bea3162f709db8e0cb15b455902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 33/69] fix: create temporary upload files whatever extension
 the client sent, and the directory if missing

---
 request_parser/files/uploadedfile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..d982d7c 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,6 +3,7 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
@@ -56,9 +57,13 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        #the client chose it, and it has to be valid on any file system
+        ext = re.sub(r'[^A-Za-z0-9._-]', '', ext)[:32]
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
+        if not os.path.isdir(_settings.FILE_UPLOAD_TEMP_DIR):
+            os.makedirs(_settings.FILE_UPLOAD_TEMP_DIR)
         file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
-- 
2.43.0


From 6ad27eb046d683c54b10657b787fed607c30bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 34/69] fix: skipping a file or stopping an upload leaves the
 completed files open

---
 request_parser/http/multipartparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index ba805b0..f058086 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -343,8 +343,11 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        completed = [file_obj for _, files in self._files.lists() for file_obj in files]
+        completed += [getattr(file_obj, 'file', None) for file_obj in completed]
         for handler in self._upload_handlers:
-            if hasattr(handler, 'file'):
+            # A handler may still refer to the previous file, which was completed.
+            if hasattr(handler, 'file') and not any(handler.file is file_obj for file_obj in completed):
                 handler.file.close()
 
 class InterBoundaryIter:
-- 
2.43.0


From 8db61a3b20ed4468326995ba88ba1bbe52988cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 35/69] fix: close all files of an upload that fails or is
 stopped

---
 request_parser/files/uploadhandler.py  | 4 ++++
 request_parser/http/multipartparser.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..7d31284 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -211,6 +211,10 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
         self._received_data_size = 0
         self._switched_to_temp_file = False
     
+    @property
+    def file(self):
+        return self._handler.file
+
     def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
         #We grab the settings object and call the handler's handle_raw_input to activate it.
         self._settings = settings
diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f058086..2c5b1cb 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -307,6 +307,13 @@ class MultiPartParser:
             self._close_files()
             if not e.connection_reset:
                 exhaust(self._input_data)
+        except Exception:
+            # None of the files can be used, so don't leave temporary files behind.
+            self._close_files()
+            for _, files in self._files.lists():
+                for file_obj in files:
+                    file_obj.close()
+            raise
         else:
             # Make sure that the request data is all fed
             exhaust(self._input_data)
-- 
2.43.0


From 5beea22fe09701dd1848b6b3b4785594e087c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 36/69] fix: keep the parameters (;name=value) of the last path
 segment in the path of a request

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index bd84e0b..5c0d8dd 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -481,6 +481,8 @@ class HttpRequest(object,):
 
         self.method = meta_dict[MetaDict.ReqLine.METHOD]
         self.path = meta_dict[MetaDict.ReqLine.PATH]
+        if meta_dict[MetaDict.ReqLine.PARAMS]:
+            self.path += ';' + meta_dict[MetaDict.ReqLine.PARAMS]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
         self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
-- 
2.43.0


From 120e99605c097a19dd5f0d0669e78420a442b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 37/69] fix: keep an explicit port in the absolute URI of a
 request

---
 request_parser/http/request.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5c0d8dd..8c4e4f7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -162,7 +162,7 @@ class HttpRequest(object,):
         """
         return '{scheme}://{host}{path}'.format(
             scheme=self.scheme,
-            host=self.host,
+            host=self._get_netloc(),
             path = self.get_full_path(raw=True) if raw else self.get_full_path(),
         )
 
@@ -170,7 +170,16 @@ class HttpRequest(object,):
         return self.protocol_info
 
     def _current_scheme_host(self):
-        return '{}://{}'.format(self.scheme, self.host)
+        return '{}://{}'.format(self.scheme, self._get_netloc())
+
+    def _get_netloc(self):
+        """
+        Return the host, with the port if the request gave one (a string, as
+        opposed to the default of the scheme).
+        """
+        if isinstance(self.port, str):
+            return '{}:{}'.format(self.host, self.port)
+        return self.host
 
     def is_secure(self):
         return self.scheme == 'https'
-- 
2.43.0


From ee8249b08106d5be29bda5404a5ef021f7186160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 38/69] fix: never open a local file by the name that the
 client gave an uploaded file

---
 request_parser/files/uploadedfile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index d982d7c..55782b3 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -51,6 +51,13 @@ class UploadedFile(File, object):
 
     name = property(_get_name, _set_name)
 
+    def open(self, mode=None):
+        # The name is the client's choice, it's not that of a file to open here.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        self.seek(0)
+        return self
+
 class TemporaryUploadedFile(UploadedFile, object):
     """
     A file uploaded to a temporary location (i.e. stream-to-disk).
-- 
2.43.0


From b85fdcc599931299bd8f05c3300edc859a40478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 39/69] fix: closing a temporary upload file that was moved
 away raises OSError

---
 request_parser/files/uploadedfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 55782b3..d9ef2a5 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -81,7 +81,7 @@ class TemporaryUploadedFile(UploadedFile, object):
     def close(self):
         try:
             return self.file.close()
-        except IOError:
+        except (IOError, OSError):
             # The file was moved or deleted before the tempfile could unlink
             # it. Still sets self.file.close_called and calls
             # self.file.file.close() before the exception.     
-- 
2.43.0


From 3bbcfc67783f2321351bf9bec883e738e80203b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 40/69] fix: do not read or decode what is left of the body
 after a form was parsed

---
 request_parser/http/request.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8c4e4f7..4bc17e0 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -564,11 +564,8 @@ class HttpRequest(object,):
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
-        #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
-        else:
+        #the body of a form was processed above
+        if self.content_type != 'multipart/form-data' and self.content_type != 'application/x-www-form-urlencoded':
             self._body = self.body().decode(self.encoding)
         
         self._request_body_parsed = True
-- 
2.43.0


From 223845f07833bd5d763f90823736cded8d6755cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 41/69] fix: recognise the header fields that matter to the
 parser whatever the case of their names

---
 request_parser/http/multipartparser.py |  5 +++--
 request_parser/http/request.py         | 14 ++++++++------
 request_parser/utils/http.py           | 13 +++++++++++++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 2c5b1cb..c26ed69 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -20,6 +20,7 @@ from request_parser.files.uploadhandler import (
 )
 from request_parser.utils.datastructures import MultiValueDict
 from request_parser.utils.encoding import force_text
+from request_parser.utils.http import find_header
 from request_parser.utils.text import unescape_entities
 from request_parser.utils.datastructures import LazyStream, ChunkIter
 
@@ -56,7 +57,7 @@ class MultiPartParser:
         self.settings = settings
 
         # Content-Type should contain multipart and the boundary information.
-        content_type = META.get('Content-Type', '')
+        content_type = META.get(find_header(META, 'Content-Type'), '')
         if not content_type.startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
@@ -69,7 +70,7 @@ class MultiPartParser:
         # Content-Length should contain the length of the body we are about
         # to receive.
         try:
-            content_length = int(META.get('Content-Length', 0))
+            content_length = int(META.get(find_header(META, 'Content-Length'), 0))
         except (ValueError, TypeError):
             content_length = 0
 
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 4bc17e0..fd604dc 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -13,7 +13,7 @@ from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
 from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
-from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
+from request_parser.utils.http import find_header, is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
 from six import raise_from as raise_
@@ -185,7 +185,8 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        return self.META[MetaDict.Info.REQ_HEADERS].get('X-Requested-With') == 'XMLHttpRequest'
+        request_headers = self.META[MetaDict.Info.REQ_HEADERS]
+        return request_headers.get(find_header(request_headers, 'X-Requested-With')) == 'XMLHttpRequest'
 
     def is_plain_text(self):
         """
@@ -463,9 +464,10 @@ class HttpRequest(object,):
         if meta_dict[MetaDict.ReqLine.DOMAIN]:
             host = meta_dict[MetaDict.ReqLine.DOMAIN]
         else:
-            if 'Host' in request_headers:
-                host = request_headers['Host']
-                del request_headers['Host']
+            host_header = find_header(request_headers, 'Host')
+            if host_header in request_headers:
+                host = request_headers[host_header]
+                del request_headers[host_header]
             else:
                 raise NoHostFoundException("No HOST header found in the HTTP request")
         
@@ -494,7 +496,7 @@ class HttpRequest(object,):
             self.path += ';' + meta_dict[MetaDict.ReqLine.PARAMS]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
-        self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
+        self.content_type, header_dict = parse_header(request_headers.get(find_header(request_headers, 'Content-Type')))
         #sanity check for when Content-Type is not present
         if header_dict is not None:        
             for key, value in header_dict.items():
diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 0d751c9..4715803 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -45,6 +45,19 @@ RFC3986_SUBDELIMS = "!$&'()*+,;="
 FIELDS_MATCH = re.compile('[&;]')
 
 
+def find_header(headers, name):
+    """
+    Return the spelling of the header field `name` that the dictionary headers
+    uses, as names of header fields are case-insensitive. Return `name` itself
+    if there's no such field.
+    """
+    if name not in headers:
+        for header in headers:
+            if header.lower() == name.lower():
+                return header
+    return name
+
+
 #@keep_lazy_text
 def urlquote(url, safe='/'):
     """
-- 
2.43.0


From bfbcd740975bfbceb77654161be985e84d190bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 42/69] fix: make QueryDict and ImmutableMultiValueDict
 picklable with any protocol

---
 request_parser/http/request.py         | 3 ++-
 request_parser/utils/datastructures.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index fd604dc..dadcb6b 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -637,6 +637,7 @@ class QueryDict(MultiValueDict):
     # level so that unpickling will have valid values
     _mutable = True
     _encoding = None
+    settings = None
 
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
@@ -678,7 +679,7 @@ class QueryDict(MultiValueDict):
 
     @property
     def encoding(self):
-        if self._encoding is None:
+        if self._encoding is None and self.settings is not None:
             self._encoding = self.settings.DEFAULT_CHARSET
         return self._encoding
 
diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index cb453ea..dd15806 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -1,4 +1,5 @@
 import copy
+import copy_reg
 from io import BytesIO
 
 from request_parser.exceptions.exceptions import SuspiciousMultipartForm, InputStreamExhausted
@@ -73,6 +74,11 @@ class MultiValueDict(dict):
                             copy.deepcopy(value, memo))
         return result
 
+    def __reduce_ex__(self, protocol):
+        #the state has all the data; protocol 2 would also set the items one
+        #by one, on an object that isn't initialized yet
+        return copy_reg.__newobj__, (self.__class__,), self.__getstate__()
+
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-- 
2.43.0


From 3d10292c48142efc67c9c1255dda77d41fa0aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 43/69] fix: parse_etags() keeps ETags that contain a comma

---
 request_parser/utils/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 4715803..553d913 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -27,6 +27,8 @@ ETAG_MATCH = re.compile(r'''
     "        # end quote
     )\Z      # end of string and capture group
 ''', re.X)
+# A member of a list of ETags; a comma between quotes is a part of the ETag.
+ETAG_LIST_MEMBER = re.compile(r'(?:"[^"]*"|[^,])+')
 
 MONTHS = 'jan feb mar apr may jun jul aug sep oct nov dec'.split()
 __D = r'(?P<day>\d{2})'
@@ -252,7 +254,7 @@ def parse_etags(etag_str):
         return ['*']
     else:
         # Parse each ETag individually, and return any that are valid.
-        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in etag_str.split(','))
+        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in ETAG_LIST_MEMBER.findall(etag_str))
         return [match.group(1) for match in etag_matches if match]
 
 
-- 
2.43.0


From 229f2d245d324cfdf5496e55f6b8447409e1c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 44/69] fix: an escaped quote in a header parameter does not
 end the quoted string

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index c26ed69..33f6947 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -642,7 +642,8 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        #(an escaped " doesn't count)
+        while end > 0 and s[:end].replace(b'\\\\', b'').replace(b'\\"', b'').count(b'"') % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From fb76a8e63a6b472d5ae83908c625968174ded2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 45/69] fix: close the file of a part that the end of the data
 has cut off

---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 33f6947..5c892e0 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -316,6 +316,9 @@ class MultiPartParser:
                     file_obj.close()
             raise
         else:
+            # The data ended within the last file, which can't be used then.
+            if old_field_name is not None:
+                self._close_files()
             # Make sure that the request data is all fed
             exhaust(self._input_data)
 
-- 
2.43.0


From b58e4ea8973fc52fe4e0a1c55d9357a876db64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 46/69] fix: ignore a declared charset whose codec fails on
 arbitrary bytes

---
 request_parser/http/request.py   | 11 +----------
 request_parser/utils/encoding.py | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index dadcb6b..96d7c8c 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -12,7 +12,7 @@ from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
-from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
+from request_parser.utils.encoding import escape_uri_path, iri_to_uri, is_text_encoding, uri_to_iri
 from request_parser.utils.http import find_header, is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
@@ -806,15 +806,6 @@ def text_to_bytes(s, encoding):
         return s.encode(encoding)
     return str(s)
 
-def is_text_encoding(encoding):
-    """
-    Return True if encoding names a codec that decodes bytes to text.
-    """
-    try:
-        return isinstance(b''.decode(encoding), type(u''))
-    except Exception:
-        return False
-
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 3411477..97151fe 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -56,6 +56,22 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     return s
 
 
+def is_text_encoding(encoding):
+    """
+    Return True if encoding names a codec that decodes bytes to text, whatever
+    the bytes are.
+    """
+    data = b'a=%\xff'
+    try:
+        try:
+            data.decode(encoding)
+        except UnicodeDecodeError:
+            pass
+        return isinstance(data.decode(encoding, 'replace'), type(u''))
+    except Exception:
+        return False
+
+
 def iri_to_uri(iri):
     """
     Convert an Internationalized Resource Identifier (IRI) portion to a URI
-- 
2.43.0


From 44c2615e73940508697d87c54b794bbbe1509274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 47/69] fix: keep extended header parameters that cannot be
 decoded as they are

---
 request_parser/http/multipartparser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 5c892e0..da8edc1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -19,7 +19,7 @@ from request_parser.files.uploadhandler import (
     SkipFile, StopFutureHandlers, StopUpload,
 )
 from request_parser.utils.datastructures import MultiValueDict
-from request_parser.utils.encoding import force_text
+from request_parser.utils.encoding import force_text, is_text_encoding
 from request_parser.utils.http import find_header
 from request_parser.utils.text import unescape_entities
 from request_parser.utils.datastructures import LazyStream, ChunkIter
@@ -615,9 +615,11 @@ def parse_header(line):
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
                 try:
-                    value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
-                except LookupError:
-                    #unknown encoding, keep the quoted value
+                    #with an unknown encoding, keep the quoted value
+                    if is_text_encoding(encoding):
+                        value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
+                except UnicodeError:
+                    #not ASCII, as it has to be; keep it as well
                     pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
-- 
2.43.0


From f951f0398a4a5340da8c6f866d2199059df25541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 48/69] fix: the media type of a multipart request is
 case-insensitive

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index da8edc1..e09e429 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -58,7 +58,7 @@ class MultiPartParser:
 
         # Content-Type should contain multipart and the boundary information.
         content_type = META.get(find_header(META, 'Content-Type'), '')
-        if not content_type.startswith('multipart/'):
+        if not content_type.lower().startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-- 
2.43.0


From 2192197a9181a1f77270bdb90a2d8400a4eb48d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 49/69] fix: quotes in an extended header parameter belong to
 its value

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index e09e429..6bfd003 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -621,7 +621,7 @@ def parse_header(line):
                 except UnicodeError:
                     #not ASCII, as it has to be; keep it as well
                     pass
-            if len(value) >= 2 and value[:1] == value[-1:] == b'"':
+            elif len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
             pdict[name] = value
-- 
2.43.0


From b6d8293d71ebe3ad84ec130e057472677b090a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 50/69] fix: broken base64 file data is decoded or refused
 alike however it is split into chunks

---
 request_parser/http/multipartparser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 6bfd003..2d26067 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import re
 
 from six import raise_from
 from future.backports.urllib.parse import unquote
@@ -33,6 +34,8 @@ RAW = "raw"
 FILE = "file"
 FIELD = "field"
 
+NOT_BASE64_RE = re.compile(b"[^A-Za-z0-9+/=]")
+
 class MultiPartParser:
     """
     A rfc2388 multipart/form-data parser.
@@ -253,22 +256,28 @@ class MultiPartParser:
                             except StopFutureHandlers:
                                 break
 
+                        base64_ended = False
                         for chunk in field_stream:
                             if transfer_encoding == 'base64':
                                 # We only special-case base64 transfer encoding
                                 # We should always decode base64 chunks by multiple of 4,
-                                # ignoring whitespace.
+                                # ignoring everything outside of the alphabet.
 
-                                stripped_chunk = b"".join(chunk.split())
+                                stripped_chunk = NOT_BASE64_RE.sub(b"", chunk)
 
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
                                     if not over_chunk:
                                         break
-                                    stripped_chunk += b"".join(over_chunk.split())
+                                    stripped_chunk += NOT_BASE64_RE.sub(b"", over_chunk)
                                     remaining = len(stripped_chunk) % 4
 
+                                # The padding ends the data, wherever the chunks begin and end.
+                                if (base64_ended and stripped_chunk) or b"=" in stripped_chunk[:-2]:
+                                    raise MultiPartParserError("Could not decode base64 data.")
+                                base64_ended = base64_ended or b"=" in stripped_chunk
+
                                 try:
                                     chunk = base64.b64decode(stripped_chunk)
                                 except Exception as exc:
-- 
2.43.0


From 626bf520b126f9ef19017ea2f745055f24427623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 51/69] fix: body() that refuses a body as too big does not
 lose what it has read

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 96d7c8c..b819606 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -403,6 +403,8 @@ class HttpRequest(object,):
                 raise_(UnreadablePostError(*e.args), e)
             
             if max_size is not None and read_size > max_size:
+                #what was read is not lost, and refused again if asked for again
+                self._stream.unget(_body + chunk)
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             #let the parser (and read()) still see the data
-- 
2.43.0


From 731c5fef9089f1ad3277544f2cf40b20874e3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 52/69] fix: padding within the last group of base64 file data
 is broken data

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 2d26067..9068024 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -274,7 +274,8 @@ class MultiPartParser:
                                     remaining = len(stripped_chunk) % 4
 
                                 # The padding ends the data, wherever the chunks begin and end.
-                                if (base64_ended and stripped_chunk) or b"=" in stripped_chunk[:-2]:
+                                if ((base64_ended and stripped_chunk) or b"=" in stripped_chunk[:-2] or
+                                        b"=" in stripped_chunk.rstrip(b"=")):
                                     raise MultiPartParserError("Could not decode base64 data.")
                                 base64_ended = base64_ended or b"=" in stripped_chunk
 
-- 
2.43.0


From 9a7e57935e6a274efab67ce0d3c33821d33f9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 53/69] fix: the charset that a request declared does not apply
 to the next request of the object

---
 request_parser/http/request.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b819606..ff917b5 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -77,6 +77,10 @@ class HttpRequest(object,):
         self._request_header_parsed = False
         self._request_body_parsed = False
 
+        #the settings with the charset that the request declared, and the
+        #charset in effect before
+        self._declared_charset = (None, None)
+
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
         #                 'content-type'      : type,
@@ -249,6 +253,11 @@ class HttpRequest(object,):
         if hasattr(self, '_body'):
             del self._body
 
+        #the charset that the previous request declared isn't that of this one
+        settings, undeclared_charset = self._declared_charset
+        if self.settings is settings:
+            self.encoding = undeclared_charset
+
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
@@ -504,7 +513,9 @@ class HttpRequest(object,):
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
                     if is_text_encoding(value):
+                        undeclared_charset = self.encoding
                         self.encoding = value
+                        self._declared_charset = (self.settings, undeclared_charset)
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-- 
2.43.0


From 2e4bd810ac94296ca22d16f6a94dbb23945741e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 54/69] fix: a body that cannot be parsed does not leave POST
 and FILES of the previous one

---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index ff917b5..3c976d6 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -548,6 +548,10 @@ class HttpRequest(object,):
             self._mark_post_parse_error()
             raise RequestHeaderParseException("Request header not parsed.Parse request header first.")
 
+        #if the body can't be parsed, then nothing of a previous one is reported
+        self.POST = QueryDict(self.settings, mutable=True)
+        self.FILES = MultiValueDict()
+
         #body_stream = self.request_stream
         body_stream = self._stream
         data = body_stream.read(1)
-- 
2.43.0


From e14d0fe59c65432ed3f12ad265789cdd790e50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 55/69] fix: settings made from an empty dictionary, or one of
 a subclass, have the defaults

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..500f8d6 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -40,7 +40,7 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
-        if not settings_dict or type(settings_dict) != dict:
+        if not isinstance(settings_dict, dict):
             return
 
         default_settings = Settings.default(check_presence=check_presence)
-- 
2.43.0


From b47c9856a32176024a2139980b402bff5598f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 56/69] fix: checking the upload directory does not overwrite
 and remove a file in it

---
 request_parser/conf/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 500f8d6..9552506 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -1,5 +1,6 @@
 from os.path import normpath, isdir, join, isabs
 from os import errno, mkdir, remove
+from uuid import uuid4
 from request_parser.files.utils import get_abs_path
 
 class InvalidDirectory(Exception):
@@ -135,7 +136,8 @@ class Settings:
                 if not isdir(file_upload_dir):
                     mkdir(file_upload_dir)
                             
-                test_file_path = join(file_upload_dir, "acdr423x.tmp")        
+                #a name of its own, so that no file of the user is overwritten
+                test_file_path = join(file_upload_dir, "{}.tmp".format(uuid4().hex))
                 test_file = open(test_file_path, "w+")
                 test_file.write("Permissions Check!")
                 test_file.close()
-- 
2.43.0


From 0fa4671b5b39000f7e200ef06494c428d87cff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 57/69] fix: several settings with the same missing upload
 directory can be made at once

---
 request_parser/conf/settings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 9552506..1414574 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -134,7 +134,12 @@ class Settings:
             try:
                 #check if directory exists if not create
                 if not isdir(file_upload_dir):
-                    mkdir(file_upload_dir)
+                    try:
+                        mkdir(file_upload_dir)
+                    except OSError:
+                        #it may have been created in the meantime
+                        if not isdir(file_upload_dir):
+                            raise
                             
                 #a name of its own, so that no file of the user is overwritten
                 test_file_path = join(file_upload_dir, "{}.tmp".format(uuid4().hex))
-- 
2.43.0


From 17d71fb61854d922ec0a8589ecc9f0624a211150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 58/69] fix: QueryDict takes the encoding that it is given

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3c976d6..68f5bf8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -659,7 +659,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From f496974f17451f166bffeb0271a05e424f508080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 59/69] fix: a handler path with an empty module name is an
 ImportError

---
 request_parser/utils/module_loading.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 4774c6b..fd014c2 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -17,6 +17,10 @@ def import_string(dotted_path):
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
         raise_(ImportError("%s doesn't look like a module path" % dotted_path), err)
 
+    #neither relative nor with empty names
+    if '' in module_path.split('.'):
+        raise ImportError("%s doesn't look like a module path" % dotted_path)
+
     module = import_module(module_path)
 
     try:
-- 
2.43.0


From 4a3a1748f1bcaf043d3c47f8a4fa0b8e1d5da4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 60/69] fix: escape_leading_slashes takes non-ASCII text

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 553d913..4e9ce21 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -457,5 +457,5 @@ def escape_leading_slashes(url):
     redirecting to another host.
     """
     if url.startswith('//'):
-        url = '/%2F{}'.format(url[2:])
+        url = '/%2F' + url[2:]
     return url
-- 
2.43.0


From d878b3a0520c54ff77efd04bccf7d1ea54beea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 61/69] fix: a year of four digits below 100 or a line feed
 after it does not make a valid HTTP date

---
 request_parser/utils/http.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 4e9ce21..0e48956 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -37,9 +37,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
@@ -170,7 +170,7 @@ def parse_http_date(date):
         raise ValueError("%r is not in a valid HTTP date format" % date)
     try:
         year = int(m.group('year'))
-        if year < 100:
+        if regex is RFC850_DATE:
             if year < 70:
                 year += 2000
             else:
-- 
2.43.0


From b035ad2e675f2b9d3ad85b75d066502e5b8030de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 62/69] fix: File computes its size and ContentFile can be made

---
 request_parser/files/base.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4328ef8..bd788b9 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -4,6 +4,20 @@ from io import BytesIO, StringIO, UnsupportedOperation
 from request_parser.files.utils import FileProxyMixin
 #from django.utils.functional import cached_property
 
+class cached_property(object):
+    """
+    Turn a method without arguments into a property whose value is computed
+    once, unless it's set before.
+    """
+    def __init__(self, func):
+        self.func = func
+
+    def __get__(self, instance, cls=None):
+        if instance is None:
+            return self
+        value = instance.__dict__[self.func.__name__] = self.func(instance)
+        return value
+
 class File(FileProxyMixin):
     DEFAULT_CHUNK_SIZE = 64 * 2 ** 10
 
@@ -31,7 +45,7 @@ class File(FileProxyMixin):
     def __len__(self):
         return int(self.size)
 
-    #@cached_property
+    @cached_property
     def size(self):
         if hasattr(self.file, 'size'):
             return self.file.size
@@ -126,8 +140,8 @@ class ContentFile(File):
     A File-like object that takes just raw content, rather than an actual file.
     """
     def __init__(self, content, name=None):
-        stream_class = StringIO if isinstance(content, str) else BytesIO
-        super().__init__(stream_class(content), name=name)
+        stream_class = BytesIO if isinstance(content, bytes) else StringIO
+        File.__init__(self, stream_class(content), name=name)
         self.size = len(content)
 
     def __str__(self):
-- 
2.43.0


From 7b9d2cd28b79d24354ef1423d1d5d2c3561270c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 63/69] fix: module_has_submodule() finds submodules

---
 request_parser/utils/module_loading.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index fd014c2..37b1b3e 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -2,7 +2,8 @@ import copy
 import os
 from importlib import import_module
 #from importlib.util import find_spec as importlib_find
-from imp import find_module as importlib_find
+#(imp.find_module() doesn't find modules by their full name)
+from pkgutil import find_loader as importlib_find
 
 from six import raise_from as raise_
 
@@ -73,14 +74,18 @@ def module_has_submodule(package, module_name):
     """See if 'module' is in 'package'."""
     try:
         package_name = package.__name__
-        package_path = package.__path__
+        package.__path__
     except AttributeError:
         # package isn't a package.
         return False
 
+    #no name is empty
+    if '' in module_name.split('.'):
+        return False
+
     full_module_name = package_name + '.' + module_name
     try:
-        return importlib_find(full_module_name, package_path) is not None
+        return importlib_find(full_module_name) is not None
     except (ImportError, AttributeError):
         # When module_name is an invalid dotted path, Python raises ImportError
         # (or ModuleNotFoundError in Python 3.6+). AttributeError may be raised
-- 
2.43.0


From 7801e5ba73b22c52657b1b76c5a270728d2f365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 64/69] fix: force_str() takes non-ASCII text, and
 DjangoUnicodeDecodeError can be made

---
 request_parser/utils/encoding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 97151fe..8ca6b11 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -11,10 +11,10 @@ from future.backports.urllib.parse import quote, unquote
 class DjangoUnicodeDecodeError(UnicodeDecodeError):
     def __init__(self, obj, *args):
         self.obj = obj
-        super().__init__(*args)
+        super(DjangoUnicodeDecodeError, self).__init__(*args)
 
     def __str__(self):
-        return '%s. You passed in %r (%s)' % (super().__str__(), self.obj, type(self.obj))
+        return '%s. You passed in %r (%s)' % (super(DjangoUnicodeDecodeError, self).__str__(), self.obj, type(self.obj))
 
 def force_text(s, encoding='utf-8', strings_only=False, errors='strict'):
     return force_str(s, encoding, strings_only, errors)
@@ -49,6 +49,9 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     try:
         if isinstance(s, bytes):
             s = str(s, encoding, errors)
+        elif isinstance(s, type(u'')):
+            #str() would only take ASCII
+            s = s.encode(encoding, errors)
         else:
             s = str(s)
     except UnicodeDecodeError as e:
-- 
2.43.0


From 52b2e919c6a2d97691b1de1504a4bf026275d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 65/69] fix: str() and repr() of a file with a Unicode name

---
 request_parser/files/base.py         | 3 ++-
 request_parser/files/uploadedfile.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index bd788b9..40469ac 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -2,6 +2,7 @@ import os
 from io import BytesIO, StringIO, UnsupportedOperation
 
 from request_parser.files.utils import FileProxyMixin
+from request_parser.utils.encoding import force_str
 #from django.utils.functional import cached_property
 
 class cached_property(object):
@@ -30,7 +31,7 @@ class File(FileProxyMixin):
             self.mode = file.mode
 
     def __str__(self):
-        return self.name or ''
+        return force_str(self.name or '')
 
     def __repr__(self):
         return "<%s: %s>" % (self.__class__.__name__, self or "None")
diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index d9ef2a5..19e0365 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -9,6 +9,7 @@ from io import BytesIO
 from request_parser.conf.settings import Settings
 from request_parser.files import temp as tempfile
 from request_parser.files.base import File
+from request_parser.utils.encoding import force_str
 
 __all__ = ('UploadedFile', 'TemporaryUploadedFile', 'InMemoryUploadedFile', 'SimpleUploadedFile')
 
@@ -30,7 +31,7 @@ class UploadedFile(File, object):
         self.transfer_encoding = transfer_encoding
 
     def __repr__(self):
-        return "<%s: %s (%s)>" % (self.__class__.__name__, self.name, self.content_type)
+        return "<%s: %s (%s)>" % (self.__class__.__name__, force_str(self.name), force_str(self.content_type))
 
     def _get_name(self):
         return self._name
-- 
2.43.0


From ce0afea17915c01752eb399cda09582da49c16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 66/69] fix: a host or port that ends in a line feed is invalid

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 68f5bf8..0bb23d8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -20,7 +20,7 @@ from six import raise_from as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From 5670afc2474f9db5340132c782cfb560344ba2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 67/69] fix: upload handlers can be set for the next request of
 the same object

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0bb23d8..f368069 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -360,7 +360,7 @@ class HttpRequest(object,):
 
     @upload_handlers.setter
     def upload_handlers(self, upload_handlers):
-        if hasattr(self, '_files'):
+        if self._request_body_parsed:
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
         self._custom_upload_handlers = True
-- 
2.43.0


From 58d367cb14a4d3d15163e068a3cda37634b53c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 68/69] fix: a huge numeric entity in a file name is left as it
 is

---
 request_parser/utils/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..2d7d451 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -13,7 +13,8 @@ def _replace_entity(match):
             else:
                 c = int(text)
             return chr(c)
-        except ValueError:
+        #TypeError or OverflowError: c doesn't even fit in a C int
+        except (ValueError, TypeError, OverflowError):
             return match.group(0)
     else:
         try:
-- 
2.43.0


From 4def1ac0c3f3e81330e90b73d95c4b213a99ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 69/69] fix: a new stream can be set after a head with too many
 parameters and a declared charset

---
 request_parser/http/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f368069..e099afc 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -253,13 +253,14 @@ class HttpRequest(object,):
         if hasattr(self, '_body'):
             del self._body
 
+        #reset the header META data
+        self._reset_header_meta_data()
+
         #the charset that the previous request declared isn't that of this one
         settings, undeclared_charset = self._declared_charset
         if self.settings is settings:
             self.encoding = undeclared_charset
 
-        #reset the header META data
-        self._reset_header_meta_data()
         #reset parse status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
-- 
2.43.0

