From 9111cd6a186bc7b125c58c24b8f52d342a5f5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 01/45] fix: match cached objects by whole JSON pointer tokens

'#/definitions/UserList' was served from a cached '#/definitions/User'.
---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..503cb2a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,7 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From aaf8754d6b23b84e3deca256d3f15cdd74f1f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 02/45] fix: relative references of documents at the root of a
 host

'http://host/swagger.json' with '$ref: defs.json' fetched 'http://host//defs.json'.
---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..c59140c 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,7 +387,7 @@ def normalize_jr(jr, url=None):
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path).rstrip('/'), path]),)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From abb238ac5164b79d3ed6b67ba3f274db9eec797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 03/45] fix: read local documents as utf-8

They were decoded in the encoding of the locale, unlike the same document
loaded over HTTP.
---
 pyswagger/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..79eab1b 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -3,6 +3,7 @@ from .consts import private
 from .utils import patch_path
 import json
 import yaml
+import io
 import six
 import os
 import logging
@@ -110,7 +111,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [{0}]'.format(path))
 
         ret = None
-        with open(path, 'r') as f:
+        with io.open(path, 'r', encoding='utf-8') as f:
             ret = f.read()
         return ret
 
-- 
2.43.0


From 4e7c79022927fb469b3a4b0f248aceba741669e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 04/45] fix: visit the operations a PathItem gets from its $ref

Their $ref'd parameters and responses were never merged: children were
collected before the handler that merges them in had run.
---
 pyswagger/scan.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyswagger/scan.py b/pyswagger/scan.py
index f75339e..9d2f8ce 100644
--- a/pyswagger/scan.py
+++ b/pyswagger/scan.py
@@ -9,15 +9,18 @@ def default_tree_traversal(root, leaves):
     while len(objs) > 0:
         path, obj = objs.pop()
 
+        # the path we expose here follows JsonPointer described here
+        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
+        yield path, obj
+
+        # children are collected after 'obj' is handled, so those merged
+        # into it by the handler are visited, too.
+        #
         # name of child are json-pointer encoded, we don't have
         # to encode it again.
         if obj.__class__ not in leaves:
             objs.extend(map(lambda i: (path + '/' + i[0],) + (i[1],), six.iteritems(obj._children_)))
 
-        # the path we expose here follows JsonPointer described here
-        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
-        yield path, obj
-
 
 class DispatcherMeta(type):
     """ metaclass for Dispatcher
-- 
2.43.0


From a914661511054f2b0b5b62bd1de8246a76102650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 05/45] fix: forget what was not completely resolved when
 preparing fails

---
 pyswagger/core.py                  | 43 ++++++++++++------------------
 pyswagger/scanner/v2_0/__init__.py |  2 +-
 pyswagger/scanner/v2_0/resolve.py  |  9 +++++++
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 503cb2a..aa52e61 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -4,11 +4,10 @@ from .primitives import Primitive, MimeCodec
 from .spec.v1_2.parser import ResourceListContext
 from .spec.v2_0.parser import SwaggerContext
 from .spec.v2_0.objects import Operation
-from .spec.base import BaseObj
 from .scan import Scanner
 from .scanner import TypeReduce, CycleDetector
 from .scanner.v1_2 import Upgrade
-from .scanner.v2_0 import AssignParent, Merge, Resolve, PatchObject, YamlFixer, Aggregate, NormalizeRef
+from .scanner.v2_0 import AssignParent, Merge, Resolve, Unresolve, PatchObject, YamlFixer, Aggregate, NormalizeRef
 from pyswagger import utils, errs, consts
 import copy
 import base64
@@ -54,9 +53,7 @@ class App(object):
         self.__schemes = []
         self.__url=url
 
-        # a map from json-reference to
-        # - spec.BaseObj
-        # - a map from json-pointer to spec.BaseObj
+        # a map from url to a map from json-pointer to spec.BaseObj
         self.__objs = {}
 
         if url_load_hook and resolver:
@@ -216,19 +213,20 @@ class App(object):
         url, jp = utils.jr_split(jref)
         s.scan(root=obj, route=[NormalizeRef(url)])
         # cache this object
-        if url not in self.__objs:
-            if jp == '#':
-                self.__objs[url] = obj
-            else:
-                self.__objs[url] = {jp: obj}
-        else:
-            if not isinstance(self.__objs[url], dict):
-                raise Exception('it should be able to resolve with BaseObj')
-            self.__objs[url].update({jp: obj})
+        cached = dict((k, dict(v)) for k, v in six.iteritems(self.__objs))
+        self.__objs.setdefault(url, {})[jp] = obj
 
         # pre resolve Schema Object
         # note: make sure this object is cached before using 'Resolve' scanner
-        s.scan(root=obj, route=[Resolve()])
+        try:
+            s.scan(root=obj, route=[Resolve()])
+        except Exception:
+            # when something it refers to can't be loaded, forget everything that
+            # is not completely resolved, so it could be prepared again.
+            self.__objs = cached
+            s.scan(root=obj, route=[Unresolve()])
+            raise
+
         return obj
 
     def _validate(self):
@@ -393,17 +391,10 @@ class App(object):
         # check cacahed object against json reference by
         # comparing url first, and find those object prefixed with
         # the JSON pointer.
-        o = self.__objs.get(url, None)
-        if o:
-            if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
-            elif isinstance(o, dict):
-                for k, v in six.iteritems(o):
-                    if jp == k or jp.startswith(k + '/'):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
-                        break
-            else:
-                raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
+        for k, v in six.iteritems(self.__objs.get(url, {})):
+            if jp == k or jp.startswith(k + '/'):
+                obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                break
 
         # this object is not found in cache
         if obj == None:
diff --git a/pyswagger/scanner/v2_0/__init__.py b/pyswagger/scanner/v2_0/__init__.py
index ecc4e70..d915f2b 100644
--- a/pyswagger/scanner/v2_0/__init__.py
+++ b/pyswagger/scanner/v2_0/__init__.py
@@ -1,5 +1,5 @@
 from .assign_parent import AssignParent
-from .resolve import Resolve
+from .resolve import Resolve, Unresolve
 from .patch_obj import PatchObject
 from .yaml import YamlFixer
 from .aggt import Aggregate
diff --git a/pyswagger/scanner/v2_0/resolve.py b/pyswagger/scanner/v2_0/resolve.py
index 2679b20..c37c985 100644
--- a/pyswagger/scanner/v2_0/resolve.py
+++ b/pyswagger/scanner/v2_0/resolve.py
@@ -27,3 +27,12 @@ class Resolve(object):
         obj.update_field('ref_obj', ro)
 
 
+class Unresolve(object):
+    """ forget what was pre-resolved """
+
+    class Disp(Dispatcher): pass
+
+    @Disp.register([Schema])
+    def _schema(self, _, obj, app):
+        obj.update_field('ref_obj', None)
+
-- 
2.43.0


From 95d16899a4ca9a8872c9a7a2bbe2c681fc7ec63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 06/45] fix: resolve parts of a document its parsed object does
 not cover

---
 pyswagger/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index aa52e61..106ec2a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -393,8 +393,13 @@ class App(object):
         # the JSON pointer.
         for k, v in six.iteritems(self.__objs.get(url, {})):
             if jp == k or jp.startswith(k + '/'):
-                obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
-                break
+                try:
+                    obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                    break
+                except (AttributeError, KeyError, IndexError, ValueError):
+                    # not a part of that object (ex. below a vendor extension),
+                    # it might still be a part of that document.
+                    continue
 
         # this object is not found in cache
         if obj == None:
@@ -407,7 +412,8 @@ class App(object):
                 if not jp.startswith('#'):
                     raise ValueError('Invalid Path, root element should be \'#\', but [{0}]'.format(jref))
 
-                obj = self.root.resolve(utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
+                # heading element is #, mapping to the root document
+                return self.resolve(utils.jr_split(self.__url)[0] + jp, parser)
 
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
-- 
2.43.0


From 7b87dd47ee22f3a0bed758fff9c74a20bdb43be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 07/45] fix: let several threads resolve references with one
 application

---
 pyswagger/core.py    | 10 ++++++++++
 pyswagger/resolve.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 106ec2a..0380ae3 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -12,6 +12,7 @@ from pyswagger import utils, errs, consts
 import copy
 import base64
 import six
+import threading
 import weakref
 import logging
 
@@ -56,6 +57,9 @@ class App(object):
         # a map from url to a map from json-pointer to spec.BaseObj
         self.__objs = {}
 
+        # only one thread at a time can load or prepare something
+        self.__lock = threading.RLock()
+
         if url_load_hook and resolver:
             raise ValueError('when use customized Resolver, please pass url_load_hook to that one')
 
@@ -380,6 +384,12 @@ class App(object):
         :raises ValueError: if path is not valid
         """
 
+        with self.__lock:
+            return self.__resolve(jref, parser)
+
+    def __resolve(self, jref, parser):
+        """ refer to App.resolve for details
+        """
         logger.info('resolving: [{0}]'.format(jref))
 
         if jref == None or len(jref) == 0:
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..61d8984 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -4,6 +4,7 @@ from .getter import UrlGetter, LocalGetter
 import six
 import os
 import inspect
+import threading
 import logging
 
 
@@ -25,6 +26,9 @@ class Resolver(object):
         # a map from url to loaded json/yaml
         self.__cache = {}
 
+        # only one thread at a time can load something
+        self.__lock = threading.RLock()
+
         # things to make unittest easier,
         # all urls to load json would go through this hook
         self.__url_load_hook = url_load_hook
@@ -33,6 +37,12 @@ class Resolver(object):
         self.__default_getter = default_getter
 
     def resolve(self, jref, getter=None):
+        """
+        """
+        with self.__lock:
+            return self.__resolve(jref, getter)
+
+    def __resolve(self, jref, getter):
         """
         """
         url, jp = jr_split(jref)
-- 
2.43.0


From 8f88e73098ba37724a913f3691ba5c43ba8fd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 08/45] fix: leave the options of the caller as they are

Options were popped while a request was made, so the same dict passed to the
next call, or to one made at the same time, had lost them.
---
 pyswagger/core.py | 2 +-
 pyswagger/io.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 0380ae3..a6942db 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -584,7 +584,7 @@ class BaseClient(object):
             return list(req.header.items()) if not as_dict else req.header
 
         opt = opt or {}
-        join_headers = opt.pop(BaseClient.join_headers, None)
+        join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
             headers = dict(headers) if isinstance(headers, list) else headers
diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..f3b026e 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -154,10 +154,10 @@ class Request(object):
         """ private function to patch this request. This function
         could be called before/after preparation.
 
-        :param dict opt: options, used options would be popped. Refer to Request.opt_* for details.
+        :param dict opt: options. Refer to Request.opt_* for details.
         """
-        opt_netloc = opt.pop(Request.opt_url_netloc, None)
-        opt_scheme = opt.pop(Request.opt_url_scheme, None)
+        opt_netloc = opt.get(Request.opt_url_netloc, None)
+        opt_scheme = opt.get(Request.opt_url_scheme, None)
         if opt_netloc or opt_scheme:
             scheme, netloc, path, params, query, fragment = six.moves.urllib.parse.urlparse(self.__url)
             self.__url = six.moves.urllib.parse.urlunparse((
-- 
2.43.0


From 890bee5134e379b351a2dd3ab3662fcdd43bb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 09/45] fix: do not add the headers of a request to the dict of
 the caller

The dict passed as 'headers' was updated with the headers of the request,
credentials included, and carried them into the next request made with it.
---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index a6942db..a90abe5 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -587,7 +587,7 @@ class BaseClient(object):
         join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 25dc8ed8910b22b369068ae53c2472afcc6d6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 10/45] fix: keep the converted properties of a model composed
 by allOf

The properties of the first schema in 'allOf' were overwritten by the raw
values when handling those not declared by the other schemas.
---
 pyswagger/primitives/_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..f138158 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -64,7 +64,9 @@ class Model(dict):
         """
         if ctx['addp'] == True:
             for k, v in six.iteritems(val):
-                self[k] = v
+                # those already here were created with the schema declaring them
+                if k not in self:
+                    self[k] = v
             ctx['addp'] = False
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
-- 
2.43.0


From d73dd54c9745e2ba00dcc7aa3233e0575c7056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 11/45] fix: a space in a path parameter is %20

'+' only means a space in a query, in a path it is a plus.
---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index f3b026e..eecad24 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From 3b00827f100b2da036f74bf641b2edf2135c8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 12/45] fix: quote field and file names in multipart bodies

A quote or a line break in a file name ended the name, and what followed
became part of the header section.
---
 pyswagger/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index eecad24..b2c8c7d 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -99,11 +99,15 @@ class Request(object):
         body = io.BytesIO()
         w = codecs.getwriter(encoding)
 
+        def quoted(name):
+            # names are in a quoted-string, and can't contain what ends it
+            return name.replace('"', '%22').replace('\r', '%0D').replace('\n', '%0A')
+
         def append(name, obj):
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
             # header
-            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(name, obj.filename))
+            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(quoted(name), quoted(obj.filename)))
             body.write(six.b('\r\n'))
             if 'Content-Type' in obj.header:
                 w(body).write('Content-Type: {0}'.format(obj.header['Content-Type']))
@@ -129,7 +133,7 @@ class Request(object):
         for k, v in self.__p['formData']:
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
-            w(body).write('Content-Disposition: form-data; name="{0}"'.format(k))
+            w(body).write('Content-Disposition: form-data; name="{0}"'.format(quoted(k)))
             body.write(six.b('\r\n'))
             body.write(six.b('\r\n'))
 
-- 
2.43.0


From 521b628b2581a95f6dd05fff421ce5b4184b2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 13/45] fix: let TornadoClient send what the operation defines

tornado refuses POST, PUT and PATCH without a body, and others with one.
---
 pyswagger/contrib/client/tornado.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..60ee6d9 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -45,7 +45,9 @@ class TornadoClient(BaseClient):
             url=url,
             method=req.method.upper(),
             headers=tornado_headers,
-            body=req.data
+            body=req.data,
+            # a body is optional for every method in Swagger
+            allow_nonstandard_methods=True
             )
         rs = yield self.__client.fetch(rq)
 
-- 
2.43.0


From bf2954ef840ba4033e7b0170e078796e4ee95136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:50 +0000
Subject: [PATCH 14/45] fix: let FlaskTestClient send forms and files as given

Files given by name were sent empty, content types of files and repeated form
fields were lost, file names were not quoted, streams of the caller were
closed, and newer werkzeug refuses form data as a list of pairs. Encode the
body in Request, as the other clients do.
---
 pyswagger/contrib/client/flask.py | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..606b422 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -1,7 +1,5 @@
 from __future__ import absolute_import
 from ...core import BaseClient
-from werkzeug.datastructures import FileStorage
-import six
 
 
 class FlaskTestClient(BaseClient):
@@ -32,42 +30,17 @@ class FlaskTestClient(BaseClient):
         req, resp = super(FlaskTestClient, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
-        req.prepare(scheme=self.prepare_schemes(req), handle_files=False)
+        req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
         req._patch(opt)
 
         composed_headers = self.compose_headers(req, headers, opt)
 
-        # prepare data, flask's data is composed of form and file
-        if req.files:
-            data = {}
-            # form
-            data.update(req._p['formData'])
-            # file
-            for k, v in six.iteritems(req.files):
-                if isinstance(v, list):
-                    data[k] = []
-                    for vv in v:
-                        data[k].append(FileStorage(
-                            name=k,
-                            filename=vv.filename,
-                            stream=vv.data
-                        ))
-                else:
-                    data[k] = FileStorage(
-                        name=k,
-                        filename=v.filename,
-                        stream=v.data
-                    )
-
-        else:
-            data = req.data if req._p['body'] else req._p['formData']
-
         r = self.__client.open(
             path=req.url,
             query_string=req.query,
             method=req.method.upper(),
             headers=composed_headers,
-            data=data
+            data=req.data
             )
 
         # convert to Response
-- 
2.43.0


From 06477f94331e1d189be8bd1c19b480f1f604ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:50 +0000
Subject: [PATCH 15/45] fix: close the files that Client opens for uploading

---
 pyswagger/contrib/client/requests.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..ec95442 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -44,7 +44,10 @@ class Client(BaseClient):
         # prepare for uploaded files
         file_obj = []
         def append(name, obj):
-            f = obj.data or open(obj.filename, 'rb')
+            f = obj.data
+            if not f:
+                with open(obj.filename, 'rb') as opened:
+                    f = opened.read()
             if 'Content-Type' in obj.header:
                 file_obj.append((name, (obj.filename, f, obj.header['Content-Type'])))
             else:
-- 
2.43.0


From ebd01f15977ff2ffcc5df4f8156145c87b212fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 16/45] fix: send the files again when a request is sent again

Streams were left at their end by the first attempt, so that files were empty
in the next one.
---
 pyswagger/io.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index b2c8c7d..8895d53 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -38,12 +38,32 @@ class Request(object):
         self.__consume = None
         self.__produce = None
         self.__scheme = None
+        self.__streams = None
 
     def reset(self):
         self.__url = self.__op.url
         self.__path = self.__op.path
         self.__header = CaseInsensitiveDict()
         self.__data = None
+        self._rewind()
+
+    def _rewind(self):
+        """ private function to make streams of files be at where they were
+        when this request was used for the first time.
+        """
+        if self.__streams is not None:
+            for stream, pos in self.__streams:
+                stream.seek(pos)
+            return
+
+        self.__streams = []
+        for v in six.itervalues(self.__p['file']):
+            for f in v if isinstance(v, list) else [v]:
+                try:
+                    self.__streams.append((f.data, f.data.tell()))
+                except (AttributeError, IOError):
+                    # not a seekable stream
+                    pass
 
     def consume(self, consume):
         self.__consume = consume
-- 
2.43.0


From 493a8ce61a8b1be897bad062dfe9aee5acc2b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 17/45] fix: find the declared type of a response header in any
 case

---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 8895d53..2012ddf 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -387,8 +387,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        # names of headers are case-insensitive
+        for name, h in six.iteritems((resp and resp.headers) or {}):
+            if name.lower() == k.lower():
+                v = h._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From 8ce9d13efa5ce9a3222c4f3079813efd0a7d73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 18/45] fix: decode the text of text/plain responses

---
 pyswagger/primitives/codec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 1fa261f..3203270 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -40,6 +40,9 @@ class PlainCodec:
         return value
 
     def unmarshal(self, data, **kwargs):
+        # 'byte' and 'binary' are made from bytes, others from text
+        if isinstance(data, six.binary_type) and kwargs.get('_format', None) not in ['byte', 'binary']:
+            data = data.decode('utf-8')
         return data
 
 
-- 
2.43.0


From b502cd5a6e38e999885c5336fe0ac8a4f11a06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:28 +0000
Subject: [PATCH 19/45] fix: forget the credentials of a client when a request
 is reset

---
 pyswagger/core.py |  1 +
 pyswagger/io.py   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index a90abe5..8ae374f 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -508,6 +508,7 @@ class Security(object):
         if not req._security:
             return req
 
+        req._keep_unauthorized()
         for s in req._security:
             for k, v in six.iteritems(s):
                 if not k in self.__info:
diff --git a/pyswagger/io.py b/pyswagger/io.py
index 2012ddf..bdb13cf 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -39,6 +39,7 @@ class Request(object):
         self.__produce = None
         self.__scheme = None
         self.__streams = None
+        self.__unauthorized = None
 
     def reset(self):
         self.__url = self.__op.url
@@ -46,6 +47,19 @@ class Request(object):
         self.__header = CaseInsensitiveDict()
         self.__data = None
         self._rewind()
+        if self.__unauthorized is not None:
+            self.__p.update(self.__unauthorized)
+            self.__unauthorized = None
+
+    def _keep_unauthorized(self):
+        """ private function to keep what 'reset' has to restore after
+        credentials are applied, they belong to one client only.
+        """
+        if self.__unauthorized is None:
+            self.__unauthorized = dict(
+                header=dict(self.__p['header']),
+                query=list(self.__p['query'])
+            )
 
     def _rewind(self):
         """ private function to make streams of files be at where they were
-- 
2.43.0


From ff589a43d3551b2d24b309b1520a0b87021a2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 20/45] fix: leave the list of schemes given to Request.prepare
 as it is

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index bdb13cf..e4fafb0 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -220,7 +220,7 @@ class Request(object):
 
         if isinstance(scheme, list):
             if self.__scheme is None:
-                scheme = scheme.pop()
+                scheme = scheme[-1]
             else:
                 if self.__scheme in scheme:
                     scheme = self.__scheme
-- 
2.43.0


From f645301f29c4f0cc43b930826729c2880afe4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 21/45] fix: close the connection when a document is answered
 with an error

---
 pyswagger/getter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 79eab1b..9256393 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -144,6 +144,10 @@ def _url_load(path):
     try:
         f = six.moves.urllib.request.urlopen(path)
         ret = f.read()
+    except six.moves.urllib.error.HTTPError as e:
+        # it comes with the response, and keeps the connection open
+        e.close()
+        raise
     finally:
         if f:
             f.close()
-- 
2.43.0


From e8d72e14fcc1fb1f1d703a64bdd4ab793fbcd85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 22/45] fix: render parameters given by reference

---
 pyswagger/primitives/render.py | 2 ++
 pyswagger/scanner/v2_0/aggt.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..3d7734c 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -276,6 +276,7 @@ class Renderer(object):
             raise ValueError('Not a dict: {0}'.format(opt))
 
         if isinstance(obj, Parameter):
+            obj = final(obj)
             if getattr(obj, 'in', None) == 'body':
                 return self._generate(obj.schema, opt)
             return self._generate(obj, opt=opt)
@@ -302,6 +303,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(p)
             if p.name in exclude:
                 continue
             if p.name in template:
diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index a48a385..7fe4815 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -1,7 +1,7 @@
 from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...errs import CycleDetectionError
-from ...spec.v2_0.objects import Schema
+from ...spec.v2_0.objects import Parameter, Schema
 from ...spec.base import NullContext
 from ...spec.v2_0.parser import SchemaContext
 from ...utils import deref, CycleGuard
@@ -59,3 +59,10 @@ class Aggregate(object):
     @Disp.register([Schema])
     def _schema(self, path, obj, _):
         _compose(obj)
+
+    @Disp.register([Parameter])
+    def _parameter(self, path, obj, _):
+        # what is used is the merged one, it has a schema of its own
+        if obj.final and obj.final.schema:
+            _compose(obj.final.schema)
+
-- 
2.43.0


From ef6b25d7d19feb5e04ac2bf94b056897289a65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 23/45] fix: render integers within their limits

---
 pyswagger/primitives/render.py | 35 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 3d7734c..22ca3bf 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
 from decimal import Decimal
+import math
 import random
 import six
 import sys
@@ -17,25 +18,35 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
+maxInt32 = (1 << 31) - 1
 minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
+maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
     if val:
         return val
 
-    max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
-
-    min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
-
-    out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    limit = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
+    step = 1
+    if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0:
+        step = abs(obj.multipleOf)
+
+    # bounds, both included, 0 is a bound as any other number
+    min_, max_ = obj.minimum, obj.maximum
+    if min_ != None:
+        min_ = int(math.floor(min_)) + 1 if obj.exclusiveMinimum else int(math.ceil(min_))
+    if max_ != None:
+        max_ = int(math.ceil(max_)) - 1 if obj.exclusiveMaximum else int(math.floor(max_))
+
+    # without a declared one, keep to the format as long as that leaves something
+    if min_ == None:
+        min_ = -limit if max_ == None or max_ // step * step >= -limit else max_ - limit
+    if max_ == None:
+        max_ = limit if -(-min_ // step) * step <= limit else min_ + limit
+
+    # pick one of the multiples in between
+    return random.randint(-(-min_ // step), max_ // step) * step
 
 def _float_(obj, _, val=None):
     if val:
-- 
2.43.0


From 0751c97c7ce02ed2b234a4ce32a8101af853044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 24/45] fix: render enumerated values that are empty or 0

---
 pyswagger/primitives/render.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 22ca3bf..3796b45 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -24,7 +24,7 @@ maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
-    if val:
+    if val != None:
         return val
 
     limit = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
@@ -49,7 +49,7 @@ def _int_(obj, _, val=None):
     return random.randint(-(-min_ // step), max_ // step) * step
 
 def _float_(obj, _, val=None):
-    if val:
+    if val != None:
         return val
 
     # TODO: exclusiveMaximum == False is not implemented.
@@ -66,7 +66,7 @@ def _float_(obj, _, val=None):
     return float(out)
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val != None:
         return val
 
     max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
@@ -76,10 +76,10 @@ def _str_(obj, opt, val=None):
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val != None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
-    return uuid.UUID(val) if val else uuid.uuid4()
+    return uuid.UUID(val) if val != None else uuid.uuid4()
 
 names = list(string.ascii_letters) + ['_', '-'] + list(string.digits)
 def _email_name_():
@@ -88,7 +88,7 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val != None:
         return val
 
     host_length = random.randint(2, 100)
@@ -102,21 +102,21 @@ def _email_(obj, _, val=None):
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val != None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
 max_date = time.mktime(datetime.date(2038, 1, 19).timetuple())
 min_date = time.mktime(datetime.date(1970, 1, 2).timetuple())
 def _date_(obj, _, val=None):
-    return from_iso8601(val).date() if val else datetime.date.fromtimestamp(
+    return from_iso8601(val).date() if val != None else datetime.date.fromtimestamp(
         random.uniform(min_date, max_date)
     )
 
 max_datetime = time.mktime(datetime.datetime(2038, 1, 19).utctimetuple())
 min_datetime = time.mktime(datetime.datetime(1970, 1, 2).utctimetuple())
 def _date_time_(obj, _, val=None):
-    return from_iso8601(val) if val else datetime.datetime.utcfromtimestamp(
+    return from_iso8601(val) if val != None else datetime.datetime.utcfromtimestamp(
         random.uniform(min_datetime, max_datetime)
     )
 
-- 
2.43.0


From f34516bb01af95f78c9b6281f9a95fb7ad40f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:32 +0000
Subject: [PATCH 25/45] fix: render numbers within their limits

---
 pyswagger/primitives/render.py | 36 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 3796b45..b5d9107 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -52,17 +52,31 @@ def _float_(obj, _, val=None):
     if val != None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
-
-    out = None
-    while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
-            out = None
+    min_, max_ = obj.minimum, obj.maximum
+    if obj.multipleOf:
+        # pick one of the multiples in between
+        step = abs(obj.multipleOf)
+        if min_ != None:
+            min_ = int(math.floor(min_ / step)) + 1 if obj.exclusiveMinimum else int(math.ceil(min_ / step))
+        if max_ != None:
+            max_ = int(math.ceil(max_ / step)) - 1 if obj.exclusiveMaximum else int(math.floor(max_ / step))
+        if min_ == None:
+            min_ = 0 if max_ == None or max_ >= 0 else max_ - maxInt32
+        if max_ == None:
+            max_ = max(min_, 0) + maxInt32
+        return float(random.randint(min_, max_) * step)
+
+    # 0 is a bound as any other number
+    if min_ == None:
+        min_ = sys.float_info.min if max_ == None or max_ > sys.float_info.min else -sys.float_info.max
+    if max_ == None:
+        max_ = sys.float_info.max
+
+    # the span might be more than a float can hold
+    r = random.random()
+    out = min(max(min_ * (1 - r) + max_ * r, min_), max_)
+    if (out == min_ and obj.exclusiveMinimum) or (out == max_ and obj.exclusiveMaximum):
+        out = min_ / 2.0 + max_ / 2.0
     return float(out)
 
 def _str_(obj, opt, val=None):
-- 
2.43.0


From bd6dd7c7712ad5aa3df7e085cf271a432f5bb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 26/45] fix: render texts and arrays of the declared length

---
 pyswagger/primitives/render.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index b5d9107..5ffa86e 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -23,6 +23,13 @@ minInt32 = -maxInt32
 maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
+def _limits_(min_, max_, default):
+    """ limits of a length or a count, 'default' is the
+    upper one when the spec declares none.
+    """
+    min_ = min_ or 0
+    return min_, max(min_, default) if max_ == None else max_
+
 def _int_(obj, _, val=None):
     if val != None:
         return val
@@ -83,8 +90,7 @@ def _str_(obj, opt, val=None):
     if val != None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
-    min_ = obj.minLength if obj.minLength else 0
+    min_, max_ = _limits_(obj.minLength, obj.maxLength, opt['max_str_length'])
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
@@ -232,8 +238,7 @@ class Renderer(object):
                                 break
 
         elif type_ == 'array':
-            min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            min_, max_ = _limits_(obj.minItems, obj.maxItems, opt['max_array_length'])
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
                 out.append(self._generate(obj.items, opt))
-- 
2.43.0


From ba086726dff1ab62cde19f8933fe130419c3578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:58 +0000
Subject: [PATCH 27/45] fix: render email addresses of the declared length

---
 pyswagger/primitives/render.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 5ffa86e..676611c 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -113,14 +113,29 @@ def _email_(obj, _, val=None):
 
     host_length = random.randint(2, 100)
     region_length = random.randint(2, 30)
-    return '.'.join([_email_name_() for _ in six.moves.xrange(random.randint(1, 4))]) \
-        + '@' \
-        + random.choice(string.ascii_letters) \
-        + ''.join([random.choice(names) for _ in six.moves.xrange(host_length)]) \
-        + '.' \
-        + random.choice(string.ascii_letters) \
+    local = '.'.join([_email_name_() for _ in six.moves.xrange(random.randint(1, 4))])
+    host = random.choice(string.ascii_letters) \
+        + ''.join([random.choice(names) for _ in six.moves.xrange(host_length)])
+    region = random.choice(string.ascii_letters) \
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
+    length = len(local) + len(host) + len(region) + 2
+    if obj.maxLength != None and length > obj.maxLength:
+        # shorten region, then host, then name, which ends with a letter
+        over = length - obj.maxLength
+        n = min(over, len(region) - 2)
+        region = region[:len(region) - n]
+        over = over - n
+        n = min(over, len(host) - 1)
+        host = host[:len(host) - n]
+        over = over - n
+        n = min(over, len(local) - 1)
+        local = local[:len(local) - 1 - n] + local[-1]
+    elif obj.minLength != None and length < obj.minLength:
+        host = host + 'x' * (obj.minLength - length)
+
+    return local + '@' + host + '.' + region
+
 def _byte_(obj, opt, val=None):
     return val if val != None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
-- 
2.43.0


From 297114de6a2e235103caac1ba27b9917348cbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 28/45] fix: render different items where uniqueItems is asked
 for

---
 pyswagger/primitives/render.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 676611c..544aef4 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -255,8 +255,19 @@ class Renderer(object):
         elif type_ == 'array':
             min_, max_ = _limits_(obj.minItems, obj.maxItems, opt['max_array_length'])
             out = []
-            for _ in six.moves.xrange(random.randint(min_, max_)):
-                out.append(self._generate(obj.items, opt))
+            count = random.randint(min_, max_)
+            # there might be fewer different values than asked for
+            tries = 100 * (count + 1)
+            while len(out) < count:
+                item = self._generate(obj.items, opt)
+                if not obj.uniqueItems or item not in out:
+                    out.append(item)
+                    continue
+                tries = tries - 1
+                if tries <= 0:
+                    if len(out) >= min_:
+                        break
+                    raise ValueError('Unable to render {0} different items: {1}'.format(min_, obj))
 
         elif type_ != None:
             out = None
-- 
2.43.0


From 5ae3baeb6b8c35faecf4ad666c043bd7039eacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 29/45] fix: render objects with the properties they may have

---
 pyswagger/primitives/render.py | 45 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 544aef4..f8164e9 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -224,33 +224,46 @@ class Renderer(object):
         if type_ == 'object':
             max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
-            count = 0
-            for name, prop in six.iteritems(obj.properties or {}):
+            min_, max_ = _limits_(obj.minProperties, obj.maxProperties, opt['max_prop_count'])
+            props = obj.properties or {}
+            keep, optional, skipped = [], [], []
+            for name, prop in six.iteritems(props):
                 if name in template:
-                    out[name] = template[name]
+                    keep.append(name)
+                elif final(deref(prop)).readOnly:
+                    # not allowed when writing
                     continue
-                if not max_p and not name in obj.required:
-                    if random.randint(0, 1) == 0 or opt['minimal_property']:
-                        continue
-                out[name] = self._generate(prop, opt)
-                count = count + 1
+                elif name in obj.required:
+                    keep.append(name)
+                elif not max_p and (random.randint(0, 1) == 0 or opt['minimal_property']):
+                    skipped.append(name)
+                else:
+                    optional.append(name)
+
+            # respect the limits with those we could choose
+            if obj.maxProperties != None:
+                optional = optional[:max(max_ - len(keep), 0)]
+            if not isinstance(obj.additionalProperties, Schema):
+                optional = optional + skipped[:max(min_ - len(keep) - len(optional), 0)]
+
+            for name in keep + optional:
+                out[name] = template[name] if name in template else self._generate(props[name], opt)
 
             if isinstance(obj.additionalProperties, Schema):
                 # TODO: additionalProperties == True is not handled
 
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = random.randint(min_, max_) - len(out)
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
-                        while True:
-                            length = random.randint(0, opt['max_name_length'])
+                        # there might be fewer names of that length than asked for
+                        tries, name = 0, None
+                        while name is None or name in out or name in props:
+                            length = random.randint(0, opt['max_name_length'] + tries // 1000)
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
-                                out[name] = self._generate(obj.additionalProperties, opt)
-                                break
+                            tries = tries + 1
+                        out[name] = self._generate(obj.additionalProperties, opt)
 
         elif type_ == 'array':
             min_, max_ = _limits_(obj.minItems, obj.maxItems, opt['max_array_length'])
-- 
2.43.0


From b276064df28fa35bd4ef37738c5953893886ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:09 +0000
Subject: [PATCH 30/45] fix: composed schemas may stand for plain values

---
 pyswagger/primitives/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..689092f 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -195,7 +195,8 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif (len(obj.properties) or obj.additionalProperties) and (isinstance(val, dict) or not obj.allOf):
+            # when composed by allOf, other values get their type from a member
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
@@ -216,24 +217,32 @@ class Primitive(object):
                     c['2nd_pass'] = _2nd
             return v
 
+        def _is_unknown(r):
+            # 0, False or '' are values
+            return r is None or (isinstance(r, (Model, Array)) and not r)
+
         # handle allOf for Schema Object
         allOf = getattr(obj, 'allOf', None)
         if allOf:
             not_applied = []
             for a in allOf:
                 a = deref(a)
-                if not ret:
+                if _is_unknown(ret):
+                    if not (a.type or a.allOf or isinstance(val, dict)):
+                        not_applied.append(a)
+                        continue
+
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
                     is_member = hasattr(ret, 'apply_with')
                 else:
                     val = _apply(a, ret, val, ctx)
 
-                if not ret:
+                if _is_unknown(ret):
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
+            if not _is_unknown(ret):
                 for a in not_applied:
                     val = _apply(a, ret, val, ctx)
 
-- 
2.43.0


From 5f996f3f4b45b6b2d1b22706f69caf477b18f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 31/45] fix: apply all levels of schemas composed by allOf

---
 pyswagger/primitives/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 689092f..da19616 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -204,7 +204,7 @@ class Primitive(object):
             # it's meanless to handle allOf for these types.
             return ret
 
-        def _apply(o, r, v, c):
+        def _apply(o, r, v, c, applied=()):
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
@@ -215,6 +215,13 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
+
+            # those 'o' is composed of, in turn
+            applied = applied + (o,)
+            for m in getattr(o, 'allOf', None) or []:
+                m = deref(m)
+                if not any(m is _o for _o in applied):
+                    v = _apply(m, r, v, c, applied)
             return v
 
         def _is_unknown(r):
-- 
2.43.0


From 4ea48c00a06e9b282d4ec2ed5065c7f1399c5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 32/45] fix: a schema may require properties its members
 declare

---
 pyswagger/primitives/_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index f138158..89f80f9 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,7 +44,8 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
+        # one might be declared by a schema not applied yet
+        not_found = set(obj.required) - set(six.iterkeys(self)) - set(six.iterkeys(val))
         if len(not_found):
             raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
 
-- 
2.43.0


From af39b70579fbead1c7a0ec26a6f8d5590a8bc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 33/45] fix: multiples below a maximum may be negative

---
 pyswagger/primitives/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index f8164e9..f3d83f4 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -68,7 +68,7 @@ def _float_(obj, _, val=None):
         if max_ != None:
             max_ = int(math.ceil(max_ / step)) - 1 if obj.exclusiveMaximum else int(math.floor(max_ / step))
         if min_ == None:
-            min_ = 0 if max_ == None or max_ >= 0 else max_ - maxInt32
+            min_ = 0 if max_ == None else min(0, max_ - maxInt32)
         if max_ == None:
             max_ = max(min_, 0) + maxInt32
         return float(random.randint(min_, max_) * step)
-- 
2.43.0


From d0d66b6de8a2a49d90b005778779a984da46b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 34/45] fix: a JSON pointer reaches only what the document has,
 not attributes of the objects that hold it

---
 pyswagger/resolve.py   |  4 ++--
 pyswagger/spec/base.py | 14 +++++++++++---
 pyswagger/utils.py     |  7 +++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 61d8984..9dc0da1 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -1,5 +1,5 @@
 from __future__ import absolute_import
-from .utils import jr_split, jp_split
+from .utils import jr_split, jp_split, jp_index
 from .getter import UrlGetter, LocalGetter
 import six
 import os
@@ -77,7 +77,7 @@ class Resolver(object):
             while len(ts) > 0:
                 t = ts.pop(0)
                 if isinstance(obj, list):
-                    obj = obj[int(t)]
+                    obj = obj[jp_index(t)]
                 elif isinstance(obj, dict):
                     obj = obj[t]
                 else:
diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index 33fce1b..b64d0c5 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -1,5 +1,5 @@
 from __future__ import absolute_import
-from ..utils import jp_compose
+from ..utils import jp_compose, jp_index
 import six
 import copy
 import functools
@@ -269,11 +269,19 @@ class BaseObj(object):
             t = ts.pop(0)
 
             if issubclass(obj.__class__, BaseObj):
-                obj = getattr(obj, t)
+                # only what the document has, nothing else an object might have
+                if t not in obj.__swagger_fields__:
+                    raise KeyError(t)
+                v = getattr(obj, t)
+                if not obj.is_set(t) and v == obj.__swagger_fields__[t]:
+                    raise KeyError(t)
+                obj = v
             elif isinstance(obj, list):
-                obj = obj[int(t)]
+                obj = obj[jp_index(t)]
             elif isinstance(obj, dict):
                 obj = obj[t]
+            else:
+                raise KeyError(t)
 
         return obj
 
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index c59140c..c03099d 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -253,6 +253,13 @@ def jp_split(s):
 
     return [_decode(ss) for ss in s.split('/')]
 
+def jp_index(s):
+    """ convert a token of json-pointer to an index of list
+    """
+    if not re.match(r'(0|[1-9][0-9]*)$', s):
+        raise ValueError('not an index: [{0}]'.format(s))
+    return int(s)
+
 def jr_split(s):
     """ split a json-reference into (url, json-pointer)
     """
-- 
2.43.0


From 88b9e6a011de227fa9c4757ee91113063e27c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 35/45] fix: check pointers where references are resolved, and
 leave pyswagger/spec as it was

---
 pyswagger/core.py      | 24 +++++++++++++++++++++++-
 pyswagger/spec/base.py | 14 +++-----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 8ae374f..795c8c1 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from .resolve import Resolver
+from .spec.base import BaseObj
 from .primitives import Primitive, MimeCodec
 from .spec.v1_2.parser import ResourceListContext
 from .spec.v2_0.parser import SwaggerContext
@@ -20,6 +21,27 @@ import logging
 logger = logging.getLogger(__name__)
 
 
+def _part_of(obj, ts):
+    """ locate a part of an object by tokens of a JSON pointer, only what
+    the document has, nothing else an object might have.
+    """
+    for t in ts:
+        if isinstance(obj, BaseObj):
+            default = obj.__swagger_fields__[t]
+            v = getattr(obj, t)
+            if not obj.is_set(t) and v == default:
+                raise KeyError(t)
+            obj = v
+        elif isinstance(obj, list):
+            obj = obj[utils.jp_index(t)]
+        elif isinstance(obj, dict):
+            obj = obj[t]
+        else:
+            raise KeyError(t)
+
+    return obj
+
+
 class App(object):
     """ Major component of pyswagger
 
@@ -404,7 +426,7 @@ class App(object):
         for k, v in six.iteritems(self.__objs.get(url, {})):
             if jp == k or jp.startswith(k + '/'):
                 try:
-                    obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                    obj = _part_of(v, utils.jp_split(jp[len(k):])[1:])
                     break
                 except (AttributeError, KeyError, IndexError, ValueError):
                     # not a part of that object (ex. below a vendor extension),
diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index b64d0c5..33fce1b 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -1,5 +1,5 @@
 from __future__ import absolute_import
-from ..utils import jp_compose, jp_index
+from ..utils import jp_compose
 import six
 import copy
 import functools
@@ -269,19 +269,11 @@ class BaseObj(object):
             t = ts.pop(0)
 
             if issubclass(obj.__class__, BaseObj):
-                # only what the document has, nothing else an object might have
-                if t not in obj.__swagger_fields__:
-                    raise KeyError(t)
-                v = getattr(obj, t)
-                if not obj.is_set(t) and v == obj.__swagger_fields__[t]:
-                    raise KeyError(t)
-                obj = v
+                obj = getattr(obj, t)
             elif isinstance(obj, list):
-                obj = obj[jp_index(t)]
+                obj = obj[int(t)]
             elif isinstance(obj, dict):
                 obj = obj[t]
-            else:
-                raise KeyError(t)
 
         return obj
 
-- 
2.43.0


From 790b1075cc6e6e7d13930c082c1fe3a219cfad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:28 +0000
Subject: [PATCH 36/45] fix: JSON after a byte-order-mark or blanks is JSON,
 not YAML

---
 pyswagger/getter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 9256393..6c200ad 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -42,9 +42,17 @@ class Getter(six.Iterator):
 
         # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
+            # JSON might come after a byte-order-mark or blanks
+            text = obj.lstrip(u'\ufeff \t\r\n')
             try:
-                if obj.startswith('{'):
-                    obj = json.loads(obj)
+                if text.startswith('{'):
+                    try:
+                        obj = json.loads(text)
+                    except ValueError:
+                        # or it's a flow mapping in YAML
+                        if obj.startswith('{'):
+                            raise
+                        obj = yaml.load(obj)
                 else:
                     obj = yaml.load(obj)
             except ValueError:
-- 
2.43.0


From dab2e85559f7a52fc92b9da1fe20c2d11fce2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 37/45] fix: an array keeps its leading empty strings on the
 wire

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..363a328 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -64,10 +64,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From 776367e700a6bc14145482cb19f33a8756521946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 38/45] fix: a discriminator given by the caller or the server
 is kept

---
 pyswagger/primitives/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 89f80f9..85461c7 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -55,7 +55,7 @@ class Model(dict):
         for k in set(six.iterkeys(val)) - in_obj:
             _val[k] = val[k]
 
-        if obj.discriminator:
+        if obj.discriminator and obj.discriminator not in self:
             self[obj.discriminator] = ctx['name']
 
         return _val
-- 
2.43.0


From e02676cdc7aa6fcbf09ec3c2e60bd2f068fe9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:05 +0000
Subject: [PATCH 39/45] fix: scopes required by a whole Swagger 1.2 resource

---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..0324cb1 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -165,7 +165,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of a resource object are not parsed
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From 07952406006ea5c146fb013319d28f07d8b2b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:47 +0000
Subject: [PATCH 40/45] fix: local files below directories whose names are
 quoted in urls

Files below 'my api/' were looked for in 'my%20api/'.
---
 pyswagger/getter.py  | 2 +-
 pyswagger/resolve.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 6c200ad..c6612eb 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -76,7 +76,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9dc0da1..e5f5c01 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -61,7 +61,8 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 p = six.moves.urllib.parse.urlparse(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    # a path is quoted in urls
+                    getter = LocalGetter(os.path.join(p.netloc, six.moves.urllib.parse.unquote(p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From b1651a4e50178359eb293ca76289e14550ed76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 41/45] fix: references to other documents by absolute path,
 and with a query

'/defs.json' in 'http://host/api/swagger.json' was looked for at '/api//defs.json'.
---
 pyswagger/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index c03099d..2912c41 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -392,9 +392,13 @@ def normalize_jr(jr, url=None):
     if len(path) > 0:
         p = six.moves.urllib.parse.urlparse(path)
         if p.scheme == '' and url:
-            p = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path).rstrip('/'), path]),)+p[3:])
+            base = six.moves.urllib.parse.urlparse(url)
+            if p.netloc == '':
+                p = p._replace(netloc=base.netloc)
+                if not p.path.startswith('/'):
+                    # it's the path of relative file
+                    p = p._replace(path='/'.join([os.path.dirname(base.path).rstrip('/'), p.path]))
+            path = six.moves.urllib.parse.urlunparse(p._replace(scheme=base.scheme, query=p.query or base.query))
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From ebcbb43d39644882de0f9593a0782964139973cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 42/45] fix: JSON pointers quoted as parts of an url

'#/definitions/My%20Type' refers to 'My Type'.
---
 pyswagger/core.py    | 2 +-
 pyswagger/resolve.py | 4 ++--
 pyswagger/utils.py   | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 795c8c1..5802d39 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -35,7 +35,7 @@ def _part_of(obj, ts):
         elif isinstance(obj, list):
             obj = obj[utils.jp_index(t)]
         elif isinstance(obj, dict):
-            obj = obj[t]
+            obj = obj[utils.jp_key(obj, t)]
         else:
             raise KeyError(t)
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index e5f5c01..dc0b48c 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -1,5 +1,5 @@
 from __future__ import absolute_import
-from .utils import jr_split, jp_split, jp_index
+from .utils import jr_split, jp_split, jp_index, jp_key
 from .getter import UrlGetter, LocalGetter
 import six
 import os
@@ -80,7 +80,7 @@ class Resolver(object):
                 if isinstance(obj, list):
                     obj = obj[jp_index(t)]
                 elif isinstance(obj, dict):
-                    obj = obj[t]
+                    obj = obj[jp_key(obj, t)]
                 else:
                     raise Exception('Invalid type to resolve json-pointer: {0}'.format(str(type(obj))))
         else:
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 2912c41..f219fcf 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -260,6 +260,12 @@ def jp_index(s):
         raise ValueError('not an index: [{0}]'.format(s))
     return int(s)
 
+def jp_key(d, s):
+    """ convert a token of json-pointer to a key of dict,
+    it might be quoted because it's a part of an url.
+    """
+    return s if s in d else six.moves.urllib.parse.unquote(s)
+
 def jr_split(s):
     """ split a json-reference into (url, json-pointer)
     """
-- 
2.43.0


From fb45fccba7b31696b03c335ceaa7a566a2a40865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:38 +0000
Subject: [PATCH 43/45] fix: the text 'false' of a typed header is False

---
 pyswagger/primitives/_bool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_bool.py b/pyswagger/primitives/_bool.py
index 3ce12eb..9e8a2b7 100644
--- a/pyswagger/primitives/_bool.py
+++ b/pyswagger/primitives/_bool.py
@@ -1,7 +1,10 @@
 from __future__ import absolute_import
+import six
 
 
 def create_bool(_, v, ctx=None):
+    if isinstance(v, six.string_types) and v.lower() == 'false':
+        # the text of a header, bool('false') is True
+        return False
     return bool(v)
 
-
-- 
2.43.0


From 642c71bd79d300cf191812ed80381310c1396c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:48 +0000
Subject: [PATCH 44/45] fix: the folder of a Swagger 1.2 resource list named
 .yml

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index f219fcf..8f4b48b 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -346,7 +346,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
+    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
         if p.path.endswith(e):
             return six.moves.urllib.parse.urlunparse(
                 p[:2]+
-- 
2.43.0


From 2bdcdb422f4b4d52e38caf39a6a3a611b038249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:06 +0000
Subject: [PATCH 45/45] fix: the time zone of date-times with more than six
 digits of a second

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 8f4b48b..83a0a8c 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -129,7 +129,7 @@ class FixedTZ(datetime.tzinfo):
 _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
+    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms
     '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
 ]))
 _iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
-- 
2.43.0

