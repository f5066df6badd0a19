From 6962794621d016c3979e807a755eb8ac4c27bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 01/33] fix: get_many() loses all keys when they are passed as
 an iterator

---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..1a0d751 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,6 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)  # can be an iterator, but it is used more than once
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From 3a3e3adbcdfbfcd4188fcc32568c68866e4e7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 02/33] fix: get_or_set_callback() leaves the cache node opened
 when callback fails

---
 cache_dependencies/cache.py   | 6 +++++-
 cache_dependencies/tagging.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 1a0d751..5458e7e 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -45,7 +45,11 @@ class CacheWrapper(object):  # Adapter
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except Exception:
+                self.abort(key)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..5866048 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -20,7 +20,11 @@ class CacheTagging(object):  # Backward compatibility
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except Exception:
+                self.abort(key)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From 169b4c70d6dbd3168f02a76b4bea7db2d1df61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 03/33] fix: cache.ignore_descendants set by user has no effect

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 5866048..4dc7f31 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -71,6 +71,14 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 556e92a96d6390f259dcf690a17d81d1c051fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 04/33] fix: "key in cache" raises TypeError

---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 5458e7e..c81478e 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -194,6 +194,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 4dc7f31..ef3c311 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -79,6 +79,9 @@ class CacheTagging(object):  # Backward compatibility
     def ignore_descendants(self, value):
         self.cache.ignore_descendants = value
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 54876470e5f5d71a952836b2afaa342434c98c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 05/33] fix: validate_key() fails with ValueError instead of
 warning

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index c81478e..397ea87 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -326,7 +326,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From e0bcde8b44f4e3be17e10afb0099377619747b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 06/33] fix: caches created inside of rolled back transaction
 stay valid

---
 cache_dependencies/locks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..9093faf 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -57,6 +57,7 @@ class ReadUncommittedDependencyLock(DependencyLock):
         """
         if self._delay:
             return self._release_dependency_delayed(dependency, version)
+        self._release_dependency_target(dependency, version)
 
     def _release_dependency_delayed(self, dependency, version):
         return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
@@ -74,7 +75,8 @@ class ReadCommittedDependencyLock(ReadUncommittedDependencyLock):
         :type version: int or None
         """
         self._release_dependency_target(dependency, version)
-        super(ReadCommittedDependencyLock, self).release(dependency, transaction, version)
+        if self._delay:
+            self._release_dependency_delayed(dependency, version)
 
 
 class RepeatableReadDependencyLock(DependencyLock):
@@ -94,6 +96,8 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type version: int or None
         """
         dependency.release(self._cache(), transaction, self._delay, version)
+        # Caches created by the current session inside of the transaction can be dirty (rollback).
+        dependency.invalidate(self._cache(), version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From 0d4d63b961a677f40cd71ea8d6478c55574b0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 07/33] fix: forked process shares the session id with its
 parent

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..89a9d83 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()
+    if getattr(_thread_local, 'pid', None) != pid:  # First call in the thread or in the forked process
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From 9de27a1f4edee0df215b2248af3e6bfde2859a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 08/33] fix: flush() of transaction manager is allowed for
 foreign thread

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From 101188e6db11bd86b440244f5afe8cbb070ce824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 09/33] fix: close() keeps opened cache nodes when flush()
 fails

---
 cache_dependencies/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 397ea87..7250243 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -172,8 +172,10 @@ class CacheWrapper(object):  # Adapter
         self.relation_manager.pop(key).add_dependency(dependency, version)
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
-- 
2.43.0


From 5ff0f542f102a2102515127264bfea19ce9d2745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 10/33] fix: @cache_transaction_all loses the view and leaves
 transactions opened on exception

---
 django_cache_dependencies/decorators.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..21c3a74 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -48,8 +48,10 @@ def cache_transaction_all(f=None, cache=None):
 
     def wrapper(*args, **kwargs):
         cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
+        try:
+            result = f(*args, **kwargs)
+        finally:
+            cache.transaction.flush()
         return result
 
     if f:
@@ -58,9 +60,12 @@ def cache_transaction_all(f=None, cache=None):
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
+            try:
+                result = f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
             return result
+        return wrapper
 
     return wrapper_outer
 
-- 
2.43.0


From 3670a64f785bed4e708c1aecdc41b885e40f3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 11/33] fix: UpdateCacheMiddleware fails with AttributeError
 when it is used without CacheMiddleware

---
 django_cache_dependencies/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..785cbc3 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -111,6 +111,8 @@ class UpdateCacheMiddleware(MiddlewareMixin):
     UpdateCacheMiddleware must be the first piece of middleware in MIDDLEWARE
     so that it'll get called last during the response phase.
     """
+    tags = None
+
     def __init__(self, get_response=None):
         self.cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
-- 
2.43.0


From c9d6744ebb0c1febbbb0e841e7725012c4f5d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 12/33] fix: page cache leaks the cookie of cookie-less visitor
 (see Django CVE-2014-0473)

---
 django_cache_dependencies/middleware.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 785cbc3..b62fea4 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,7 +50,7 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age
+from django.utils.cache import get_cache_key, get_max_age, has_vary_header
 
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
@@ -153,6 +153,11 @@ class UpdateCacheMiddleware(MiddlewareMixin):
 
         if getattr(response, 'streaming', None) or response.status_code != 200:
             return response
+        # Don't cache responses that set a user-specific (and maybe security
+        # sensitive) cookie in response to a cookie-less request.
+        if not request.COOKIES and response.cookies and has_vary_header(response, 'Cookie'):
+            return response
+
         # Try to get the timeout from the "max-age" section of the "Cache-
         # Control" header before reverting to using the default cache_timeout
         # length.
-- 
2.43.0


From c4f532a0399b7b121e7e994791d834882871e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 13/33] fix: FileBasedCache.set() writes the file that
 FileBasedCache.get() never reads

---
 django_cache_dependencies/backends.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..f079087 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,6 +1,6 @@
 import os
 import random
-import time
+import zlib
 import tempfile
 import threading
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
@@ -12,10 +12,7 @@ class FileBasedCache(DjangoFileBasedCache):
     _fs_transaction_suffix = '.__dj_cache'
 
     def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+        fname = self._key_to_file(key, version)
         dirname = os.path.dirname(fname)
 
         if timeout is None:
@@ -32,9 +29,8 @@ class FileBasedCache(DjangoFileBasedCache):
                                        dir=dirname)
 
             with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                pickle.dump(self.get_backend_timeout(timeout), f, pickle.HIGHEST_PROTOCOL)
+                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
             os.rename(tmp, fname)
         except (IOError, OSError):
             pass
-- 
2.43.0


From a85478ab25ad573eeb303550b50b82bea72d5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 14/33] fix: non-integer timeout of {% cache_tagging %} raises
 AttributeError

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..3ca3454 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -81,7 +81,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From 875e3816c9ea4af0c4b027405af04a238d179c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 15/33] fix: nested {% cache_tagging %} overwrites tags and
 prevention of its ancestor

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3ca3454..a695798 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -96,6 +96,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # The dicts of context are shared, don't overwrite values of ancestor
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-- 
2.43.0


From 16dc5d5a947ea1020e510ec246f60c4ad3996589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 16/33] fix: {% cache_tagging %} leaves the cache node opened
 when its rendering fails

---
 .../templatetags/cache_tagging_tags.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index a695798..8ce395d 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -64,6 +64,13 @@ class CacheNode(Node):
 
     def render(self, context):
         cache_name = self.fragment_name.resolve(context)
+        try:
+            return self._render(context, cache_name)
+        except Exception:
+            cache.abort(cache_name)
+            raise
+
+    def _render(self, context, cache_name):
         result = cache.get(cache_name)
 
         if not result:
-- 
2.43.0


From e28df048d31163a45ec32d26598f8262c96dc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 17/33] fix: empty cached fragment is rendered again without
 tracking of nested dependencies

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 8ce395d..c2625a9 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -73,7 +73,7 @@ class CacheNode(Node):
     def _render(self, context, cache_name):
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From 4bfd98f52920a0e565479a64fbaf14111026bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 18/33] fix: dependencies of descendants are lost when cached
 None is generated again

---
 cache_dependencies/cache.py   | 2 ++
 cache_dependencies/tagging.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 7250243..3c6fc2f 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -43,6 +43,8 @@ class CacheWrapper(object):  # Adapter
         """
         value = self.get(key, version=version)
         if value is None:
+            if not self.ignore_descendants:
+                self.begin(key)  # Can be already finished, if cached value is None
             args = args or []
             kwargs = kwargs or {}
             try:
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index ef3c311..00f1918 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -18,6 +18,8 @@ class CacheTagging(object):  # Backward compatibility
         """
         value = self.get(key, version=version)
         if value is None:
+            if not self.ignore_descendants:
+                self.begin(key)  # Can be already finished, if cached value is None
             args = args or ()
             kwargs = kwargs or {}
             try:
-- 
2.43.0


From 55bbd04153a1f6240448504158b3353f829bd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:30 +0000
Subject: [PATCH 19/33] fix: {% cache_tagging_prevent %} has no effect inside
 of nested scope

---
 .../templatetags/cache_tagging_tags.py              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index c2625a9..4200d96 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -23,6 +23,15 @@ register = Library()
 kwarg_re = re.compile(r"(?:(\w+)=)?(.+)")
 
 
+def _set_prevented(context):
+    for scope in reversed(context.dicts):  # Can be called inside of {% with %}, {% for %} etc.
+        if 'cache_tagging_prevent' in scope:
+            scope['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
+
+
 class CacheAddTagsNode(Node):
     """Adds a new tags from body of {% cache_tagging %}."""
     def __init__(self, tags):
@@ -112,7 +121,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                _set_prevented(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -212,7 +221,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    _set_prevented(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From c050760f56225e97150bfc8ba3400d0cfc949e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 20/33] fix: copy of CompositeDependency shares its parts with
 the original

---
 cache_dependencies/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..506cc00 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -102,7 +102,7 @@ class CompositeDependency(interfaces.IDependency):
 
     def __copy__(self):
         c = copy.copy(super(CompositeDependency, self))
-        c.delegates = c.delegates[:]
+        c.delegates = [copy.copy(delegate) for delegate in c.delegates]
         return c
 
 
-- 
2.43.0


From c3fa4b82b0003619a17ead06c730e0cd750ae56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 21/33] fix: @cache_transaction_all loses the name of the
 function

---
 django_cache_dependencies/decorators.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index 21c3a74..f8db31b 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, unicode_literals
 import collections
+from functools import wraps
 from django.utils.decorators import decorator_from_middleware_with_args
 
 from django_cache_dependencies import cache  # in real it used
@@ -46,18 +47,8 @@ def cache_transaction_all(f=None, cache=None):
     elif not cache:
         cache = globals()['cache']
 
-    def wrapper(*args, **kwargs):
-        cache.transaction.begin()
-        try:
-            result = f(*args, **kwargs)
-        finally:
-            cache.transaction.flush()
-        return result
-
-    if f:
-        return wrapper
-
     def wrapper_outer(f):
+        @wraps(f)
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
             try:
@@ -67,6 +58,8 @@ def cache_transaction_all(f=None, cache=None):
             return result
         return wrapper
 
+    if f:
+        return wrapper_outer(f)
     return wrapper_outer
 
 
-- 
2.43.0


From 750764447fe6a8ce87898bf2c204010838cf645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 22/33] fix: page does not inherit the tags of cached values if
 its header list was missed

---
 django_cache_dependencies/middleware.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index b62fea4..f9e1031 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,8 +50,9 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age, has_vary_header
+from django.utils.cache import get_cache_key, get_max_age, has_vary_header, _generate_cache_header_key
 
+from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -179,13 +180,18 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
-            cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
+            # If the header list was missed, then cached values used by the response
+            # have passed their tags to the header list, but not to the page.
+            dependency = CompositeDependency(TagsDependency(tags))
+            header_key = _generate_cache_header_key(self.key_prefix, request)
+            dependency.extend(self.cache.relation_manager.get(header_key).get_dependency())
+            cache_key = learn_cache_key(request, response, dependency, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
+                    lambda r: self.cache.set(cache_key, r, dependency, timeout)  # patched
                 )
             else:
-                self.cache.set(cache_key, response, tags, timeout)  # patched
+                self.cache.set(cache_key, response, dependency, timeout)  # patched
         # patch end
         return response
 
-- 
2.43.0


From 60ac9e0b3da2ec8b8da0b366336fe89faafcc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 23/33] fix: cache_transaction() and cache_transaction_all() do
 not accept the default cache object

---
 django_cache_dependencies/decorators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index f8db31b..c736793 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -3,7 +3,7 @@ import collections
 from functools import wraps
 from django.utils.decorators import decorator_from_middleware_with_args
 
-from django_cache_dependencies import cache  # in real it used
+from django_cache_dependencies import cache, DefaultCacheProxy  # in real it used
 from django_cache_dependencies.middleware import CacheMiddleware
 from cache_dependencies.tagging import CacheTagging
 
@@ -18,7 +18,7 @@ def cache_transaction(f=None, cache=None):
         PendingDeprecationWarning,
         stacklevel=2
     )
-    if not cache and isinstance(f, CacheTagging):
+    if not cache and isinstance(f, (CacheTagging, DefaultCacheProxy)):
         cache = f
         f = None
     elif not cache:
@@ -41,7 +41,7 @@ def cache_transaction_all(f=None, cache=None):
         PendingDeprecationWarning,
         stacklevel=2
     )
-    if not cache and isinstance(f, CacheTagging):
+    if not cache and isinstance(f, (CacheTagging, DefaultCacheProxy)):
         cache = f
         f = None
     elif not cache:
-- 
2.43.0


From 44d92062182a2a22b3439ca000ee18ccd3cccda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 24/33] fix: a function decorated with the transaction of the
 default cache fails in every other thread

---
 django_cache_dependencies/__init__.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..7402e21 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -13,7 +13,9 @@ from django.utils.functional import curry
 from cache_dependencies.tagging import CacheTagging
 from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
 from cache_dependencies.locks import DependencyLock
-from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
+from cache_dependencies.transaction import (
+    AbstractTransactionManager, TransactionManager, ThreadSafeTransactionManagerDecorator
+)
 from cache_dependencies.nocache import NoCache
 
 try:
@@ -82,6 +84,25 @@ class CacheCollection(object):
 caches = get_cache = CacheCollection()
 
 
+class DefaultTransactionProxy(AbstractTransactionManager):
+    """
+    Proxy access to the transaction manager of the default Cache object.
+
+    A function is usually decorated in another thread than it is called in.
+    """
+    def current(self, *args, **kwargs):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.current(*args, **kwargs)
+
+    def begin(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.begin()
+
+    def finish(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.finish()
+
+    def flush(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.flush()
+
+
 class DefaultCacheProxy(object):
     """
     Proxy access to the default Cache object's attributes.
@@ -89,6 +110,8 @@ class DefaultCacheProxy(object):
     This allows the legacy `cache` object to be thread-safe using the new
     ``caches`` API.
     """
+    transaction = DefaultTransactionProxy()
+
     def __getattr__(self, name):
         return getattr(caches[DEFAULT_CACHE_ALIAS], name)
 
-- 
2.43.0


From 96d020d126fc1bb23aa317c6f41ac1a0e54afc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 25/33] fix: template tags cannot be loaded under the legacy
 name of the application

---
 cache_tagging/django_cache_tagging/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_tagging/django_cache_tagging/__init__.py b/cache_tagging/django_cache_tagging/__init__.py
index 43087f9..2b9dd64 100644
--- a/cache_tagging/django_cache_tagging/__init__.py
+++ b/cache_tagging/django_cache_tagging/__init__.py
@@ -3,7 +3,7 @@ import sys
 import warnings
 from django_cache_dependencies import (
     CacheCollection, DefaultCacheProxy, caches, get_cache, cache, _clear_cached, CacheRegistry,
-    registry, autodiscover, close_caches, DEFAULT_CACHE_ALIAS
+    registry, autodiscover, close_caches, nocache, DEFAULT_CACHE_ALIAS
 )
 
 warnings.warn("cache_tagging.django_cache_tagging is deprecated. Use django_cache_dependencies instead", PendingDeprecationWarning, stacklevel=2)
-- 
2.43.0


From 8d70caa152bf2df46912691a60fdb33b78af271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 26/33] fix: a bulk read or a composite with many parts exceeds
 the recursion limit

---
 cache_dependencies/defer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/defer.py b/cache_dependencies/defer.py
index b33375d..6a1544f 100644
--- a/cache_dependencies/defer.py
+++ b/cache_dependencies/defer.py
@@ -189,12 +189,15 @@ class AbstractDeferredIterator(collections.Iterator):
         return self
 
     def _delegate(self):
-        if self._node.parent:
-            delegate = iter(self._node.parent)
-            delegate.state = self.state
-            return next(delegate)
-        else:
-            raise StopIteration
+        # The exhausted nodes are skipped in a loop, because of the number of nodes is not limited, unlike the recursion.
+        delegate = self
+        while delegate._node.parent:
+            state = delegate.state
+            delegate = iter(delegate._node.parent)
+            delegate.state = state
+            if delegate._index < len(delegate._node.queue):
+                return next(delegate)
+        raise StopIteration
 
     @property
     def state(self):
-- 
2.43.0


From 85ff29b9faa63c08ce9e38994ea6e64acfdac00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 27/33] fix: the depth of nested entries exceeds the recursion
 limit

---
 cache_dependencies/relations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..d0b0423 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -28,10 +28,16 @@ class CacheNode(interfaces.ICacheNode):
 
     def add_dependency(self, dependency, version=None):
         assert isinstance(dependency, interfaces.IDependency)
+        node = self
+        while isinstance(node, CacheNode):  # The depth of nodes is not limited, unlike the recursion.
+            node._add_own_dependency(dependency, version)
+            node = node.parent()
+        node.add_dependency(dependency, version)
+
+    def _add_own_dependency(self, dependency, version):
         if version not in self._dependencies:
             self._dependencies[version] = dependencies.CompositeDependency()
         self._dependencies[version].extend(dependency)
-        self.parent().add_dependency(dependency, version)
 
     def get_dependency(self, version=None):
         try:
-- 
2.43.0


From bc52e44c8cc7c0e65dbd2491e6d96f7a6332ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 28/33] fix: an interrupted computation leaves its entry under
 generation

---
 cache_dependencies/cache.py                                  | 2 +-
 cache_dependencies/tagging.py                                | 2 +-
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 3c6fc2f..466afb7 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -49,7 +49,7 @@ class CacheWrapper(object):  # Adapter
             kwargs = kwargs or {}
             try:
                 value = callback(*args, **kwargs)
-            except Exception:
+            except BaseException:  # including timeouts and interrupts
                 self.abort(key)
                 raise
             self.set(key, value, dependency, timeout, version)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 00f1918..6c0becc 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -24,7 +24,7 @@ class CacheTagging(object):  # Backward compatibility
             kwargs = kwargs or {}
             try:
                 value = callback(*args, **kwargs)
-            except Exception:
+            except BaseException:  # including timeouts and interrupts
                 self.abort(key)
                 raise
             self.set(key, value, tags, timeout, version)
diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 4200d96..ebf8d1a 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -75,7 +75,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         try:
             return self._render(context, cache_name)
-        except Exception:
+        except BaseException:  # including timeouts and interrupts
             cache.abort(cache_name)
             raise
 
-- 
2.43.0


From 624ba620fbb4f5fedb8dba13d68bdd1a00dda6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 29/33] fix: autodiscover() skips applications given as
 AppConfig

---
 django_cache_dependencies/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 7402e21..f81aebf 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -179,6 +179,17 @@ class CacheRegistry(object):
 registry = CacheRegistry()
 
 
+def _get_app_name(app):
+    """
+    INSTALLED_APPS contains paths to AppConfig classes, too, in Django >= 1.7.
+    """
+    try:
+        from django.apps import AppConfig
+    except ImportError:
+        return app
+    return AppConfig.create(app).name
+
+
 def autodiscover():
     """
     Auto-discover INSTALLED_APPS cachecontrol.py modules
@@ -188,6 +199,7 @@ def autodiscover():
     from django.conf import settings
     for app in settings.INSTALLED_APPS:
         try:
+            app = _get_app_name(app)
             __import__(app)
             imp.find_module("caches", sys.modules[app].__path__)
         except (ImportError, AttributeError):
-- 
2.43.0


From 5105fcdbcf6baeedcadc21173df8fc23684df4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 30/33] fix: a transaction that fails to release its tags stays
 open

---
 cache_dependencies/transaction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 00bd054..c8fc581 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -169,8 +169,11 @@ class TransactionManager(AbstractTransactionManager):
         return self.current()
 
     def finish(self):
-        self.current().finish()
-        self.current(self.current().parent())
+        current = self.current()
+        try:
+            current.finish()
+        finally:  # The scope is closed, even if the cache has failed to release its tags.
+            self.current(current.parent())
 
     def flush(self):
         while self._current:
-- 
2.43.0


From 50d40b098544aa71321a68c970e40d04c7b0d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 31/33] fix: a cache that fails to close leaves the other
 caches open

---
 django_cache_dependencies/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f81aebf..8c940b6 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -208,7 +208,14 @@ def autodiscover():
 
 
 def close_caches(**kwargs):
-    for cache in caches.all():
-        cache.close()
+    _close_all(list(caches.all()))
+
+
+def _close_all(opened):
+    if opened:
+        try:
+            opened[0].close()
+        finally:  # A failure of one cache should not leave the others open.
+            _close_all(opened[1:])
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0


From 9d2616cf2a5f27d5b7968a035dbfaa1ce669e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 32/33] fix: a read that fails leaves its entry under
 generation

---
 cache_dependencies/cache.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 466afb7..c5f4e77 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -65,9 +65,15 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
-        if not abort and not self.ignore_descendants:
+        is_begun = not abort and not self.ignore_descendants
+        if is_begun:
             self.begin(key)
-        data = self.cache.get(key, None, version)
+        try:
+            data = self.cache.get(key, None, version)
+        except BaseException:
+            if is_begun:
+                self.abort(key)
+            raise
         if data is None:
             return default
 
@@ -78,6 +84,10 @@ class CacheWrapper(object):  # Adapter
             deferred.get()
         except exceptions.DependencyInvalid:
             return default
+        except BaseException:
+            if is_begun:
+                self.abort(key)
+            raise
 
         self.finish(key, dependency, version=version)
         return value
@@ -89,13 +99,20 @@ class CacheWrapper(object):  # Adapter
         :type abort: bool
         """
         keys = list(keys)  # can be an iterator, but it is used more than once
-        if not abort and not self.ignore_descendants:
+        is_begun = not abort and not self.ignore_descendants
+        if is_begun:
             current_cache_node = self.relation_manager.current()
             for key in keys:
                 self.begin(key)
                 self.relation_manager.current(current_cache_node)
 
-        caches = self.cache.get_many(keys, version)
+        try:
+            caches = self.cache.get_many(keys, version)
+        except BaseException:
+            if is_begun:
+                for key in keys:
+                    self.abort(key)
+            raise
 
         cache_values, cache_dependencies = dict(), dict()
         for key, data in caches.items():
@@ -109,6 +126,11 @@ class CacheWrapper(object):  # Adapter
         except exceptions.DependencyInvalid as composite_error:
             for dependency_error in composite_error:
                 cache_values.pop(dependencies_reversed[dependency_error.dependency], None)
+        except BaseException:
+            if is_begun:
+                for key in keys:
+                    self.abort(key)
+            raise
 
         for key in cache_values:  # Looping through filtered result
             self.finish(key, cache_dependencies[key], version=version)
-- 
2.43.0


From 454249577a0f2e50784fd26f5d6e17615f8b5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 33/33] fix: locks of a Django cache look up tags in the
 underlying cache, every store left entries under generation for the lock
 marks

---
 django_cache_dependencies/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 8c940b6..d43aaaa 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -60,7 +60,8 @@ class CacheCollection(object):
                 cache = django.core.cache.get_cache(django_backend, *args, **kwargs)
 
             def thread_safe_cache_accessor():
-                return self(backend, *args, **kwargs).cache
+                # The underlying cache: looking up tags should not begin the generation of entries.
+                return self(backend, *args, **kwargs).cache.cache
             tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
             transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
             relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
-- 
2.43.0

