From 0bcfdd627b4e3955840b23b4c8bedc5caca97553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 01/38] fix: content-based call lookup ignored calls that are
 only in the database

---
 mandala/storage_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..f9a6805 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -640,7 +640,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +738,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +755,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From da9f1b1e986afb48f1fae21c180db280f02f8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 02/38] fix: committing a call another session already
 committed raised IntegrityError

---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index f9a6805..99c04f6 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -547,14 +547,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From 49c7cebe7c5542992d6a68e9809281e3feff2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 03/38] fix: CachedCallStorage.commit() without a connection
 never committed its writes

---
 mandala/storage_utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 99c04f6..556b244 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -764,9 +764,6 @@ class CachedCallStorage:
         raise NotImplementedError()
 
     def commit(self, conn: Optional[sqlite3.Connection] = None):
-        if conn is None:
-            conn = self.persistent.conn()
-        # with conn:
         for hid in self.dirty_hids:
             self.persistent.save(self.cache.get_data(hid), conn=conn)
         self.dirty_hids.clear()
-- 
2.43.0


From 15d211ca6320b1d2f489bf5807214f93b7d9966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 04/38] fix: clearing the call cache detached it from the
 storage's reference to it

---
 mandala/storage_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 556b244..7d56d03 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -773,5 +773,7 @@ class CachedCallStorage:
             # see `CachedDictStorage.clear` for an explanation
             msg = "Cannot clear cache with uncommitted changes; call `commit()` first, or use `allow_uncommited=True`"
             raise ValueError(msg)
-        self.cache = InMemCallStorage()
+        # empty the cache in place: the storage holds a reference to it
+        empty = InMemCallStorage()
+        self.cache.df, self.cache.call_hids = empty.df, empty.call_hids
         self.dirty_hids.clear()
-- 
2.43.0


From e37eb1d935972f605e568f0e43363e4b0f45e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 05/38] fix: drop_calls left dropped uncommitted calls marked
 for the next commit

---
 mandala/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..f84aa2c 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -411,6 +411,7 @@ class Storage:
         hit a false positive.
         """
         # figure out what we're given    
+        calls_or_hids = list(calls_or_hids)
         if all(isinstance(c, Call) for c in calls_or_hids):
             hids = [c.hid for c in calls_or_hids]
         else:
@@ -425,7 +426,7 @@ class Storage:
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+                self.calls.drop(hid)
                 num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
-- 
2.43.0


From 1a0eb1dc9fdd7a57eeb67607389309e52509a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 06/38] fix: a failed commit forgot which cached entries still
 have to be persisted

---
 mandala/storage.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f84aa2c..4d7bc8a 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -208,13 +208,21 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        dirty = [set(x) for x in (self.atoms.dirty_keys, self.shapes.dirty_keys,
+                                  self.ops.dirty_keys, self.calls.dirty_hids)]
+        try:
+            with self.conn() as conn:
+                self.atoms.commit(conn=conn)
+                self.shapes.commit(conn=conn)
+                self.ops.commit(conn=conn)
+                if self.versioned:
+                    self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+                self.calls.commit(conn=conn)
+        except BaseException:
+            # the transaction was rolled back: nothing has been persisted
+            (self.atoms.dirty_keys, self.shapes.dirty_keys,
+             self.ops.dirty_keys, self.calls.dirty_hids) = dirty
+            raise
 
 
     def __repr__(self):
-- 
2.43.0


From b3bff8853b68a2fa205bb783cea4cab9260e34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 07/38] fix: a transactional method called with conn=None
 raised TypeError

---
 mandala/storage_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 7d56d03..30b362a 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None) # `conn=None` is the same as no connection
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
-- 
2.43.0


From 68a5c9daa949831b945e279068a317c263a45b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 08/38] fix: a failed transaction attempt on an in-memory
 database was left open

---
 mandala/storage_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 30b362a..8a78b40 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -61,18 +61,23 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
 
         for attempt in range(max_attempts):
             conn = self.conn()
+            began = False
             try:
                 conn.execute("BEGIN IMMEDIATE")
+                began = True
                 res = method(self, *args, conn=conn, **kwargs)
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                if began: # in-memory connections stay open: undo this attempt
+                    conn.rollback()
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
                 continue
-            except Exception as e:
-                conn.rollback()
+            except BaseException as e:
+                if began:
+                    conn.rollback()
                 raise e
             finally:
                 if not is_in_memory_db(conn):
-- 
2.43.0


From 1a9aeb25c175a29c9fcd83098b7d0b16301ccd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 09/38] fix: committing to an in-memory database was not atomic

---
 mandala/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index 4d7bc8a..71388f6 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -212,6 +212,7 @@ class Storage:
                                   self.ops.dirty_keys, self.calls.dirty_hids)]
         try:
             with self.conn() as conn:
+                conn.execute("BEGIN") # in-memory connections are in autocommit mode
                 self.atoms.commit(conn=conn)
                 self.shapes.commit(conn=conn)
                 self.ops.commit(conn=conn)
-- 
2.43.0


From 3fecbe69d348b99117be2560466ab94cd23d9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 10/38] fix: reject an op whose number of outputs differs from
 its output_names

---
 mandala/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..1619e49 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -243,6 +243,11 @@ def parse_returns(
         assert isinstance(returns, tuple)
         assert len(returns) == nout
         returns_tuple = returns
+    if output_names is not None:
+        # otherwise some outputs would be lost (or missing) when recalled by name
+        assert len(output_names) == nout, (
+            f"Expected {len(output_names)} outputs ({output_names}), got {nout}"
+        )
     ### get the dict of outputs
     outputs_dict = {
         dump_output_name(i, output_names): returns_tuple[i] for i in range(nout)
-- 
2.43.0


From 1e6585a9be5f189c6cf334ac4e3e4959bcc96199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 11/38] fix: an op with *args could not be called with a
 keyword for a positional parameter

---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 71388f6..0a353dc 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -786,7 +786,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -853,23 +852,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1173,7 +1157,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1200,7 +1183,6 @@ class Storage:
                 storage_inputs = storage_inputs,
                 bound_arguments = bound_arguments,
                 storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
                 self.save_call(main_call)
-- 
2.43.0


From 5727aab7017053236791b12942079d90afc93009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 12/38] fix: a value marked Ignore for a parameter in
 ignore_args reached the body still wrapped

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 0a353dc..18a762e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -755,7 +755,7 @@ class Storage:
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args:
+                if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From 6f7f913b271d7d4d2c9d86b21dfd151f8fc21f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 13/38] fix: unwrapping a namedtuple, defaultdict or other
 collection subclass lost its type

---
 mandala/model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..1346141 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -388,9 +388,25 @@ class SetRef(Ref):
         return elt in self.obj
 
 
+def _contains_refs(obj: Any) -> bool:
+    if isinstance(obj, (list, tuple, set)):
+        return any(_contains_refs(elt) for elt in obj)
+    elif isinstance(obj, dict):
+        return any(_contains_refs(v) for v in obj.values())
+    else:
+        return isinstance(obj, (Ref, RefCollection))
+
+
 def recurse_on_ref_collections(f: Callable, obj: Any, **kwargs: Any) -> Any:
     if isinstance(obj, AtomRef):
         return f(obj, **kwargs)
+    elif (
+        isinstance(obj, (list, dict, tuple, set))
+        and type(obj) not in (list, dict, tuple, set)
+        and not _contains_refs(obj)
+    ):
+        # e.g. a namedtuple or a defaultdict: a plain value, keep its type
+        return obj
     elif isinstance(obj, (list, ListRef)):
         return [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
     elif isinstance(obj, (dict, DictRef)):
-- 
2.43.0


From f7e4363f4b516ae9a81ce31491fc891894f65c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 14/38] fix: a nested list ref loaded from the storage could
 not be unwrapped

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 18a762e..2840d74 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -292,7 +292,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From 3a62cf6bda07b2f127867d45b938a181350ba8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 15/38] fix: leaving a context nested in another storage's
 context ended both

---
 mandala/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2840d74..fbe6db9 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -126,6 +126,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # the contexts (possibly of other storages) to return to on exit
+        self._context_stack = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1199,6 +1201,7 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
+        self._context_stack.append(Context.current_context)
         Context.current_context = Context(storage=self)
         self._mode_stack.append(self._next_mode)
         if self.versioned:
@@ -1232,8 +1235,8 @@ class Storage:
         except Exception as e:
             raise e
         finally:
+            Context.current_context = self._context_stack.pop()
             if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
                 self.cached_versioner = None
                 self.code_state = None
 
-- 
2.43.0


From 7c910dc8d880b7e53324a33f4aa9ebf8205ca2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:54 +0000
Subject: [PATCH 16/38] fix: a context whose code sync failed stayed current

---
 mandala/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index fbe6db9..cf29be8 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1201,13 +1201,14 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
-        self._context_stack.append(Context.current_context)
-        Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
         if self.versioned:
+            # may raise, e.g. on a missing dependency
             versioner, code_state = self.sync_code()
             self.cached_versioner = versioner
             self.code_state = code_state
+        self._context_stack.append(Context.current_context)
+        Context.current_context = Context(storage=self)
+        self._mode_stack.append(self._next_mode)
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
-- 
2.43.0


From 3d13b7bb817ca772e83ee2deb12867636ed62e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 17/38] fix: a context that could not be entered left its mode
 for the next one

---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index cf29be8..f626893 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1201,6 +1201,9 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
+        mode = self._next_mode
+        # if entering fails, the requested mode must not leak into the next context
+        self._next_mode = self.mode
         if self.versioned:
             # may raise, e.g. on a missing dependency
             versioner, code_state = self.sync_code()
@@ -1208,7 +1211,8 @@ class Storage:
             self.code_state = code_state
         self._context_stack.append(Context.current_context)
         Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
+        self._mode_stack.append(mode)
+        self._next_mode = mode
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
-- 
2.43.0


From ac38302fa9d0c37f56e20aa28a3b71538c61088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 18/38] fix: drop_calls(delete_dependents=True) also follows
 dependents that are not committed yet

---
 mandala/storage.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f626893..f00b218 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -429,10 +429,19 @@ class Storage:
             hids = list(calls_or_hids)
         hids = set(hids)
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
-                ref_hids=set(), call_hids=hids, conn=conn,
-            )
-            hids |= dependent_call_hids
+            # uncommitted calls are only in the cache, so a chain of dependents
+            # may alternate between the cache and the database
+            ref_hids: Set[str] = set()
+            while True:
+                more_refs, more_hids = self.call_storage.get_dependents(
+                    ref_hids=ref_hids, call_hids=hids, conn=conn,
+                )
+                more_refs, more_hids = self.call_cache.get_dependents(
+                    ref_hids=more_refs, call_hids=more_hids,
+                )
+                if more_hids == hids and more_refs == ref_hids:
+                    break
+                ref_hids, hids = more_refs, more_hids
         num_dropped_cache = 0
         num_dropped_persistent = 0
         for hid in hids:
-- 
2.43.0


From d4dd9d28c4bff3362edf1e795ce7cf6c7d32abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 19/38] fix: cleanup_refs keeps the elements of collections
 that stored calls still use

---
 mandala/storage.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f00b218..5626083 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -482,14 +482,28 @@ class Storage:
 
     def get_orphans(self) -> Set[str]:
         """
-        Return the HIDs of the refs not connected to any calls.
+        Return the HIDs of the refs not connected to any calls, not even as
+        elements of a collection that is.
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
         all_hids = set(self.shapes.persistent.keys())
         df = self.call_storage.get_df()
-        hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        needed_hids = set(df["ref_history_id"].unique())
+        # the elements of a collection are needed for as long as it is
+        queue = list(needed_hids & all_hids)
+        while queue:
+            shape = self.shapes[queue.pop()]
+            if isinstance(shape, ListRef):
+                elts = list(shape)
+            elif isinstance(shape, DictRef):
+                elts = list(shape.values())
+            else:
+                elts = []
+            elt_hids = {elt.hid for elt in elts} - needed_hids
+            needed_hids |= elt_hids
+            queue.extend(elt_hids & all_hids)
+        return all_hids - needed_hids
 
     def get_unreferenced_cids(self) -> Set[str]:
         """
-- 
2.43.0


From fdf06f901139ac8dc47bdc625021311e19b67c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 20/38] fix: dropping a call (or a function) from a computation
 frame forgets it in every index

---
 mandala/cf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..0ee9135 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,8 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
-        for hid in hids:
+        for hid in list(res.fs[fname]):
             res.drop_call(fname, hid)
         del res.fs[fname]
         del res.inp[fname]
@@ -401,6 +400,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -408,10 +408,12 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                # outputs not tracked by the graph have no creator recorded
+                if self.creator.get(output.hid) == hid:
+                    del self.creator[output.hid]
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From 5e759e815eea6351f3c8f4f314975ec8e40ce7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 21/38] fix: dropping the last edge of a label removes the
 label

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 0ee9135..f88122f 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -325,7 +325,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
-- 
2.43.0


From 122a4b0f2aaa636c02ed4b96d86dc8d920bb2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 22/38] fix: variables and functions of a computation frame
 never share a name

---
 mandala/cf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index f88122f..ef73daa 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -255,6 +255,8 @@ class ComputationFrame:
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
         res = self if inplace else self.copy()
+        if new_vname in res.nodes:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
@@ -2170,21 +2172,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 7ee295e6de174a1de19407305e43b79f16188fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 23/38] fix: cleanup and simplify drop the empty nodes of the
 frame itself

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ef73daa..ea99758 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2069,7 +2069,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2082,7 +2082,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From 7c31c61da3452c963901942bbe6778601d60cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 24/38] fix: select_subsets indexes each element by the nodes
 that keep it, and copies the given sets

---
 mandala/cf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ea99758..3e4e170 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -663,14 +663,20 @@ class ComputationFrame:
         assert all(elts[node] <= sets[node] for node in elts.keys())
         out = res.out
         inp = res.inp
-        vs = {node: elts[node] for node in res.vnames}
-        fs = {node: elts[node] for node in res.fnames}
+        vs = {node: set(elts[node]) for node in res.vnames}
+        fs = {node: set(elts[node]) for node in res.fnames}
         ref_hids_subset = get_nullable_union(*vs.values())
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {
+            hid: {vname for vname in res.refinv[hid] if hid in vs[vname]}
+            for hid in ref_hids_subset
+        }
+        callinv = {
+            hid: {fname for fname in res.callinv[hid] if hid in fs[fname]}
+            for hid in call_hids_subset
+        }
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From 35e4546cec6f5622bd376b96ac0216c1c78cb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 25/38] fix: the intersection of frames registers only the
 elements its nodes hold

---
 mandala/cf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3e4e170..3c3cf69 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -836,12 +836,19 @@ class ComputationFrame:
         out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
+        # an element may be in both frames, but in no node of both
+        ref_hids = get_nullable_union(*vs.values())
+        call_hids = get_nullable_union(*fs.values())
         refinv = get_setdict_intersection(a.refinv, b.refinv)
+        refinv = {k: v for k, v in refinv.items() if k in ref_hids}
         callinv = get_setdict_intersection(a.callinv, b.callinv)
+        callinv = {k: v for k, v in callinv.items() if k in call_hids}
         creator = get_dict_intersection_over_keys(a.creator, b.creator)
+        creator = {k: v for k, v in creator.items() if k in ref_hids and v in call_hids}
         consumers = get_setdict_intersection(a.consumers, b.consumers)
-        refs = get_dict_intersection_over_keys(a.refs, b.refs)
-        calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        consumers = {k: v & call_hids for k, v in consumers.items() if k in ref_hids}
+        refs = {hid: a.refs[hid] for hid in ref_hids}
+        calls = {hid: a.calls[hid] for hid in call_hids}
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
-- 
2.43.0


From cf6caf1041d95539996f0a741c192e5efb937ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 26/38] fix: the intersection of frames keeps no edge labels
 without edges

---
 mandala/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index 1619e49..f432ee2 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -133,7 +133,8 @@ def get_adjacency_union(
 def get_adjacency_intersection(
     a: Dict[str, Dict[str, Set[str]]], b: Dict[str, Dict[str, Set[str]]]
 ) -> Dict[str, Dict[str, Set[str]]]:
-    return {k: get_setdict_intersection(a[k], b[k]) for k in a.keys() & b.keys()}
+    res = {k: get_setdict_intersection(a[k], b[k]) for k in a.keys() & b.keys()}
+    return {k: {label: nodes for label, nodes in v.items() if nodes} for k, v in res.items()}
 
 
 def get_nullable_union(*sets: Set[str]) -> Set[str]:
-- 
2.43.0


From afa09e7daaa45aa4510060a43799a9a39a72932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 27/38] fix: move_ref and merge_into modify the frame they
 return

---
 mandala/cf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3c3cf69..d3600aa 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1989,9 +1989,9 @@ class ComputationFrame:
             raise ValueError(f"Ref {hid} not in variable {source_vname}")
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
-        #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        #! update the inverse index
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -2006,7 +2006,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From bb747e7200c7b8cbc753e5ca8c6c52c5b78a661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 28/38] fix: expanding a frame with no variables to expand
 finds nothing

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index d3600aa..258fa40 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1131,7 +1131,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
-- 
2.43.0


From 6a8f8aeb21f618800e829741d3ae6e89a3643ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 29/38] fix: recursive expansion goes on as long as refs or
 calls are found

---
 mandala/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 258fa40..506f562 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1104,7 +1104,8 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                # existing nodes may be reused for the refs and calls found
+                current_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1115,7 +1116,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = len(res.nodes) + len(res.refs) + len(res.calls)
                 if new_size == current_size:
                     break
                 if not recursive:
-- 
2.43.0


From 6a6d721a0409c2deec74f11c24e537fac4b388d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 30/38] fix: expansion connects all calls of a reused function
 along its new edges

---
 mandala/cf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 506f562..960f713 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -371,7 +371,9 @@ class ComputationFrame:
         if call.hid in self.fs[fname]:
             if not allow_existing:
                 raise ValueError(f"Call {call.hid} already exists")
-            return
+            if not with_refs:
+                return
+            # its inputs and outputs may not be connected along newer edges
         self.calls[call.hid] = call
         self.fs[fname].add(call.hid)
         if call.hid not in self.callinv:
@@ -1080,6 +1082,10 @@ class ComputationFrame:
             ### finally, add the calls to the CF
             for call in group_calls:
                 self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
+            # the calls a reused function already had gained the new edges too
+            if found_func_match:
+                for hid in list(self.fs[fname]):
+                    self.add_call(fname, self.calls[hid], with_refs=True, allow_existing=True)
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
-- 
2.43.0


From 8d67f2be430fca34aa0aa86b9c09ba686fac797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 31/38] fix: the union of frames records the creators and
 consumers along the edges of both

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 960f713..5950f03 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -825,6 +825,10 @@ class ComputationFrame:
             calls=calls,
         )
         res._check()  #! not every union results in a valid CF
+        # calls of one frame may be connected along edges of the other only
+        for fname, call_hids in res.fs.items():
+            for hid in call_hids:
+                res.add_call(fname, res.calls[hid], with_refs=True, allow_existing=True)
         return res
 
     @staticmethod
-- 
2.43.0


From 1e34107a622cc21051b82bceebb1de0bf1419500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 32/38] fix: comparisons and isin work on frames with
 unconnected functions

---
 mandala/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 5950f03..f884028 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1947,7 +1947,8 @@ class ComputationFrame:
         for vname in res.keys():
             new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
             res = get_setdict_union(res, new)
-        return res
+        # function nodes may have no variables connected to them
+        return {node: res.get(node, set()) for node in self.nodes}
 
     def __lt__(self, other: Union["ComputationFrame", Any]) -> "ComputationFrame":
         if isinstance(other, ComputationFrame):
-- 
2.43.0


From 62580e84c4edf09acb7c55275d53e7d6acada17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 33/38] fix: get_adj_elts collects the elements along all edges
 to the same node

---
 mandala/cf.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index f884028..d98a127 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -580,21 +580,13 @@ class ComputationFrame:
         """
         res = {}
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.in_edges(node):
+                adj = self.get_adj_elts_edge((src, dst, label), hids, "back")
+                res[src] = res.get(src, set()) | adj
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.out_edges(node):
+                adj = self.get_adj_elts_edge((src, dst, label), hids, "forward")
+                res[dst] = res.get(dst, set()) | adj
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
-- 
2.43.0


From 396bee687f65dd3d8ccf71df0eea8ea53351e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 34/38] fix: get_adj_elts_edge follows edges from calls to
 outputs by their label

---
 mandala/cf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index d98a127..ead98d2 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -538,6 +538,12 @@ class ComputationFrame:
                 assert hids <= self.vs[dst]  # make sure the hids are valid
                 return {
                     self.creator[hid] for hid in hids if hid in self.creator
+                    # the ref may be another output of the call
+                    and any(
+                        self.calls[self.creator[hid]].outputs[name].hid == hid
+                        for name in self.get_names_projecting_to(self.creator[hid], label)
+                        if name in self.calls[self.creator[hid]].outputs
+                    )
                 } & self.fs[src]
             else:  # this is an op node; we are looking for the inputs of the calls that have the hids as outputs
                 assert hids <= self.fs[dst]  # make sure the hids are valid
-- 
2.43.0


From 98563b77af2053e22eec898435facf6544bbb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 35/38] fix: expansion goes on until no element or edge is
 added to any node

---
 mandala/cf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ead98d2..a24ed99 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1099,6 +1099,13 @@ class ComputationFrame:
         # indexer without actually adding them to the CF
         raise NotImplementedError()
     
+    def _size(self) -> Tuple[int, int, int]:
+        """
+        The numbers of nodes, edges and elements of the nodes
+        """
+        num_elts = sum([len(elts) for elts in self.sets.values()])
+        return len(self.nodes), len(self.edges()), num_elts
+
     def _expand_unidirectional(
             self,
             direction: Literal["back", "forward"],
@@ -1113,7 +1120,7 @@ class ComputationFrame:
         if varnames is None:
             while True: # recurse until a fixed point is reached
                 # existing nodes may be reused for the refs and calls found
-                current_size = len(res.nodes) + len(res.refs) + len(res.calls)
+                current_size = res._size()
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1124,7 +1131,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes) + len(res.refs) + len(res.calls)
+                new_size = res._size()
                 if new_size == current_size:
                     break
                 if not recursive:
@@ -1232,11 +1239,11 @@ class ComputationFrame:
         `expand_forward` until a fixed point is reached.
         """
         res = self if inplace else self.copy()
-        cur_size = len(res.refs) + len(res.calls)
+        cur_size = res._size()
         while True:
             res.expand_back(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
             res.expand_forward(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
-            new_size = len(res.refs) + len(res.calls)
+            new_size = res._size()
             if new_size == cur_size:
                 break
             else:
-- 
2.43.0


From 9434737c77666d164c8e76d695818483f04f6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 36/38] fix: leave a tracked function's frame also when it
 raises

---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..1db4e92 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -143,9 +143,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From eacd39b83566d734284e9ee568ae0c3516ece790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 37/38] fix: record memoized calls made inside a traced op, and
 resume its trace

---
 mandala/storage.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index 5626083..a1fdcd1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -7,6 +7,7 @@ from .model import __make_list__, __list_getitem__, __make_dict__, __dict_getite
 from .utils import dataframe_to_prettytable, parse_returns, _conservative_equality_check, boundargs_to_args_kwargs
 from .viz import _get_colorized_diff
 from .deps.versioner import Versioner, CodeState
+from .deps.model import TerminalData
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
@@ -811,6 +812,41 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
+    ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
+        """
+        Call an op. If this happens while another op is being traced, its trace
+        is suspended meanwhile, and then gets the version of this call as a
+        dependency.
+        """
+        if not self.versioned or op.__structural__:
+            return self._call_internal(op, storage_inputs, storage_tps, bound_arguments)
+        tracer_cls = self.cached_versioner.TracerCls
+        suspended_trace_obj = tracer_cls.get_active_trace_obj()
+        try:
+            outputs, main_call, calls = self._call_internal(op, storage_inputs, storage_tps, bound_arguments)
+        finally:
+            if suspended_trace_obj is not None:
+                tracer_cls.set_active_trace_obj(trace_obj=None)
+                tracer_cls.set_active_trace_obj(trace_obj=suspended_trace_obj)
+        if suspended_trace_obj is not None:
+            tracer_cls.register_leaf_event(
+                trace_obj=suspended_trace_obj,
+                data=TerminalData(
+                    op_internal_name=op.name,
+                    op_version=op.version,
+                    call_content_version=main_call.content_version,
+                    call_semantic_version=main_call.semantic_version,
+                    dep_key=get_dep_key_from_func(func=op.f),
+                ),
+            )
+        return outputs, main_call, calls
+
+    def _call_internal(
+        self,
+        op: Op,
+        storage_inputs: Dict[str, Any],
+        storage_tps: Dict[str, Type],
+        bound_arguments: Optional[inspect.BoundArguments] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
-- 
2.43.0


From d0742df69ee3a5949388551049251dfefb590505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 38/38] fix: track static and class methods of tracked classes

---
 mandala/deps/crawler.py          | 2 ++
 mandala/deps/tracers/dec_impl.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..82d35c7 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -41,6 +41,8 @@ def crawl_obj(
                 return
             for k in obj.__dict__.keys():
                 v = obj.__dict__[k]
+                if isinstance(v, (staticmethod, classmethod)):
+                    v = v.__func__
                 crawl_obj(
                     obj=v,
                     module_name=module_name,
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 1db4e92..ee227a8 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -127,9 +127,11 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
                     f"Class tracking for {obj} is not allowed: found non-function attributes {nonfunc_attributes}"
                 )
         # decorate all methods/classes in the class
-        for k, v in obj.__dict__.items():
+        for k, v in list(obj.__dict__.items()):
             if isinstance(v, (types.FunctionType, type)):
                 setattr(obj, k, track(v))
+            elif isinstance(v, (staticmethod, classmethod)) and isinstance(v.__func__, types.FunctionType):
+                setattr(obj, k, type(v)(track(v.__func__)))
         TracerState.registry[(obj.__module__, obj.__qualname__)] = obj
         return obj
     elif isinstance(obj, types.FunctionType):
-- 
2.43.0

