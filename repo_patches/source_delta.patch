From f3f5246f34ca24aa1870041a1b9724b000cccb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 01/37] fix: PooledDB.connection() must re-check the pool state
 after each wait when lending shared connections

The shared path checked the connection limit only once and only when the
shared cache was empty, so a fresh connection could be opened above
maxconnections, and after waiting it popped from a shared cache that the
other threads might have emptied (IndexError).
---
 dbutils/pooled_db.py | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..0bb1a76 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -287,30 +287,30 @@ class PooledDB:
         """
         if shareable and self._maxshared:
             with self._lock:
-                while (not self._shared_cache and self._maxconnections
-                        and self._connections >= self._maxconnections):
-                    self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
-                    # shared cache is not full, get a dedicated connection
-                    try:  # first try to get it from the idle cache
-                        con = self._idle_cache.pop(0)
-                    except IndexError:  # else get a fresh connection
-                        con = self.steady_connection()
-                    else:
-                        con._ping_check()  # check this connection
-                    con = SharedDBConnection(con)
-                    self._connections += 1
-                else:  # shared cache full or no more connections allowed
+                while True:
+                    if len(self._shared_cache) < self._maxshared and not (
+                            self._maxconnections
+                            and self._connections >= self._maxconnections):
+                        # shared cache is not full, get a dedicated connection
+                        try:  # first try to get it from the idle cache
+                            con = self._idle_cache.pop(0)
+                        except IndexError:  # else get a fresh connection
+                            con = self.steady_connection()
+                        else:
+                            con._ping_check()  # check this connection
+                        con = SharedDBConnection(con)
+                        self._connections += 1
+                        break
+                    # shared cache full or no more connections allowed
                     self._shared_cache.sort()  # least shared connection first
-                    con = self._shared_cache.pop(0)  # get it
-                    while con.con._transaction:
-                        # do not share connections which are in a transaction
-                        self._shared_cache.insert(0, con)
-                        self._wait_lock()
-                        self._shared_cache.sort()
-                        con = self._shared_cache.pop(0)
-                    con.con._ping_check()  # check the underlying connection
-                    con.share()  # increase share of this connection
+                    # do not share connections which are in a transaction
+                    if (self._shared_cache
+                            and not self._shared_cache[0].con._transaction):
+                        con = self._shared_cache.pop(0)  # get it
+                        con.con._ping_check()  # check the connection
+                        con.share()  # increase share of this connection
+                        break
+                    self._wait_lock()
                 # put the connection (back) into the shared cache
                 self._shared_cache.append(con)
                 self._lock.notify()
-- 
2.43.0


From 895ac12ff58fe4ddae95758f338b62bb866f4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 02/37] fix: closing a pooled connection from two threads must
 return it to the pool only once

---
 dbutils/pooled_db.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 0bb1a76..664bb85 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -416,9 +416,12 @@ class PooledDedicatedDBConnection:
         """Close the pooled dedicated connection."""
         # Instead of actually closing the connection,
         # return it to the pool for future reuse.
-        if self._con:
-            self._pool.cache(self._con)
-            self._con = None
+        # Detach it under the lock, so that it is returned only once
+        # even if several threads close it at the same time.
+        with self._pool._lock:
+            con, self._con = self._con, None
+        if con:
+            self._pool.cache(con)
 
     def __getattr__(self, name):
         """Proxy all members of the class."""
@@ -495,7 +498,7 @@ class PooledSharedDBConnection:
         con: the underlying SharedDBConnection
         """
         # basic initialization to make finalizer work
-        self._con = None
+        self._con = self._shared_con = None
         # proper initialization of the connection
         con = shared_con.con
         if not con.threadsafety() > 1:
@@ -508,9 +511,13 @@ class PooledSharedDBConnection:
         """Close the pooled shared connection."""
         # Instead of actually closing the connection,
         # unshare it and/or return it to the pool.
-        if self._con:
-            self._pool.unshare(self._shared_con)
-            self._shared_con = self._con = None
+        # Detach it under the lock, so that it is unshared only once
+        # even if several threads close it at the same time.
+        with self._pool._lock:
+            con, self._shared_con = self._shared_con, None
+            self._con = None
+        if con:
+            self._pool.unshare(con)
 
     def __getattr__(self, name):
         """Proxy all members of the class."""
-- 
2.43.0


From e0fd434ad394df0fa94a40583a3e5072ad0b61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 03/37] fix: wake all waiters when a pooled connection is
 returned

A single notify() is lost if the thread that receives it cannot use the
connection (its connect fails, or it waits for a shared connection that is
still in a transaction), leaving another eligible waiter blocked forever.
---
 dbutils/pooled_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 664bb85..97a46e4 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -313,7 +313,7 @@ class PooledDB:
                     self._wait_lock()
                 # put the connection (back) into the shared cache
                 self._shared_cache.append(con)
-                self._lock.notify()
+                self._lock.notify_all()
             con = PooledSharedDBConnection(self, con)
         else:  # try to get a dedicated connection
             with self._lock:
@@ -358,7 +358,7 @@ class PooledDB:
             else:  # if the idle cache is already full,
                 con.close()  # then close the connection
             self._connections -= 1
-            self._lock.notify()
+            self._lock.notify_all()
 
     def close(self):
         """Close all connections in the pool."""
-- 
2.43.0


From 590ff9c169648e18d522aa66a5a2efa0ffe40485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 04/37] fix: PooledDB.close() must not give up the slots of
 lent shared connections twice

Their holders still return them with unshare(), which counts them down.
---
 dbutils/pooled_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 97a46e4..b50e29a 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -376,7 +376,6 @@ class PooledDB:
                         con.close()
                     except Exception:
                         pass
-                    self._connections -= 1
             self._lock.notify_all()
 
     def __del__(self):
-- 
2.43.0


From 3f65f6f57a9482c43aef1bedb6a98c61dbcb075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 05/37] fix: a failed cursor() must not make SteadyDB forget an
 open transaction

If no cursor could be opened inside a transaction and the connection could
not be replaced either, the transaction is still open on the old connection.
Marking it as finished kept its statements from being rolled back when the
connection was returned, so that the next user could commit them.
---
 dbutils/steady_db.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index 93cdd65..8cced5a 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -499,8 +499,6 @@ class SteadyDBConnection:
                     con.close()
                 except Exception:
                     pass
-            if transaction:
-                self._transaction = False
             raise error  # re-raise the original error again
         return cursor
 
-- 
2.43.0


From e027265a0dd6c4a0d98f1518b78ca22b1ef26e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 06/37] fix: give every converted query its own ticket, and
 keep the tables it was issued for

---
 scheduler/backend/execution_context.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..6284752 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -4,7 +4,7 @@ from scheduler.backend.executors import DecryptQueryExecutor
 from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
-import time
+import uuid
 
 id_sql_map = {}
 
@@ -52,9 +52,9 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
-    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
+    curr_id = uuid.uuid4().hex
+    # the ticket keeps the tables as they are now: they may be dropped or created again before it is used
+    id_sql_map[curr_id] = [select_columns, select_types, dict(db_meta), table, select_state]
     return enc_query, table, curr_id
 
 
-- 
2.43.0


From f84b24ac9cfad69cc30caaebfea69215d226ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 07/37] fix: decrypt_data must accept rows with numbers and
 NULLs

---
 scheduler/handers/decrypt_handler.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..83fed24 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -41,12 +41,10 @@ class DecryptHandler(Handler):
         self.db_meta = db_meta
 
         enc_result = data.get("rows", [])
-        print(f"enc_data:{enc_result}")
         for row in enc_result:
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = eval(col_val.__str__())
-- 
2.43.0


From 140834402f537acc3993d40ac50222e2bb8289b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 08/37] fix: key connection pools by the whole address and the
 account with its password

---
 scheduler/backend/executors/remote_executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..9a46e39 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -46,13 +46,13 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'], conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
-            connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            connection = connection_pool.setdefault(db_key, connection)
+            logging.info("mysql connected from {}".format(db_key[:4]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From 05bb5ad82ca260e5b112b4ae3fe011d6aef9a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 09/37] fix: SUM and AVG must use the tree of their own
 request, not that of the latest one

---
 scheduler/backend/executors/remote_executor.py | 2 +-
 scheduler/handers/rewrite_hander.py            | 7 +++----
 scheduler/schema/metadata.py                   | 7 +++----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 9a46e39..6e4f26e 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -190,7 +190,7 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
+            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..7e2d677 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -8,13 +8,12 @@ from scheduler.handers.clause.sql_clause import Clause
 from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
-from scheduler.schema.metadata import Delta
-
 
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.table_json = None
 
     def rewrite_query(self, query):
         """
@@ -70,8 +69,8 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
-        # record json in Delta
-        Delta.table_json = json
+        # keep the rewritten json for the executor
+        self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..c705f91 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -94,7 +94,6 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
@@ -205,11 +204,11 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
+        if table_json:
+            json = deepcopy(table_json)
         else:
             json = parse(enc_query)
         json.pop('limit', None)
-- 
2.43.0


From 477f6c2784546bb98a1544e72908ba0a6c67acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 10/37] fix: change the catalog in the store before memory, one
 change at a time, and never lose or half-apply a change

The first table created on an empty store was kept in an instance attribute (SUM
and AVG failed with KeyError), concurrent requests shared the metadata connection
and its transaction, a failed change left its transaction open and the memory
ahead of the store, and the first requests could see an empty catalog.
---
 scheduler/handers/clause/sql_clause.py |  5 +-
 scheduler/schema/metadata.py           | 94 ++++++++++++++++----------
 2 files changed, 62 insertions(+), 37 deletions(-)

diff --git a/scheduler/handers/clause/sql_clause.py b/scheduler/handers/clause/sql_clause.py
index 3b06b1d..a50b75c 100644
--- a/scheduler/handers/clause/sql_clause.py
+++ b/scheduler/handers/clause/sql_clause.py
@@ -9,8 +9,9 @@ class Clause(object):
         self.db_meta = {}
         self.encrypted_cols = encrypted_cols
         self.origin_query = None
-        if Delta().meta:
-            self.db_meta = Delta().meta.get(db, {})
+        meta = Delta().meta
+        if meta:
+            self.db_meta = meta.get(db, {})
         for key, value in clause.items():
             if isinstance(value, dict):
                 for k, v in value.items():
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index c705f91..a78d93e 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -1,7 +1,9 @@
 import re
 import json
+import logging
 import yaml
 import sqlite3
+import threading
 from copy import deepcopy
 
 from sql_parsing import parse_mysql as parse
@@ -94,44 +96,63 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    db_conn = None
+    db_conn = db_conn
+    # the catalog and the connection to its store are shared by all requests
+    lock = threading.RLock()
+    # the outcome of the last change is unknown, read the catalog again before it is used next
+    stale = True
 
     def __new__(cls, *args, **kwargs):
-        if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
-            cls.meta = cls.load_delta()
+        with Delta.lock:
+            if Delta.__instance is None:
+                Delta.__instance = object.__new__(cls, *args, **kwargs)
+            if Delta.stale:
+                Delta.meta = cls.load_delta()
+                Delta.stale = False
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
-
-        else:
-            self.meta = {
-                db_name: table_meta
-            }
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
+        with self.lock:
+            # the store first: nobody may see a table in memory that would be gone after a restart
+            self.update_db_meta(db_name, table_meta)
+            # requests that run keep the catalog they have read, so it is replaced, not changed
+            tables = dict(self.meta.get(db_name, {}), **table_meta)
+            Delta.meta = dict(self.meta, **{db_name: tables})
         return self.meta
 
     def delete_delta(self, db, table):
-        self.meta[db].pop(table, None)
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
         sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        with self.lock:
+            self.change_store(lambda cu: cu.execute(sql))
+            tables = dict(self.meta.get(db, {}))
+            tables.pop(table, None)
+            Delta.meta = dict(self.meta, **{db: tables})
+
+    @classmethod
+    def change_store(cls, change):
+        with cls.lock:
+            Delta.db_conn = test_connection(cls.db_conn)
+            try:
+                change(cls.db_conn.cursor())
+            except Exception:
+                cls.roll_back()
+                raise
+            try:
+                cls.db_conn.commit()
+            except Exception:
+                Delta.stale = True
+                cls.roll_back()
+                raise
+
+    @classmethod
+    def roll_back(cls):
+        try:
+            cls.db_conn.rollback()
+        except Exception as e:
+            # the connection is lost, and the transaction with it
+            logging.error(e)
 
     def update_db_meta(self, db_name, table_meta):
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
         rows = []
         for t_name, t_value in table_meta.items():
             table_name = t_name
@@ -139,18 +160,21 @@ class Delta(object):
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-        cu.executemany(insert_sql, rows)
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        self.change_store(lambda cu: cu.executemany(insert_sql, rows))
 
     @classmethod
     def load_delta(cls):
         meta = {}
-        cu = cls.db_conn.cursor()
-        cu.execute("select * from p_db_meta")
-        db_meta = cu.fetchall()
+        Delta.db_conn = test_connection(cls.db_conn)
+        try:
+            cu = cls.db_conn.cursor()
+            cu.execute("select * from p_db_meta")
+            db_meta = cu.fetchall()
+            # do not stay in the transaction, the catalog would always be read as it is now
+            cls.db_conn.commit()
+        except Exception:
+            cls.roll_back()
+            raise
         if not db_meta:
             return meta
         for row in db_meta:
-- 
2.43.0


From ae8d2e2f8419b6aecfe8ae55aabd961db0ad9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 11/37] fix: with a sqlite metadata store, do not replace its
 connection by one to MySQL

---
 handler.py                   | 4 +++-
 scheduler/schema/metadata.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 7710c6a..2ec48d4 100644
--- a/handler.py
+++ b/handler.py
@@ -32,10 +32,12 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
             port=int(config['meta']['mysql']["port"])
         )
     else:
-        db_conn = sqlite3.connect(config['meta']['sqlite'])
+        db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index a78d93e..2e1d91d 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -30,6 +30,8 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
-- 
2.43.0


From 234c23ab60c950d6042c9a025f5220ade5d71c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 12/37] fix: create and drop tables so that the catalog and the
 backend never disagree, and report what the backend refuses

An error of the backend was logged and answered with success (for create, drop,
insert, update and delete). A table was published before it existed and without
looking for one of the same name, and left the catalog after it was dropped: a
failure or crash between the two left an entry without a table, a second create
made the rows of the first inaccessible.
---
 .../backend/executors/remote_executor.py      | 76 +++++++++++++------
 scheduler/handers/table.py                    | 10 ++-
 scheduler/schema/metadata.py                  |  2 +
 3 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 6e4f26e..fc6f6a7 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -4,6 +4,7 @@ import pandas as pd
 import numpy as np
 
 import mysql.connector
+from mysql.connector import errorcode
 
 from scheduler.handers.rewrite_hander import Rewriter
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
@@ -82,38 +83,63 @@ class RemoteExecutor(AbstractQueryExecutor):
         if query_type not in SQL_TYPES:
             raise NotImplementedError("Not support {} sql type".format(query_type))
         try:
-            logger.info("SQL:{}".format(query))
-            start_time = time.time()
-            enc_query, self.table = self.dispatch(query)
-            logger.info("Encrypt SQL:{}".format(enc_query))
-            logger.info("Encrypt:{}".format(time.time() - start_time))
-            if query_type == QueryType.SELECT:
-                # if 'limit' in self.conn_info.keys():
-                #     limit = self.conn_info['limit']
-                #     if self.rewriter.limit < 0:
-                #         enc_query = enc_query + " limit {}".format(limit)
-                if not isinstance(self.table, dict):
-                    # todo: 长达支持table为dict
-                    enc_query = self.inject_procedure(enc_query, use_cursor)
-            cursor = self.conn.cursor()
+            if query_type in [QueryType.CREATE, QueryType.DROP]:
+                with Delta.ddl_lock:
+                    self._call(query, query_type, use_cursor)
+            else:
+                self._call(query, query_type, use_cursor)
         except Exception as e:
             logger.info(e)
             raise e
+        finally:
+            self.conn.close()
+
+    def _call(self, query, query_type, use_cursor):
+        logger.info("SQL:{}".format(query))
+        start_time = time.time()
+        enc_query, self.table = self.dispatch(query)
+        logger.info("Encrypt SQL:{}".format(enc_query))
+        logger.info("Encrypt:{}".format(time.time() - start_time))
+        if enc_query is None:
+            # create table if not exists, and it does
+            return
+        if query_type == QueryType.SELECT:
+            # if 'limit' in self.conn_info.keys():
+            #     limit = self.conn_info['limit']
+            #     if self.rewriter.limit < 0:
+            #         enc_query = enc_query + " limit {}".format(limit)
+            if not isinstance(self.table, dict):
+                # todo: 长达支持table为dict
+                enc_query = self.inject_procedure(enc_query, use_cursor)
+        cursor = self.conn.cursor()
         start_time = time.time()
-        try:
-            cursor.execute(enc_query)
-        except Exception as e:
-            logger.info(e)
-            if query_type == QueryType.CREATE:
-                self.meta.delete_delta(self.str_db, self.table['table'])
         if query_type == QueryType.DROP:
-            self.meta.delete_delta(self.str_db, self.table['table'])
-        elif query_type == QueryType.SELECT:
-            self.result = cursor.fetchall()
+            self.drop_table(cursor, enc_query)
         else:
-            self.conn.commit()
+            cursor.execute(enc_query)
+            if query_type == QueryType.SELECT:
+                self.result = cursor.fetchall()
+            else:
+                self.conn.commit()
+            if query_type == QueryType.CREATE:
+                # not earlier: a table in the catalog always exists in the backend
+                self.meta.update_delta(self.str_db, self.table['meta'])
         logger.info("Execute:{}".format(time.time() - start_time))
-        self.conn.close()
+
+    def drop_table(self, cursor, enc_query):
+        table = self.table['table']
+        table_meta = self.rewriter.db_meta[table]
+        # a table in the catalog always exists in the backend, so it leaves the catalog first
+        self.meta.delete_delta(self.str_db, table)
+        try:
+            cursor.execute(enc_query)
+        except mysql.connector.Error as e:
+            if e.errno == errorcode.ER_BAD_TABLE_ERROR:
+                return
+            if e.errno >= 1000 and e.errno // 1000 != 2:
+                # refused by the server (2xxx are errors of the connection): the table is still there
+                self.meta.update_delta(self.str_db, {table: table_meta})
+            raise e
 
     def encrypt_sql(self, query):
         try:
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..8077e92 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -15,8 +15,11 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         raise Exception("Bad create table query: {}".format(query))
     create_table = json['create table']
     table_name = create_table['name']
-    # if table_name in db_meta.keys():
-    #     raise Exception("Table {} already exists".format(table_name))
+    if table_name in db_meta.keys():
+        if create_table.get('replace') is False:
+            # create table if not exists
+            return None, {'table': table_name}
+        raise Exception("Table {} already exists".format(table_name))
     columns = create_table['columns']
     enc_columns = []
     columns_kv = {}
@@ -144,8 +147,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
             'comment': json.get('comment', {}).get('literal')
         }
     }
-    Delta().update_delta(db, table_meta)
-    return query, {'table': table_name}
+    return query, {'table': table_name, 'meta': table_meta}
 
 
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 2e1d91d..0fdb345 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -101,6 +101,8 @@ class Delta(object):
     db_conn = db_conn
     # the catalog and the connection to its store are shared by all requests
     lock = threading.RLock()
+    # tables are created and dropped one at a time
+    ddl_lock = threading.Lock()
     # the outcome of the last change is unknown, read the catalog again before it is used next
     stale = True
 
-- 
2.43.0


From 3169819254bec47e5732493d879ac47cfc93afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 13/37] fix: decrypt the answer with the catalog the query was
 rewritten with

A table dropped (and created again) by another request meanwhile made the query
fail or decrypted its rows with the keys of another table.
---
 scheduler/backend/executors/remote_executor.py | 10 ++++++----
 scheduler/schema/metadata.py                   |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index fc6f6a7..1ae6090 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -152,7 +152,7 @@ class RemoteExecutor(AbstractQueryExecutor):
 
     def batch_insert(self, batch_info):
         columns = batch_info['columns']
-        delta, table = self.get_db_meta()
+        delta = self.meta.meta[self.str_db]
         table = batch_info['table']
         table_info = delta[table]
         new_table = table_info['anonymous']
@@ -216,7 +216,7 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
+            Delta.get_paillier_procedure_info(enc_query, self.rewriter.db_meta, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
@@ -233,7 +233,8 @@ class RemoteExecutor(AbstractQueryExecutor):
         return enc_query
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        # the tables as they were when the query was rewritten
+        return self.rewriter.db_meta, self.table
 
     @property
     def str_db(self):
@@ -264,7 +265,8 @@ class ConvertExecutor(AbstractQueryExecutor):
         return self.rewriter.select.select_types
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        # the tables as they were when the query was rewritten
+        return self.rewriter.db_meta, self.table
 
 
 if __name__ == '__main__':
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0fdb345..a47fda4 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -232,7 +232,7 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
+    def get_paillier_procedure_info(cls, enc_query, db_meta, table_name, table_json=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
         if table_json:
@@ -244,7 +244,7 @@ class Delta(object):
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
         homo_enc_dict = {}
-        columns_info = cls.meta[db][table_name]['columns']
+        columns_info = db_meta[table_name]['columns']
         for col, col_info in columns_info.items():
             if col_info['enc-cols'].get('arithmetic'):
                 n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2
-- 
2.43.0


From e999381ee2456df93368402f66da9a83da475be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 14/37] fix: SUM and AVG must stay on one connection and skip
 NULLs

When the connection was lost between the statements that compute the sum, the
query went on with variables of another connection. One NULL made the sum NULL,
and NULLs were counted for the average.
---
 scheduler/backend/executors/remote_executor.py |  8 +++++---
 scheduler/schema/metadata.py                   | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 1ae6090..62d3a54 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -219,16 +219,18 @@ class RemoteExecutor(AbstractQueryExecutor):
             Delta.get_paillier_procedure_info(enc_query, self.rewriter.db_meta, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
+        # the sums are in variables of this connection, never continue on another one
+        self.conn.begin()
         for feature in set(sum_feature_name_list+avg_feature_name_list):
             Delta.set_sum_feature(self.conn.cursor(), feature, table_name)
-        if avg_feature_name_list:
-            Delta.set_total_feature_num(self.conn.cursor(), table_name)
+        for feature in avg_feature_name_list:
+            Delta.set_total_feature_num(self.conn.cursor(), feature, table_name)
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
-            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, 'TotalFeature')
+            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor)
         enc_query = enc_query + ' limit 1'
         return enc_query
 
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index a47fda4..388a48b 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -200,14 +200,16 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         cursor.execute('SET @rownr=0;')
         cursor.execute('SET @sum=1;')
-        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*{})%{} as sum from {} ' \
+        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*coalesce({},1))%{} as sum from {} ' \
                   'order by @rownr desc limit 1) tmp'.format(feature_name, n_square, table_name)
         set_sql = f'set @sum{new_feature_name} = ({sum_sql})'
         cursor.execute(set_sql)
 
     @staticmethod
-    def set_total_feature_num(cursor, table_name):
-        cursor.execute(f'SET @numTotalFeature = (select count(*) from {table_name});')
+    def set_total_feature_num(cursor, feature, table_name):
+        feature_name = feature[0]
+        new_feature_name = feature_name.replace('.', '_')
+        cursor.execute(f'SET @num{new_feature_name} = (select count({feature_name}) from {table_name});')
 
 
     @staticmethod
@@ -277,6 +279,6 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('AVG({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',AVG')".format(new_feature_name))
-        num_feature_name = 'TotalFeature' if not total_feature else total_feature
+        num_feature_name = new_feature_name if not total_feature else total_feature
         return enc_query.replace('AVG({})'.format(feature_name), "concat(@sum{}, ',',@num{})".format(new_feature_name,
                                                                                                      num_feature_name))
-- 
2.43.0


From ca6bc8c233117b6e99bcf8f459cc721f4c4f7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 15/37] fix: a bulk load must not lose rows with a lost
 connection, nor alter values

Rows executed before a connection was lost were forgotten while the rest of the
chunk went on over a new connection and success was reported. Values were taken
for what pandas makes of them (numbers without their leading zeros, empty and NA
strings as nan), those of float columns not encoded, and arithmetic columns left
out. The connection was not given back when a load failed.
---
 .../backend/executors/remote_executor.py      | 60 +++++++++----------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 62d3a54..0b65291 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -11,7 +11,7 @@ from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
 from scheduler.compile.keywords_lists import QueryType
 from dbutils.pooled_db import PooledDB
 from scheduler.schema.metadata import Delta
-from scheduler.crypto import encrypt
+from scheduler.handers.clause import SQLValues
 
 SQL_TYPES = [
     QueryType.CREATE,
@@ -165,40 +165,38 @@ class RemoteExecutor(AbstractQueryExecutor):
             else:
                 new_columns.append(col)
         chunk_size = 10 ** 4 * 2
-        cursor = self.conn.cursor()
-        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None):
-            data = np.transpose(chunk.values)
-            enc_data = []
-            for idx, col in enumerate(columns):
-                if not columns_info[col]['plaintext']:
-                    for enc, value in columns_info[col]['enc-cols'].items():
-                        if enc == "order-preserving":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.OPECipher(columns_info[col]['key']).encrypt, int, (data[idx])))
-                        if enc == "symmetric":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.AESCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
-                        if enc == "fuzzy":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.FuzzyCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
-                else:
-                    enc_data.append(data[idx])
-            query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
-                    + ",".join(["%s"] * len(new_columns)) + ")"
-            enc_data = np.transpose(np.asarray(enc_data)).tolist()
-            for idx, i in enumerate(enc_data):
-                cursor.execute(query, tuple(i))
-            self.conn.commit()
-        self.conn.close()
+        query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
+                + ",".join(["%s"] * len(new_columns)) + ")"
+        values = SQLValues(delta)
+        try:
+            # the values are taken as they are written, not as what they look like
+            for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None,
+                                     dtype=str, keep_default_na=False):
+                data = np.transpose(chunk.values)
+                enc_data = []
+                for idx, col in enumerate(columns):
+                    if not columns_info[col]['plaintext']:
+                        for enc in columns_info[col]['enc-cols'].keys():
+                            enc_data.append(self.batch_enc(values, table, col, enc, data[idx]))
+                    else:
+                        enc_data.append(data[idx])
+                # the rows of a chunk are inserted together, never some of them on another connection
+                self.conn.begin()
+                cursor = self.conn.cursor()
+                for row in zip(*enc_data):
+                    cursor.execute(query, row)
+                self.conn.commit()
+        finally:
+            self.conn.close()
 
     @staticmethod
-    def batch_enc(func, input_type, data):
+    def batch_enc(values, table, col, enc, data):
+        input_type = {'int': int, 'float': float, 'double': float}.get(
+            values.db_meta[table]['columns'][col]['type'], str)
         enc_data = []
         for i in data:
-            enc_data.append(func(input_type(i)))
+            value = values.encrypt_value(table, col, input_type(i), enc)['value']
+            enc_data.append(value['literal'] if isinstance(value, dict) else value)
         return enc_data
 
     def dispatch(self, query):
-- 
2.43.0


From a7698bf61a37c86a5af68e298320be2054e99b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 16/37] fix: keep the direction and the other keys of ORDER BY
 on an encrypted column

---
 scheduler/handers/clause/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..75388ec 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -10,4 +10,4 @@ class OrderBy(Rewriter):
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return dict(orderby_val, value=col['enc-cols']['order-preserving'])
-- 
2.43.0


From a6be6c889d0d3475790198644430649ce032b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 17/37] fix: refuse every statement that would carry protected
 names or values in clear

Conditions other than eq, gt, lt, gte, lte and like, GROUP BY, HAVING, subqueries,
inserts of several rows and tables aliased by their own name went to the backend
with the names of tables and encrypted columns, and with the values compared or
inserted. So did floats and expressions compared with or assigned to an encrypted
column; an update stored arithmetic and float columns in clear.
---
 scheduler/handers/clause/sql_set.py   | 11 ++--
 scheduler/handers/clause/sql_where.py | 72 ++++++++++++---------------
 scheduler/handers/rewrite_hander.py   | 38 ++++++++++++++
 3 files changed, 78 insertions(+), 43 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..6ecdd1a 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -15,5 +15,10 @@ class SQLSet(Rewriter):
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    if v == {'null': {}}:
+                        result[v1] = v
+                    elif isinstance(v, (int, float)) or isinstance(v, dict) and isinstance(v.get('literal'), str):
+                        result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
+                    else:
+                        raise Exception("can not set an encrypted column to {}".format(v))
         return result
diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..ccd0325 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -1,6 +1,7 @@
 import logging
 
 from scheduler.crypto import encrypt
+from scheduler.crypto.encrypt import encode
 from scheduler.utils.keywords import Logical_Operation
 from scheduler.handers.clause.rewriter import Rewriter
 
@@ -9,7 +10,7 @@ class SQLWhere(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
 
-    def rewrite(self, where_value, table, cipher='symmetric', json=None, key=""):
+    def rewrite(self, where_value, table, cipher='symmetric', json=None):
         try:
             col = self.db_meta[table]['columns']
         except Exception as e:
@@ -22,7 +23,7 @@ class SQLWhere(Rewriter):
                     if col:
                         if not col[v[0]]['plaintext']:
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.encrypt(v[1], 'symmetric', col[v[0]])]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -41,49 +42,40 @@ class SQLWhere(Rewriter):
                     if not col[v[0]]['plaintext']:
                         if col[v[0]]['type'] == 'int':
                             return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
+                                        self.encrypt(v[1], 'order-preserving', col[v[0]])]}
                 if k == 'like':
                     if not col[v[0]]['plaintext']:
                         return {
                             'like': [col[v[0]]['enc-cols']["fuzzy"],
-                                     self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
+                                     self.encrypt(v[1], 'fuzzy', col[v[0]])]
                         }
                 if k in Logical_Operation:
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
-                if k == 'literal':
-                    return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
-        if isinstance(where_value, int):
-            if cipher == 'fuzzy':
-                partial_list = str(where_value).split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(str(partial)))
-                return "%".join(result)
-            if cipher == 'symmetric':
-                return encrypt.AESCipher(key).encrypt(str(where_value))
-            if cipher == 'order-preserving':
-                return encrypt.OPECipher(key).encrypt(where_value)
-        if isinstance(where_value, str):
-            if cipher == 'fuzzy':
-                partial_list = where_value.split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(partial))
-                return "%".join(result)
-            if cipher == 'symmetric':
-                return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
+
+    @staticmethod
+    def encrypt(value, cipher, column):
+        """Encrypt what an encrypted column is compared with; what can not be encrypted is refused."""
+        key = column['key']
+        if isinstance(value, dict) and isinstance(value.get('literal'), str):
+            text = value['literal']
+        elif isinstance(value, (int, float)) and not isinstance(value, bool):
+            text = str(encode(value, column['type']))
+        else:
+            raise Exception("can not compare an encrypted column with {}".format(value))
+        if cipher == 'fuzzy':
+            result = []
+            for partial in text.split("%"):
+                if partial == "":
+                    result.append("")
+                    continue
+                if len(partial) < 3:
+                    raise Exception("The length of fuzzy search word {} is {} <3"
+                                    .format(partial, len(partial)))
+                result.append(encrypt.FuzzyCipher(key).encrypt(partial))
+            return {'literal': "%".join(result)}
+        if cipher == 'symmetric':
+            return {'literal': encrypt.AESCipher(key).encrypt(text)}
+        if cipher == 'order-preserving':
+            return encrypt.OPECipher(key).encrypt(int(text))
+        raise Exception("can not encrypt by {}".format(cipher))
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 7e2d677..9c12092 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -9,6 +9,28 @@ from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
 
+def find_names(json):
+    """All names in a parsed statement"""
+    if isinstance(json, str):
+        yield json
+    elif isinstance(json, list):
+        for value in json:
+            yield from find_names(value)
+    elif isinstance(json, dict):
+        for key, value in json.items():
+            if key == 'literal':
+                continue
+            if key == 'values':
+                # rows of an insert
+                for row in value:
+                    yield from row.keys()
+                continue
+            if key == 'set':
+                yield from value.keys()
+                value = list(value.values())
+            yield from find_names(value)
+
+
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
@@ -69,12 +91,28 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
+        self.check_protected(json, source_json)
         # keep the rewritten json for the executor
         self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json), table
 
+    def check_protected(self, json, source_json):
+        """
+        Refuse a statement in which, after all clauses known here are rewritten, the name of a table or of an
+        encrypted column is left: what it is compared with is left there too.
+        """
+        columns = [self.db_meta[t]['columns'] for t in find_names(source_json) if t in self.db_meta]
+        plain = {c.lower() for cols in columns for c, v in cols.items() if v['plaintext']}
+        encrypted = {c.lower() for cols in columns for c, v in cols.items() if not v['plaintext']}
+        tables = {t.lower() for t in self.db_meta}
+        for name in find_names(json):
+            parts = name.lower().split('.')
+            if parts[-1] in encrypted - plain or (encrypted & {parts[-1]} and len(parts) == 1 and len(columns) > 1) \
+                    or tables.intersection(parts[:-1]) or parts[-1] in tables - plain:
+                raise Exception("can not protect {} in sql {}".format(name, self.origin_query))
+
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
-- 
2.43.0


From 202d4b9679facbebf83e411b69ff28d025bff028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 18/37] fix: values of float and double columns must read back
 as written

Doubles above 1000 came back as about 1e26, negative ones beyond the linear range
as something else, and many floats one unit too small.
---
 scheduler/crypto/encrypt.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..8dcd79f 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
@@ -62,10 +62,10 @@ def inverse_stretch(val):
 
 def encode(val, val_type):
     if val_type == 'float':
-        return int(val * 10 ** 12)
+        return round(val * 10 ** 12)
     if val_type == 'double':
         val = stretch(val)
-        return int(val * 10 ** 12)
+        return round(val * 10 ** 12)
     return val
 
 
@@ -80,8 +80,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From 73941d3b9b6d700957d623d4f667457dc9efdcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 19/37] fix: look up data sources one request at a time, and
 again after the metadata connection was lost

All requests shared one connection and its transaction without any lock. After a
failed look-up its transaction stayed open, and later look-ups read data sources
as they were at that time. Each look-up after a restart of the metadata server
opened a new connection.
---
 handler.py | 82 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/handler.py b/handler.py
index 2ec48d4..3dd55dd 100644
--- a/handler.py
+++ b/handler.py
@@ -3,6 +3,7 @@ import abc
 import json
 import logging
 import sqlite3
+import threading
 import yaml
 
 import tornado.web
@@ -35,6 +36,9 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
 
 
+db_lock = threading.Lock()
+
+
 def test_connection(_db_conn):
     if config['meta']['type'] != 'mysql':
         return _db_conn
@@ -51,6 +55,35 @@ def test_connection(_db_conn):
     return _db_conn
 
 
+def run_on_meta(work):
+    """
+    Run work(cursor) on the metadata connection, which all requests share: one at a time, in a transaction of its own
+    """
+    global db_conn
+    with db_lock:
+        db_conn = test_connection(db_conn)
+        try:
+            cu = db_conn.cursor()
+            result = work(cu)
+            db_conn.commit()
+            cu.close()
+        except Exception:
+            try:
+                db_conn.rollback()
+            except Exception as e:
+                logger.error(e)
+            raise
+    return result
+
+
+def get_datasource(data_source_id):
+    def work(cu):
+        cu.execute("SELECT id, name, connection_url, driver_class_name, "
+                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
+        return cu.fetchall()
+    return run_on_meta(work)
+
+
 class BasePostRequestHandler(tornado.web.RequestHandler):
 
     def set_default_headers(self):
@@ -225,13 +258,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
             data_source_id = query_para["jdbcDataSourceId"]
             ciphertext = query_para['ciphertext']
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = get_datasource(data_source_id)
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -335,13 +362,7 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
             query = query[:-1]
         data_source_id = query_para["jdbcDataSourceId"]
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = get_datasource(data_source_id)
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -543,13 +564,7 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
         data_source_id = query_para['selectedJdbcDataSource']['value']
         query, encrypted_columns = self.generate_table(query_para['dataSource'], query_para['count'],
                                                        query_para['table_name'])
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = get_datasource(data_source_id)
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -651,13 +666,7 @@ class QueryComponentHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, component_id=None):
         query_para = json.loads(self.request.body)
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = get_datasource(component_id)
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -742,21 +751,18 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
 
     @run_on_executor
     def get(self, component_id=None):
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
-        db_info = cu.fetchall()
+        db_info = get_datasource(component_id)
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
             db = connection_url[13:]
-            cu.execute(
-                "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
-            self.write(self.format_result(cu.fetchall()))
+
+            def work(cu):
+                cu.execute(
+                    "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
+                return cu.fetchall()
+            self.write(self.format_result(run_on_meta(work)))
         else:
             self.write({})
-        cx.commit()
-        cu.close()
 
     @staticmethod
     def format_result(tables_info):
-- 
2.43.0


From 08a8ce6105e543143014b5f2db22e45774444032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 20/37] fix: /jdbc_query must not take every statement for a
 create table

---
 handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 3dd55dd..781fc8e 100644
--- a/handler.py
+++ b/handler.py
@@ -245,7 +245,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, *args, **kwargs):
         query_para = json.loads(self.request.body)
-        encrypted_columns = {}
+        encrypted_columns = None
         ciphertext = True
         if "create_table" in query_para.keys():
             query = query_para['create_table']
-- 
2.43.0


From fb46c2c5801b015850a2048ff848ed01b906de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 21/37] fix: the columns of an answer are those of the outer
 select only

---
 scheduler/handers/rewrite_hander.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 9c12092..2c62f05 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -117,6 +117,8 @@ class Rewriter(Clause):
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
             return self.db_meta[json]['anonymous']
+        # the columns of the answer are those of the outer select only
+        answer = [list(i) for i in (self.select.select_columns, self.select.select_types, self.select.select_state)]
         for key in table_key:
             if key in json.keys():
                 table = json[key]
@@ -149,6 +151,7 @@ class Rewriter(Clause):
                 json = __inner__(json, key, func)
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
+        self.select.select_columns, self.select.select_types, self.select.select_state = answer
         return json
 
 
-- 
2.43.0


From 28571b9a5134cec3f8e8dd70e4fa45aaea7a8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 22/37] fix: the average of NULLs only is NULL, not an error

---
 scheduler/crypto/encrypt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 8dcd79f..29dfcb4 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -329,6 +329,9 @@ class HomomorphicCipher:
         num = 1
         if ',' in str(enc):
             enc, num = enc.split(',')
+        if int(num) == 0:
+            # the average of nothing
+            return None
         enc_number = paillier.EncryptedNumber(self.pk, int(enc))
         if num == 1:
             return int(self.sk.decrypt(enc_number))
-- 
2.43.0


From 3708cf5ccb871b091b4fd43895ed0c857c16a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 23/37] fix: a string means what it means in MySQL: backslash
 escapes, other quotes, line breaks

---
 sql_parsing/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..de5cd6f 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -8,6 +8,7 @@
 #
 
 import ast
+import re
 
 from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
@@ -582,10 +583,19 @@ def unquote(tokens):
     return un
 
 
+# WHAT FOLLOWS A BACKSLASH, EVERYTHING ELSE STANDS FOR ITSELF
+string_escapes = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}
+
+
 def to_string(tokens):
     val = tokens[0]
-    val = "'" + val[1:-1].replace("''", "\\'") + "'"
-    return {"literal": ast.literal_eval(val)}
+    quote = val[0]
+
+    def unescape(match):
+        char = match.group(1)
+        return quote if char is None else string_escapes.get(char, char)
+
+    return {"literal": re.sub(r"\\(.)|" + quote * 2, unescape, val[1:-1], flags=re.DOTALL)}
 
 
 # NUMBERS
@@ -608,8 +618,8 @@ hex_num = (
 )
 
 # STRINGS
-ansi_string = Regex(r"\'(\'\'|[^'])*\'") / to_string
-mysql_doublequote_string = Regex(r'\"(\"\"|[^"])*\"') / to_string
+ansi_string = Regex(r"\'(\'\'|\\.|[^'\\])*\'") / to_string
+mysql_doublequote_string = Regex(r'\"(\"\"|\\.|[^"\\])*\"') / to_string
 
 # BASIC IDENTIFIERS
 ansi_ident = Regex(r'\"(\"\"|[^"])*\"') / unquote
-- 
2.43.0


From b21c1bc88467ad06f7449887d7257d17e97d4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 24/37] fix: a backslash in a value reaches the back end as it
 is

---
 sql_parsing/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..de6cd40 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -373,7 +373,7 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
-            return "'{0}'".format(json.replace("'", "''"))
+            return "'{0}'".format(json.replace("\\", "\\\\").replace("'", "''"))
         elif isinstance(json, dict):
             return self._literal(json["literal"])
         else:
-- 
2.43.0


From 4f9d27bfd9a116d09df20b7b5431714ed3e96f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 25/37] fix: a list of one number after IN

---
 sql_parsing/formatting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index de6cd40..c2619eb 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -307,7 +307,9 @@ class Formatter:
 
     def _in(self, json, prec):
         member, set = json
-        if "literal" in set:
+        if isinstance(set, (int, float)):
+            set = [set]
+        elif "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
             self.dispatch(member, precedence["in"])
@@ -320,7 +322,9 @@ class Formatter:
 
     def _nin(self, json, prec):
         member, set = json
-        if "literal" in set:
+        if isinstance(set, (int, float)):
+            set = [set]
+        elif "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
             self.dispatch(member, precedence["in"])
-- 
2.43.0


From cde541acc09018ad85f8aa4875c2a882e578f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 26/37] fix: types with two parameters, and encrypted int(n)

---
 scheduler/handers/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 8077e92..b498c42 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -40,7 +40,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         if col['name'] not in encrypted_cols:
             for t_k, t_v in col_type.items():
                 if t_v:
-                    enc_col_type = t_k + '(' + str(t_v) + ')'
+                    t_v = t_v if isinstance(t_v, list) else [t_v]
+                    enc_col_type = t_k + '(' + ','.join(str(v) for v in t_v) + ')'
                 else:
                     enc_col_type = t_k
                 if col.get('default'):
@@ -63,7 +64,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
                 columns_kv[col_name]['type'] = t_k
-                if t_v:
+                if callable(v):
                     t_k, t_l = v(t_k, t_v)
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
-- 
2.43.0


From 6fdc5da7bcb381e4aee1050c0a01aded7697136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 27/37] fix: defaults of columns: 0 was dropped, literals were
 refused, NULL was encrypted

---
 scheduler/handers/table.py | 67 +++++++++++++-------------------------
 1 file changed, 22 insertions(+), 45 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index b498c42..d5b77ff 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -4,11 +4,27 @@ import string
 import random
 
 from sql_parsing import parse_mysql as parse
-from scheduler.crypto import encrypt
+from sql_parsing import format
+from scheduler.handers.clause import SQLValues
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
 
+def get_default(col, enc=None, enc_info=None):
+    """The default clause of a column, or of one of the back-end columns of an encrypted column"""
+    if 'default' not in col:
+        return ''
+    value = col['default']
+    if value == {'null': {}}:
+        return ' DEFAULT NULL '
+    if enc is not None:
+        if isinstance(value, str):
+            raise Exception("can not encrypt the default {}".format(value))
+        column = dict(enc_info, type=list(col['type'].keys())[0])
+        value = SQLValues({'': {'columns': {col['name']: column}}}).encrypt_value('', col['name'], value, enc)['value']
+    return ' DEFAULT ' + (value if isinstance(value, str) else format(value))
+
+
 def rewrite_table(db, db_meta, query, encrypted_cols):
     json = parse(query)
     if 'create table' not in json.keys():
@@ -44,14 +60,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + ','.join(str(v) for v in t_v) + ')'
                 else:
                     enc_col_type = t_k
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    default_value = ' DEFAULT ' + default_value
-                else:
-                    default_value = ''
+                default_value = get_default(col)
                 enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
@@ -69,58 +78,26 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
                     enc_col_type = v
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    key = encrypted_cols[col['name']]['key']
-                    default_value = ' DEFAULT ' + encrypt.AESCipher(key).encrypt(default_value)
-                else:
-                    default_value = ''
+                default_value = get_default(col, k, encrypted_cols[col_name])
                 enc_columns.append(enc_col_name + ' ' + enc_col_type + is_nullable + primary_key_plus + default_value)
                 columns_kv[col_name]['enc-cols'].update({k: enc_col_name})
         if encrypted_cols[col['name']]['fuzzy']:
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, 'fuzzy', encrypted_cols[col_name])
             enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('homomorphic_key', "")
-                default_value = ' DEFAULT ' + encrypt.HomomorphicCipher(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, 'arithmetic', encrypted_cols[col_name])
             enc_columns.append(enc_col_name + ' ' + arithmetic_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"arithmetic": enc_col_name})
             columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
         if encrypted_cols[col['name']].get('sm4'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4_key', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, 'sm4', encrypted_cols[col_name])
             enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
             columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
-- 
2.43.0


From 276cebc2730b3602a19252f93b527badc5c332ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 28/37] fix: an insert into one column only

---
 scheduler/handers/clause/sql_columns.py | 1 +
 scheduler/handers/clause/sql_values.py  | 5 ++++-
 scheduler/handers/rewrite_hander.py     | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_columns.py b/scheduler/handers/clause/sql_columns.py
index 5699940..108bfa3 100644
--- a/scheduler/handers/clause/sql_columns.py
+++ b/scheduler/handers/clause/sql_columns.py
@@ -8,6 +8,7 @@ class SQLColumns(Rewriter):
     def rewrite(self, columns, table, json=None):
         enc_table_meta = self.db_meta[table]
         new_columns = []
+        columns = columns if isinstance(columns, list) else [columns]
         for col in columns:
             if enc_table_meta['columns'][col]['plaintext']:
                 new_columns.append(col)
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..384adb3 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -9,7 +9,10 @@ class SQLValues(Rewriter):
     def rewrite(self, values, table, json=None):
         new_values = []
         enc_table_meta = self.db_meta[table]
-        for col, value in zip(json['columns'], values):
+        columns = json['columns']
+        if not isinstance(columns, list):
+            columns, values = [columns], [values]
+        for col, value in zip(columns, values):
             if enc_table_meta['columns'][col]['plaintext']:
                 new_values.append(value)
             else:
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 2c62f05..8618e66 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -58,7 +58,7 @@ class Rewriter(Clause):
             raise Exception("no table found in sql {}".format(self.origin_query))
 
         def __inner__(inner_json, inner_key, _func):
-            if isinstance(inner_json, dict):
+            if isinstance(inner_json, dict) and inner_key in inner_json:
                 if isinstance(inner_json[inner_key], dict):
                     for _k, _v in inner_json[inner_key].items():
                         tmp = __inner__(_v, _k, _func)
-- 
2.43.0


From b5b06087899323dd59bd388e7b97c8b30a418f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 29/37] fix: order by several columns

---
 scheduler/handers/clause/function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 75388ec..83a9809 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -6,6 +6,8 @@ class OrderBy(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, orderby_val, table, json=None):
+        if isinstance(orderby_val, list):
+            return [self.rewrite(v, table) for v in orderby_val]
         col = self.db_meta[table]['columns'][orderby_val['value']]
         if col['plaintext']:
             return orderby_val
-- 
2.43.0


From b11c8b7fd9583cb78c2334609dc8f54f2dbed06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 30/37] fix: /encrypt_sql gives its connection back

---
 scheduler/backend/executors/remote_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 0b65291..c985b6c 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -148,6 +148,8 @@ class RemoteExecutor(AbstractQueryExecutor):
         except Exception as e:
             logger.info(e)
             raise e
+        finally:
+            self.conn.close()
         return enc_query
 
     def batch_insert(self, batch_info):
-- 
2.43.0


From 67b4d09b25115cdcc9708c4dd1d772b3b58a465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 31/37] fix: count of an encrypted column is a number, not a
 value of the column

---
 scheduler/handers/clause/sql_select.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..880250b 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -132,4 +132,8 @@ class SQLSelect(Rewriter):
                         result['mod'] = [{'mul': [v0, v1]}, p]
                 else:
                     result[k] = self.rewrite(v, table)
+                    if k == 'count':
+                        # a number of values, not one of them
+                        self.select_state[-1] = "plaintext"
+                        self.select_types[-1] = "int"
             return result
-- 
2.43.0


From 13aedf36d30df80c546f9989e7a5e82fb7671276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 32/37] fix: dates are answered, and ciphertext answers may
 contain numbers and dates

---
 .../backend/executors/decrypt_executor.py     |  2 +-
 scheduler/handers/decrypt_handler.py          | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/scheduler/backend/executors/decrypt_executor.py b/scheduler/backend/executors/decrypt_executor.py
index 326c3bc..2df1974 100644
--- a/scheduler/backend/executors/decrypt_executor.py
+++ b/scheduler/backend/executors/decrypt_executor.py
@@ -18,7 +18,7 @@ class DecryptQueryExecutor(AbstractQueryExecutor):
         if result:
             if 'ciphertext' in query_info and query_info['ciphertext']:
                 logger.info("decrypt:{}".format(time.time() - start_time))
-                return result
+                return [tuple(self.handler.readable(col_val) for col_val in row) for row in result]
             result = self.handler(executor).decrypt(result, select_columns, db_meta, table)
             logger.info("decrypt:{}".format(time.time() - start_time))
             return result
diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 83fed24..d99da20 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -18,6 +18,17 @@ class DecryptHandler(Handler):
     def __rewrite__(self):
         pass
 
+    @staticmethod
+    def readable(col_val):
+        """A value of the backend as it can be answered"""
+        if isinstance(col_val, Decimal):
+            return eval(col_val.__str__())
+        if isinstance(col_val, datetime.datetime):
+            return col_val.strftime("%Y-%m-%d %H:%M:%S")
+        if isinstance(col_val, datetime.date):
+            return col_val.strftime("%Y-%m-%d")
+        return col_val
+
     def decrypt(self, enc_result, select_columns, db_meta, table):
         self.db_meta = db_meta
         result_state = self.executor.rewriter.select.select_state
@@ -25,13 +36,7 @@ class DecryptHandler(Handler):
             new_row = []
             for col_name, state, col_val in zip(select_columns, result_state, row):
                 if state == "plaintext":
-                    if isinstance(col_val, Decimal):
-                        col_val = eval(col_val.__str__())
-
-                    if isinstance(col_val, datetime.datetime):
-                        new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
-                    else:
-                        new_row.append(col_val)
+                    new_row.append(self.readable(col_val))
                 else:
                     new_row.append(self.__decrypt__(table, col_val, col_name, state))
             self.result.append(tuple(new_row))
-- 
2.43.0


From 41afe073c2cadf8c33f87d21d3022e6e899db8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 33/37] fix: an empty string in double quotes no longer makes a
 statement with parentheses fail

---
 scheduler/compile/parser.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 3e39bf0..8d61a8b 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -938,24 +938,22 @@ class Parser:  # pylint: disable=R0902
         if self._raw_query == "":
             return ""
 
-        # python re does not have variable length look back/forward
-        # so we need to replace all the " (double quote) for a
-        # temporary placeholder as we DO NOT want to replace those
-        # in the strings as this is something that user provided
-        def replace_quotes_in_string(match):
-            return re.sub('"', "<!!__QUOTE__!!>", match.group())
-
-        def replace_back_quotes_in_string(match):
-            return re.sub("<!!__QUOTE__!!>", '"', match.group())
-
         # unify quoting in queries, replace double quotes to backticks
         # it's best to keep the quotes as they can have keywords
         # or digits at the beginning so we only strip them in SQLToken
-        # as double quotes are not properly handled in sqlparse
-        query = re.sub(r"'.*?'", replace_quotes_in_string, self._raw_query)
-        query = re.sub(r'"([^`]+?)"', r"`\1`", query)
-        query = re.sub(r'"([^`]+?)"\."([^`]+?)"', r"`\1`.`\2`", query)
-        query = re.sub(r"'.*?'", replace_back_quotes_in_string, query)
+        # as double quotes are not properly handled in sqlparse;
+        # strings in single quotes and comments stay as the user provided them
+        def replace_quotes(match):
+            text = match.group()
+            if text == '""':
+                return "''"
+            if text[0] == '"' and "`" not in text:
+                return "`" + text[1:-1] + "`"
+            return text
+
+        query = re.sub(
+            r"""'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|`[^`]*`|--\s[^\n]*|/\*.*?\*/""",
+            replace_quotes, self._raw_query, flags=re.DOTALL)
 
         return query
 
-- 
2.43.0


From 27c519d8a3c1bd52826d1f9f42affba1e84f63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:31 +0000
Subject: [PATCH 34/37] fix: a drop whose answer was lost is not repeated on
 another connection

---
 scheduler/backend/executors/remote_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index c985b6c..599f18c 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -131,6 +131,8 @@ class RemoteExecutor(AbstractQueryExecutor):
         table_meta = self.rewriter.db_meta[table]
         # a table in the catalog always exists in the backend, so it leaves the catalog first
         self.meta.delete_delta(self.str_db, table)
+        # never repeated on another connection: a refusal would not tell what the first one did
+        self.conn.begin()
         try:
             cursor.execute(enc_query)
         except mysql.connector.Error as e:
-- 
2.43.0


From d26a1b308e7dcc7c07be04e75b15c77b917eb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:57 +0000
Subject: [PATCH 35/37] fix: dropping a table leaves the catalog entries of a
 table whose name or database differs only in case

---
 scheduler/schema/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 388a48b..49a423f 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -125,7 +125,10 @@ class Delta(object):
         return self.meta
 
     def delete_delta(self, db, table):
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
+        # names that differ in case only may be equal to the store
+        anonymous = self.meta[db][table]['anonymous']
+        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}' and table_anonymous = '{}'".format(
+            db, table, anonymous)
         with self.lock:
             self.change_store(lambda cu: cu.execute(sql))
             tables = dict(self.meta.get(db, {}))
-- 
2.43.0


From 6c0561b0431ba3575ad5fd159aece68d39159eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:01 +0000
Subject: [PATCH 36/37] fix: the schema listing shows the tables of the
 database the data source names

---
 handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/handler.py b/handler.py
index 781fc8e..24e509e 100644
--- a/handler.py
+++ b/handler.py
@@ -754,12 +754,14 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         db_info = get_datasource(component_id)
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
-            db = connection_url[13:]
+            db = connection_url[13:].split("/")[1]
 
             def work(cu):
                 cu.execute(
-                    "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
-                return cu.fetchall()
+                    "SELECT table_name, col_info, database_name FROM p_db_meta WHERE database_name='{}' "
+                    "order by table_name".format(db))
+                # names that differ in case only may be equal to the store
+                return [row for row in cu.fetchall() if row[2] == db]
             self.write(self.format_result(run_on_meta(work)))
         else:
             self.write({})
-- 
2.43.0


From e37555739e422b80b85bf4037a8dd9019a58b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:01 +0000
Subject: [PATCH 37/37] fix: the schema listing names columns of every type,
 and shows no nameless table for an empty database

---
 handler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 24e509e..de70472 100644
--- a/handler.py
+++ b/handler.py
@@ -792,11 +792,19 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                         "dbType": "INT UNSIGNED",
                         "length": 20
                     }
+                else:
+                    format_col = {
+                        "name": key if value['plaintext'] else key + " *",
+                        "javaType": value['type'].upper(),
+                        "dbType": value['type'].upper(),
+                        "length": 20
+                    }
             if row[0] == table["name"]:
                 table["columns"].append(format_col)
             else:
                 res.append(json.dumps(table))
                 table = {"name": row[0], "type": "USER TABLE", "columns": []}
                 table["columns"].append(format_col)
-        res.append(json.dumps(table))
+        if table:
+            res.append(json.dumps(table))
         return "[" + ",".join(res) + "]"
-- 
2.43.0

