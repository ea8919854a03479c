From 1a432a562c6f05de339873388e4c4e0ff99ada01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 01/37] fix: keep every attribute when compacting optional
 unions

clean_dict dropped alias, logical, default, doc and name of a null union with
other extra attributes, mixed the union's attributes up with its nested
type's, and raised on a nested union.
---
 recap/types.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..24934bc 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -668,28 +668,45 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
         and "null" in type_dict["types"]
         and "default" in type_dict
     ):
-        # Pop off standard attributes that should be kept whether the type is kept
-        # as a union or converted to a single nested type.
-        alias = type_dict.pop("alias", None)
-        logical = type_dict.pop("logical", None)
-        default = type_dict.pop("default")
-        doc = type_dict.pop("doc", None)
-        name = type_dict.pop("name", None)
-
         # Only do syntactic sugar if the union is a union with no other
         # (non-standard) extra attributes.
-        if len(type_dict) == 2:
+        if type_dict.keys() <= {
+            "type",
+            "types",
+            "alias",
+            "logical",
+            "default",
+            "doc",
+            "name",
+        }:
+            # Pop off standard attributes that should be kept whether the type is
+            # kept as a union or converted to a single nested type.
+            alias = type_dict.pop("alias", None)
+            logical = type_dict.pop("logical", None)
+            default = type_dict.pop("default")
+            doc = type_dict.pop("doc", None)
+            name = type_dict.pop("name", None)
+
             type_dict["types"].remove("null")
 
             # If the type was ["null", <some type>], use <some type> instead
             # of a union of a single type. Don't do this if union is an alias or
             # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
+            # the alias/logical type means. Don't do this if <some type> has its
+            # own default, doc, or name, either, since they'd be mixed up with
+            # the union's.
             if len(type_dict["types"]) == 1 and alias is None and logical is None:
                 nested_type = type_dict["types"][0]
                 if isinstance(nested_type, str):
                     nested_type = {"type": nested_type}
-                type_dict = nested_type
+                if (
+                    isinstance(nested_type, dict)
+                    and nested_type["type"] not in ("union", "null")
+                    and not nested_type.keys() & {"default", "optional"}
+                    and (doc is None or "doc" not in nested_type)
+                    and (name is None or "name" not in nested_type)
+                ):
+                    type_dict = nested_type
             assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
             attributes = {
                 "alias": alias,
-- 
2.43.0


From 30afcaeac26af5d32458b42e2ffabda019c93972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 02/37] fix: don't register nested aliases twice when aliasing
 a type dict

to_dict raised 'Alias ... is already used' for every type with an aliased type
nested two or more levels deep.
---
 recap/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 24934bc..318a430 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -758,8 +758,12 @@ def alias_dict(
     if type_dict.get("alias") is not None:
         return type_dict
 
-    registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    if registry is None:
+        registry = RecapTypeRegistry()
+        recap_type = from_dict(type_dict, registry)
+    else:
+        # The registry already contains the aliases nested inside type_dict.
+        recap_type = from_dict(type_dict)
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From ade01321c850e9e42c61310c25a205667851e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:52 +0000
Subject: [PATCH 03/37] fix: keep schemas named "." and ".." inside the
 registry's root path

---
 recap/storage/registry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..60e5f36 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -7,6 +7,14 @@ import fsspec
 from recap.types import RecapType, from_dict, to_dict
 
 
+def _quote(name: str) -> str:
+    quoted_name = quote_plus(name)
+    # quote_plus() doesn't quote dots, but "." and ".." are special directories.
+    if quoted_name in (".", ".."):
+        quoted_name = quoted_name.replace(".", "%2E")
+    return quoted_name
+
+
 class RegistryStorage:
     def __init__(self, storage_url: str, **storage_url_args):
         self.fs, self.root_path = fsspec.core.url_to_fs(storage_url, **storage_url_args)
@@ -25,7 +33,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +55,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +71,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = _quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
-- 
2.43.0


From 906832cd303fa1d2472939c61ac7ed5a1c6c03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:57 +0000
Subject: [PATCH 04/37] fix: list registry files by name on every fsspec
 filesystem

fs.ls() returns dicts by default on most filesystems (S3, GCS, memory, ...),
so ls() and versions() raised there.
---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 60e5f36..78e25cc 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -24,7 +24,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -78,7 +78,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From 0d75428ca3c1ac35b2d921e8b00c481d1c05cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:02 +0000
Subject: [PATCH 05/37] fix: never choose versions from a cached directory
 listing

fsspec filesystems for object stores cache listings per thread and process. A
stale listing made put() reuse (and overwrite) a version that another thread or
process had stored, and hid it from versions(), latest() and ls().
---
 recap/storage/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 78e25cc..ad4ae12 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -21,6 +21,8 @@ class RegistryStorage:
         self.fs.mkdirs(self.root_path, exist_ok=True)
 
     def ls(self) -> list[str]:
+        self.fs.invalidate_cache(self.root_path)
+
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
@@ -73,6 +75,7 @@ class RegistryStorage:
     def versions(self, name: str) -> list[int] | None:
         quoted_name = _quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
+        self.fs.invalidate_cache(path_without_version)
 
         try:
             return sorted(
-- 
2.43.0


From 1a8191ddfb593f44dc4ab3b60a1e5ff9fe388182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:11 +0000
Subject: [PATCH 06/37] fix: list an empty registry on object stores

---
 recap/storage/registry.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index ad4ae12..3b23816 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -23,12 +23,16 @@ class RegistryStorage:
     def ls(self) -> list[str]:
         self.fs.invalidate_cache(self.root_path)
 
-        return sorted(
-            [
-                unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path, detail=False)
-            ]
-        )
+        try:
+            return sorted(
+                [
+                    unquote_plus(file_path[len(self.root_path) + 1 :])
+                    for file_path in self.fs.ls(self.root_path, detail=False)
+                ]
+            )
+        except FileNotFoundError:
+            # Object stores have no directories, so mkdirs() doesn't create one.
+            return []
 
     def get(
         self,
-- 
2.43.0


From 95e8a953beb64794cbb6078f5d2bbcd3b5c7a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:16 +0000
Subject: [PATCH 07/37] fix: store registry schemas atomically

put() wrote the version's file in place. A crash, a full disk or any other error
while writing left a truncated file behind that counted as the latest version
and made the schema unreadable, and concurrent readers saw partial files.
---
 recap/storage/registry.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 3b23816..a24fd50 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -1,8 +1,12 @@
 import json
+import os
+from contextlib import suppress
 from pathlib import Path
 from urllib.parse import quote_plus, unquote_plus
+from uuid import uuid4
 
 import fsspec
+from fsspec.implementations.local import LocalFileSystem
 
 from recap.types import RecapType, from_dict, to_dict
 
@@ -67,15 +71,35 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
-
-        with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+        self._write(f"{path_without_version}/{version}.json", type_json)
 
         return version
 
+    def _write(self, path: str, content: str) -> None:
+        """
+        Write a file such that it only ever becomes visible with all its content.
+        """
+
+        if not isinstance(self.fs, LocalFileSystem):
+            # Object stores don't show a file until it's been fully uploaded.
+            with self.fs.open(path, "w") as f:
+                f.write(content)
+            return
+
+        tmp_path = f"{path}.{uuid4().hex}.tmp"
+
+        try:
+            with self.fs.open(tmp_path, "w") as f:
+                f.write(content)
+            os.replace(tmp_path, path)
+        except Exception:
+            with suppress(OSError):
+                os.remove(tmp_path)
+            raise
+
     def versions(self, name: str) -> list[int] | None:
         quoted_name = _quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
@@ -86,6 +110,8 @@ class RegistryStorage:
                 [
                     int(Path(file_path).stem)
                     for file_path in self.fs.ls(path_without_version, detail=False)
+                    # Skip temporary files
+                    if file_path.endswith(".json")
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From a44bf687a853be7ffc36b6749d7034c83478b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:21 +0000
Subject: [PATCH 08/37] fix: don't overwrite a version that's put while the
 body is read

The conflict check ran before the request body was awaited, so two concurrent
requests could both put the same version.
---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..4826aed 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    type_ = await _request_to_type(request)
+
+    # Check after awaiting the body, so no other request can put the version
+    # between the check and the put.
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From 48dd3e77770f4715b390c001933eeac4572d9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 09/37] fix: reject bodies that aren't a schema or can't be
 served as JSON

Malformed or truncated JSON was stored as if it were a type name, NaN, Infinity
and unpaired surrogates were stored but made every read fail, and invalid UTF-8
wasn't handled.
---
 recap/server/registry.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 4826aed..ee648cb 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -4,7 +4,7 @@ from fastapi import APIRouter, Depends, HTTPException, Request
 
 from recap.settings import RecapSettings
 from recap.storage.registry import RegistryStorage
-from recap.types import RecapType, from_dict, to_dict
+from recap.types import ProxyType, RecapType, from_dict, to_dict
 
 router = APIRouter(prefix="/registry")
 settings = RecapSettings()
@@ -99,17 +99,27 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
 
     try:
-        type_json = json.loads(type_str)
-    except json.JSONDecodeError:
-        # Assume payload is string alias if we can't decode as JSON.
-        # If it's not, from_dict will fail below.
-        type_json = type_str
+        type_str = type_bytes.decode("utf-8")
 
-    try:
-        return from_dict(type_json)
+        try:
+            type_json = json.loads(type_str)
+        except json.JSONDecodeError:
+            # Assume payload is string alias if we can't decode as JSON.
+            # If it's not, resolve will fail below.
+            type_json = type_str
+
+        # Fail on values that can't be returned as JSON later (NaN, Infinity,
+        # and unpaired surrogates).
+        json.dumps(type_json, allow_nan=False, ensure_ascii=False).encode("utf-8")
+
+        type_ = from_dict(type_json)
+
+        if isinstance(type_, ProxyType):
+            type_.resolve()
+
+        return type_
     except Exception as e:
         raise HTTPException(
             status_code=400,
-- 
2.43.0


From ae2160b022ce702207196b2952ca2dcbe4157e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:59 +0000
Subject: [PATCH 10/37] fix: don't list names whose first put was cut short

---
 recap/storage/registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index a24fd50..9df4aec 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -28,7 +28,7 @@ class RegistryStorage:
         self.fs.invalidate_cache(self.root_path)
 
         try:
-            return sorted(
+            names = sorted(
                 [
                     unquote_plus(file_path[len(self.root_path) + 1 :])
                     for file_path in self.fs.ls(self.root_path, detail=False)
@@ -38,6 +38,9 @@ class RegistryStorage:
             # Object stores have no directories, so mkdirs() doesn't create one.
             return []
 
+        # A put() that's cut short can leave a directory without any versions.
+        return [name for name in names if self.versions(name)]
+
     def get(
         self,
         name: str,
-- 
2.43.0


From 97b25155916a76755f38118ad3265e6b9c940a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 11/37] fix: close database connections when the client context
 ends

---
 recap/clients/postgresql.py | 4 ++--
 recap/clients/snowflake.py  | 6 ++++--
 recap/clients/sqlite.py     | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..17bb818 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from typing import Generator
 
 from recap.clients.dbapi import Connection, DbapiClient
@@ -70,7 +70,7 @@ class PostgresqlClient(DbapiClient):
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in PSYCOPG2_CONNECT_ARGS}
 
-        with psycopg2.connect(**url_args) as client:
+        with closing(psycopg2.connect(**url_args)) as client:
             yield PostgresqlClient(client)
 
     def ls_catalogs(self) -> list[str]:
diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..40e1850 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from typing import Generator
 
 from recap.clients.dbapi import Connection, DbapiClient
@@ -26,7 +26,9 @@ class SnowflakeClient(DbapiClient):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        connection = snowflake.connector.connect(**(snowflake_args | url_args))
+
+        with closing(connection) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..38c67e6 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from contextlib import contextmanager
+from contextlib import closing, contextmanager
 from re import compile as re_compile
 from typing import Any, Generator
 
@@ -36,7 +36,7 @@ class SQLiteClient:
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-        with sqlite3.connect(**url_args) as client:
+        with closing(sqlite3.connect(**url_args)) as client:
             yield SQLiteClient(client)  # type: ignore
 
     @staticmethod
-- 
2.43.0


From 3ad5454dbd5e382214cc755c79123527b7295df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:47 +0000
Subject: [PATCH 12/37] fix: don't share array aliases between tables and
 PostgreSQL clients

---
 recap/clients/postgresql.py    | 4 ++--
 recap/converters/postgresql.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 17bb818..c489a49 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -52,9 +52,9 @@ class PostgresqlClient(DbapiClient):
     def __init__(
         self,
         connection: Connection,
-        converter: PostgresqlConverter = PostgresqlConverter(),
+        converter: PostgresqlConverter | None = None,
     ) -> None:
-        super().__init__(connection, converter)
+        super().__init__(connection, converter or PostgresqlConverter())
 
     @staticmethod
     @contextmanager
diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..fc0687b 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -14,6 +14,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +39,11 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Aliases are per-table. Tables can have columns with the same name.
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
-- 
2.43.0


From cfbd44fd739b0e740cca348cda8df021deb71830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:51 +0000
Subject: [PATCH 13/37] fix: return PostgreSQL enum symbols in their declared
 order

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index c489a49..39b063b 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From 70230aa168e8f647d6e52988e93558c52d45fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 14/37] fix: don't block the event loop while the gateway waits
 for upstreams

---
 recap/server/gateway.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/server/gateway.py b/recap/server/gateway.py
index f1c89f1..e8b3039 100644
--- a/recap/server/gateway.py
+++ b/recap/server/gateway.py
@@ -4,9 +4,12 @@ from recap import commands
 
 router = APIRouter(prefix="/gateway")
 
+# NOTE: These are not async functions because clients block. FastAPI runs them
+# in a threadpool, so a slow upstream doesn't block other requests.
+
 
 @router.get("/ls/{url:path}")
-async def ls(url: str | None = None) -> list[str]:
+def ls(url: str | None = None) -> list[str]:
     """
     List the children of a URL.
     """
@@ -18,7 +21,7 @@ async def ls(url: str | None = None) -> list[str]:
 
 
 @router.get("/schema/{url:path}")
-async def schema(url: str, request: Request):
+def schema(url: str, request: Request):
     """
     Get the schema of a URL.
     """
-- 
2.43.0


From d6da0f9cd2daf99e43efac9e4c47afeafccceb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:00 +0000
Subject: [PATCH 15/37] fix: match settings URLs that have no path

---
 recap/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..8664a9d 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -97,7 +97,9 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and url_path.startswith(
+                    Path(unsafe_url_split.path or "/").as_posix()
+                )
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From db461b3756ab9c26cd10c03a63537aeee252c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:06 +0000
Subject: [PATCH 16/37] fix: accept the arguments BigQueryClient.parse returns
 for ls

---
 recap/clients/bigquery.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..e8d20c4 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,8 +29,15 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
         match (project, dataset):
+            case _ if table is not None:
+                raise ValueError("Invalid arguments")
             case (None, None):
                 return self.ls_projects()
             case (str(project), None):
-- 
2.43.0


From 8016b06e3683ed82e068de4ccb92a7c80f0748f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 17/37] fix: connect to the Snowflake database of the URL

---
 recap/clients/snowflake.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index 40e1850..b9102ca 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,9 +20,9 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
-            case str(database), str(schema):
+            case [str(database), str(schema), *_]:
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-- 
2.43.0


From c5e007c28a2618fd02cfb208b2b1f8b7d4127f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:54 +0000
Subject: [PATCH 18/37] fix: retrieve remote JSON schemas, and retrieve them
 every time

---
 recap/converters/json_schema.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..6c55991 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -6,7 +6,7 @@ from typing import Any, Callable
 from urllib.parse import urlparse
 
 import httpx
-from referencing import Registry, Resource, jsonschema, retrieval
+from referencing import Registry, Resource, jsonschema
 
 from recap.types import (
     BUILTIN_ALIASES,
@@ -128,9 +128,7 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
+                    self.json_registry = retrieved.registry
                     return self._parse(resource.contents, alias_strategy)
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
@@ -305,6 +303,7 @@ class JSONSchemaConverter:
         return dotted_type
 
     @staticmethod
-    @retrieval.to_cached_resource()
-    def httpx_retrieve(uri: str):
-        return httpx.get(uri).text
+    def httpx_retrieve(uri: str) -> Resource:
+        response = httpx.get(uri)
+        response.raise_for_status()
+        return Resource.from_contents(response.json(), jsonschema.DRAFT202012)
-- 
2.43.0


From 3e9fae11906de0eb59c9f1fa5f40a2a5ecbf70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:00 +0000
Subject: [PATCH 19/37] fix: fail when a table doesn't exist instead of
 returning an empty schema

---
 recap/clients/dbapi.py      | 11 +++++++----
 recap/clients/postgresql.py | 11 +++++++----
 recap/clients/sqlite.py     |  7 ++++++-
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/recap/clients/dbapi.py b/recap/clients/dbapi.py
index 5716601..2703d8b 100644
--- a/recap/clients/dbapi.py
+++ b/recap/clients/dbapi.py
@@ -100,10 +100,13 @@ class DbapiClient(ABC):
         )
 
         names = [name[0].upper() for name in cursor.description]
-        return self.converter.to_recap(
-            # Make each row be a dict with the column names as keys
-            [dict(zip(names, row)) for row in cursor.fetchall()]
-        )
+        # Make each row be a dict with the column names as keys
+        rows = [dict(zip(names, row)) for row in cursor.fetchall()]
+
+        if not rows:
+            raise ValueError(f"Table '{table}' does not exist or has no columns.")
+
+        return self.converter.to_recap(rows)
 
     @property
     def param_style(cls) -> str:
diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 39b063b..f4cd716 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -123,7 +123,10 @@ class PostgresqlClient(DbapiClient):
             (table, schema, catalog),
         )
         names = [name[0].upper() for name in cursor.description]
-        return self.converter.to_recap(
-            # Make each row be a dict with the column names as keys
-            [dict(zip(names, row)) for row in cursor.fetchall()]
-        )
+        # Make each row be a dict with the column names as keys
+        rows = [dict(zip(names, row)) for row in cursor.fetchall()]
+
+        if not rows:
+            raise ValueError(f"Table '{table}' does not exist or has no columns.")
+
+        return self.converter.to_recap(rows)
diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 38c67e6..4d746b5 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -85,7 +85,8 @@ class SQLiteClient:
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        quoted_table = table.replace('"', '""')
+        cursor.execute(f'PRAGMA table_info("{quoted_table}");')
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
@@ -94,6 +95,10 @@ class SQLiteClient:
             row = self.add_information_schema(row)
             rows.append(row)
 
+        # The table might have been dropped since we validated that it exists
+        if not rows:
+            raise ValueError(f"Table '{table}' does not exist in the database.")
+
         return self.converter.to_recap(rows)
 
     def add_information_schema(self, row: dict[str, Any]) -> dict[str, Any]:
-- 
2.43.0


From 07e2f4e5b630c66ec99df42ba14ae4b7f9276025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:06 +0000
Subject: [PATCH 20/37] fix: keep the names of optional and repeated fields in
 protobuf schemas

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..802817b 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -437,6 +437,7 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                nested_field.name = values.extra_attrs.get("name", field_name)
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
@@ -463,6 +464,7 @@ class ProtobufConverter:
                         package,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
+                    field.name = non_null_types[0].extra_attrs.get("name", field_name)
                     field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
-- 
2.43.0


From d6853c43a986f87ecc3a94dcdb3c1d2db9d15216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:10 +0000
Subject: [PATCH 21/37] fix: decode percent-encoded user names and passwords of
 URLs

---
 recap/clients/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..bd46807 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -105,13 +105,18 @@ def _url_to_dict(url: str) -> dict[str, str]:
         ]
     }
 
+    # Special characters are percent-encoded in URLs, but not for clients.
+    for field in ["username", "password"]:
+        if parsed_dict[field]:
+            parsed_dict[field] = unquote(parsed_dict[field])
+
     if "+" in parsed_dict["scheme"]:
         dialect, driver = parsed_dict["scheme"].split("+")
         parsed_dict["dialect"] = dialect
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
-    if username := parsed_url.username:
+    if username := parsed_dict["username"]:
         parsed_dict["user"] = username
 
     if hostname := parsed_url.hostname:
-- 
2.43.0


From 27468ab0f89b479abf20e262e481af5c8ec8e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:48 +0000
Subject: [PATCH 22/37] fix: only match URLs at or below a settings URL's path

---
 recap/settings.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 8664a9d..6c9cf55 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,7 @@
 import os
 from pathlib import Path
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, unquote, urlencode, urlsplit, urlunsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -80,7 +80,7 @@ class RecapSettings(BaseSettings):
         into the input URL and return it. Merging occurs if:
 
         - The input URL's scheme, hostname, and port match a URL in settings.
-        - The input URL's path starts with the settings URL's path.
+        - The input URL's path is the settings URL's path or is below it.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -89,17 +89,19 @@ class RecapSettings(BaseSettings):
 
         url_split = urlsplit(url)
         url_path = Path(url_split.path or "/").as_posix()
+        url_path_parts = Path(url_path).parts
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
+            unsafe_path_parts = Path(unsafe_url_split.path or "/").parts
 
             if (
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(
-                    Path(unsafe_url_split.path or "/").as_posix()
-                )
+                and url_path_parts[: len(unsafe_path_parts)] == unsafe_path_parts
+                # Parent directories aren't below the settings URL's path.
+                and ".." not in unquote(url_path).split("/")
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From d16227656cafdbd677769a3672dbd059adbc21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:52 +0000
Subject: [PATCH 23/37] fix: remove credentials in query parameters from
 safe_urls

---
 recap/settings.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 6c9cf55..2ac9b0c 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,7 @@
 import os
 from pathlib import Path
 from typing import Any
-from urllib.parse import parse_qs, unquote, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, unquote, unquote_plus, urlencode, urlsplit, urlunsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -24,6 +24,17 @@ def mkdirs():
 mkdirs()
 
 
+def _is_secret(param: str) -> bool:
+    """
+    Return True if a query parameter contains credentials.
+    """
+
+    return any(
+        secret in param.lower()
+        for secret in ["auth", "credential", "key", "pass", "secret", "token", "user"]
+    )
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -38,7 +49,8 @@ class RecapSettings(BaseSettings):
     @property
     def safe_urls(self) -> list[str]:
         """
-        Return a list of URLs that have the username and password removed.
+        Return a list of URLs that have the username and password removed. Query
+        parameters that contain credentials are removed as well.
         """
 
         safe_urls_list = []
@@ -54,12 +66,18 @@ class RecapSettings(BaseSettings):
                 if split_url.port is not None:
                     netloc += f":{split_url.port}"
 
+            query = "&".join(
+                param
+                for param in split_url.query.split("&")
+                if not _is_secret(unquote_plus(param.split("=")[0]))
+            )
+
             sanitized_url = urlunsplit(
                 (
                     split_url.scheme,
                     netloc,
                     split_url.path.rstrip("/"),
-                    split_url.query,
+                    query,
                     split_url.fragment,
                 )
             )
-- 
2.43.0


From af051138d0f85dc3c3084988a0ab49a349c387f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:58 +0000
Subject: [PATCH 24/37] fix: don't let a URL's query redirect the credentials
 in settings

---
 recap/settings.py | 65 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 2ac9b0c..4e0bdcf 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -24,6 +24,62 @@ def mkdirs():
 mkdirs()
 
 
+CONNECTION_PARAMS = {
+    # URL parts
+    "dialect",
+    "driver",
+    "fragment",
+    "host",
+    "hostname",
+    "netloc",
+    "params",
+    "path",
+    "paths",
+    "port",
+    "scheme",
+    "url",
+    # MySQL
+    "database",
+    "db",
+    "failover",
+    "oci_config_file",
+    "option_files",
+    "option_groups",
+    "read_default_file",
+    "unix_socket",
+    # PostgreSQL
+    "dbname",
+    "hostaddr",
+    "requirepeer",
+    "service",
+    # Snowflake
+    "account",
+    "protocol",
+    "region",
+    # SQLite
+    "factory",
+    "uri",
+}
+"""
+Query parameters that decide which server or database a client connects to.
+"""
+
+
+def _is_connection_param(param: str) -> bool:
+    """
+    Return True if a query parameter decides where a client connects to, or the
+    credentials it uses.
+    """
+
+    param = param.lower()
+
+    return (
+        param in CONNECTION_PARAMS
+        or param.startswith(("proxy", "ssl"))
+        or _is_secret(param)
+    )
+
+
 def _is_secret(param: str) -> bool:
     """
     Return True if a query parameter contains credentials.
@@ -99,6 +155,7 @@ class RecapSettings(BaseSettings):
 
         - The input URL's scheme, hostname, and port match a URL in settings.
         - The input URL's path is the settings URL's path or is below it.
+        - The input URL's query doesn't change where the credentials are sent.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -108,10 +165,12 @@ class RecapSettings(BaseSettings):
         url_split = urlsplit(url)
         url_path = Path(url_split.path or "/").as_posix()
         url_path_parts = Path(url_path).parts
+        url_qs = parse_qs(url_split.query, keep_blank_values=True)
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
             unsafe_path_parts = Path(unsafe_url_split.path or "/").parts
+            unsafe_qs = parse_qs(unsafe_url_split.query)
 
             if (
                 unsafe_url_split.scheme == url_split.scheme
@@ -120,14 +179,16 @@ class RecapSettings(BaseSettings):
                 and url_path_parts[: len(unsafe_path_parts)] == unsafe_path_parts
                 # Parent directories aren't below the settings URL's path.
                 and ".." not in unquote(url_path).split("/")
+                and not any(
+                    _is_connection_param(param) and unsafe_qs.get(param) != values
+                    for param, values in url_qs.items()
+                )
             ):
                 netloc = unsafe_url_split.netloc
 
                 # Merge query strings.
                 # NOTE: This doesn't work for URLs that have multiple values
                 # for the same key spanning both the unsafe and input URLs.
-                unsafe_qs = parse_qs(unsafe_url_split.query)
-                url_qs = parse_qs(url_split.query)
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-- 
2.43.0


From 2ebede7b733a48397f88be2894113fbc89b7c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:02 +0000
Subject: [PATCH 25/37] fix: don't make query parameters part of the SQLite
 file name

---
 recap/clients/sqlite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 4d746b5..95f0a8c 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -33,6 +33,10 @@ class SQLiteClient:
         # Strip sqlite:/// URL prefix
         url_args["database"] = url[len("sqlite:///") :]
 
+        # Only file: URIs have query parameters
+        if not url_args["database"].startswith("file:"):
+            url_args["database"] = url_args["database"].split("?")[0]
+
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-- 
2.43.0


From 910dd2fd133ffd52ffb759b0eedf31d4c3273946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 26/37] fix: keep absolute SQLite paths when parsing schema
 URLs

---
 recap/clients/sqlite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 95f0a8c..7718eb7 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -56,8 +56,8 @@ class SQLiteClient:
                     [
                         url_args.get("dialect") or url_args.get("scheme"),
                         url_args.get("netloc"),
-                        # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        # Strip the / before relative paths, and the table
+                        url_args["path"][1:].rpartition("/")[0],
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
-- 
2.43.0


From 73675ca171d81170a07c0b06f774124c6871c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:57 +0000
Subject: [PATCH 27/37] fix: don't replace JSON schema definitions with
 references to themselves

---
 recap/converters/json_schema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 6c55991..fdeb314 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -162,7 +162,12 @@ class JSONSchemaConverter:
 
         defs = {}
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        if (
+            (alias := recap_type.alias)
+            and alias not in BUILTIN_ALIASES
+            # Proxies reference definitions. They don't define anything.
+            and not isinstance(recap_type, ProxyType)
+        ):
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
-- 
2.43.0


From 5a895021f6123c10578f6a637dc7a113bbda8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:50 +0000
Subject: [PATCH 28/37] fix: read PostgreSQL array columns whatever their name

---
 recap/converters/postgresql.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index fc0687b..8373dcd 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,3 +1,4 @@
+import re
 from math import ceil
 from typing import Any
 
@@ -38,10 +39,12 @@ class PostgresqlConverter(DbapiConverter):
         self.enforce_array_dimensions = enforce_array_dimensions
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
+        self.aliases: set[str] = set()
 
     def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
         # Aliases are per-table. Tables can have columns with the same name.
         self.registry = RecapTypeRegistry()
+        self.aliases = set()
         return super().to_recap(columns)
 
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
@@ -125,8 +128,7 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                base_type_alias = self._get_alias(column_name)
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -154,6 +156,17 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _get_alias(self, column_name: str) -> str:
+        """
+        Get an unused alias for a column. Columns can have any name, but aliases
+        can't, so replace characters that aren't allowed in an alias.
+        """
+        alias_name = re.sub(r"^(?=[0-9])|[^a-zA-Z0-9_]", "_", column_name)
+        while f"{self.namespace}.{alias_name}" in self.aliases:
+            alias_name += "_"
+        self.aliases.add(f"{self.namespace}.{alias_name}")
+        return f"{self.namespace}.{alias_name}"
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From 36f21e819769640b7d441dc48d473d7a449fce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:37 +0000
Subject: [PATCH 29/37] fix: don't create SQLite databases that don't exist

---
 recap/clients/sqlite.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 7718eb7..5f40161 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from contextlib import closing, contextmanager
 from re import compile as re_compile
 from typing import Any, Generator
+from urllib.parse import quote
 
 from recap.clients.dbapi import Connection
 from recap.converters.sqlite import SQLiteAffinity, SQLiteConverter
@@ -37,6 +38,13 @@ class SQLiteClient:
         if not url_args["database"].startswith("file:"):
             url_args["database"] = url_args["database"].split("?")[0]
 
+            # sqlite3 creates databases that don't exist. Reading must not.
+            if url_args["database"] not in ("", ":memory:"):
+                database = quote(url_args["database"])
+                authority = "//" if database.startswith("/") else ""
+                url_args["database"] = f"file:{authority}{database}?mode=rw"
+                url_args["uri"] = True
+
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
-- 
2.43.0


From c05a9e8456c7d3e493350a23b490ebbc0a18ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 30/37] fix: don't reuse latest schemas the Confluent client
 cached

---
 recap/clients/confluent_registry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 54c6563..87d8b17 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -63,6 +63,12 @@ class ConfluentRegistryClient:
     def schema(self, subject: str) -> StructType:
         has_kv = subject.endswith("-key") or subject.endswith("-value")
         subject = subject if has_kv else f"{subject}-value"
+
+        # Newer versions might have been registered since the client last cached
+        # the latest ones. Old confluent-kafka versions don't cache them.
+        if hasattr(self.registry, "clear_latest_caches"):
+            self.registry.clear_latest_caches()
+
         registered_schema = self.registry.get_latest_version(subject)
         schema_str = registered_schema.schema.schema_str
         match registered_schema.schema.schema_type:
-- 
2.43.0


From 03095262102716300187ff00d51236c0c793ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 31/37] fix: requests can't change what a connection executes
 or how it is secured

A gateway request's query parameters are merged into the configured URL. MySQL's
init_command (and time_zone and sql_mode) let a request execute any statement
with the configured credentials, and others turned off TLS or changed the role.
---
 recap/settings.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 4e0bdcf..a1eb06f 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -59,23 +59,48 @@ CONNECTION_PARAMS = {
     # SQLite
     "factory",
     "uri",
+    # What a client executes, and how it secures its connections
+    "allow_local_infile",
+    "allow_local_infile_in_path",
+    "channel_binding",
+    "client_flags",
+    "connection_name",
+    "connections_file_path",
+    "disable_ocsp_checks",
+    "dns_srv",
+    "dsn",
+    "gssencmode",
+    "gsslib",
+    "init_command",
+    "insecure_mode",
+    "krb_service_principal",
+    "krbsrvname",
+    "ocsp_fail_open",
+    "options",
+    "replication",
+    "requiressl",
+    "role",
+    "session_parameters",
+    "sql_mode",
+    "time_zone",
 }
 """
-Query parameters that decide which server or database a client connects to.
+Query parameters that decide which server or database a client connects to, how
+the connection is secured, and what is executed when it is opened.
 """
 
 
 def _is_connection_param(param: str) -> bool:
     """
-    Return True if a query parameter decides where a client connects to, or the
-    credentials it uses.
+    Return True if a query parameter decides where and how a client connects, or
+    the credentials it uses.
     """
 
     param = param.lower()
 
     return (
         param in CONNECTION_PARAMS
-        or param.startswith(("proxy", "ssl"))
+        or param.startswith(("proxy", "ssl", "tls"))
         or _is_secret(param)
     )
 
-- 
2.43.0


From 860515a4be6d3be64e4763f7ea1fe80eaaef1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 32/37] fix: http+csr:// and thrift+hms:// URLs work in
 commands and the gateway

The clients' parse() removes the driver from the scheme, so the URL matched no
settings, and create_client() had no client for it.
---
 recap/clients/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index bd46807..53eeec4 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,13 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+
+        # Clients remove the driver from the scheme (http+csr:// is http://), but
+        # settings and create_client() need it.
+        dialect, plus, _ = scheme.partition("+")
+        if plus and connection_url.startswith(f"{dialect}://"):
+            connection_url = connection_url.replace(dialect, scheme, 1)
+
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From ab44ff9fdcfe535c2e266ca27dfa5e07ba28e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 33/37] fix: don't pass query and fragment of http+csr:// URLs
 on as part of the registry's URL

The SchemaRegistryClient appends paths to its URL, so requests with a query
always failed. It also splits its URL at commas, so a fragment with a comma made
it send the credentials to another host.
---
 recap/clients/confluent_registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 87d8b17..c6a7f04 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -26,6 +26,9 @@ class ConfluentRegistryClient:
         # Filter out kwargs that are not allowed by the SchemaRegistryClient
         url_args = {k: v for k, v in url_args.items() if k in ALLOWED_ATTRS}
 
+        # The SchemaRegistryClient appends paths to its URL
+        url_args["url"] = url_args["url"].split("#")[0].split("?")[0]
+
         with SchemaRegistryClient(url_args) as registry:
             yield ConfluentRegistryClient(registry)
 
-- 
2.43.0


From 8c0383d452321c2cc70bdc771e408c0f8da1c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:12 +0000
Subject: [PATCH 34/37] fix: refuse URLs that go on below a table instead of
 answering for another object

mysql://host/db/table listed the tables of db, whether the table exists
or not, and for MySQL, PostgreSQL, Snowflake and BigQuery anything after
the table was dropped.
---
 recap/clients/bigquery.py | 2 +-
 recap/clients/dbapi.py    | 3 +++
 recap/clients/mysql.py    | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index e8d20c4..d79c306 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -24,7 +24,7 @@ class BigQueryClient:
         project, dataset, table = (paths + [None, None, None])[:3]
 
         match method:
-            case "ls" | "schema":
+            case "ls" | "schema" if len(paths) <= 3:
                 return ("bigquery://", [project, dataset, table])
             case _:
                 raise ValueError("Invalid method")
diff --git a/recap/clients/dbapi.py b/recap/clients/dbapi.py
index 2703d8b..2f9abdd 100644
--- a/recap/clients/dbapi.py
+++ b/recap/clients/dbapi.py
@@ -31,6 +31,9 @@ class DbapiClient(ABC):
         )
 
         match method:
+            case _ if paths:
+                # There's nothing below tables
+                raise ValueError("Invalid method")
             case "ls" if not table:
                 return (connection_url, [catalog, schema])
             case "schema" if catalog and schema and table:
diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..fbf948e 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -51,7 +51,10 @@ class MysqlClient(DbapiClient):
         )
 
         match method:
-            case "ls":
+            case _ if paths:
+                # There's nothing below tables
+                raise ValueError("Invalid method")
+            case "ls" if not table:
                 return (connection_url, [schema])
             case "schema" if schema and table:
                 return (connection_url, [schema, table])
-- 
2.43.0


From 5fbcf4633155d78d27dc2ad747083123ff715695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:43 +0000
Subject: [PATCH 35/37] fix: list a Hive table only if it exists

ls of thrift+hms://host/db/table answered [table] without asking the
metastore.
---
 recap/clients/hive_metastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..a080690 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -55,7 +55,9 @@ class HiveMetastoreClient:
             case (str(database), None):
                 return self.ls_tables(database)
             case (str(database), str(table)):
-                return [table]
+                # Hive's names are case insensitive
+                tables = self.ls_tables(database)
+                return [name for name in tables if name.lower() == table.lower()]
             case _:
                 raise ValueError("Invalid arguments")
 
-- 
2.43.0


From c0e5a55f3fbafbf08e8d5ab24af4bfdaa67ed1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 36/37] fix: don't drop lists and unknown values from unions

---
 recap/types.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 318a430..8dbcd8d 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -409,12 +409,7 @@ def from_dict(
 
     if isinstance(type_name, list):
         # If type is a list, handle as a union
-        union_types = []
-        for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
+        union_types = [from_dict(t, registry) for t in type_name]
         recap_type = UnionType(union_types, **type_dict)
     elif isinstance(type_name, str):
         match type_name:
-- 
2.43.0


From 3f9827057ad5a47cac01751d0fef719a526b10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 37/37] fix: reject fields and types that aren't lists

---
 recap/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 8dbcd8d..aeb613f 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -451,6 +451,8 @@ def from_dict(
                     **type_dict,
                 )
             case "struct":
+                if not isinstance(type_dict.get("fields", []), list):
+                    raise ValueError("'fields' attribute must be a list.")
                 type_dict["fields"] = [
                     from_dict(f, registry) for f in type_dict.get("fields", [])
                 ]
@@ -462,6 +464,8 @@ def from_dict(
             case "union":
                 if "types" not in type_dict:
                     raise ValueError("'types' attribute is required for 'union' type.")
+                if not isinstance(type_dict["types"], list):
+                    raise ValueError("'types' attribute must be a list.")
                 recap_type = UnionType(
                     [from_dict(t, registry) for t in type_dict.pop("types")],
                     **type_dict,
-- 
2.43.0

