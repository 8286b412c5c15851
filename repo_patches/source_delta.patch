From 7b5c2fae4586c679c533dc3bfdc789843b26259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 01/57] fix: do not drop joins when simplifying a union of
 selects

A targeted table that other targets depend on was sampled in full because the
merged select lost the joins that restrict it to the referenced rows.
---
 subsetter/plan_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..6f453fe 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,9 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                # Joins cannot be expressed as part of a where clause
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From e5c5be82ab0b4be8aaf14caa55fbbe89bc2b2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 02/57] fix: wrap limited selects within a union

sqlite cannot parse a parenthesised ORDER BY/LIMIT select as part of a union,
so an 'amount' target other targets depend on failed with a syntax error.
---
 subsetter/plan_model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 6f453fe..b01a95e 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,18 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        # A limited select cannot appear directly within a union for all dialects
+        # (sqlite), therefore it is wrapped in a subquery.
+        return sa.union(
+            *(
+                (
+                    statement.build(context)
+                    if statement.limit is None
+                    else sa.select(statement.build(context).subquery())
+                )
+                for statement in self.statements
+            )
+        )
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From ca96c53e0b46d1eef7eefc90e147b66c91afddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/57] fix: multiply foreign key columns whose name differs
 from the referenced column

Only foreign key columns that had the same name as the multiplied column they
reference were remapped, leaving all others dangling.
---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..8a90fc1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        src_col
+                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From a79fd3fd472976199b418cae07ed95683eafb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 04/57] fix: allow foreign keys to unselected tables when
 planning

With 'include_dependencies: false' planning failed with a KeyError as soon as a
selected table had a foreign key to a table that is not selected.
---
 subsetter/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..6a8c77c 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,7 +182,10 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
-                self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
+                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None:
+                    continue
+                dst_table.rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
                         dst_schema=table.schema,
-- 
2.43.0


From b0e9ac75e36183702dd2e25cee51562f775e6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 05/57] fix: allow omitting primary key columns from database
 output

Omitting a primary key column with the 'omit' filter raised a KeyError.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 8a90fc1..2fb3d3c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From 0ef6ce7f93ef014474050c5266084ff89b228574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/57] fix: only replace sampled columns on conflict for
 sqlite

The sqlite 'replace' conflict strategy updated every column of the table, which
fails for computed columns and resets omitted columns, unlike other dialects.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 2fb3d3c..bb087cc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From 561a44d180005779841bbeeb14801425991c4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 07/57] fix: percent targets on sqlite sampled half of the rows

---
 subsetter/plan_model.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index b01a95e..7f39f9a 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import GenericFunction
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +15,26 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+# pylint: disable=abstract-method,too-many-ancestors
+class RandomUniform(GenericFunction):
+    """Random floating point number uniformly distributed in [0, 1)"""
+
+    type = sa.Float()
+    name = "subsetter_random_uniform"
+    inherit_cache = True
+
+
+@compiles(RandomUniform)
+def _random_uniform(_element, compiler, **kwargs) -> str:
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(RandomUniform, "sqlite")
+def _random_uniform_sqlite(_element, _compiler, **_kwargs) -> str:
+    # sqlite's random() generates a signed 64-bit integer instead
+    return "((random() & 9007199254740991) / 9007199254740992.0)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -190,7 +212,7 @@ class SQLWhereClauseRandom(BaseModel):
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
         # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return RandomUniform() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From e54f0ce8b7f69c17ff92ac9b3614759d51acea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 08/57] fix: apply table constraints to targetted tables

---
 subsetter/planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..f9a3871 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -354,7 +354,7 @@ class Planner:
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
-                    "Table {table} has no column {conf_constraint.column!r} for table constraint",
+                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                 )
 
             conf_constraints_sql.append(
@@ -388,7 +388,7 @@ class Planner:
 
         # If targetted also calculate target constraint statement
         if target:
-            target_constraints: List[SQLWhereClause] = []
+            target_constraints: List[SQLWhereClause] = list(conf_constraints_sql)
             if target.percent is not None:
                 target_constraints.append(
                     SQLWhereClauseRandom(
-- 
2.43.0


From 7b02d941a20edc0369feeaa8328d7fd9ef40d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/57] fix: raise an error if sampled tables do not exist in
 the destination

---
 subsetter/sampler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bb087cc..987a96f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -592,6 +592,14 @@ class DatabaseOutput(SamplerOutput):
         return parse_table_name(table)
 
     def insert_order(self) -> List[str]:
+        missing_tables = [
+            remapped_table
+            for remapped_table in self.table_remap
+            if parse_table_name(remapped_table) not in self.meta.tables
+        ]
+        if missing_tables:
+            raise ValueError(f"Destination is missing tables {missing_tables}")
+
         result = []
         insert_order_mapped = [str(table) for table in self.meta.toposort()]
         for table in insert_order_mapped:
-- 
2.43.0


From a3a9f8197105176452759afd39193b33c4075c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 10/57] fix: always validate compacted columns and do so before
 modifying the destination

---
 subsetter/sampler.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 987a96f..7b8d18a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -742,6 +742,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -751,7 +752,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
@@ -783,12 +783,6 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
         for table_key, table_meta in meta.tables.items():
             if len(table_meta.primary_key) != 1:
                 continue
@@ -799,9 +793,9 @@ class Sampler:
             if not issubclass(col.type.python_type, int):  # type: ignore
                 continue
 
-            if (
-                self.config.compact.primary_keys
-                or table_meta.table_obj.autoincrement_column is not None
+            if self.config.compact.primary_keys or (
+                self.config.compact.auto_increment_keys
+                and table_meta.table_obj.autoincrement_column is not None
             ):
                 compact_columns.setdefault(table_key, set()).add(col.name)
 
-- 
2.43.0


From 9736c036ea474e344409f41e2a4bd6124bf176b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 11/57] fix: allow creating tables with foreign keys to tables
 that are not sampled

---
 subsetter/sampler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7b8d18a..71dfb07 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -539,6 +539,13 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    referred_table = constraint.referred_table
+                    if (
+                        f"{referred_table.schema}.{referred_table.name}"
+                        not in table_obj_map
+                    ):
+                        # The referred table is not being sampled
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 35cb4b16adf282664f155da5fcc6e8ac90952d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/57] fix: allow merging tables with foreign keys to tables
 that are not sampled

---
 subsetter/sampler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 71dfb07..332da87 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,12 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
+                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                     continue
                 offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                 if offset is not None:
-- 
2.43.0


From b95086e3266b0094603ab9269ccee77fd6d1b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 13/57] fix: quote sequence lookups and never move sequences
 backwards

---
 subsetter/sampler.py | 61 +++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 332da87..a26745f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -241,29 +241,23 @@ def _autoincrement_needs_updating(engine) -> bool:
     return engine.dialect.name == "postgresql"
 
 
-def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
+def _autoincrement_sequence(conn, table: sa.Table) -> Optional[str]:
     """
-    Get the current auto-increment state.
+    Get the quoted name of the sequence generating auto-increment values if any.
     """
-    if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
-        return None
-    assert engine.dialect.name == "postgresql"
-
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    assert conn.engine.dialect.name == "postgresql"
+    assert table.autoincrement_column is not None
+    return conn.scalar(
+        sa.text(
+            "SELECT pg_get_serial_sequence("
+            "quote_ident(:schema) || '.' || quote_ident(:tab), :col)"
+        ),
+        {
+            "schema": table.schema,
+            "tab": table.name,
+            "col": table.autoincrement_column.name,
+        },
+    )
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
@@ -277,20 +271,23 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         or value is None
     ):
         return
-    assert engine.dialect.name == "postgresql"
-
-    curval = _autoincrement_get(engine, table)
-    if curval is not None and curval > value:
-        return
 
     with engine.connect() as conn:
+        sequence = _autoincrement_sequence(conn, table)
+        if sequence is None:
+            return
+
+        # Do not let colons in the sequence name be mistaken for bind parameters
+        escaped_sequence = sequence.replace(":", "\\:")
+        last_value, is_called = conn.execute(
+            sa.text(f"SELECT last_value, is_called FROM {escaped_sequence}")
+        ).one()
+        if last_value > value or (is_called and last_value == value):
+            return
+
         conn.execute(
-            sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
-            {
-                "tab": f"{table.schema}.{table.name}",
-                "col": table.autoincrement_column.name,
-                "val": value,
-            },
+            sa.text("SELECT setval(:seq, :val)"),
+            {"seq": sequence, "val": value},
         )
         conn.commit()
 
-- 
2.43.0


From 356607c1b95e4a98d81c260224ac5f356fa029ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 14/57] fix: do not make integer primary keys auto-increment
 unless they were in the source

---
 subsetter/sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a26745f..f2b7eea 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -111,7 +111,12 @@ class TempTableCreator:
             schema=temp_schema,
             prefixes=["TEMPORARY"],
             *(
-                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
+                sa.Column(
+                    col.name,
+                    col.type,
+                    primary_key=col.name in primary_key,
+                    autoincrement=False,
+                )
                 for col in select.selected_columns
             ),
         )
@@ -503,6 +508,7 @@ class DatabaseOutput(SamplerOutput):
                         col.type,
                         nullable=col.nullable,
                         primary_key=col.primary_key,
+                        autoincrement="auto" if col.autoincrement else False,
                     )
                     for col in table_obj.columns
                 ),
-- 
2.43.0


From 1a434f97392304fb467adeb370839ede621618a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 15/57] fix: limit the length of generated index names

---
 subsetter/sampler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f2b7eea..905cad4 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import hashlib
 import json
 import logging
 import os
@@ -38,6 +39,8 @@ LOGGER = logging.getLogger(__name__)
 SOURCE_BUFFER_SIZE = 1024
 DESTINATION_BUFFER_SIZE = 1024
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
+# Postgres limits identifiers to 63 bytes, mysql to 64 characters
+MAX_INDEX_NAME_LENGTH = 63
 
 
 class TempTableCreator:
@@ -556,8 +559,12 @@ class DatabaseOutput(SamplerOutput):
                     )
 
             for index_idx, index in enumerate(table_obj.indexes):
+                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
+                if len(index_name.encode("utf-8")) > MAX_INDEX_NAME_LENGTH:
+                    digest = hashlib.sha256(index_name.encode("utf-8")).hexdigest()
+                    index_name = f"idx_subsetter_{digest[:32]}"
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    index_name,
                     *(
                         (
                             remapped_table_obj.columns[col.name]
-- 
2.43.0


From 5df1b575277f547d7e5f6c34d0708126a182993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 16/57] fix: sampler config is optional and the output
 directory may not exist yet

---
 subsetter/__main__.py | 6 +++---
 subsetter/sampler.py  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..0d7e829 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -6,7 +6,7 @@ from typing import Any
 
 import yaml
 
-from subsetter.config_model import DatabaseOutputConfig, SubsetterConfig
+from subsetter.config_model import DatabaseOutputConfig, SamplerConfig, SubsetterConfig
 from subsetter.plan_model import SubsetPlan
 from subsetter.planner import Planner
 from subsetter.sampler import Sampler
@@ -192,7 +192,7 @@ def _main_sample(args):
         )
         sys.exit(1)
 
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
@@ -208,7 +208,7 @@ def _main_subset(args):
         sys.exit(1)
 
     plan = Planner(config.source, config.planner).plan()
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 905cad4..f6df791 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -371,6 +371,7 @@ class DirectoryOutput(SamplerOutput):
         multiplier: int = 1,
         column_multipliers: Optional[Set[str]] = None,
     ) -> None:
+        os.makedirs(self.directory, exist_ok=True)
         output_path = os.path.join(self.directory, f"{schema}.{table_name}.json")
         columns_out = filter_view.columns_out if filter_view else columns
 
-- 
2.43.0


From 7f2c001eea8b651e265a7a430d8c3b045fe58551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 17/57] fix: honor dialect from the environment when
 configuring engines

---
 subsetter/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..91373dd 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -184,9 +184,14 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if env_prefix is not None:
+            dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
+        dialect = dialect or DEFAULT_DIALECT
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -196,7 +201,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -206,7 +211,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From ca8992b8b04b36d828d82942ab436667336fdc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 18/57] fix: keep session settings after the first transaction
 on postgres

---
 subsetter/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 91373dd..7dd6bc5 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -223,6 +223,9 @@ class DatabaseConfig(BaseModel):
             finally:
                 cursor.close()
 
+            # Session settings may be reverted on rollback otherwise (postgres)
+            dbapi_connection.commit()
+
         return engine
 
 
-- 
2.43.0


From 665e5f4401333e7cae529e9f4854330db0889d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 19/57] fix: support direct SQL queries for materialized and
 compacted tables

---
 subsetter/sampler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f6df791..039da18 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -300,6 +300,17 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.commit()
 
 
+def _query_as_select(query, table: sa.Table):
+    """
+    Direct SQL queries have no column information. If needed, treat them as a select
+    of all of the columns of the sampled table.
+    """
+    if not isinstance(query, sa.TextClause):
+        return query
+    columns = (sa.column(col.name, col.type) for col in table.columns)
+    return sa.select(query.columns(*columns).subquery())
+
+
 def _multiply_column(
     value: Optional[int], multiplier: int, iteration: int
 ) -> Optional[int]:
@@ -889,7 +900,9 @@ class Sampler:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
 
-            table_q = query.build(meta.sql_build_context())
+            table_q = _query_as_select(
+                query.build(meta.sql_build_context()), table.table_obj
+            )
             if (schema, table_name) in self.compact_columns:
                 subq = table_q.subquery()
                 table_q = sa.select(
@@ -993,7 +1006,7 @@ class Sampler:
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
             if remote_compact_cols or compact_cols:
-                subq = query_stmt.subquery()
+                subq = _query_as_select(query_stmt, src_table.table_obj).subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
                     sa.func.row_number(type_=sa.Integer).over(
-- 
2.43.0


From d3d80f7012086c4d68215545e74ee4c8f7b66f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 20/57] fix: join on all foreign key columns when compacting

---
 subsetter/sampler.py | 58 +++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 039da18..b8ed85f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -22,7 +22,7 @@ from subsetter.config_model import (
     SamplerConfig,
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
-from subsetter.metadata import DatabaseMetadata
+from subsetter.metadata import DatabaseMetadata, ForeignKey
 from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
@@ -997,11 +997,7 @@ class Sampler:
                     if dst_col in self.compact_columns.get(
                         (fk.dst_schema, fk.dst_table), set()
                     ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+                        remote_compact_cols[src_col] = fk
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1025,33 +1021,45 @@ class Sampler:
                 cols: List[sa.ColumnElement] = []
                 select_from: sa.FromClause = subq
                 joined_tables = set()
+                joined_fks: Dict[ForeignKey, sa.FromClause] = {}
                 for col in src_table.table_obj.columns:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
-                            col.name
-                        ]
-                        dst_table = build_ctx(
-                            SQLTableIdentifier(
-                                table_schema=dst_schema,
-                                table_name=dst_table_name,
-                                sampled=True,
+                        # Join on all columns of the foreign key to make sure no row
+                        # can match more than once.
+                        fk = remote_compact_cols[col.name]
+                        dst_table = joined_fks.get(fk)
+                        if dst_table is None:
+                            dst_table = build_ctx(
+                                SQLTableIdentifier(
+                                    table_schema=fk.dst_schema,
+                                    table_name=fk.dst_table,
+                                    sampled=True,
+                                )
+                            )
+                            if dst_table in joined_tables:
+                                dst_table = dst_table.alias()
+                            else:
+                                joined_tables.add(dst_table)
+                            joined_fks[fk] = dst_table
+                            select_from = sa.join(
+                                select_from,
+                                dst_table,
+                                sa.and_(
+                                    *(
+                                        subq.columns[src_col]
+                                        == dst_table.columns[dst_col]
+                                        for src_col, dst_col in zip(
+                                            fk.columns, fk.dst_columns
+                                        )
+                                    )
+                                ),
+                                isouter=True,
                             )
-                        )
-                        if dst_table in joined_tables:
-                            dst_table = dst_table.alias()
-                        else:
-                            joined_tables.add(dst_table)
                         cols.append(
                             dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
                         )
-                        select_from = sa.join(
-                            select_from,
-                            dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
-                            isouter=True,
-                        )
                     else:
                         cols.append(subq.columns[col.name])
 
-- 
2.43.0


From 31792eaeace60a7472101d6fca14d3eba095b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 21/57] fix: allow compaction with plans that only select some
 columns

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b8ed85f..d899907 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1023,6 +1023,9 @@ class Sampler:
                 joined_tables = set()
                 joined_fks: Dict[ForeignKey, sa.FromClause] = {}
                 for col in src_table.table_obj.columns:
+                    if col.name not in subq.columns:
+                        # The plan may only select some columns
+                        continue
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-- 
2.43.0


From d06a89430368ebe70c1173f9295c95ded5a986ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 22/57] fix: parenthesize sql conditions combined with other
 conditions

---
 subsetter/plan_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 7f39f9a..e3ab91f 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -230,7 +230,8 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        # Parenthesize to keep precedence when combined with other conditions
+        clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From b426b813efdcdf78b439c7f3fe22957d23089c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 23/57] fix: omit filters must refer to existing columns

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..4e1b03a 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -173,6 +173,7 @@ class FilterOmit(FilterView):
     def __init__(self, columns_in: Iterable[str], columns_act: Iterable[str]) -> None:
         columns_in = tuple(columns_in)
         self.columns_act = tuple(columns_act)
+        _validate_and_index(str(type(self)), columns_in, self.columns_act)
         column_act_set = set(self.columns_act)
         columns_out = tuple(
             column for column in columns_in if column not in column_act_set
-- 
2.43.0


From 44b33fbf7eca4430c4ab073d0e359d247459fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 24/57] fix: targets selecting all rows ignore the amount too

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index f9a3871..fd98068 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -435,7 +435,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From 80f036d03638ad74b4bfd9d3dedd8dfc30cc3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 25/57] fix: avoid temporary table names that only differ by
 case

---
 subsetter/sampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index d899907..e780000 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -60,8 +60,10 @@ class TempTableCreator:
         name = "".join(ch for ch in name if ch.isalnum())[:40]
         if not name:
             name = "anon"
-        cnt = self.name_counts.get(name, 0)
-        self.name_counts[name] = cnt + 1
+        # Table names may be case-insensitive
+        name_key = name.lower()
+        cnt = self.name_counts.get(name_key, 0)
+        self.name_counts[name_key] = cnt + 1
         if cnt:
             return f"{self.NAME_PREFIX}{name}_{cnt}"
         return f"{self.NAME_PREFIX}{name}"
-- 
2.43.0


From b3664b815c2e68d5512274f79112dbc0cafec67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 26/57] fix: alias every table joined for compaction

---
 subsetter/sampler.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e780000..cd3a427 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1022,7 +1022,6 @@ class Sampler:
                 # pre-materialized table.
                 cols: List[sa.ColumnElement] = []
                 select_from: sa.FromClause = subq
-                joined_tables = set()
                 joined_fks: Dict[ForeignKey, sa.FromClause] = {}
                 for col in src_table.table_obj.columns:
                     if col.name not in subq.columns:
@@ -1042,11 +1041,7 @@ class Sampler:
                                     table_name=fk.dst_table,
                                     sampled=True,
                                 )
-                            )
-                            if dst_table in joined_tables:
-                                dst_table = dst_table.alias()
-                            else:
-                                joined_tables.add(dst_table)
+                            ).alias()
                             joined_fks[fk] = dst_table
                             select_from = sa.join(
                                 select_from,
-- 
2.43.0


From f13218449d46660147b329a4851cde0bf263bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 27/57] fix: allow compaction to start at negative keys on
 mysql

---
 subsetter/sampler.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index cd3a427..5a3a3d9 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -313,6 +313,14 @@ def _query_as_select(query, table: sa.Table):
     return sa.select(query.columns(*columns).subquery())
 
 
+def _row_number(order_by: Iterable[sa.ColumnElement]) -> sa.ColumnElement[int]:
+    # The result of row_number() is unsigned for some dialects (mysql)
+    return sa.cast(
+        sa.func.row_number().over(order_by=list(order_by)),
+        sa.BigInteger,
+    )
+
+
 def _multiply_column(
     value: Optional[int], multiplier: int, iteration: int
 ) -> Optional[int]:
@@ -909,10 +917,8 @@ class Sampler:
                 subq = table_q.subquery()
                 table_q = sa.select(
                     (
-                        sa.func.row_number(type_=sa.Integer).over(
-                            order_by=[
-                                subq.c[col.name] for col in table.table_obj.primary_key
-                            ],
+                        _row_number(
+                            subq.c[col.name] for col in table.table_obj.primary_key
                         )
                         + self.config.compact.start_key
                         - 1
@@ -1007,10 +1013,8 @@ class Sampler:
                 subq = _query_as_select(query_stmt, src_table.table_obj).subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
-                    sa.func.row_number(type_=sa.Integer).over(
-                        order_by=[
-                            subq.c[col.name] for col in src_table.table_obj.primary_key
-                        ],
+                    _row_number(
+                        subq.c[col.name] for col in src_table.table_obj.primary_key
                     )
                     + self.config.compact.start_key
                     - 1,
-- 
2.43.0


From 0de93d7870796fea5e9fac9728d2f0fa2ff21aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 28/57] fix: merge primary keys that refer to other primary
 keys consistently

---
 subsetter/sampler.py | 60 +++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5a3a3d9..977bd72 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -456,7 +456,6 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
@@ -482,30 +481,55 @@ class DatabaseOutput(SamplerOutput):
                 )
                 continue
 
+            if any(
+                fk.columns == table.primary_key
+                for fk in self._primary_key_references(source_table)
+            ):
+                # The primary key has to follow the key it refers to
+                continue
+
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
-        for source_table in self.plan.queries:
-            if source_table in self.passthrough_tables:
-                continue
-
-            src_schema, src_table_name = parse_table_name(source_table)
-            src_table = self.source_meta.tables[(src_schema, src_table_name)]
-            for fk in src_table.foreign_keys:
-                if len(fk.columns) != 1:
-                    continue
-                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
-                if dst_table is None or fk.dst_columns != dst_table.primary_key:
+        # Primary keys can refer to other primary keys, repeat until all of the offsets
+        # have been carried over.
+        for _ in self.plan.queries:
+            changed = False
+            for source_table in self.plan.queries:
+                if source_table in self.passthrough_tables:
                     continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
-                if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = (offset + 1)
+
+                offsets = self.table_offsets[
+                    self._remap_table(*parse_table_name(source_table))
+                ]
+                for fk in self._primary_key_references(source_table):
+                    offset = self.table_offsets.get(
+                        self._remap_table(fk.dst_schema, fk.dst_table), {}
+                    ).get(fk.dst_columns[0])
+                    if offset is not None and offsets.get(fk.columns[0]) != offset:
+                        offsets[fk.columns[0]] = offset
+                        changed = True
+            if not changed:
+                break
+
+    def _primary_key_references(self, source_table: str) -> List[ForeignKey]:
+        """
+        Find foreign keys that refer to the single column primary key of another
+        sampled table.
+        """
+        result = []
+        for fk in self.source_meta.tables[parse_table_name(source_table)].foreign_keys:
+            dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+            if (
+                dst_table is not None
+                and len(fk.columns) == 1
+                and fk.dst_columns == dst_table.primary_key
+            ):
+                result.append(fk)
+        return result
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From b14630ae02360a1916151f01c49a1bc8a32e2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 29/57] fix: keep the precision of mysql floating point columns

---
 subsetter/metadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6a8c77c..dc2dc48 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -83,6 +83,13 @@ class DatabaseMetadata:
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
 
+        # Some dialects (mysql) default to reading floats as decimals which loses
+        # precision.
+        for table_obj in metadata_obj.tables.values():
+            for col in table_obj.columns:
+                if isinstance(col.type, sa.Float):
+                    col.type.asdecimal = False
+
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
         for table_id, table_obj in metadata_obj.tables.items():
-- 
2.43.0


From 422fcdc9de3fde2058eaefdac3ea2f9c0fc4baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 30/57] fix: keep parameters of different sql conditions apart

---
 subsetter/plan_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index e3ab91f..11f965e 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -233,7 +233,13 @@ class SQLWhereClauseSQL(BaseModel):
         # Parenthesize to keep precedence when combined with other conditions
         clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
-            clause = clause.bindparams(**self.sql_params)
+            # Other conditions may use the same parameter names
+            clause = clause.bindparams(
+                *(
+                    sa.bindparam(name, value, unique=True)
+                    for name, value in self.sql_params.items()
+                )
+            )
         return clause
 
     def simplify(self) -> "SQLWhereClause":
-- 
2.43.0


From 939e78c8574212fc2d2d1339817f08331f79775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 31/57] fix: apply the certificate verification setting on
 mysql

---
 subsetter/common.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 7dd6bc5..ffdcb2c 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -138,19 +139,15 @@ class DatabaseConfig(BaseModel):
                 return {key: value for key, value in result.items() if value}
 
             if dialect == "mysql":
-                result = {
-                    "ca": server_rootcert,
-                    "key": client_key,
-                    "cert": client_cert,
-                }
-                result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
-                return {"ssl": result}
+                context = ssl.create_default_context(cafile=server_rootcert)
+                # Certificates generated by mysql itself do not pass strict verification
+                context.verify_flags &= ~ssl.VERIFY_X509_STRICT
+                context.check_hostname = server_verify == "identity"
+                if server_verify not in ("cert", "identity"):
+                    context.verify_mode = ssl.CERT_NONE
+                if client_cert:
+                    context.load_cert_chain(client_cert, client_key)
+                return {"ssl": context}
 
             raise ValueError("Dialect does not support ssl")
 
-- 
2.43.0


From 45136087c3445e3d772e652f9ec924eccfa38b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 32/57] fix: create primary keys with their columns in order

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 977bd72..9f6e1f2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -548,6 +548,7 @@ class DatabaseOutput(SamplerOutput):
                 continue
 
             table_obj = source_meta.tables[parse_table_name(table)].table_obj
+            primary_key = [col.name for col in table_obj.primary_key.columns]
             table_obj_map[table] = sa.Table(
                 remap_table,
                 metadata_obj,
@@ -561,6 +562,8 @@ class DatabaseOutput(SamplerOutput):
                     )
                     for col in table_obj.columns
                 ),
+                # Keeps the order of the columns in the primary key
+                *([sa.PrimaryKeyConstraint(*primary_key)] if primary_key else []),
                 schema=remap_schema,
             )
             tables_created.add(table_obj_map[table])
-- 
2.43.0


From d931f038f232da0cb7bb653fe12092ea89108f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 33/57] fix: create check constraints containing colons

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 9f6e1f2..f507fc4 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -586,8 +586,10 @@ class DatabaseOutput(SamplerOutput):
                         sa.UniqueConstraint(*_remap_cols(constraint.columns))
                     )
                 if isinstance(constraint, sa.CheckConstraint):
+                    # Do not let colons be mistaken for bind parameters
+                    sqltext = constraint.sqltext.text.replace(":", "\\:")
                     remapped_table_obj.append_constraint(
-                        sa.CheckConstraint(constraint.sqltext)
+                        sa.CheckConstraint(sa.text(sqltext))
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
                     referred_table = constraint.referred_table
-- 
2.43.0


From 2f47a22080e57c6e1b33096f5f35f7597c7a50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 34/57] fix: create partial indexes on conditions containing
 colons

---
 subsetter/sampler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f507fc4..88ae85a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -313,6 +313,14 @@ def _query_as_select(query, table: sa.Table):
     return sa.select(query.columns(*columns).subquery())
 
 
+def _verbatim_text(sqltext) -> sa.TextClause:
+    """
+    SQL text whose colons are not mistaken for bind parameters.
+    """
+    text = sqltext.text if isinstance(sqltext, sa.TextClause) else sqltext
+    return sa.text(text.replace(":", "\\:"))
+
+
 def _row_number(order_by: Iterable[sa.ColumnElement]) -> sa.ColumnElement[int]:
     # The result of row_number() is unsigned for some dialects (mysql)
     return sa.cast(
@@ -586,10 +594,8 @@ class DatabaseOutput(SamplerOutput):
                         sa.UniqueConstraint(*_remap_cols(constraint.columns))
                     )
                 if isinstance(constraint, sa.CheckConstraint):
-                    # Do not let colons be mistaken for bind parameters
-                    sqltext = constraint.sqltext.text.replace(":", "\\:")
                     remapped_table_obj.append_constraint(
-                        sa.CheckConstraint(sa.text(sqltext))
+                        sa.CheckConstraint(_verbatim_text(constraint.sqltext))
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
                     referred_table = constraint.referred_table
@@ -626,7 +632,10 @@ class DatabaseOutput(SamplerOutput):
                     ),
                     unique=index.unique,
                     dialect_options=index.dialect_options,
-                    **index.dialect_kwargs,
+                    **{
+                        key: _verbatim_text(value) if key.endswith("_where") else value
+                        for key, value in index.dialect_kwargs.items()
+                    },
                 )
 
         if tables_created:
-- 
2.43.0


From bfeb7a526b71c917b44f668db9d3dc05b01f7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 35/57] fix: quote the aliases of attached sqlite databases

---
 subsetter/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index ffdcb2c..a9c6923 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -211,8 +211,9 @@ class DatabaseConfig(BaseModel):
                 if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
+                        escaped_db_alias = db_alias.replace('"', '""')
                         cursor.execute(
-                            f"ATTACH DATABASE '{escaped_db_file}' as {db_alias}"
+                            f"ATTACH DATABASE '{escaped_db_file}' as \"{escaped_db_alias}\""
                         )
 
                 for session_sql in self.session_sqls:
-- 
2.43.0


From 53d9b825633ae7ec1959eec7c369a9d266d5e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 36/57] fix: allow null for attached sqlite databases

---
 subsetter/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index a9c6923..8f48bff 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -209,7 +209,7 @@ class DatabaseConfig(BaseModel):
             cursor = dbapi_connection.cursor()
             try:
                 if dialect == "sqlite":
-                    for db_alias, db_file in self.sqlite_databases.items():
+                    for db_alias, db_file in (self.sqlite_databases or {}).items():
                         escaped_db_file = db_file.replace("'", "''")
                         escaped_db_alias = db_alias.replace('"', '""')
                         cursor.execute(
-- 
2.43.0


From daa76e8e8adfa0c763ae770e0eb72be09a6f1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 37/57] fix: reject plans that do not fit the source before
 modifying the destination

---
 subsetter/sampler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 88ae85a..3e03bfa 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -812,10 +812,17 @@ class Sampler:
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
             )
+        missing_tables = [
+            table for table in plan.queries if parse_table_name(table) not in meta.tables
+        ]
+        if missing_tables:
+            raise ValueError(f"Source is missing tables {missing_tables}")
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
         self.compact_columns = self._get_compact_columns(meta)
+        # Builds all queries, finds plans that do not fit the source
+        materialization_order = self._materialization_order(meta, plan)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -826,7 +833,7 @@ class Sampler:
         output.prepare()
 
         with self.source_engine.execution_options().connect() as conn:
-            self._materialize_tables(meta, conn, plan)
+            self._materialize_tables(meta, conn, plan, materialization_order)
             self._copy_results(
                 output, conn, meta, plan, insert_order, table_column_multipliers
             )
@@ -930,6 +937,7 @@ class Sampler:
         meta: DatabaseMetadata,
         conn: sa.Connection,
         plan: SubsetPlan,
+        materialization_order: List[Tuple[str, str, int]],
     ) -> None:
         # Figure out what sets of columns are going to be queried for our materialized tables.
         joined_columns = collections.defaultdict(set)
@@ -943,7 +951,6 @@ class Sampler:
                 tuple(data.right_columns)
             )
 
-        materialization_order = self._materialization_order(meta, plan)
         for schema, table_name, ref_count in materialization_order:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
-- 
2.43.0


From 436ca712af211f10ad2110f6f45f58eb02650bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 38/57] fix: find missing destination columns before modifying
 the destination

---
 subsetter/sampler.py | 48 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3e03bfa..0155a47 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -351,6 +351,11 @@ class SamplerOutput(abc.ABC):
     ) -> None:
         pass
 
+    def validate_columns(
+        self, schema: str, table_name: str, columns: Iterable[str]
+    ) -> None:
+        """Raise an error if the columns of a table cannot be output"""
+
     def truncate(self) -> None:
         """Delete any existing data that could interfere with output destination"""
 
@@ -664,6 +669,21 @@ class DatabaseOutput(SamplerOutput):
             table = re.sub(remap_pattern.search, remap_pattern.replace, table)
         return parse_table_name(table)
 
+    def validate_columns(
+        self, schema: str, table_name: str, columns: Iterable[str]
+    ) -> None:
+        schema, table_name = self._remap_table(schema, table_name)
+        table = self.meta.tables.get((schema, table_name))
+        if table is None:
+            return
+        missing_columns = {
+            col for col in columns if col not in table.table_obj.columns
+        }
+        if missing_columns:
+            raise ValueError(
+                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
+            )
+
     def insert_order(self) -> List[str]:
         missing_tables = [
             remapped_table
@@ -697,13 +717,7 @@ class DatabaseOutput(SamplerOutput):
         table = self.meta.tables[(schema, table_name)]
 
         columns_out = filter_view.columns_out if filter_view else columns
-        missing_columns = {
-            col for col in columns_out if col not in table.table_obj.columns
-        }
-        if missing_columns:
-            raise ValueError(
-                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
-            )
+        self.validate_columns(src_schema, src_table_name, columns_out)
 
         # Automatically omit any included computed columns
         computed_columns = [
@@ -825,6 +839,7 @@ class Sampler:
         materialization_order = self._materialization_order(meta, plan)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
+        self._validate_output_columns(output, meta, plan)
         if create:
             output.create()
         insert_order = output.insert_order()
@@ -1170,6 +1185,25 @@ class Sampler:
                 filters,
             )
 
+    def _validate_output_columns(
+        self, output: SamplerOutput, meta: DatabaseMetadata, plan: SubsetPlan
+    ) -> None:
+        for table, query in plan.queries.items():
+            schema, table_name = parse_table_name(table)
+            query_stmt = query.build(
+                lambda ident: meta.tables[
+                    (ident.table_schema, ident.table_name)
+                ].table_obj
+            )
+            if isinstance(query_stmt, sa.TextClause):
+                # The columns of direct SQL queries are not known in advance
+                continue
+            filter_view = FilterViewChain.construct_filter(
+                query_stmt.selected_columns.keys(),
+                self.config.filters.get(table, []),
+            )
+            output.validate_columns(schema, table_name, filter_view.columns_out)
+
     def _get_multiplied_columns(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> Dict[str, Set[str]]:
-- 
2.43.0


From bc6b2414233ef2a7ac7e25680a9f88dcf406faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 39/57] fix: reject empty random_int ranges before modifying
 the destination

---
 subsetter/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 4e1b03a..345e85d 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -225,6 +225,8 @@ class FilterRandomInt(FilterColumns):
         rng: Optional[Random] = None,
     ) -> None:
         super().__init__(columns_in, columns_act)
+        if low > high:
+            raise ValueError(f"Empty range for random integers ({low}, {high})")
         self.low = low
         self.high = high
         self.rng = rng or Random()
-- 
2.43.0


From 457f22e445a9800715882496408ad8c2e189b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 40/57] fix: keep echoed statements out of plans written to
 stdout

---
 subsetter/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index 0d7e829..0203249 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -225,6 +225,8 @@ def main():
         format=logging_format,
     )
     logging.getLogger("faker").setLevel(logging.INFO)
+    # Without a handler SQLAlchemy echoes statements to stdout, in between the plan
+    logging.getLogger("sqlalchemy.engine.Engine").addHandler(logging.NullHandler())
 
     with logging_redirect_tqdm():
         try:
-- 
2.43.0


From 742b09b47e8de0cd6aed895d4c735cdf6952d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 41/57] fix: follow foreign keys onto columns that refer to
 compacted columns

---
 subsetter/sampler.py | 55 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0155a47..bd0796b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,5 +1,6 @@
 import abc
 import collections
+import dataclasses
 import functools
 import hashlib
 import json
@@ -905,6 +906,44 @@ class Sampler:
 
         return compact_columns
 
+    def _get_compact_references(
+        self, meta: DatabaseMetadata
+    ) -> Dict[Tuple[str, str], Dict[str, ForeignKey]]:
+        """
+        Find the columns of each table that refer to compacted columns together with the
+        foreign key to the compacted table. References to columns that themselves refer
+        to compacted columns are followed.
+        """
+        result: Dict[Tuple[str, str], Dict[str, ForeignKey]] = {}
+        for table_key, table in meta.tables.items():
+            result[table_key] = {
+                src_col: fk
+                for fk in table.foreign_keys
+                for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+                if dst_col
+                in self.compact_columns.get((fk.dst_schema, fk.dst_table), set())
+            }
+
+        changed = True
+        while changed:
+            changed = False
+            for table_key, table in meta.tables.items():
+                for fk in table.foreign_keys:
+                    dst_references = result.get((fk.dst_schema, fk.dst_table), {})
+                    col_map = dict(zip(fk.dst_columns, fk.columns))
+                    for dst_col, src_col in col_map.items():
+                        dst_fk = dst_references.get(dst_col)
+                        if dst_fk is None or src_col in result[table_key]:
+                            continue
+                        if all(col in col_map for col in dst_fk.columns):
+                            result[table_key][src_col] = dataclasses.replace(
+                                dst_fk,
+                                columns=tuple(col_map[col] for col in dst_fk.columns),
+                            )
+                            changed = True
+
+        return result
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -922,6 +961,7 @@ class Sampler:
                 counter[key] = counter.get(key, 0) + 1
             return meta.tables[key].table_obj
 
+        compact_references = self._get_compact_references(meta)
         dep_graph: Dict[Tuple[str, str], Set[Tuple[str, str]]] = {}
         max_ref_counts: Dict[Tuple[str, str], int] = {}
         for table, query in plan.queries.items():
@@ -931,11 +971,9 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
+            for fk in set(compact_references[parse_table_name(table)].values()):
                 key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+                counter[key] = counter.get(key, 0) + 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -1040,6 +1078,7 @@ class Sampler:
         insert_order: List[str],
         table_column_multipliers: Dict[str, Set[str]],
     ):
+        compact_references = self._get_compact_references(meta)
         for table in tqdm(insert_order, desc="table progress", unit="tables"):
             schema, table_name = parse_table_name(table)
 
@@ -1059,13 +1098,7 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = fk
+            remote_compact_cols = compact_references[(schema, table_name)]
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
-- 
2.43.0


From 7ad38a0653a24481936ea8a9cb2fc344d024f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 42/57] fix: shift all columns that refer to shifted primary
 keys when merging

Only single column foreign keys to single column primary keys were
followed, columns of composite foreign keys or referring to other unique
columns kept their values and referred to nothing or to foreign rows.
---
 subsetter/sampler.py | 45 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bd0796b..5722c30 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -496,8 +496,8 @@ class DatabaseOutput(SamplerOutput):
                 continue
 
             if any(
-                fk.columns == table.primary_key
-                for fk in self._primary_key_references(source_table)
+                src_col == pk_col.name
+                for src_col, _, _ in self._column_references(source_table)
             ):
                 # The primary key has to follow the key it refers to
                 continue
@@ -508,8 +508,8 @@ class DatabaseOutput(SamplerOutput):
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
-        # Primary keys can refer to other primary keys, repeat until all of the offsets
-        # have been carried over.
+        # References can refer to columns that are references themselves, repeat until all
+        # of the offsets have been carried over.
         for _ in self.plan.queries:
             changed = False
             for source_table in self.plan.queries:
@@ -519,31 +519,32 @@ class DatabaseOutput(SamplerOutput):
                 offsets = self.table_offsets[
                     self._remap_table(*parse_table_name(source_table))
                 ]
-                for fk in self._primary_key_references(source_table):
+                for src_col, dst_table, dst_col in self._column_references(
+                    source_table
+                ):
                     offset = self.table_offsets.get(
-                        self._remap_table(fk.dst_schema, fk.dst_table), {}
-                    ).get(fk.dst_columns[0])
-                    if offset is not None and offsets.get(fk.columns[0]) != offset:
-                        offsets[fk.columns[0]] = offset
+                        self._remap_table(*dst_table), {}
+                    ).get(dst_col)
+                    if offset is not None and offsets.get(src_col) != offset:
+                        offsets[src_col] = offset
                         changed = True
             if not changed:
                 break
 
-    def _primary_key_references(self, source_table: str) -> List[ForeignKey]:
+    def _column_references(
+        self, source_table: str
+    ) -> List[Tuple[str, Tuple[str, str], str]]:
         """
-        Find foreign keys that refer to the single column primary key of another
-        sampled table.
+        Find the columns that refer to columns of other sampled tables.
         """
-        result = []
-        for fk in self.source_meta.tables[parse_table_name(source_table)].foreign_keys:
-            dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
-            if (
-                dst_table is not None
-                and len(fk.columns) == 1
-                and fk.dst_columns == dst_table.primary_key
-            ):
-                result.append(fk)
-        return result
+        return [
+            (src_col, (fk.dst_schema, fk.dst_table), dst_col)
+            for fk in self.source_meta.tables[
+                parse_table_name(source_table)
+            ].foreign_keys
+            if (fk.dst_schema, fk.dst_table) in self.source_meta.tables
+            for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+        ]
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From a9fcf5d4e4cb2e992d2d11f6fcd2a7c0353eed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:48 +0000
Subject: [PATCH 43/57] fix: skip only duplicate rows on mysql

INSERT IGNORE also drops rows that violate other constraints and changes
values that do not fit their columns instead of reporting an error.
---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5722c30..7de3471 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -211,7 +211,10 @@ class ConflictInsert(Executable, ClauseElement):
                 {col: stmt.inserted[col] for col in self.non_pk_columns}
             )
         if self.conflict_strategy == "skip":
-            stmt = stmt.prefix_with("IGNORE")
+            # Insert ignore would also ignore all other errors, so instead turn duplicates
+            # into updates that don't change the row.
+            pk_col = next(iter(self.table.primary_key))
+            stmt = stmt.on_duplicate_key_update({pk_col.name: pk_col})
         return compiler.process(stmt, **kwargs)
 
     def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
-- 
2.43.0


From ab30d2be21310ff989d6b686e896af248bb7e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 44/57] fix: keep NULL in JSON columns

---
 subsetter/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7de3471..ef97ecd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -721,6 +721,12 @@ class DatabaseOutput(SamplerOutput):
         schema, table_name = self._remap_table(src_schema, src_table_name)
         table = self.meta.tables[(schema, table_name)]
 
+        # NULL reads as None from JSON columns but would be written as the JSON
+        # value null by default. Keep this only where NULL would not be allowed.
+        for col in table.table_obj.columns:
+            if isinstance(col.type, sa.JSON) and col.nullable:
+                col.type.none_as_null = True
+
         columns_out = filter_view.columns_out if filter_view else columns
         self.validate_columns(src_schema, src_table_name, columns_out)
 
-- 
2.43.0


From 89042e1094875b74e2cb358cfe4cee99d5eb2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 45/57] fix: find references to tables on the postgres search
 path

---
 subsetter/metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index dc2dc48..7f4a7f3 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -78,10 +78,13 @@ class DatabaseMetadata:
         close_backward=False,
     ) -> Tuple["DatabaseMetadata", List[Tuple[str, str]]]:
 
-        inspector = sa.inspect(engine)
         metadata_obj = sa.MetaData()
-        for schema in inspector.get_schema_names():
-            metadata_obj.reflect(bind=engine, schema=schema)
+        with engine.connect() as conn:
+            if engine.dialect.name == "postgresql":
+                # The schema of tables on the search path is not reported otherwise
+                conn.execute(sa.text("SET LOCAL search_path TO ''"))
+            for schema in sa.inspect(conn).get_schema_names():
+                metadata_obj.reflect(bind=conn, schema=schema)
 
         # Some dialects (mysql) default to reading floats as decimals which loses
         # precision.
-- 
2.43.0


From 310de277434cec27db760b4a20d3a7b8667d6b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 46/57] fix: reject negative amounts, limits and lengths before
 modifying the destination

---
 subsetter/config_model.py | 2 +-
 subsetter/filters.py      | 2 +-
 subsetter/plan_model.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subsetter/config_model.py b/subsetter/config_model.py
index 90a79fa..3d5701c 100644
--- a/subsetter/config_model.py
+++ b/subsetter/config_model.py
@@ -15,7 +15,7 @@ class PlannerConfig(ForbidBaseModel):
     class TargetConfig(ForbidBaseModel):
         all_: bool = Field(False, alias="all")
         percent: Optional[float] = None
-        amount: Optional[int] = None
+        amount: Optional[int] = Field(None, ge=0)
         like: Dict[str, List[str]] = {}
         in_: Dict[str, List[SQLLiteralType]] = Field({}, alias="in")
         sql: Optional[str] = None
diff --git a/subsetter/filters.py b/subsetter/filters.py
index 345e85d..80f0b23 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -294,7 +294,7 @@ class FilterRandomString(FilterColumns):
     class Config(SingleFilterConfig):
         op: Literal["random_string"]
         columns: List[str]
-        length: int
+        length: int = Field(ge=0)
         alphabet: _ALPHABET_TYPES = "alnum"
         custom_alphabet: Optional[str] = None
 
diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 11f965e..1bdc351 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -273,7 +273,7 @@ class SQLStatementSelect(BaseModel):
     columns: Optional[List[str]] = None
     from_: SQLTableIdentifier = Field(..., alias="from")
     where: Optional[SQLWhereClause] = None
-    limit: Optional[int] = None
+    limit: Optional[int] = Field(None, ge=0)
     joins: Optional[List[SQLLeftJoin]] = None
     joins_outer: bool = False
 
-- 
2.43.0


From 7767760584eec2b353c19e2176d198ffce7947b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:10 +0000
Subject: [PATCH 47/57] fix: support key columns whose type has no python
 equivalent

---
 subsetter/sampler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ef97ecd..5338f67 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -325,6 +325,14 @@ def _verbatim_text(sqltext) -> sa.TextClause:
     return sa.text(text.replace(":", "\\:"))
 
 
+def _is_integral(col: sa.Column) -> bool:
+    try:
+        return issubclass(col.type.python_type, int)  # type: ignore
+    except NotImplementedError:
+        # Not all types (e.g. INET, BIT or YEAR) have a corresponding python type
+        return False
+
+
 def _row_number(order_by: Iterable[sa.ColumnElement]) -> sa.ColumnElement[int]:
     # The result of row_number() is unsigned for some dialects (mysql)
     return sa.cast(
@@ -490,7 +498,7 @@ class DatabaseOutput(SamplerOutput):
                 continue
 
             pk_col = table.table_obj.columns[table.primary_key[0]]
-            if not issubclass(pk_col.type.python_type, int):  # type: ignore
+            if not _is_integral(pk_col):
                 LOGGER.warning(
                     "Cannot merge non-integer primary key for table %s.%s, ignoring",
                     schema,
@@ -896,7 +904,7 @@ class Sampler:
                 continue
 
             col = table_meta.table_obj.columns[table_meta.primary_key[0]]
-            if not issubclass(col.type.python_type, int):  # type: ignore
+            if not _is_integral(col):
                 continue
 
             if self.config.compact.primary_keys or (
@@ -1323,7 +1331,7 @@ class Sampler:
             # Verify multiplied columns are integer
             for col_name in result.get(table_name, set()):
                 col = col_map[col_name]
-                if not issubclass(col.type.python_type, int):  # type: ignore
+                if not _is_integral(col):
                     raise ValueError(
                         f"Primary key column {table_name}.{col_name} "
                         "must be integral when using multiplicity"
-- 
2.43.0


From c51efa6538321f38f1b9eaef8a1f6561e03ae1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 48/57] fix: do not create non-integral primary keys as
 auto-increment columns

---
 subsetter/sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5338f67..1a0c70a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -584,7 +584,13 @@ class DatabaseOutput(SamplerOutput):
                         col.type,
                         nullable=col.nullable,
                         primary_key=col.primary_key,
-                        autoincrement="auto" if col.autoincrement else False,
+                        # Non-integral keys are reported as "auto" by some dialects
+                        autoincrement=(
+                            "auto"
+                            if col.autoincrement is True
+                            or (col.autoincrement and _is_integral(col))
+                            else False
+                        ),
                     )
                     for col in table_obj.columns
                 ),
-- 
2.43.0


From f6ac7d2901b2c546aacb45d4a2ea75ae15694d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 49/57] fix: do not renumber boolean primary keys

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1a0c70a..3bb553d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -327,7 +327,9 @@ def _verbatim_text(sqltext) -> sa.TextClause:
 
 def _is_integral(col: sa.Column) -> bool:
     try:
-        return issubclass(col.type.python_type, int)  # type: ignore
+        python_type = col.type.python_type
+        # Boolean keys cannot be renumbered
+        return issubclass(python_type, int) and not issubclass(python_type, bool)
     except NotImplementedError:
         # Not all types (e.g. INET, BIT or YEAR) have a corresponding python type
         return False
-- 
2.43.0


From ac327654802cccaffd60a1a14185604c9f1002b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 50/57] fix: support sqlite columns without a type

---
 subsetter/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3bb553d..b3e9338 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -246,6 +246,12 @@ compiles(ConflictInsert, "mysql")(ConflictInsert._insert_mysql)
 compiles(ConflictInsert)(ConflictInsert._insert_generic)
 
 
+@compiles(sa.types.NullType, "sqlite")
+def _compile_untyped_sqlite(_type, _compiler, **_kwargs) -> str:
+    # Columns do not need a type in sqlite
+    return ""
+
+
 def _autoincrement_needs_updating(engine) -> bool:
     """
     Returns True if the engine doesn't automatically update auto-increment values
-- 
2.43.0


From 7b777aa49c927e6647978db2a2139743d35cac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 51/57] fix: keep NULL in JSON columns of created tables

---
 subsetter/metadata.py | 5 +++++
 subsetter/sampler.py  | 6 ------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 7f4a7f3..61c4204 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -92,6 +92,11 @@ class DatabaseMetadata:
             for col in table_obj.columns:
                 if isinstance(col.type, sa.Float):
                     col.type.asdecimal = False
+                # NULL reads as None from JSON columns but would be written as the
+                # JSON value null by default. Keep this only where NULL would not be
+                # allowed.
+                if isinstance(col.type, sa.JSON) and col.nullable:
+                    col.type.none_as_null = True
 
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b3e9338..df260ae 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -743,12 +743,6 @@ class DatabaseOutput(SamplerOutput):
         schema, table_name = self._remap_table(src_schema, src_table_name)
         table = self.meta.tables[(schema, table_name)]
 
-        # NULL reads as None from JSON columns but would be written as the JSON
-        # value null by default. Keep this only where NULL would not be allowed.
-        for col in table.table_obj.columns:
-            if isinstance(col.type, sa.JSON) and col.nullable:
-                col.type.none_as_null = True
-
         columns_out = filter_view.columns_out if filter_view else columns
         self.validate_columns(src_schema, src_table_name, columns_out)
 
-- 
2.43.0


From 39efd425778a9cd58a7c66588b8fecc02c8b04ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 52/57] fix: copy MySQL TIME values that are not a time of day

---
 subsetter/metadata.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 61c4204..8b61dd3 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -1,10 +1,12 @@
 import collections
 import dataclasses
+import datetime
 import logging
 from fnmatch import fnmatch
 from typing import Dict, List, Optional, Set, Tuple
 
 import sqlalchemy as sa
+from sqlalchemy.dialects import mysql
 
 from subsetter.common import parse_table_name
 from subsetter.plan_model import SQLTableIdentifier
@@ -16,6 +18,30 @@ LOGGER = logging.getLogger(__name__)
 # pylint: disable=modified-iterating-list
 
 
+class MySQLTime(mysql.TIME):
+    """
+    MySQL TIME values that are not a time of day (e.g. -01:30:00 or 100:00:00) are
+    represented as text as there is no python time for them.
+    """
+
+    cache_ok = True
+
+    def result_processor(self, dialect, coltype):
+        to_time = super().result_processor(dialect, coltype)
+
+        def _process(value: Optional[datetime.timedelta]):
+            if value is None or value.days == 0:
+                return to_time(value)
+            total = abs(value) // datetime.timedelta(microseconds=1)
+            seconds, microseconds = divmod(total, 1000000)
+            return (
+                f"{'-' if value.days < 0 else ''}{seconds // 3600:02d}:"
+                f"{seconds // 60 % 60:02d}:{seconds % 60:02d}.{microseconds:06d}"
+            )
+
+        return _process
+
+
 @dataclasses.dataclass(frozen=True, order=True)
 class ForeignKey:
     columns: Tuple[str, ...]
@@ -92,10 +118,12 @@ class DatabaseMetadata:
             for col in table_obj.columns:
                 if isinstance(col.type, sa.Float):
                     col.type.asdecimal = False
+                if isinstance(col.type, mysql.TIME):
+                    col.type = col.type.adapt(MySQLTime)
                 # NULL reads as None from JSON columns but would be written as the
                 # JSON value null by default. Keep this only where NULL would not be
                 # allowed.
-                if isinstance(col.type, sa.JSON) and col.nullable:
+                elif isinstance(col.type, sa.JSON) and col.nullable:
                     col.type.none_as_null = True
 
         table_set: Set[Tuple[str, str]] = set()
-- 
2.43.0


From af6a0976ee5c0f9a966604c0490bec8bf1ef82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 53/57] fix: read MySQL FLOAT columns with full precision

---
 subsetter/metadata.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 8b61dd3..e5afb93 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -42,6 +42,17 @@ class MySQLTime(mysql.TIME):
         return _process
 
 
+class MySQLFloat(mysql.FLOAT):
+    """
+    MySQL rounds FLOAT values to six digits when they are read. Reads them as DOUBLE.
+    """
+
+    cache_ok = True
+
+    def column_expression(self, column):
+        return column + sa.literal_column("0e0", sa.Double())
+
+
 @dataclasses.dataclass(frozen=True, order=True)
 class ForeignKey:
     columns: Tuple[str, ...]
@@ -118,7 +129,9 @@ class DatabaseMetadata:
             for col in table_obj.columns:
                 if isinstance(col.type, sa.Float):
                     col.type.asdecimal = False
-                if isinstance(col.type, mysql.TIME):
+                if isinstance(col.type, mysql.FLOAT):
+                    col.type = col.type.adapt(MySQLFloat)
+                elif isinstance(col.type, mysql.TIME):
                     col.type = col.type.adapt(MySQLTime)
                 # NULL reads as None from JSON columns but would be written as the
                 # JSON value null by default. Keep this only where NULL would not be
-- 
2.43.0


From 7c42089b5058b545739e6c9aad070415cb56e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:36 +0000
Subject: [PATCH 54/57] fix: copy postgres values that have no exact python
 equivalent

---
 subsetter/common.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 8f48bff..e49771c 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
@@ -206,6 +207,9 @@ class DatabaseConfig(BaseModel):
 
         @sa.event.listens_for(engine, "connect")
         def _set_session_sqls(dbapi_connection, _):
+            if dialect == "postgres":
+                _keep_inexact_values_as_text(dbapi_connection)
+
             cursor = dbapi_connection.cursor()
             try:
                 if dialect == "sqlite":
@@ -227,6 +231,36 @@ class DatabaseConfig(BaseModel):
         return engine
 
 
+def _keep_inexact_values_as_text(dbapi_connection) -> None:
+    """
+    Read postgres values that have no exact python equivalent (e.g. infinite dates or
+    intervals that contain months) as text.
+    """
+    # Only installed if postgres is used
+    from psycopg2 import extensions  # pylint: disable=import-outside-toplevel
+
+    date_pattern = re.compile(r"infinity|BC$|^\d{5}")
+
+    for oid, array_oid, name, to_python, inexact_pattern in (
+        (1082, 1182, "DATE", extensions.PYDATE, date_pattern),
+        (1083, 1183, "TIME", extensions.PYTIME, re.compile(r"^24:")),
+        (1114, 1115, "TIMESTAMP", extensions.PYDATETIME, date_pattern),
+        (1184, 1185, "TIMESTAMPTZ", extensions.PYDATETIMETZ, date_pattern),
+        (1186, 1187, "INTERVAL", extensions.PYINTERVAL, re.compile(r"mon|year")),
+        (1700, 1231, "NUMERIC", extensions.DECIMAL, re.compile(r"Infinity")),
+    ):
+
+        def _cast(value, cursor, to_python=to_python, inexact_pattern=inexact_pattern):
+            if value is not None and inexact_pattern.search(value):
+                return value
+            return to_python(value, cursor)
+
+        scalar_type = extensions.new_type((oid,), name, _cast)
+        array_type = extensions.new_array_type((array_oid,), f"{name}ARRAY", scalar_type)
+        extensions.register_type(scalar_type, dbapi_connection)
+        extensions.register_type(array_type, dbapi_connection)
+
+
 def pydantic_search(root: Any) -> Iterable[BaseModel]:
     """
     A generator that yields all sub-models found underneath the passed root object (including the
-- 
2.43.0


From 4cc16ce234e2da50b62c9351da7ecc01e7a00178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 55/57] fix: create referenced tables first so that a failed
 creation can be repeated

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index df260ae..1abd472 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -643,7 +643,8 @@ class DatabaseOutput(SamplerOutput):
                             _remap_cols(constraint.columns),
                             fk_cols,
                             name=constraint.name,
-                            use_alter=True,
+                            # Other tables are created after the tables they refer to
+                            use_alter=referred_table is table_obj,
                         )
                     )
 
-- 
2.43.0


From c6cb7dc995beece5040d8ec1a6f43af0c6312060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:33 +0000
Subject: [PATCH 56/57] fix: refuse foreign key cycles before creating tables

---
 subsetter/sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1abd472..50612d6 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -672,10 +672,13 @@ class DatabaseOutput(SamplerOutput):
                 )
 
         if tables_created:
-            LOGGER.info("Creating %d tables in destination", len(tables_created))
-            metadata_obj.create_all(bind=self.engine)
             for remapped_table_obj in tables_created:
                 self.meta.track_new_table(remapped_table_obj)
+            # Find foreign key cycles before anything is created
+            self.insert_order()
+
+            LOGGER.info("Creating %d tables in destination", len(tables_created))
+            metadata_obj.create_all(bind=self.engine)
 
     def truncate(self) -> None:
         for schema, table_name in self.additional_tables:
-- 
2.43.0


From b82e1ddc3f73cc8cfe85bdff18a15205733df2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:34 +0000
Subject: [PATCH 57/57] fix: compact self-referencing tables on MySQL

The rows of a compacted table were read from its first temporary table
while the join that finds the new key of the row it refers to read the
same one, which MySQL refuses (1137, Can't reopen table).
---
 subsetter/sampler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 50612d6..20da14e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1004,6 +1004,9 @@ class Sampler:
             for fk in set(compact_references[parse_table_name(table)].values()):
                 key = (fk.dst_schema, fk.dst_table)
                 counter[key] = counter.get(key, 0) + 1
+            # A table that refers to itself is additionally read when it is joined.
+            if parse_table_name(table) in counter:
+                counter[parse_table_name(table)] += 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -1120,7 +1123,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
-- 
2.43.0

