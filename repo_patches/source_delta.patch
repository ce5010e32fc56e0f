From 0423fb4198b687ded2854a442839a3918a6a686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 01/18] fix: enforce foreign keys on every connection

SQLite leaves foreign key enforcement off for new connections. It was
only enabled while creating the schema of a new in-memory node, so spaces
that are loaded, cached to drive or bound to a file never cascaded deletes
(leaving orphaned weights, mappings and quantities) nor rejected references
to missing records.
---
 src/toron/dal1/schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..e321340 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,7 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        cur.execute('PRAGMA foreign_keys=ON')  # <- Off by default in SQLite.
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From 0be3599dd6dc02a7fe62cda5ca35b1824450b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 02/18] fix: quote column names when updating index and
 location records

Labels that are keywords or contain spaces or punctuation made
update_index() fail with a SQL error.
---
 src/toron/dal1/repositories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..621e11a 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,8 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        col_names = (row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row) for row in col_names)
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +227,8 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        col_names = (row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row) for row in col_names)
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 5fca25330ebb14b0a26e54f2cb7a5248c4a2f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 03/18] fix: select unmatched quantities without a header

With header=False the attribute columns were never looked up, so selecting
any row raised UnboundLocalError.
---
 src/toron/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..9fd60a4 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2630,9 +2630,9 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            attr_cols = attribute_repo.get_all_attribute_names()
             if header:
                 label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2709,9 +2709,9 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            attr_cols = attribute_repo.get_all_attribute_names()
             if header:
                 label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 9c7aae8e718640dfa70a0920be11ea31052f316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 04/18] fix: reify mappings in one transaction

An error half-way through reify_mappings() left some mappings reified.
---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 9fd60a4..1bc0a34 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2242,7 +2242,9 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
-- 
2.43.0


From d4e445246702e44c80aee910dc4d32ae60500b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 05/18] fix: delete unmatched quantities in one transaction

An error half-way through delete_unmatched_quantities() left some of the
quantities, or orphaned attribute groups, behind.
---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 1bc0a34..fe0a41a 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2732,7 +2732,9 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
+
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 84e6d99856f2fd5c42b805a889898c08a568db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 06/18] fix: update partition definitions, structure and
 display order when label columns are renamed or dropped

---
 src/toron/dal1/label_manager.py | 27 +++++++++++++++------
 src/toron/data_service.py       | 42 +++++++++++++++++++++++++++++++++
 src/toron/space.py              | 25 +++++++++++++++++++-
 3 files changed, 86 insertions(+), 8 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..87d9da1 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_label_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -210,6 +211,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_label_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
@@ -234,8 +236,12 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
         msg = f"expected DataSpace with 'DAL1' backend, got {node._dal.backend!r}"
         raise TypeError(msg)
 
-    with node._managed_cursor() as cursor:
+    from toron.data_service import rebuild_structure_table
+    from toron.data_service import refresh_references_to_labels
+
+    with node._managed_cursor(n=2) as (cursor, aux_cursor):
         manager = LabelManager(cursor)
+        property_repo = node._dal.PropertyRepository(cursor)
 
         if cursor.connection.in_transaction:
             msg = 'cannot delete columns inside an existing transaction'
@@ -310,17 +316,24 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                     {', '.join(schema.column_def_structure(x) for x in columns_to_keep)}
                 )
             """)
-            cursor.execute(f"""
-                INSERT INTO main.new_structure
-                SELECT _structure_id, _granularity, {', '.join(formatted_columns_to_keep)}
-                FROM main.label_structure
-            """)
             cursor.execute('DROP TABLE main.label_structure')
             cursor.execute('ALTER TABLE main.new_structure RENAME TO label_structure')
 
-            # Check integrity, re-create constraints, and commit transaction.
+            # Check integrity and re-create constraints.
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
+
+            # Remove dropped labels from properties, regenerate structure
+            # records (left empty, above), and commit transaction.
+            refresh_references_to_labels(manager, property_repo)
+            rebuild_structure_table(
+                label_manager=manager,
+                property_repo=property_repo,
+                structure_repo=node._dal.StructureRepository(cursor),
+                index_repo=node._dal.IndexRepository(cursor),
+                aux_index_repo=node._dal.IndexRepository(aux_cursor),
+                optimizations=node._dal.optimizations,
+            )
             cursor.execute('COMMIT TRANSACTION')
 
         except Exception as err:
diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..2b441d0 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -710,6 +710,48 @@ def rename_partition_definitions(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def rename_label_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Rename labels in the saved display order (if there is one)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    property_repo.update(
+        'label_display_order', [mapping.get(x, x) for x in display_order]
+    )
+
+
+def refresh_references_to_labels(
+    label_manager: BaseLabelManager,
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Remove labels that no longer exist from partition definitions
+    and from the saved display order.
+    """
+    columns = label_manager.get_columns()
+
+    existing_definitions = get_all_partition_definitions(property_repo)
+    definition_sets = find_minimal_partition_generating_set(
+        [pdef.intersection(columns) for pdef in existing_definitions],
+        [set(columns)],
+    )
+    definition_lists: JsonTypes = [list(pdef) for pdef in definition_sets]
+    property_repo.add_or_update('partition_definitions', definition_lists)
+
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    property_repo.update(
+        'label_display_order', [x for x in display_order if x in columns]
+    )
+
+
 def calculate_granularity(
     columns: List[str],
     index_repo: BaseIndexRepository,
diff --git a/src/toron/space.py b/src/toron/space.py
index fe0a41a..baa5c61 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,8 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    rename_label_display_order,
+    refresh_references_to_labels,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -444,6 +446,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_label_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,10 +552,15 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_label_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             label_manager = self._dal.LabelManager(cursor)
+            property_repo = self._dal.PropertyRepository(cursor)
+            structure_repo = self._dal.StructureRepository(cursor)
 
             all_reserved_identifiers = \
                 self._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
@@ -570,8 +578,23 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Structure sets can become equal without the dropped columns,
+            # remove existing structure before dropping (it's rebuilt below).
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             label_manager.drop_columns(column, *columns)
 
+            refresh_references_to_labels(label_manager, property_repo)
+            rebuild_structure_table(
+                label_manager=label_manager,
+                property_repo=property_repo,
+                structure_repo=structure_repo,
+                index_repo=self._dal.IndexRepository(cursor),
+                aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                optimizations=self._dal.optimizations,
+            )
+
     def insert_index(
         self,
         data: Union[Iterable[Sequence], Iterable[Dict]],
-- 
2.43.0


From 86f61ffda64b06155bec937c7ff8e182a62be15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 07/18] fix: keep index id sequence when label_index is rebuilt
 (ids of deleted records are not reused)

---
 src/toron/dal1/label_manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 87d9da1..72958b9 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -111,6 +111,17 @@ class LabelManager(BaseLabelManager):
         schema.create_schema_constraints(self._cursor)
 
 
+def _keep_index_id_sequence(cursor: sqlite3.Cursor) -> None:
+    """Carry over the AUTOINCREMENT sequence from 'label_index' to
+    'new_label_index' (so ids of deleted records are not reused).
+    """
+    cursor.execute("""
+        UPDATE main.sqlite_sequence
+        SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+        WHERE name='new_label_index'
+    """)
+
+
 def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
     """Rename label columns (for legacy SQLite versions).
 
@@ -175,6 +186,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            _keep_index_id_sequence(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
@@ -290,6 +302,7 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            _keep_index_id_sequence(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
-- 
2.43.0


From c0da8ba25fb1ad40a392fae853c49ce558b82128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 08/18] fix: update_index no longer merges a record into itself
 when its labels are unchanged

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index baa5c61..96a2eac 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -961,7 +961,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From faafdc604d0bc28c05caed810ed80d7c5139a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 09/18] fix: refresh granularity when insert_index replaces
 labels

---
 src/toron/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 96a2eac..6739cc4 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,14 +759,15 @@ class DataSpace(object):
                         )
                         counter['weight_inserted'] += 1
 
-            if counter['label_inserted']:
-                prop_repo = self._dal.PropertyRepository(cursor)
+            prop_repo = self._dal.PropertyRepository(cursor)
 
+            if counter['label_inserted']:
                 refresh_index_hash_property(
                     index_repo=index_repo,
                     prop_repo=prop_repo,
                 )
 
+            if counter['label_inserted'] or counter['label_replaced']:
                 refresh_or_rebuild_structure_granularity(
                     label_manager=self._dal.LabelManager(cursor),
                     property_repo=prop_repo,
@@ -776,6 +777,7 @@ class DataSpace(object):
                     optimizations=self._dal.optimizations,
                 )
 
+            if counter['label_inserted']:
                 # Existing links will not include newly inserted indexes.
                 link_repo = self._dal.LinkRepository(cursor)
                 for link in link_repo.get_all():
-- 
2.43.0


From 6b0f2099c2d9bd5d8ec73649dbb642515c9190eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 10/18] fix: report the offending policy name for a bad
 on_label_conflict

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 6739cc4..634b7ca 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -704,7 +704,7 @@ class DataSpace(object):
                         else:
                             raise ValueError(
                                 f"on_label_conflict must be 'abort', 'ignore', or "
-                                f"'replace'; got {on_weight_conflict!r}"
+                                f"'replace'; got {on_label_conflict!r}"
                             )
                 else:
                     try:
-- 
2.43.0


From 6d0410d1db0c184a8b7788cfa2b55d7d03ef22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:29 +0000
Subject: [PATCH 11/18] fix: roll back label and schema rebuilds when they are
 interrupted

---
 src/toron/dal1/label_manager.py | 4 ++--
 src/toron/dal1/migrations.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 72958b9..5c335ba 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -227,7 +227,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
+        except BaseException:  # Also roll back if interrupted.
             cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
@@ -349,7 +349,7 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             )
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
+        except BaseException:  # Also roll back if interrupted.
             cursor.execute('ROLLBACK TRANSACTION')
             raise  # Re-raise exception.
 
diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index f844da6..62a8d66 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -282,7 +282,7 @@ def apply_migrations(
         schema.create_schema_constraints(cursor)
         cursor.execute('COMMIT TRANSACTION')
 
-    except Exception as err:
+    except BaseException:  # Also roll back if interrupted.
         cursor.execute('ROLLBACK TRANSACTION')
         raise  # Re-raise exception.
 
-- 
2.43.0


From b4de6f0a5a654d3ce009c714a9acd63944379b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 12/18] fix: refuse files with an unsupported schema version

---
 src/toron/dal1/migrations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index 62a8d66..b57bcce 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -243,6 +243,11 @@ def apply_migrations(
     if toron_schema_version == '0.3.1' or toron_schema_version == '"0.3.1"':
         return  # <- EXIT!
 
+    if toron_schema_version not in {'0.2.0', '"0.2.0"', '0.3.0', '"0.3.0"'}:
+        raise RuntimeError(
+            f'unsupported schema version: {toron_schema_version!r}'
+        )
+
     if mode == 'ro':
         raise Exception(
             'Node schema version is out of date, unable to update when file '
-- 
2.43.0


From 60511aba5c50b9cc4740679d1f9ee83df2dbf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:21 +0000
Subject: [PATCH 13/18] fix: drop_weight_group() when no default weight group
 is set

Removing a weight group raised KeyError (and left the group in place)
when no default weight group was registered, e.g. when removing the
remaining groups after the default one.
---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 634b7ca..326ad53 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1234,7 +1234,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_id = None  # No default weight group is set.
+
+            if group.id == default_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From 42d35a06098e1c3582e98c536834acb0cb4cf9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 14/18] fix: remove the temporary file when saving is
 interrupted

---
 src/toron/dal1/data_connector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..54b5d8b 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -458,8 +458,11 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:  # Also clean up if interrupted.
+            try:
+                os.unlink(tmp_path)  # Remove temporary file.
+            except FileNotFoundError:
+                pass  # Already moved to its final location.
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From 42bdefb242a5784765c07111d8ba228909072f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:49 +0000
Subject: [PATCH 15/18] fix: NodeReader: release its temporary data when the
 reader goes away

The finalizer was a bound method of the reader itself, which kept the
reader (and its database) alive until the interpreter exits.
---
 src/toron/reader.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..2c15866 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -138,7 +138,11 @@ class NodeReader(object):
         self._attr_keys = sorted(attr_keys)
 
         # Assign `close()` method (gets a callable finalizer object).
-        self.close = weakref.finalize(self, self._finalizer)
+        # The callback must not hold a reference to `self` (an object
+        # that's referenced by its own finalizer is never released).
+        self.close = weakref.finalize(
+            self, self._finalizer, weakref.ref(self), connection, filepath
+        )
 
     @staticmethod
     def _get_attr_data_id_add_if_missing(
@@ -157,17 +161,23 @@ class NodeReader(object):
         cur.execute(sql, parameters)
         return cast(int, cur.lastrowid)  # Cast because we know it exists (just inserted).
 
-    def _finalizer(self) -> None:
+    @staticmethod
+    def _finalizer(
+        reader_ref: 'weakref.ref[NodeReader]',
+        connection: Optional[sqlite3.Connection],
+        filepath: Optional[str],
+    ) -> None:
         """Close `_data` generator and remove temporary database file."""
-        if self._data:
-            self._data.close()
+        reader = reader_ref()
+        if reader is not None and reader._data:
+            reader._data.close()
 
-        if self._in_memory_connection:
-            self._in_memory_connection.close()
+        if connection:
+            connection.close()
 
-        if self._current_working_path:
+        if filepath:
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(filepath)
 
     @property
     def index_columns(self) -> List[str]:
-- 
2.43.0


From 2a9866edf4e87d4352be4459f360a4a17e2fd50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:31 +0000
Subject: [PATCH 16/18] fix: NodeReader: leave no temporary file behind when
 loading fails

---
 src/toron/reader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 2c15866..65872d8 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -91,6 +91,16 @@ class NodeReader(object):
             connection = sqlite3.connect(':memory:')
             connection_cm = nullcontext(connection)
 
+        # Assign `close()` method (gets a callable finalizer object).
+        # The callback must not hold a reference to `self` (an object
+        # that's referenced by its own finalizer is never released). And
+        # it's assigned before loading so that nothing is left behind if
+        # the given data raises an error.
+        self.close = weakref.finalize(
+            self, self._finalizer, weakref.ref(self), connection, filepath
+        )
+        self._data = None  # <- Assigned only when iteration begins.
+
         # Create tables, insert records, and accumulate `attr_keys`.
         with connection_cm as con:
             try:
@@ -132,18 +142,10 @@ class NodeReader(object):
         # Assign instance attributes.
         self._current_working_path = filepath
         self._in_memory_connection = connection
-        self._data = None  # <- Assigned only when iteration begins.
         self._node = node
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object).
-        # The callback must not hold a reference to `self` (an object
-        # that's referenced by its own finalizer is never released).
-        self.close = weakref.finalize(
-            self, self._finalizer, weakref.ref(self), connection, filepath
-        )
-
     @staticmethod
     def _get_attr_data_id_add_if_missing(
         cur: sqlite3.Cursor, attributes: Dict[str, str]
-- 
2.43.0


From e511b4ab1f96a2636c6415981eb0d06c7e1c98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:28 +0000
Subject: [PATCH 17/18] fix: close the new connection when preparing it fails

---
 src/toron/dal1/data_connector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 54b5d8b..9edafe4 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -321,7 +321,11 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 access_mode=self._access_mode,
                 factory=ToronSqlite3Connection,
             )
-            schema.create_functions_and_temporary_triggers(connection)
+            try:
+                schema.create_functions_and_temporary_triggers(connection)
+            except BaseException:
+                self.release_connection(connection)
+                raise
             return connection
 
         raise RuntimeError('unable to acquire data connection')
-- 
2.43.0


From a5216e5f0e6564df21a9ae0b51ffc79619fd8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:50 +0000
Subject: [PATCH 18/18] fix: translate: do not use links that are out of date

A link chosen by its selectors was used even when the fingerprint of its
source index differs from that of the given data.
---
 src/toron/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..58142a1 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -658,6 +658,8 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
+        index_hash = quantity_iterator.index_hash
+        links = [x for x in links if x.other_index_hash == index_hash]
         links = [x for x in links if x.is_locally_complete and x.selectors]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
-- 
2.43.0

