From a1797e3ff8ad85173a744ca1beb7984220c2e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 01/21] fix: never remove directories at or above base path
 when deleting a dataset

---
 oups/store/collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..97d6e7f 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -268,8 +268,9 @@ class ParquetSet:
         if key in self._keys:
             # Keep track of intermediate partition folders, in case one get
             # empty.
-            basepath = self._basepath
-            dirpath = os_path.join(basepath, key.to_path)
+            # 'basepath' as it is spelled when climbing up from 'dirpath'.
+            basepath = strip_path_tail(os_path.join(self._basepath, "_"))
+            dirpath = os_path.join(self._basepath, key.to_path)
             rmtree(dirpath)
             self._keys.remove(key)
             # Remove possibly empty directories.
-- 
2.43.0


From b199f82b12625e888e9867642e00657d17b9835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 02/21] fix: refuse keys with an empty string as only value of
 a level

---
 oups/store/indexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..346094a 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -107,6 +107,9 @@ last position.",
                     )
             if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
                 raise TypeError(f"field type {type(field)} not possible.")
+        if [str(field) for field in fields_ if not _is_dataclass_instance(field)] == [""]:
+            # Otherwise, path of this level is that of its parent directory.
+            raise ValueError("an empty string is not possible as the only value of a level.")
     return
 
 
-- 
2.43.0


From 4393273f701d6f76c9ff7ce4a4bb3ba68aa5c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 03/21] fix: split keys on fields separator as is, not as a
 regular expression

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 346094a..e364510 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -197,7 +197,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From 0bdbc4a5ce8df3996cb7f50464159d30060f205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 04/21] fix: do not list keys for directories that are not
 those of these keys

---
 oups/store/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 97d6e7f..4356501 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -82,6 +82,8 @@ def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
             if (
                 any((is_parquet_file(file) for file in files))
                 and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                # Directory has to be the one into which data of 'key' is read.
+                and key.to_path == DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])
             )
         ],
     )
-- 
2.43.0


From 1f0142b7926a533986504b8f4db56feeeb78629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/21] fix: add keys one at a time when datasets are written
 in parallel

---
 oups/store/collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 4356501..6639d64 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -10,6 +10,7 @@ from os import listdir
 from os import path as os_path
 from os import rmdir
 from shutil import rmtree
+from threading import Lock
 from typing import Tuple, Type, Union
 
 from pandas import DataFrame as pDataFrame
@@ -24,6 +25,10 @@ from oups.store.utils import strip_path_tail
 from oups.store.writer import write
 
 
+# 'SortedSet' is not thread-safe, while datasets can be written in parallel.
+_KEYS_LOCK = Lock()
+
+
 def is_parquet_file(file: str) -> bool:
     """
     Assess extension to be that of a parquet file.
@@ -202,7 +207,8 @@ class ParquetSet:
         write(dirpath=dirpath, data=data, md_key=key, **kwargs)
         if key not in self:
             # If no trouble from writing, add key.
-            self._keys.add(key)
+            with _KEYS_LOCK:
+                self._keys.add(key)
         return
 
     def __setitem__(
-- 
2.43.0


From 469c24029cbea24699afa7857cef4b1798e129f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 06/21] fix: do not modify lists of column and level names
 passed by the caller

---
 oups/store/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..cfccf1f 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -112,7 +112,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -217,7 +217,7 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        levels = [*levels, *(f"l{i}" for i in range(len_lev, max_levels))]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
@@ -476,7 +476,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 8519fc380b0e1e3fbd111541f73d5b0656932444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 07/21] fix: do not add oups-specific metadata to the user
 metadata dict

---
 oups/store/writer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index cfccf1f..b5aa4bd 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -313,10 +313,8 @@ def write_metadata(
             existing_oups_spec_md = new_oups_spec_md
         del OUPS_METADATA[md_key]
 
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        # New dict, not to propagate oups-specific metadata to other datasets.
+        metadata = (metadata or {}) | {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
     if metadata:
         update_custom_metadata(pf, metadata)
-- 
2.43.0


From b890c620bf660197daa01c61a0ec309ac93575b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 08/21] fix: only None removes oups-specific metadata, also at
 first write

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b5aa4bd..8f25b09 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -306,11 +306,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         # New dict, not to propagate oups-specific metadata to other datasets.
-- 
2.43.0


From f820dfb4a274d4df41515ed48c54e97fe7d00ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 09/21] fix: keep column names that are not textual tuples
 whole when expanding them

---
 oups/store/writer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 8f25b09..b64f6cb 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -202,12 +202,14 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
-- 
2.43.0


From 5a4e2a7052003006d95e4eea01eebeea211ed7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 10/21] fix: coalesce row groups with default row group size as
 well

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b64f6cb..0966650 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -508,6 +508,8 @@ def write(
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
         if max_nirgs is not None:
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
-- 
2.43.0


From c33a7f4b2623a95465f9b9b86691b78fa3e8cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 11/21] fix: keep an overlap starting at first row group when
 coalescing last ones

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 0966650..572fdfb 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -522,7 +522,7 @@ def write(
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
             if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
+                if rrg_start_idx is not None and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
-- 
2.43.0


From 8c2d7279e7d6f86de6dd5bd1fe27608fa129392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 12/21] fix: accept data without row when updating an ordered
 dataset

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 572fdfb..b2547c0 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -483,7 +483,7 @@ def write(
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
                 duplicates_on = [duplicates_on, ordered_on]
-        if ordered_on is not None:
+        if ordered_on is not None and len(data):
             # Get 'rrg_start_idx' & 'rrg_end_idx'.
             if isinstance(data, pDataFrame):
                 # Case 'pandas'.
-- 
2.43.0


From 956e892f3c18341d2e314e45df8c3b07adfa8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 13/21] fix: do not coalesce with complete row groups only at
 end of dataset

---
 oups/store/writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b2547c0..c879ef9 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -530,9 +530,10 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
+                elif n_irgs and not rrg_end_idx:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
+                    # necessarily appended in this case. Without incomplete row
+                    # groups, there is nothing to coalesce new data with.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
             # Case 'appending' (no overlap with recorded data identified).
-- 
2.43.0


From 1a7891904b31f78f60b92beec513a8a304c071ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 14/21] fix: do not append empty row groups when updating with
 data without row

---
 oups/store/writer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index c879ef9..477e065 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -539,14 +539,17 @@ def write(
             # Case 'appending' (no overlap with recorded data identified).
             # 'coalesce' has possibly been requested but not needed, hence no row
             # groups removal in existing ones.
-            iter_data = iter_dataframe(data, max_row_group_size)
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
+            # Without row to append, data is left as is: fastparquet does not
+            # accept to write empty row groups.
+            if len(data):
+                iter_data = iter_dataframe(data, max_row_group_size)
+                pf.write_row_groups(
+                    data=iter_data,
+                    row_group_offsets=None,
+                    sort_pnames=False,
+                    compression=compression,
+                    write_fmd=False,
+                )
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
-- 
2.43.0


From 7806fcea0aa630f637b88ece1d94e45e8808e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 15/21] fix: keep dataset ordered when inserting data between
 row groups

---
 oups/store/writer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 477e065..30b54ba 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -460,6 +460,9 @@ def write(
         # Identify overlaps in row groups between new data and recorded data.
         # Recorded row group start and end indexes.
         rrg_start_idx, rrg_end_idx = None, None
+        # Flag indicating if new data is to be inserted, without overlap, before
+        # some recorded row groups.
+        insert = False
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
@@ -507,7 +510,9 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
-        if max_nirgs is not None:
+            else:
+                insert = bool(filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True))
+        if max_nirgs is not None and not insert:
             if max_row_group_size is None:
                 max_row_group_size = MAX_ROW_GROUP_SIZE
             # Number of incomplete row groups at end of recorded data.
@@ -580,14 +585,15 @@ def write(
             )
             # Remove row groups of data that is overlapping.
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
-            if rrg_end_idx is not None:
-                # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
-                )
+        if insert or rrg_end_idx is not None:
+            # New data has been inserted in the middle of existing row groups.
+            # Sorting row groups based on 'max' in 'ordered_on'.
+            ordered_on_idx = pf.columns.index(ordered_on)
+            pf.fmd.row_groups = sorted(
+                pf.fmd.row_groups,
+                key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+            )
+        if insert or rrg_start_idx is not None:
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
     else:
-- 
2.43.0


From 7f1f2ff700a8b9dbb633eba89de8c43150863506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 16/21] fix: do not modify keys config passed by the caller

---
 oups/aggstream/aggstream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..372936d 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -170,10 +170,9 @@ def _init_keys_config(
     consolidated_keys_config = {}
     agg_pd = {}
     for key, key_conf_in in keys_config.items():
-        # Parameters in 'key_conf_in' take precedence over those in
-        # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # Copy 'key_conf_in', so that when parameters are popped, it does not
+        # affect the initial 'key_conf_in', provided by the user.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
@@ -183,6 +182,8 @@ def _init_keys_config(
             key_conf_in[KEY_MAX_IN_MEMORY_SIZE_B] = int(
                 key_conf_in.pop(KEY_MAX_IN_MEMORY_SIZE_MB) * MEGABYTES_TO_BYTES,
             )
+        # Parameters in 'key_conf_in' take precedence over those in
+        # 'keys_default'.
         key_conf_in = keys_default | key_conf_in
         # Check parameters in 'key_conf_in' are valid ones.
         for param in key_conf_in:
-- 
2.43.0


From e5ba248f65fe0270ac0cc6fd0eabcdc5c8a8f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 17/21] fix: record restart index when it is zero as well

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 372936d..d69a795 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -790,7 +790,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -824,7 +824,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 6b7fecb903953a30c239b12bac935a31b402e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 18/21] fix: accept an iterator without seed chunk

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d69a795..e07b344 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1373,7 +1373,11 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        try:
+            first = next(remainder)
+        except StopIteration:
+            # No seed chunk, nothing to initialize.
+            return []
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From f87463e8694b337a20f6dd62c6e87c773d3cdfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 19/21] fix: accept None as filter of unfiltered keys

---
 oups/aggstream/aggstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index e07b344..c93ae14 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1259,7 +1259,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
-- 
2.43.0


From 321fa06e6727c03a18234f0e0134b3f7aa654115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 20/21] fix: restart segmentation by scale whatever the index
 of series of bin ends

---
 oups/aggstream/segmentby.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..fa12b7a 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -231,6 +232,9 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Chunk ends are selected below by position, including after trimming.
+        # With a Series, they would be selected by index value.
+        chunk_ends = Index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
@@ -241,7 +245,7 @@ def by_scale(
                 # trim values in 'by' that are earlier than 'restart_key'.
                 n_chunk_ends_init = len(chunk_ends)
                 chunk_ends = chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]
-                if buffer[KEY_RESTART_KEY] != chunk_ends[0]:
+                if chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                     raise ValueError(
                         f"'by' needs to contain value {buffer[KEY_RESTART_KEY]} "
                         "to restart correctly.",
-- 
2.43.0


From c5f69932d8dbb5cb1a4bf615e5c9135116f0aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 21/21] fix: set null values in empty bins and snapshots by
 position, not by label

With repeated labels, values of bins that are not empty were erased. With a
series of snapshots trimmed at restart, positions were used as index labels,
ending in a KeyError or in wrong rows set to null.
---
 oups/aggstream/cumsegagg.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/oups/aggstream/cumsegagg.py b/oups/aggstream/cumsegagg.py
index e6afc18..b5bd36c 100644
--- a/oups/aggstream/cumsegagg.py
+++ b/oups/aggstream/cumsegagg.py
@@ -530,15 +530,19 @@ def cumsegagg(
         )
     # Set null values.
     if n_max_null_bins != 0:
-        null_bin_labels = bin_labels.iloc[null_bin_indices[~nisin(null_bin_indices, -1)]]
-        if not null_bin_labels.empty:
+        # Rows are selected by position: several bins can have the same label.
+        null_bin_indices = null_bin_indices[~nisin(null_bin_indices, -1)]
+        if len(null_bin_indices) != 0:
             for dtype_, (
                 _,
                 cols_name_in_res,
                 _,
                 _,
             ) in agg.items():
-                bin_res.loc[null_bin_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                bin_res.iloc[
+                    null_bin_indices,
+                    bin_res.columns.get_indexer(cols_name_in_res),
+                ] = NULL_DICT[dtype_]
     if snap_by is not None:
         snap_res = pDataFrame(snap_res, index=snap_labels, copy=False)
         snap_res.index.name = ordered_on
@@ -558,15 +562,20 @@ def cumsegagg(
             # TODO: is not necessary to re-create an array without the -1.
             # Only indices above 0 should be used.
             # Alternatively, output number of empty snaps from 'jcumsegagg()'?
-            null_snap_labels = snap_labels[null_snap_indices[~nisin(null_snap_indices, -1)]]
-            if not null_snap_labels.empty:
+            # Rows are selected by position: several snapshots can have the same
+            # label.
+            null_snap_indices = null_snap_indices[~nisin(null_snap_indices, -1)]
+            if len(null_snap_indices) != 0:
                 for dtype_, (
                     _,
                     cols_name_in_res,
                     _,
                     _,
                 ) in agg.items():
-                    snap_res.loc[null_snap_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                    snap_res.iloc[
+                        null_snap_indices,
+                        snap_res.columns.get_indexer(cols_name_in_res),
+                    ] = NULL_DICT[dtype_]
     if error_on_0:
         if snap_by is not None and snap_res.eq(0).any().any():
             raise ValueError(
-- 
2.43.0

