From 13b768e4783d45c3fd9b5ecfa52a4bcea6693cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 01/66] fix: rebuild pages whose image changed instead of
 crashing

---
 vanillaplusjs/build/html/manips/images/exporter.py | 9 ++++-----
 vanillaplusjs/build/html/manips/images/metadata.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..3eeea57 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -21,7 +21,7 @@ from vanillaplusjs.build.html.manips.images.metadata import (
     ImageTarget,
     ImageTargetOutput,
     ImageTargetSettings,
-    get_target,
+    get_or_reserve_target,
     hash_image_settings,
     load_metadata,
     reserve_target_lock_path,
@@ -67,10 +67,9 @@ def export_command(
         crop_settings=crop_settings,
     )
 
-    target_id = get_target(context, path_relative_to_public, target)
-    assert (
-        target_id is not None
-    ), f"a target for {path_relative_to_public=} should have been made during scanning"
+    # The target was reserved during scanning if the command is new; if only the
+    # source image changed then it needs a new target
+    target_id = get_or_reserve_target(context, path_relative_to_public, target)
 
     path_rel_to_public_no_ext = os.path.splitext(path_relative_to_public)[0]
     source_art_folder_relative_to_root = os.path.join(
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..a056190 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -306,7 +306,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
-- 
2.43.0


From bab3d57ef832a0c13f51f1e5bef6ed2b7db19d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 02/66] fix: never leave or expose half-written image
 bookkeeping

---
 .../build/html/manips/images/exporter.py      |  9 ++++----
 .../build/html/manips/images/metadata.py      | 10 ++++-----
 vanillaplusjs/build/ioutil.py                 | 21 +++++++++++++++++++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 3eeea57..670ef67 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -10,7 +10,7 @@ from vanillaplusjs.build.html.manips.images.settings import (
     ImageExport,
     compare_in_format,
 )
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_text_atomically
 from .cover_fit import cover_fit
 import os
 import json
@@ -305,13 +305,12 @@ def export_command(
         ),
     )
 
-    with open(
+    write_text_atomically(
         os.path.join(
             context.folder, target_art_folder_relative_to_root, "metadata.json"
         ),
-        "w",
-    ) as f:
-        json.dump(store_metadata(metadata), f, indent=2)
+        json.dumps(store_metadata(metadata), indent=2),
+    )
 
     return metadata, BuildFileResult(
         children=children,
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index a056190..4634a13 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -32,7 +32,7 @@ from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.settings import ImageSettings
 from loguru import logger
 
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_text_atomically
 
 
 @dataclass(frozen=True)
@@ -354,14 +354,14 @@ def reserve_target(
 
         counter = counter + 1
 
-        with open(os.path.join(art_path, "counter.txt"), "w") as f:
-            f.write(str(counter))
+        write_text_atomically(os.path.join(art_path, "counter.txt"), str(counter))
 
         entry_path = os.path.join(art_path, str(counter))
         placeholder_path = os.path.join(entry_path, "placeholder.json")
         makedirs_safely(entry_path)
-        with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+        write_text_atomically(
+            placeholder_path, json.dumps(dataclasses.asdict(target))
+        )
 
         return counter
 
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..53bed25 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -190,6 +190,27 @@ class PreprocessedTextIO:
             attempted_peek_length = new_peek_length
 
 
+def write_text_atomically(path: str, contents: str) -> None:
+    """Writes the given text to the file at the given path such that, no matter
+    when another process reads the file or this process is killed, the file has
+    either its previous contents or exactly the given contents.
+
+    Args:
+        path (str): The path to the file to write
+        contents (str): The contents to write
+    """
+    temp_path = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(temp_path, "w") as f:
+            f.write(contents)
+        os.replace(temp_path, path)
+    finally:
+        try:
+            os.unlink(temp_path)
+        except FileNotFoundError:
+            pass
+
+
 def makedirs_safely(path: str) -> None:
     """Creates the directory at path, and all parent directories if necessary.
     This is more reliable than the standard os.makedirs when the directory may
-- 
2.43.0


From 5e423f92d7189eb6ed9abd62e7de583a1e11a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 03/66] fix: reserve one image target per variant when pages
 are scanned concurrently

---
 .../build/html/manips/images/metadata.py      | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 4634a13..bd06750 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -280,13 +280,8 @@ def get_target(
                 lock_path = reserve_target_lock_path(context, relpath)
                 makedirs_safely(os.path.dirname(lock_path))
                 with fasteners.InterProcessLock(lock_path):
-                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
-                        with open(
-                            os.path.join(entry.path, "placeholder.json"), "r"
-                        ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
-                            return int(entry.name)
+                    if is_reserved_for(entry.path, target):
+                        return int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -334,11 +329,24 @@ def reserve_target_lock_path(context: BuildContext, relpath: str) -> str:
     )
 
 
+def is_reserved_for(entry_path: str, target: ImageTargetSettings) -> bool:
+    """Determines if the given folder within the artifacts folder was reserved
+    for the given target. Requires that the reserve target lock is held.
+    """
+    try:
+        with open(os.path.join(entry_path, "placeholder.json"), "r") as f:
+            return load_image_target_settings(json.load(f)) == target
+    except FileNotFoundError:
+        return False
+
+
 def reserve_target(
     context: BuildContext, relpath: str, target: ImageTargetSettings
 ) -> int:
-    """Assigns a new unused id for the given source image, and prevents
-    it from being reserved again.
+    """Assigns an id for the given source image, and prevents it from being
+    reserved again for another target. If the target was reserved by someone
+    else in the meantime then this returns the id they reserved, otherwise
+    this is a new unused id.
     """
     relpath_without_ext = os.path.splitext(relpath)[0]
     art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
@@ -346,6 +354,15 @@ def reserve_target(
     makedirs_safely(os.path.dirname(lock_path))
     makedirs_safely(art_path)
     with fasteners.InterProcessLock(lock_path):
+        with os.scandir(art_path) as entries:
+            for entry in entries:
+                if (
+                    entry.is_dir()
+                    and not os.path.exists(os.path.join(entry.path, "metadata.json"))
+                    and is_reserved_for(entry.path, target)
+                ):
+                    return int(entry.name)
+
         try:
             with open(os.path.join(art_path, "counter.txt"), "r") as f:
                 counter = int(f.read())
-- 
2.43.0


From 3968f570316607f77f9659a4f01ac73597b03bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 04/66] fix: never build two files producing the same output at
 once, and release outputs that were not produced

---
 .../build/hot_incremental_rebuild.py          | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..501bffb 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -270,9 +270,9 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        available_outputs: Set[str] = set()  # produced or reused during this build
+        pending_outputs: Dict[str, str] = dict()  # output -> file building it
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -325,11 +325,12 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
-                            "Cannot rebuild {} while we are cleaning {}",
+                            "Cannot rebuild {} while {} is producing {}",
                             file,
+                            pending_outputs[output],
                             output,
                         )
 
@@ -338,10 +339,8 @@ async def hot_incremental_rebuild(
 
                 rebuildable_files.append(file)
                 for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                    if output not in available_outputs:
+                        pending_outputs[output] = file
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -414,18 +413,25 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    # whatever it turned out not to create is now up to the others
+                    for output in [
+                        output
+                        for output, claimed_by in pending_outputs.items()
+                        if claimed_by == pending_file
+                    ]:
+                        del pending_outputs[output]
+                    available_outputs.update(rebuild_result.produced)
+                    available_outputs.update(rebuild_result.reused)
+
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -435,7 +441,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -443,10 +448,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
-- 
2.43.0


From 4c43c4fe09950b5014b03110aa8f9c3a170cf1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 05/66] fix: keep outputs that are still needed by files which
 are not rebuilt

---
 .../build/hot_incremental_rebuild.py          | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 501bffb..b5edfe7 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -234,8 +234,17 @@ async def hot_incremental_rebuild(
                         files_to_rebuild.add(par)
                         stack.append(par)
 
+        for file in files_to_rebuild:
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
+                    if any(
+                        par not in files_to_rebuild
+                        for par in old_output_graph.get_parents(child)
+                    ):
+                        # still needed, and still valid, for a file that isn't
+                        # being rebuilt
+                        continue
+
                     if child.startswith("artifacts"):
                         dirtied_artifacts.add(child)
                     else:
@@ -457,10 +466,18 @@ async def hot_incremental_rebuild(
 
         for file in still_dirty_artifacts:
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                logger.warning(
+                    "Expected artifact {} to exist so we could clean it, but it did not. Continuing..",
+                    file,
+                )
 
         for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
             folder = os.path.join(context.folder, folder_relpath)
+            if not os.path.isdir(folder):
+                continue
             scandir_iter = os.scandir(folder)
             has_any_contents = next(scandir_iter, None) is not None
             scandir_iter.close()
@@ -512,9 +529,8 @@ async def hot_incremental_rebuild(
                 if old_parents:
                     # this is produced file; we can delete it from the graph if
                     # nothing else is now producing it
-                    if any(p in deleted_files for p in old_parents) and not any(
-                        p not in deleted_files and p not in updated_results
-                        for p in old_parents
+                    if all(
+                        p in deleted_files or p in updated_results for p in old_parents
                     ):
                         possibly_empty_output_nodes.add(file)
                 else:
-- 
2.43.0


From 5b2d430d5a3f99bf3217d1efd105b89cc250a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 06/66] fix: start from scratch after a build that failed or
 was killed

---
 vanillaplusjs/build/build_context.py          |  6 ++
 .../build/hot_incremental_rebuild.py          | 20 ++++--
 vanillaplusjs/build/incomplete_build.py       | 65 +++++++++++++++++++
 vanillaplusjs/runners/build.py                |  3 +
 vanillaplusjs/runners/dev.py                  | 34 +++++++---
 5 files changed, 114 insertions(+), 14 deletions(-)
 create mode 100644 vanillaplusjs/build/incomplete_build.py

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..5fadb43 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -211,6 +211,12 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def build_incomplete_file(self) -> str:
+        """Returns the path to the file which exists while a build is in progress,
+        and hence also after a build that failed or was killed"""
+        return os.path.join(self.out_folder, "build_incomplete.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index b5edfe7..ccbb5d6 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,12 +6,17 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.incomplete_build import (
+    mark_build_completed,
+    mark_build_started,
+)
+from vanillaplusjs.build.ioutil import makedirs_safely, write_text_atomically
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from .graph import FileDependencyGraph
 from loguru import logger
 import concurrent.futures
+import io
 import os
 import asyncio
 import itertools
@@ -109,7 +114,7 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
 
-            makedirs_safely(context.out_folder)
+            mark_build_started(context)
             with open(
                 os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
             ) as f:
@@ -124,6 +129,8 @@ async def hot_incremental_rebuild(
         logger.info("Nothing to do, exiting")
         return
 
+    mark_build_started(context)
+
     with concurrent.futures.ProcessPoolExecutor() as executor:
         files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
         updated_children: Dict[str, ScanFileResult] = dict()
@@ -623,8 +630,13 @@ async def hot_incremental_rebuild(
         with open(context.output_graph_file, "w") as fp:
             new_output_graph.store(fp)
 
-        with open(context.placeholder_graph_file, "w") as fp:
-            new_placeholder_graph.store(fp)
+        placeholder_graph_contents = io.StringIO()
+        new_placeholder_graph.store(placeholder_graph_contents)
+        write_text_atomically(
+            context.placeholder_graph_file, placeholder_graph_contents.getvalue()
+        )
+
+        mark_build_completed(context)
 
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
diff --git a/vanillaplusjs/build/incomplete_build.py b/vanillaplusjs/build/incomplete_build.py
new file mode 100644
index 0000000..827733f
--- /dev/null
+++ b/vanillaplusjs/build/incomplete_build.py
@@ -0,0 +1,65 @@
+"""Recovers from builds that failed or were killed.
+
+Once a build has started changing the out folder it no longer corresponds to the
+stored graphs until the build completes: outputs may be missing, stale, half
+written, or not known to the graphs at all. Hence, while a build is in progress
+there is a marker in the out folder, and if a build is started while the marker
+of an earlier build is still there the outputs are recreated from scratch. The
+artifacts, which are expensive to recreate, are kept.
+"""
+from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.ioutil import makedirs_safely
+from loguru import logger
+import os
+import shutil
+
+
+def mark_build_started(context: BuildContext) -> None:
+    """Must be called before a build changes anything in the out folder."""
+    makedirs_safely(context.out_folder)
+    with open(context.build_incomplete_file, "w"):
+        pass
+
+
+def mark_build_completed(context: BuildContext) -> None:
+    """Must be called after a build has stored everything in the out folder."""
+    os.unlink(context.build_incomplete_file)
+
+
+def discard_incomplete_build(context: BuildContext) -> bool:
+    """If the last build did not complete, removes everything that can be easily
+    recreated. This must be called before loading the graphs.
+
+    Args:
+        context (BuildContext): The context to build in
+
+    Returns:
+        bool: True if the last build did not complete and hence all the files
+            must be rebuilt, False otherwise
+    """
+    if not os.path.lexists(context.build_incomplete_file):
+        return False
+
+    logger.info("The last build did not complete; starting from scratch")
+
+    # These describe files in the source folder, and are always consistent
+    keep = {
+        context.build_incomplete_file,
+        context.external_files_state_file,
+        context.placeholder_graph_file,
+    }
+    www_folder = os.path.join(context.out_folder, "www")
+    for folder in (www_folder, context.out_folder):
+        # the www folder itself is kept because it might be being served
+        if not os.path.isdir(folder):
+            continue
+        for name in os.listdir(folder):
+            path = os.path.join(folder, name)
+            if path in keep or path == www_folder:
+                continue
+            if os.path.isdir(path) and not os.path.islink(path):
+                shutil.rmtree(path)
+            else:
+                os.unlink(path)
+
+    return True
diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..fc3dda7 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -13,6 +13,7 @@ from vanillaplusjs.build.build_context import (
 from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
+from vanillaplusjs.build.incomplete_build import discard_incomplete_build
 import vanillaplusjs.constants
 from vanillaplusjs.build.graph import FileDependencyGraph
 import asyncio
@@ -127,6 +128,8 @@ def build(
     context.js_constants = load_js_constants(config["js_constants"])
     context.delay_files = delay_files
 
+    discard_incomplete_build(context)
+
     old_dependency_graph = FileDependencyGraph()
     # In this graph, all the files in the graph are input files, and input
     # file a is a parent of input file b if the outputs of a depend on b.
diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..5d3bb70 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -4,11 +4,13 @@ from vanillaplusjs.build.build_context import (
     load_external_files,
     load_js_constants,
 )
+from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.file_signature import get_file_signature
 from vanillaplusjs.build.graph import FileDependencyGraph
 from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
+from vanillaplusjs.build.incomplete_build import discard_incomplete_build
 from .build import build, detect_symlink_support
 from .run import run_server
 import argparse
@@ -228,6 +230,8 @@ class DevEventHandler(FileSystemEventHandler):
         context.js_constants = load_js_constants(config["js_constants"])
         context.delay_files = []
 
+        rebuild_everything = discard_incomplete_build(context)
+
         old_dependency_graph = FileDependencyGraph()
         old_output_graph = FileDependencyGraph()
         old_placeholder_graph = FileDependencyGraph()
@@ -271,17 +275,27 @@ class DevEventHandler(FileSystemEventHandler):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
         try:
-            loop.run_until_complete(
-                hot_incremental_rebuild(
-                    context,
-                    old_dependency_graph,
-                    old_output_graph,
-                    old_placeholder_graph,
-                    changed_files,
-                    added_files,
-                    deleted_files,
+            if rebuild_everything:
+                loop.run_until_complete(
+                    cold_incremental_rebuild(
+                        context,
+                        old_dependency_graph,
+                        old_output_graph,
+                        old_placeholder_graph,
+                    )
+                )
+            else:
+                loop.run_until_complete(
+                    hot_incremental_rebuild(
+                        context,
+                        old_dependency_graph,
+                        old_output_graph,
+                        old_placeholder_graph,
+                        changed_files,
+                        added_files,
+                        deleted_files,
+                    )
                 )
-            )
 
             pending = asyncio.all_tasks(loop)
             while pending:
-- 
2.43.0


From 42ab8ce38229c78476e0f3ff0f6ebd260ea153cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 07/66] fix: outline inline scripts and styles without touching
 the source folder

---
 vanillaplusjs/build/build_context.py       | 13 ++++
 vanillaplusjs/build/css/manips/nest.py     |  2 +-
 vanillaplusjs/build/handlers/css.py        |  4 +-
 vanillaplusjs/build/handlers/js.py         |  4 +-
 vanillaplusjs/build/html/manips/outline.py | 82 ++++++++++------------
 5 files changed, 54 insertions(+), 51 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index 5fadb43..7fe142a 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -144,6 +144,19 @@ class BuildContext:
     at least a few seconds.
     """
 
+    inline_sources: Dict[str, str] = None
+    """For source files which don't actually exist because they are inline in
+    another file, the absolute path where their contents can be read from.
+    """
+
+    def get_source_path(self, relpath: str) -> str:
+        """Returns the path where the contents of the source file at the given
+        path relative to the root folder can be read from.
+        """
+        if self.inline_sources is not None and relpath in self.inline_sources:
+            return self.inline_sources[relpath]
+        return os.path.join(self.folder, relpath)
+
     @property
     def src_folder(self) -> str:
         """Returns the src folder where the input files are located"""
diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a9143a8..bbea1e5 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -449,7 +449,7 @@ class NestManipulator(CSSManipulator):
                     f"cannot resolve {imp} because we exhausted it before finding {imp.prelude}"
                 )
             generator = tokenize_and_close(
-                open(os.path.join(self.context.folder, self.relpath))
+                open(self.context.get_source_path(self.relpath))
             )
             self.resumable_imports[self.relpath] = generator
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..5172c57 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -46,7 +46,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.get_source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -75,7 +75,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.get_source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..ff6f579 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -40,7 +40,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.get_source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -69,7 +69,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.get_source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..35615bd 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -1,4 +1,4 @@
-import errno
+import dataclasses
 from typing import Dict, List, Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
@@ -7,6 +7,7 @@ import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.handlers.handler import Handler
 import os
 import io
+import secrets
 from urllib.parse import urlencode
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -63,8 +64,8 @@ class OutlineManipulator(HTMLManipulator):
 
         self.outlining: Optional[Literal["script", "style"]] = None
         self.outlining_to_path: Optional[str] = None
-        """Relative to project root"""
-        self.outlining_to: Optional[io.TextIOBase] = None
+        """The source file we pretend to outline to, relative to project root"""
+        self.outlining_to: Optional[io.StringIO] = None
         self.start_tag_attrs: Optional[Dict[str, str]] = None
         """The attributes to preserve on the start tag"""
 
@@ -78,73 +79,62 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = io.StringIO()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = io.StringIO()
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
             raise ValueError(f"Unexpected tag {node}")
 
         if node["type"] == "EndTag":
-            self.outlining_to.close()
-            self.outlining_to = None
-
-            handler = (
-                self.js_handler if self.outlining == "script" else self.css_handler
+            # The contents are not stored in the source folder, since there they
+            # could replace or be mistaken for a real source file
+            makedirs_safely(self.context.out_folder)
+            temp_path = os.path.abspath(
+                os.path.join(
+                    self.context.out_folder, f"{secrets.token_urlsafe(8)}.tmp"
+                )
             )
-            if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
-                self.dependencies.update(scan_result.dependencies)
-                self.produces.update(scan_result.produces)
-            else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
-                self.children.update(build_result.children)
-                self.produced.update(build_result.produced)
-                self.reused.update(build_result.reused)
-
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-            while possibly_empty_folder.count(os.path.sep) > 2:
-                try:
-                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-                except (FileNotFoundError, PermissionError):
-                    break  # Scanning can happen concurrently
-                except OSError as e:
-                    if e.errno == errno.ENOTEMPTY:
-                        break
-                    raise
-                possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+            try:
+                with open(temp_path, "w") as f:
+                    f.write(self.outlining_to.getvalue())
+                self.outlining_to = None
+
+                handler = (
+                    self.js_handler if self.outlining == "script" else self.css_handler
+                )
+                context = dataclasses.replace(
+                    self.context, inline_sources={self.outlining_to_path: temp_path}
+                )
+                if self.mode == "scan":
+                    scan_result = handler.scan_file(context, self.outlining_to_path)
+                    self.dependencies.update(scan_result.dependencies)
+                    self.produces.update(scan_result.produces)
+                else:
+                    build_result = handler.build_file(context, self.outlining_to_path)
+                    self.children.update(build_result.children)
+                    self.produced.update(build_result.produced)
+                    self.reused.update(build_result.reused)
+            finally:
+                os.unlink(temp_path)
 
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
-- 
2.43.0


From 3954bb01f99cd1154ef893e7a8b61e85fa5d552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 08/66] fix: scripts importing a generated images script depend
 on what generates it

---
 vanillaplusjs/build/handlers/image_glue.py    | 26 ++++++++++++++++++-
 .../build/hot_incremental_rebuild.py          |  5 ++++
 vanillaplusjs/build/html/manips/link_hash.py  |  6 +++--
 vanillaplusjs/build/js/manips/hash_imports.py |  6 +++--
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..fe910a8 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Set
+from typing import Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -122,6 +122,30 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     )
 
 
+def get_generator(context: BuildContext, relpath: str) -> Optional[str]:
+    """If the given file, relative to the root of the project, is a placeholder
+    for the javascript file which is generated from an images json file, then this
+    returns the path to that images json file. Whatever refers to the javascript
+    file depends on the images json file rather than on the placeholder.
+
+    Args:
+        context (BuildContext): The build context
+        relpath (str): The path to the file relative to the root of the project
+
+    Returns:
+        (str, None): The path to the file which generates the output at the given
+            path, relative to the root of the project, or None if the file is
+            not a placeholder.
+    """
+    if not handles_file(context, relpath) or not relpath.endswith(".images.js"):
+        return None
+
+    generator = relpath[: -len(".js")] + ".json"
+    if not os.path.exists(os.path.join(context.folder, generator)):
+        return None
+    return generator
+
+
 def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     """Scans the given file to determine what this handler would do
     if it were to build it.
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index ccbb5d6..448ffbf 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -169,6 +169,8 @@ async def hot_incremental_rebuild(
                         added_files[placeholder_relpath] = get_file_signature(
                             os.path.join(context.folder, placeholder_relpath)
                         )
+                        if placeholder_relpath in deleted_files:
+                            deleted_files.remove(placeholder_relpath)
 
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
@@ -237,6 +239,9 @@ async def hot_incremental_rebuild(
 
             if file in old_placeholders_graph:
                 for par in old_placeholders_graph.get_parents(file):
+                    if par not in old_dependency_graph:
+                        # deleted since the placeholders were stored
+                        continue
                     if par not in files_to_rebuild:
                         files_to_rebuild.add(par)
                         stack.append(par)
diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..c60abae 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -8,6 +8,7 @@ import os
 from vanillaplusjs.constants import PROCESSOR_VERSION
 from dataclasses import dataclass
 from urllib.parse import urlencode
+import vanillaplusjs.build.handlers.image_glue as image_glue
 import itertools
 import abc
 
@@ -124,12 +125,13 @@ class LinkHash(HTMLManipulator):
 
         dep_with_os_sep = dep.path.replace("/", os.path.sep)
         rel_to_public = os.path.join("src", "public", dep_with_os_sep)
+        source = image_glue.get_generator(self.context, rel_to_public) or rel_to_public
 
         if self.mode == "scan":
-            self.dependencies.add(rel_to_public)
+            self.dependencies.add(source)
             return False
 
-        self.children.add(rel_to_public)
+        self.children.add(source)
         return True
 
     def continue_mark(self, node: tkn.HTMLToken) -> Optional[List[tkn.HTMLToken]]:
diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..af89914 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -6,6 +6,7 @@ from vanillaplusjs.build.js.token import JSToken, JSTokenType
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 from urllib.parse import urlencode
+import vanillaplusjs.build.handlers.image_glue as image_glue
 import os
 
 
@@ -138,12 +139,13 @@ class HashImportsManipulator(JSYieldManipulator):
             rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
             import_path = "/" + rel_to_public.replace(os.path.sep, "/")
 
+        generated_from = image_glue.get_generator(self.context, rel_to_root)
         if self.mode == "scan":
-            self.dependencies.add(rel_to_root)
+            self.dependencies.add(generated_from or rel_to_root)
             self.skip_next_import = True
             return False
 
-        self.children.add(rel_to_root)
+        self.children.add(generated_from or rel_to_root)
 
         rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
 
-- 
2.43.0


From 55cf4e7b1e2da60374e5c2fb2770ea3ffb0d068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 09/66] fix: dev watcher neither loses changes nor dies of them

---
 vanillaplusjs/runners/dev.py | 119 +++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 48 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index 5d3bb70..a20f3c1 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -1,4 +1,4 @@
-from typing import Sequence, Set
+from typing import Dict, List, Sequence, Set
 from vanillaplusjs.build.build_context import (
     BuildContext,
     load_external_files,
@@ -6,7 +6,7 @@ from vanillaplusjs.build.build_context import (
 )
 from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
-from vanillaplusjs.build.file_signature import get_file_signature
+from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
 from vanillaplusjs.build.graph import FileDependencyGraph
 from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
@@ -188,6 +188,7 @@ class DevEventHandler(FileSystemEventHandler):
         self.deleted_files: Set[str] = set()
         self.changed_files: Set[str] = set()
         self.created_files: Set[str] = set()
+        self.deleted_folders: Set[str] = set()
         self.last_change_at = time.time()
 
     def rebuild_if_appropriate(self):
@@ -200,6 +201,7 @@ class DevEventHandler(FileSystemEventHandler):
                 not self.deleted_files
                 and not self.changed_files
                 and not self.created_files
+                and not self.deleted_folders
             ):
                 return
             if now - self.last_change_at < self.debounce_seconds:
@@ -208,13 +210,43 @@ class DevEventHandler(FileSystemEventHandler):
             deleted = self.deleted_files.copy()
             changed = self.changed_files.copy()
             created = self.created_files.copy()
+            deleted_folders = self.deleted_folders.copy()
 
             self.deleted_files.clear()
             self.changed_files.clear()
             self.created_files.clear()
+            self.deleted_folders.clear()
 
         logger.info("Rebuilding...")
 
+        try:
+            self.rebuild(deleted | changed | created, deleted_folders)
+        except Exception:
+            logger.exception("Error rebuilding")
+            with self.lock:
+                # if there were changes during the rebuild they might have fixed it
+                self.project_is_unbuildable = not (
+                    self.deleted_files
+                    or self.changed_files
+                    or self.created_files
+                    or self.deleted_folders
+                )
+                self.deleted_files.update(deleted)
+                self.changed_files.update(changed)
+                self.created_files.update(created)
+                self.deleted_folders.update(deleted_folders)
+
+    def rebuild(self, touched_files: Set[str], deleted_folders: Set[str]) -> None:
+        """Rebuilds the project assuming that no files besides the given ones may
+        have been changed, added, or deleted since the last build.
+
+        Args:
+            touched_files (Set[str]): The absolute paths to the files for which there
+                were any events. What has to be done about them is decided by what
+                there is now, since the events may be incomplete or late.
+            deleted_folders (Set[str]): The absolute paths to folders that were
+                deleted, in which case there might not be events for the files
+        """
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
 
         with open(context.config_file) as f:
@@ -248,17 +280,33 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
-
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
-
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+        changed_files: Dict[str, FileSignature] = dict()
+        added_files: Dict[str, FileSignature] = dict()
+        deleted_files: List[str] = []
+
+        touched_relpaths = {
+            os.path.relpath(file, self.folder) for file in touched_files
+        }
+        for deleted_folder in deleted_folders:
+            prefix = os.path.relpath(deleted_folder, self.folder) + os.path.sep
+            touched_relpaths.update(
+                file
+                for file in old_dependency_graph.nodes.keys()
+                if file.startswith(prefix)
+            )
+
+        for relpath in touched_relpaths:
+            try:
+                signature = get_file_signature(os.path.join(self.folder, relpath))
+            except (FileNotFoundError, NotADirectoryError):
+                if relpath in old_dependency_graph:
+                    deleted_files.append(relpath)
+                continue
+
+            if relpath in old_dependency_graph:
+                changed_files[relpath] = signature
+            else:
+                added_files[relpath] = signature
 
         if changed_files:
             for file, signature in changed_files.items():
@@ -303,32 +351,6 @@ class DevEventHandler(FileSystemEventHandler):
                     asyncio.wait(pending, return_when=asyncio.ALL_COMPLETED)
                 )
                 pending = asyncio.all_tasks(loop)
-
-            with self.lock:
-                self.project_is_unbuildable = False
-        except Exception:
-            logger.exception("Error rebuilding")
-            with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
-                self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
             loop.close()
@@ -355,16 +377,17 @@ class DevEventHandler(FileSystemEventHandler):
             self.last_change_at = time.time()
 
     def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
         with self.lock:
-            if event.src_path in self.changed_files:
-                self.changed_files.remove(event.src_path)
-                self.deleted_files.add(event.src_path)
-            elif event.src_path in self.created_files:
-                self.created_files.remove(event.src_path)
-            else:
-                self.deleted_files.add(event.src_path)
+            if event.is_directory:
+                self.deleted_folders.add(event.src_path)
+                self.project_is_unbuildable = False
+                self.last_change_at = time.time()
+                return
+            self.changed_files.discard(event.src_path)
+            # even if it was created since the last build it might have replaced
+            # a file which was part of the last build
+            self.created_files.discard(event.src_path)
+            self.deleted_files.add(event.src_path)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
 
-- 
2.43.0


From 091c099f28763b4b6d9cb9fb5847ab7fd16f6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 10/66] fix: external files that stop being declared are
 removed once and forgotten

---
 .../build/cold_incremental_rebuild.py         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..cd282ec 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -8,7 +8,7 @@ from vanillaplusjs.build.build_context import (
     ExternalFilesState,
 )
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, write_text_atomically
 from .graph import FileDependencyGraph
 from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
@@ -119,7 +119,9 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
+    if not context.external_files and not os.path.exists(
+        context.external_files_state_file
+    ):
         return
 
     external_files_state = ExternalFilesState(state_by_relpath=dict())
@@ -134,7 +136,10 @@ async def check_external_files(context: BuildContext):
     for old_external_file_relpath in external_files_state.state_by_relpath.keys():
         if old_external_file_relpath not in context.external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                logger.debug("It was already deleted")
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
@@ -161,7 +166,10 @@ async def check_external_files(context: BuildContext):
         if executor is not None:
             executor.shutdown(wait=True)
 
-    if not futures:
+    if not futures and (
+        new_external_files_state.state_by_relpath.keys()
+        == external_files_state.state_by_relpath.keys()
+    ):
         return
 
     for future in futures:
@@ -184,8 +192,10 @@ async def check_external_files(context: BuildContext):
 
     external_files_state_folder = os.path.dirname(context.external_files_state_file)
     makedirs_safely(external_files_state_folder)
-    with open(context.external_files_state_file, "w") as f:
-        json.dump(dataclasses.asdict(new_external_files_state), f)
+    write_text_atomically(
+        context.external_files_state_file,
+        json.dumps(dataclasses.asdict(new_external_files_state)),
+    )
 
 
 def is_external_file_skippable(
-- 
2.43.0


From ab1a4baf4727a3e89202a27642b8b23627416446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 11/66] fix: cleaning succeeds if a placeholder was already
 removed

---
 vanillaplusjs/runners/clean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..960f4f7 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -62,7 +62,10 @@ def clean(folder: str, placeholders: bool) -> None:
 
             for file, node in placeholder_graph.nodes.items():
                 if node.parents:
-                    os.remove(os.path.join(folder, file))
+                    try:
+                        os.remove(os.path.join(folder, file))
+                    except FileNotFoundError:
+                        pass  # it was already removed by the user
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
-- 
2.43.0


From 7c8a800e8730d9b2a8362259c8d70d83671689e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 12/66] fix: stylesheets depend on the icons they recolour

---
 vanillaplusjs/build/css/manips/icons/manip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..a50b3c3 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -74,6 +74,7 @@ class IconManipulator(CSSManipulator):
         css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
+        self.children.add(args.input_icon)
 
         svg = None
         replacer = None
@@ -83,6 +84,7 @@ class IconManipulator(CSSManipulator):
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
                 self.reused.add(output_relpath)
+                self.reused.add(output_relpath + ".hash")
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
@@ -541,7 +543,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
-- 
2.43.0


From ebc857c43a27cb037467c2d20486cc312c27afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 13/66] fix: files producing the same output do not depend on
 each other for it

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 448ffbf..5ce211b 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -191,6 +191,10 @@ async def hot_incremental_rebuild(
                     new_dependencies.add(dep_relpath)
                     continue
 
+                if dep_relpath in scan_result.produces:
+                    # even if others produce it as well
+                    continue
+
                 if dep_relpath in out_dependencies_mapping:
                     new_dependencies.add(out_dependencies_mapping[dep_relpath])
                     continue
@@ -390,6 +394,13 @@ async def hot_incremental_rebuild(
 
                     reinterpreted_children: List[str] = []
                     for child in rebuild_result.children:
+                        if (
+                            child in rebuild_result.produced
+                            or child in rebuild_result.reused
+                        ):
+                            # even if others produce it as well
+                            continue
+
                         if child in out_dependencies_mapping:
                             mapped_child = out_dependencies_mapping[child]
                             if mapped_child != pending_file:
-- 
2.43.0


From b1d2e83b53c678c39c18dd3640014601bf1f03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 14/66] fix: commands that do not apply still depend on the
 files that could make them apply

---
 vanillaplusjs/build/css/manips/icons/manip.py | 15 +++++++-------
 vanillaplusjs/build/handlers/image_glue.py    | 20 ++++++++++++++++---
 .../build/html/manips/images/manip.py         | 11 +++++++---
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a50b3c3..8ab1e76 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -71,9 +71,6 @@ class IconManipulator(CSSManipulator):
         args = self.get_icon_command_args(node)
         assert args is not None, "continue_mark on non-icon command"
 
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.children.add(css_file_relpath)
         self.children.add(args.input_icon)
 
         svg = None
@@ -483,6 +480,14 @@ class IconManipulator(CSSManipulator):
         except StopIteration as e:
             args: IconCommand = e.value
 
+        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
+        if self.relpath != css_file_relpath:
+            # even if the command turns out not to be valid, since it might be once
+            # the colors or sizes change
+            (self.dependencies if self.mode == "scan" else self.children).add(
+                css_file_relpath
+            )
+
         if args.icon_initial_color not in self.context.icon_settings.color_map:
             return
 
@@ -556,10 +561,6 @@ class IconManipulator(CSSManipulator):
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
         """
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.dependencies.add(css_file_relpath)
-
         self.dependencies.add(args.input_icon)
 
         for color in args.output_colors:
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index fe910a8..2202672 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Optional, Set
+from typing import Any, List, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -157,7 +157,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        return ScanFileResult(dependencies=get_images(data), produces=[])
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -212,7 +212,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        return BuildFileResult(children=get_images(data), produced=[], reused=[])
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -287,6 +287,20 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
+def get_images(data: Any) -> List[str]:
+    """Gets the images referred to by the given images json file, which need not
+    be valid. A file which is not valid might be once one of these changes.
+    """
+    images: Set[str] = set()
+    for img_target_settings in data.values() if isinstance(data, dict) else []:
+        if not isinstance(img_target_settings, dict):
+            continue
+        path = img_target_settings.get("path")
+        if isinstance(path, str) and path.startswith("/"):
+            images.add(os.path.join("src", "public", path[1:]))
+    return list(images)
+
+
 def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) -> bool:
     """Checks that the given data is a valid images json file."""
     ctx = lambda: f"{relpath=}"
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..c9f9eb1 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -129,9 +129,14 @@ class ImagesManipulator(HTMLManipulator):
         if cmd is None:
             return None
 
-        if not validate_command(
-            cmd, self.context, os.path.join(self.context.folder, self.relpath)
-        ):
+        command_file_path = os.path.join(self.context.folder, self.relpath)
+        if not validate_command(cmd, self.context, command_file_path):
+            image = cmd.source_path_relative_to_root(self.context, command_file_path)
+            if image.startswith(os.path.join("src", "public")):
+                # it might be valid once the image changes
+                (self.dependencies if self.mode == "scan" else self.children).add(
+                    image
+                )
             return None
 
         return cmd
-- 
2.43.0


From 8f08bc8c9a164b8ac298960064cd743ecaed22b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 15/66] fix: rescan the files whose dependencies changed, since
 they may depend on and produce other files

---
 .../build/hot_incremental_rebuild.py          | 88 ++++++++++++-------
 1 file changed, 57 insertions(+), 31 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 5ce211b..8147e2b 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, Iterable, List, Literal, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -132,7 +132,18 @@ async def hot_incremental_rebuild(
     mark_build_started(context)
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
-        files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        # Files which merely depend on a file that changed are scanned as well, since
+        # what they depend on and produce is not determined by their contents alone:
+        # for example, an html page produces the images in the templates it uses
+        files_that_need_scanning = [
+            file
+            for file in get_affected_files(
+                old_dependency_graph,
+                old_placeholders_graph,
+                itertools.chain(changed_files, added_files, deleted_files),
+            )
+            if file not in deleted_files
+        ]
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -207,7 +218,7 @@ async def hot_incremental_rebuild(
                     produced_by = old_output_graph.get_parents(dep_relpath)
                     # take the first one which hasn't been deleted
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
@@ -219,36 +230,11 @@ async def hot_incremental_rebuild(
             new_dependencies.discard(scanned_file_relpath)
             scan_result.dependencies = list(new_dependencies)
 
-        files_to_rebuild: Set[str] = set()
+        files_to_rebuild: Set[str] = set(
+            itertools.chain(updated_children, deleted_files)
+        )
         dirtied_outputs: Set[str] = set()
         dirtied_artifacts: Set[str] = set()
-        stack: List[str] = []
-
-        for file in updated_children.keys():
-            files_to_rebuild.add(file)
-            stack.append(file)
-
-        for file in deleted_files:
-            files_to_rebuild.add(file)
-            stack.append(file)
-
-        while stack:
-            file = stack.pop()
-
-            if file in old_dependency_graph:
-                for par in old_dependency_graph.get_parents(file):
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
-
-            if file in old_placeholders_graph:
-                for par in old_placeholders_graph.get_parents(file):
-                    if par not in old_dependency_graph:
-                        # deleted since the placeholders were stored
-                        continue
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
 
         for file in files_to_rebuild:
             if file in old_output_graph:
@@ -658,6 +644,46 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def get_affected_files(
+    old_dependency_graph: FileDependencyGraph,
+    old_placeholders_graph: FileDependencyGraph,
+    files: Iterable[str],
+) -> Set[str]:
+    """Determines which files have to be rebuilt if the given files were changed,
+    added, or deleted.
+
+    Args:
+        old_dependency_graph (FileDependencyGraph): The dependencies as of the last build
+        old_placeholders_graph (FileDependencyGraph): The placeholders as of the last build
+        files (Iterable[str]): The files which were changed, added, or deleted
+
+    Returns:
+        set[str]: The given files and those which, directly or indirectly, depend on them
+    """
+    affected: Set[str] = set(files)
+    stack: List[str] = list(affected)
+
+    while stack:
+        file = stack.pop()
+
+        if file in old_dependency_graph:
+            for par in old_dependency_graph.get_parents(file):
+                if par not in affected:
+                    affected.add(par)
+                    stack.append(par)
+
+        if file in old_placeholders_graph:
+            for par in old_placeholders_graph.get_parents(file):
+                if par not in old_dependency_graph:
+                    # deleted since the placeholders were stored
+                    continue
+                if par not in affected:
+                    affected.add(par)
+                    stack.append(par)
+
+    return affected
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From 39a424e249ee427a8e5f8018b33de071088f5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 16/66] fix: never leave image metadata without the files it
 describes

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 8147e2b..ad14a4d 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -473,7 +473,11 @@ async def hot_incremental_rebuild(
 
         logger.debug("Finished rebuilding {} files", len(updated_results))
 
-        for file in still_dirty_artifacts:
+        # The metadata states that the rest is there, so it must not outlive the rest
+        for file in sorted(
+            still_dirty_artifacts,
+            key=lambda file: os.path.basename(file) != "metadata.json",
+        ):
             logger.debug("Cleaning {}", file)
             try:
                 os.unlink(os.path.join(context.folder, file))
-- 
2.43.0


From d4da07c3f6b57a06712ee254d1b265eaa8355074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 17/66] fix: symlinks to exported images are valid when
 building a relative folder

---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 670ef67..c07a267 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -127,7 +127,9 @@ def export_command(
 
                     if context.symlinks:
                         os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
+                            os.path.abspath(
+                                os.path.join(context.artifacts_folder, output.relpath)
+                            ),
                             os.path.join(context.folder, out_file),
                         )
                     else:
@@ -285,7 +287,7 @@ def export_command(
             )
             if context.symlinks:
                 os.symlink(
-                    desired_path,
+                    os.path.abspath(desired_path),
                     os.path.join(context.folder, out_path_relative_to_root),
                 )
             else:
-- 
2.43.0


From 2285a849e0af74fca8c796307e1f153cfdf77c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 18/66] fix: only publish what is inside src/public, and ignore
 scripts and stylesheets elsewhere

---
 vanillaplusjs/build/handlers/copy.py              | 4 ++--
 vanillaplusjs/build/handlers/css.py               | 6 ++++++
 vanillaplusjs/build/handlers/image_glue.py        | 2 +-
 vanillaplusjs/build/handlers/js.py                | 6 ++++++
 vanillaplusjs/build/html/manips/images/command.py | 2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 5172c57..fde284e 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 2202672..ba92deb 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public", "")) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index ff6f579..106516f 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +65,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..c977bf1 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -178,7 +178,7 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(os.path.join("src", "public", "")):
         return False
 
     try:
-- 
2.43.0


From 90d4faf0a92200823777906416128e4e6bd8c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 19/66] fix: templates that use themselves fail the build
 instead of hanging it

---
 vanillaplusjs/build/html/manips/template.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..62ff134 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from vanillaplusjs.build.build_file_result import BuildFileResult
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.exceptions import CyclicDependencyException
 from vanillaplusjs.build.html.manipulator import HTMLManipulator
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.html.tokenizer import tokenize
@@ -134,6 +135,14 @@ class TemplateManipulator(HTMLManipulator):
         else:
             self.children.add(imp.relpath)
 
+        frames = [frame.relpath for frame in (*self.stack, self.current_frame)]
+        if imp.relpath in frames:
+            raise CyclicDependencyException(
+                "A template cannot be used within itself: {}".format(
+                    " -> ".join((*frames, imp.relpath))
+                )
+            )
+
         result = []
         result.append(
             tkn.HTMLToken(
-- 
2.43.0


From 2ee9316e8c33ecc31e018189d5ff6a1a559b525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 20/66] fix: template paths are relative to the folder of the
 file using them

---
 vanillaplusjs/build/html/manips/template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 62ff134..999c934 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -222,9 +222,12 @@ class TemplateManipulator(HTMLManipulator):
         else:
             command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
             command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+                os.path.dirname(self.current_frame.relpath),
+                command_path_rel_current_relpath,
             )
 
+        command_path_rel_project_root = os.path.normpath(command_path_rel_project_root)
+
         for var_key in list(variables.keys()):
             var_val = variables[var_key]
             if (
-- 
2.43.0


From 17d806d4321d6874b728fd74cee5cadb4d444c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 21/66] fix: serve files that are published as symlinks

---
 vanillaplusjs/http_server.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 2b4c5c5..915e89a 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -7,6 +7,7 @@ import uvicorn
 from starlette.applications import Starlette
 from starlette.routing import Mount
 from starlette.staticfiles import StaticFiles
+import os
 import time
 import mimetypes
 
@@ -22,6 +23,25 @@ mimetypes.add_type("image/gif", ".gif")
 mimetypes.add_type("image/webp", ".webp")
 
 
+class SiteFiles(StaticFiles):
+    """Static files which may be symlinks to files elsewhere, since that is how
+    unmodified files are published where symlinks are supported.
+    """
+
+    def lookup_path(self, path: str):
+        for directory in self.all_directories:
+            directory = os.path.abspath(directory)
+            full_path = os.path.abspath(os.path.join(directory, path))
+            if os.path.commonpath([full_path, directory]) != directory:
+                # Don't allow misbehaving clients to break out of the folder
+                continue
+            try:
+                return full_path, os.stat(full_path)
+            except (FileNotFoundError, NotADirectoryError):
+                continue
+        return "", None
+
+
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
     """Starts a uvicorn server in a separate thread, yields None, and
@@ -30,7 +50,7 @@ def host_static_files(folder: str, host: str, port: int):
     https://github.com/encode/uvicorn/discussions/1103
     """
     routes = [
-        Mount("/", app=StaticFiles(directory=folder, html=True), name="static"),
+        Mount("/", app=SiteFiles(directory=folder, html=True), name="static"),
     ]
 
     app = Starlette(routes=routes)
-- 
2.43.0


From 03c504c64742c997116bab939f63c77f9856123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 22/66] fix: remember external files that were handled even if
 others failed

---
 .../build/cold_incremental_rebuild.py         | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index cd282ec..971de57 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -145,7 +145,7 @@ async def check_external_files(context: BuildContext):
     # We don't want to spin up a whole process pool unless we actually have
     # something to do
 
-    futures: List[concurrent.futures.Future] = []
+    futures: Dict[str, concurrent.futures.Future] = dict()
     try:
         for desired_external_file in context.external_files.values():
             if is_external_file_skippable(
@@ -159,8 +159,8 @@ async def check_external_files(context: BuildContext):
             if executor is None:
                 executor = ProcessPoolExecutor()
 
-            futures.append(
-                executor.submit(handle_external_file, context, desired_external_file)
+            futures[desired_external_file.relpath] = executor.submit(
+                handle_external_file, context, desired_external_file
             )
     finally:
         if executor is not None:
@@ -172,11 +172,20 @@ async def check_external_files(context: BuildContext):
     ):
         return
 
-    for future in futures:
-        future.result()
+    # What was done is remembered even if some files could not be handled
+    failed_relpaths: Set[str] = {
+        relpath for relpath, future in futures.items() if future.exception() is not None
+    }
 
     for desired_external_file in context.external_files.values():
-        if (
+        if desired_external_file.relpath in failed_relpaths:
+            if (
+                desired_external_file.relpath in external_files_state.state_by_relpath
+            ):
+                new_external_files_state.state_by_relpath[
+                    desired_external_file.relpath
+                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
+        elif (
             desired_external_file.relpath
             not in new_external_files_state.state_by_relpath
         ):
@@ -197,6 +206,9 @@ async def check_external_files(context: BuildContext):
         json.dumps(dataclasses.asdict(new_external_files_state)),
     )
 
+    for future in futures.values():
+        future.result()
+
 
 def is_external_file_skippable(
     context: BuildContext, external_files_state: ExternalFilesState, relpath: str
-- 
2.43.0


From df908bc6e2fc3e17c5ad407c0f246523272a2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 23/66] fix: write script strings and constants with script
 escapes

---
 vanillaplusjs/build/handlers/js_constants.py | 16 +---
 vanillaplusjs/build/js/serializer.py         | 40 +++++++++-
 vanillaplusjs/build/js/tokenizer.py          | 82 +++++++++++++-------
 3 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..dc3b25a 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,11 +3,12 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import json
 import os
 
 
@@ -62,15 +63,6 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
 def jsify(val) -> str:
     if isinstance(val, str):
-        return serialize_string_auto_quote(val)
+        return serialize_string(val)
 
-    if val is True:
-        return "true"
-
-    if val is False:
-        return "false"
-
-    if isinstance(val, (int, float)):
-        return str(val)
-
-    return repr(val)
+    return json.dumps(val)
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..3ddf838 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,6 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+import string
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -36,7 +36,7 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
     elif token["type"] == JSTokenType.identifier:
         return token["value"]
     elif token["type"] == JSTokenType.string_literal:
-        return serialize_string_auto_quote(token["value"])
+        return serialize_string(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
@@ -52,3 +52,39 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
+
+
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+    "\0": "\\0",
+}
+
+
+def serialize_string(value: str) -> str:
+    """Serializes the given value to a js string literal denoting it. Uses double
+    quotes, unless the string contains double quotes but no single quotes.
+    """
+    quote = "'" if '"' in value and "'" not in value else '"'
+    res = quote
+    for idx, char in enumerate(value):
+        char_ord = ord(char)
+        if char == quote:
+            res += "\\" + char
+        elif char == "\0" and value[idx + 1 : idx + 2] in tuple(string.digits):
+            res += "\\x00"
+        elif char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+        elif char_ord < 0x20 or 0x7F <= char_ord < 0xA0:
+            res += f"\\x{char_ord:02x}"
+        elif char in "\u2028\u2029\ufeff" or 0xD800 <= char_ord <= 0xDFFF:
+            res += f"\\u{char_ord:04x}"
+        else:
+            res += char
+    res += quote
+    return res
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..6578689 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -229,43 +229,65 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     peeked character is a quote.
     """
     quote = peekable.read(1)
+    raw = quote
     res = ""
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
-            return JSToken(type=JSTokenType.invalid, value=quote + res)
+        if not peeked or peeked == "\n":
+            return JSToken(type=JSTokenType.invalid, value=raw)
         if peeked == quote:
             peekable.read(1)
             return JSToken(type=JSTokenType.string_literal, value=res)
         if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-                peekable.read(1)
-                res += _consume_unicode_escape_sequence(peekable)
-            else:
-                peekable.read(1)
-                peeked = peekable.peek(1)
-                if not peeked:
-                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
-
-                escaped = peekable.read(1)
-                if escaped == "n":
-                    res += "\n"
-                elif escaped == "r":
-                    res += "\r"
-                elif escaped == "t":
-                    res += "\t"
-                elif escaped == "b":
-                    res += "\b"
-                elif escaped == "f":
-                    res += "\f"
-                elif escaped == "v":
-                    res += "\v"
-                elif escaped == "0":
-                    res += "\0"
-                else:
-                    res += escaped
+            escape = _peek_string_escape_sequence(peekable)
+            raw += peekable.read(len(escape))
+            res += _decode_string_escape_sequence(escape)
         else:
-            res += peekable.read(1)
+            char = peekable.read(1)
+            raw += char
+            res += char
+
+
+def _peek_string_escape_sequence(peekable: PeekableTextIO) -> str:
+    """Returns the escape sequence at the current position of the given peekable,
+    which must be a backslash.
+    """
+    following = peekable.peek(32)
+    if _is_unicode_escape_sequence(following[1:]):
+        if following[2] == "{":
+            return following[: following.index("}") + 1]
+        return following[:6]
+
+    if (
+        following[1:2] == "x"
+        and len(following) >= 4
+        and all(c in string.hexdigits for c in following[2:4])
+    ):
+        return following[:4]
+
+    return following[:2]
+
+
+def _decode_string_escape_sequence(escape: str) -> str:
+    """Returns the characters the given complete escape sequence stands for"""
+    if len(escape) > 2:
+        return chr(int(escape[2:].strip("{}"), 16))
+
+    if escape == "\\" or _is_newline(escape[1]):
+        return ""
+
+    return SIMPLE_ESCAPE_SEQUENCES.get(escape[1], escape[1])
+
+
+SIMPLE_ESCAPE_SEQUENCES = {
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "b": "\b",
+    "f": "\f",
+    "v": "\v",
+    "0": "\0",
+}
 
 
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
@@ -331,7 +353,7 @@ def _is_unicode_escape_sequence(nine: str) -> bool:
         return False
 
     if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
+        for i in range(2, len(nine)):
             if nine[i] == "}":
                 if i == 2:
                     return False
-- 
2.43.0


From 584ee93d95fdf043d4fd6baabb9d6b1d9742241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 24/66] fix: leave template literals in scripts as they are

---
 vanillaplusjs/build/js/serializer.py |  2 ++
 vanillaplusjs/build/js/token.py      |  4 +++
 vanillaplusjs/build/js/tokenizer.py  | 42 +++++++++++++++++++++++++++-
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 3ddf838..d90b1d0 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -41,6 +41,8 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
         return ";"
+    elif token["type"] == JSTokenType.template:
+        return token["value"]
     elif token["type"] == JSTokenType.invalid:
         return token["value"]
     elif token["type"] == JSTokenType.eof:
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..d3b24ac 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -45,6 +45,10 @@ class JSTokenType(str, Enum):
     """Value is the contents of the matched regular expression literal, e.g., for /\g/, the value is '\\g'
     The `extra` field contains the flags, if any. so for /foo/g, the value is 'foo' and the extra is 'g'
     """
+    template = "Template"
+    """Value is the source text of a template literal, or of the part of a template
+    literal before, between or after its substitutions, including the delimiters.
+    """
     invalid = "Invalid"
     """Value is the contents of the invalid token"""
     eof = "EOF"
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 6578689..e1c21bd 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -6,7 +6,7 @@ just enough tokens that for a javascript module we can detect any import stateme
 that the document starts with.
 """
 from io import TextIOBase
-from typing import Generator, Optional, Union
+from typing import Generator, List, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
 import string
@@ -33,6 +33,9 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     peekable = PreprocessedTextIO(PeekableTextIO(fp))
     del fp
 
+    # for each template substitution we're in, how many curly brackets are open in it
+    substitutions: List[int] = []
+
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
@@ -51,6 +54,23 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield JSToken(type=JSTokenType.line_terminator, value=None)
             continue
 
+        if peeked == "`":
+            template = _consume_template(peekable)
+            if template["value"].endswith("${"):
+                substitutions.append(0)
+            yield template
+            continue
+
+        if peeked == "}" and substitutions and substitutions[-1] == 0:
+            template = _consume_template(peekable)
+            if not template["value"].endswith("${"):
+                substitutions.pop()
+            yield template
+            continue
+
+        if substitutions and peeked in "{}":
+            substitutions[-1] += 1 if peeked == "{" else -1
+
         if peeked == "{":
             peekable.read(1)
             yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
@@ -290,6 +310,26 @@ SIMPLE_ESCAPE_SEQUENCES = {
 }
 
 
+def _consume_template(peekable: PeekableTextIO) -> JSToken:
+    """Consumes the part of a template literal until the next substitution or the
+    end of the literal, assuming that the current peeked character is the backtick
+    which starts the literal or the curly bracket which ends a substitution.
+    """
+    res = peekable.read(1)
+    while peeked := peekable.peek(1):
+        if peeked == "\\":
+            res += peekable.read(2)
+            continue
+        if peeked == "`":
+            res += peekable.read(1)
+            break
+        if peekable.peek(2) == "${":
+            res += peekable.read(2)
+            break
+        res += peekable.read(1)
+    return JSToken(type=JSTokenType.template, value=res)
+
+
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
     """Consumes a regular expression literal from the given peekable, assuming that
     the current peeked character is a slash.
-- 
2.43.0


From 96ee01289e0e82cb61f5a1c0ecfc463f59638156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 25/66] fix: tell regular expressions and divisions in scripts
 apart

---
 vanillaplusjs/build/js/tokenizer.py | 123 ++++++++++++++++++++++++++--
 1 file changed, 115 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index e1c21bd..5f437b7 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -33,6 +33,18 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     peekable = PreprocessedTextIO(PeekableTextIO(fp))
     del fp
 
+    slash_context = _SlashContext()
+    for token in _tokenize_peekable(peekable, slash_context):
+        slash_context.handle_token(token)
+        yield token
+
+
+def _tokenize_peekable(
+    peekable: PeekableTextIO, slash_context: "_SlashContext"
+) -> Generator[Union[JSToken, JSTokenWithExtra], None, None]:
+    """Yields the tokens in the given peekable. The slash context must have been
+    given every token which was yielded before the next one is requested.
+    """
     # for each template substitution we're in, how many curly brackets are open in it
     substitutions: List[int] = []
 
@@ -104,7 +116,7 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield _consume_string_literal(peekable)
             continue
 
-        if peeked == "/":
+        if peeked == "/" and not slash_context.in_operator_position:
             yield _consume_regex(peekable)
             continue
 
@@ -121,6 +133,103 @@ def tokenize_and_close(fp: TextIOBase) -> Generator[JSToken, None, None]:
         fp.close()
 
 
+KEYWORDS_BEFORE_EXPRESSION = frozenset(
+    (
+        "await",
+        "case",
+        "default",
+        "delete",
+        "do",
+        "else",
+        "extends",
+        "in",
+        "instanceof",
+        "new",
+        "of",
+        "return",
+        "throw",
+        "typeof",
+        "void",
+        "yield",
+    )
+)
+KEYWORDS_BEFORE_CONDITION = frozenset(("for", "if", "while", "with"))
+
+
+class _SlashContext:
+    """Determines from the preceeding tokens if a slash is an operator or starts
+    a regular expression.
+    """
+
+    def __init__(self) -> None:
+        self.in_operator_position = False
+        """True if the last token can end an expression, which means that a slash
+        is an operator
+        """
+
+        self.last: Optional[JSToken] = None
+        """The last token which is not whitespace, a line terminator or a comment"""
+
+        self.adjacent = False
+        """True if there is nothing after last"""
+
+        self.conditions: List[bool] = []
+        """For each open parenthesis, true if it contains the condition of a
+        statement
+        """
+
+    def handle_token(self, token: JSToken) -> None:
+        """Must be called with each token in order"""
+        if token["type"] in (
+            JSTokenType.whitespace,
+            JSTokenType.line_terminator,
+            JSTokenType.comment,
+        ):
+            self.adjacent = False
+            return
+
+        self.in_operator_position = self._ends_expression(token)
+        self.last = token
+        self.adjacent = True
+
+    def _ends_expression(self, token: JSToken) -> bool:
+        last_value = self.last["value"] if self.last is not None else None
+
+        if token["type"] == JSTokenType.identifier:
+            return last_value == "." or token["value"] not in KEYWORDS_BEFORE_EXPRESSION
+
+        if token["type"] == JSTokenType.template:
+            return not token["value"].endswith("${")
+
+        if token["type"] != JSTokenType.invalid:
+            return token["type"] in (
+                JSTokenType.keyword_as,
+                JSTokenType.keyword_from,
+                JSTokenType.keyword_import,
+                JSTokenType.regex,
+                JSTokenType.string_literal,
+            )
+
+        if token["value"] == "(":
+            self.conditions.append(
+                self.last is not None
+                and self.last["type"] == JSTokenType.identifier
+                and last_value in KEYWORDS_BEFORE_CONDITION
+            )
+            return False
+
+        if token["value"] == ")":
+            return not self.conditions or not self.conditions.pop()
+
+        if token["value"] in ("+", "-"):
+            return self.adjacent and last_value == token["value"]
+
+        if token["value"] == ".":
+            return self.adjacent and last_value in tuple(string.digits)
+
+        return token["value"] == "]" or token["value"] in tuple(string.digits)
+
+
 def _consume_whitespace(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes as much whitespace as possible from the given peekable
     https://tc39.es/ecma262/#sec-white-space
@@ -335,22 +444,20 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     the current peeked character is a slash.
     """
     peekable.read(1)
-    group_level = 0
+    in_class = False
     res = ""
     while True:
         peeked = peekable.peek(1)
         if not peeked or _is_newline(peeked):
             return JSToken(type=JSTokenType.invalid, value="/" + res)
-        if group_level == 0 and peeked == "/":
+        if not in_class and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
+        if peeked == "\\" and not _is_newline(peekable.peek(2)[1:] or "\n"):
             res += peekable.read(2)
             continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
-        if peeked == "[":
-            group_level += 1
+        if peeked in "[]":
+            in_class = peeked == "["
         res += peekable.read(1)
     flags = ""
     while True:
-- 
2.43.0


From 1c5376266f9762e375c641f76651e4afaeb6c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 26/66] fix: script identifiers may start with a dollar sign or
 underscore

---
 vanillaplusjs/build/js/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 5f437b7..12eb068 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -297,7 +297,7 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
         if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        elif not res and (peeked in "$_" or is_id_start(peeked)):
             res += peekable.read(1)
         elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
             res += peekable.read(1)
-- 
2.43.0


From e5c0ff70be08aebd2d29bae78c4e19abe07619bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 27/66] fix: version imports which contain comments or use
 contextual keywords as names

---
 vanillaplusjs/build/js/manips/hash_imports.py | 111 ++++++++++--------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index af89914..7074889 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -10,7 +10,17 @@ import vanillaplusjs.build.handlers.image_glue as image_glue
 import os
 
 
-WHITESPACE_OR_TERM = {JSTokenType.whitespace, JSTokenType.line_terminator}
+WHITESPACE_OR_TERM = {
+    JSTokenType.whitespace,
+    JSTokenType.line_terminator,
+    JSTokenType.comment,
+}
+BINDING_NAME = {
+    JSTokenType.identifier,
+    JSTokenType.keyword_as,
+    JSTokenType.keyword_from,
+}
+MODULE_NAME = BINDING_NAME | {JSTokenType.keyword_import, JSTokenType.string_literal}
 
 
 class HashImportsManipulator(JSYieldManipulator):
@@ -45,67 +55,66 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._handle_import(token["value"])
 
         expecting_from = False
-        if token["type"] == JSTokenType.identifier:
+        if token["type"] in BINDING_NAME:
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for default export")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
+            if token["type"] == JSTokenType.comma:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
             else:
                 expecting_from = True
 
-        if not expecting_from and token["type"] == JSTokenType.asterisk:
+        if not expecting_from:
+            if token["type"] == JSTokenType.asterisk:
+                token, hint = yield from self._skip_namespace()
+            elif token["type"] == JSTokenType.open_curly_bracket:
+                token, hint = yield from self._skip_names()
+            else:
+                hint = "expected next import"
+
+            if hint is not None:
+                return self._mark_import_bad(hint)
+
+        return (yield from self._handle_from(token))
+
+    def _skip_namespace(
+        self,
+    ) -> Generator[None, JSToken, Tuple[JSToken, Optional[str]]]:
+        """Skips what is after the asterisk, up to and including the token after the
+        alias. The result is that token and None, or the unexpected token and a hint
+        """
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        if token["type"] == JSTokenType.keyword_as:
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] not in MODULE_NAME:
+                return token, "expected alias for asterisk"
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        return token, None
+
+    def _skip_names(
+        self,
+    ) -> Generator[None, JSToken, Tuple[JSToken, Optional[str]]]:
+        """Skips what is after the open curly bracket, up to and including the token
+        after the close curly bracket. The result is that token and None, or the
+        unexpected token and a hint
+        """
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        while token["type"] != JSTokenType.close_curly_bracket:
+            if token["type"] not in MODULE_NAME:
+                return token, "expected named export"
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
             if token["type"] == JSTokenType.keyword_as:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for asterisk")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
+                if token["type"] in MODULE_NAME:
                     token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
+            if token["type"] == JSTokenType.comma:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            else:
-                expecting_from = True
-
-        if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            while token["type"] != JSTokenType.close_curly_bracket:
-                if token["type"] == JSTokenType.identifier:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                    if token["type"] == JSTokenType.keyword_as:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] != JSTokenType.identifier:
-                            return self._mark_import_bad(
-                                "expected alias for named export"
-                            )
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] not in (
-                            JSTokenType.comma,
-                            JSTokenType.close_curly_bracket,
-                        ):
-                            return self._mark_import_bad(
-                                "expected comma or close curly bracket"
-                            )
-                    if token["type"] == JSTokenType.comma:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    return self._mark_import_bad("expected named export")
-            expecting_from = True
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-
-        if not expecting_from:
-            return self._mark_import_bad("expected next import")
+            elif token["type"] != JSTokenType.close_curly_bracket:
+                return token, "expected comma or close curly bracket"
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        return token, None
 
+    def _handle_from(
+        self, token: JSToken
+    ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
         if token["type"] != JSTokenType.keyword_from:
             return self._mark_import_bad("expected from")
 
-- 
2.43.0


From 15185c2a2f4ec7d6737d0e262be984cb49debc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 28/66] fix: version the modules scripts re-export, leave
 protocol-relative imports alone

---
 vanillaplusjs/build/js/manips/hash_imports.py | 51 +++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index 7074889..6998a55 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -36,6 +36,7 @@ class HashImportsManipulator(JSYieldManipulator):
         self.children: Optional[Set[str]] = set() if mode == "build" else None
 
         self.skip_next_import = False
+        self.skip_next_export = False
 
     def handle(
         self, token: JSToken
@@ -44,6 +45,9 @@ class HashImportsManipulator(JSYieldManipulator):
             self.skip_next_import = True
             return False
 
+        if token["type"] == JSTokenType.identifier and token["value"] == "export":
+            return (yield from self._handle_export())
+
         if token["type"] != JSTokenType.keyword_import:
             return False
         if self.skip_next_import:
@@ -75,6 +79,38 @@ class HashImportsManipulator(JSYieldManipulator):
 
         return (yield from self._handle_from(token))
 
+    def _handle_export(
+        self,
+    ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
+        """Handles what is after the export keyword. If it's not the export of another
+        module it's left alone.
+        """
+        if self.skip_next_export:
+            self.skip_next_export = False
+            return False
+
+        self.skip_next_export = True
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        if token["type"] == JSTokenType.asterisk:
+            token, hint = yield from self._skip_namespace()
+        elif token["type"] == JSTokenType.open_curly_bracket:
+            token, hint = yield from self._skip_names()
+        else:
+            return False
+
+        if hint is not None or token["type"] != JSTokenType.keyword_from:
+            return False
+
+        token = yield from self._skip_types(WHITESPACE_OR_TERM)
+        if token["type"] != JSTokenType.string_literal:
+            return False
+
+        import_path = token["value"]
+        if not self._is_local(import_path) or any(ch in import_path for ch in "?#"):
+            return False
+
+        return self._handle_local_specifier(import_path)
+
     def _skip_namespace(
         self,
     ) -> Generator[None, JSToken, Tuple[JSToken, Optional[str]]]:
@@ -125,11 +161,22 @@ class HashImportsManipulator(JSYieldManipulator):
         return self._handle_import(token["value"])
 
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
-        if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
+        if not self._is_local(import_path):
             return self._mark_import_bad("unexpected path format")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
 
+        self.skip_next_import = True
+        return self._handle_local_specifier(import_path)
+
+    def _is_local(self, import_path: str) -> bool:
+        return not import_path.startswith("//") and any(
+            import_path.startswith(prefix) for prefix in ("/", "./", "../")
+        )
+
+    def _handle_local_specifier(
+        self, import_path: str
+    ) -> Union[Literal[False], List[JSToken]]:
         if import_path.startswith("/"):
             rel_to_root = os.path.join(
                 "src", "public", import_path[1:].replace("/", os.path.sep)
@@ -151,7 +198,6 @@ class HashImportsManipulator(JSYieldManipulator):
         generated_from = image_glue.get_generator(self.context, rel_to_root)
         if self.mode == "scan":
             self.dependencies.add(generated_from or rel_to_root)
-            self.skip_next_import = True
             return False
 
         self.children.add(generated_from or rel_to_root)
@@ -170,7 +216,6 @@ class HashImportsManipulator(JSYieldManipulator):
         new_import_path = (
             import_path + "?" + urlencode({"v": file_hash, "pv": PROCESSOR_VERSION})
         )
-        self.skip_next_import = True
         return self.stack[:-1] + [
             JSToken(type=JSTokenType.string_literal, value=new_import_path)
         ]
-- 
2.43.0


From 11c8ea0ac93474dace624696130f8771dec68a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 29/66] fix: comment out marked lines after blank lines

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..e7e3b4f 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -35,6 +35,9 @@ class TypeHintsManipulator(JSYieldManipulator):
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
 
+        if token["type"] in (JSTokenType.line_terminator, JSTokenType.eof):
+            return False
+
         should_exclude_line = False
         while token["type"] not in (JSTokenType.line_terminator, JSTokenType.eof):
             if (
-- 
2.43.0


From 0bda47d42be2c9a8ab960ce88467fda86065cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 30/66] fix: scripts do not depend on what commented out
 imports name

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index e7e3b4f..306ae8e 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -28,9 +28,6 @@ class TypeHintsManipulator(JSYieldManipulator):
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
-        if self.mode == "scan":
-            return False
-
         if self._skip_next_line:
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
-- 
2.43.0


From 38086f49ba39885516b625abe1ce1152c60b5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 31/66] fix: a sign after an increment is not an increment

---
 vanillaplusjs/build/js/tokenizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 12eb068..35f0b11 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -222,7 +222,11 @@ class _SlashContext:
             return not self.conditions or not self.conditions.pop()
 
         if token["value"] in ("+", "-"):
-            return self.adjacent and last_value == token["value"]
+            return (
+                self.adjacent
+                and last_value == token["value"]
+                and not self.in_operator_position
+            )
 
         if token["value"] == ".":
             return self.adjacent and last_value in tuple(string.digits)
-- 
2.43.0


From bb2da3ae5e5a70065c1ad2df37521fd8c050ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 32/66] fix: start from scratch when the settings changed

---
 vanillaplusjs/build/build_context.py    |  6 +++
 vanillaplusjs/build/incomplete_build.py | 58 ++++++++++++++++++++++---
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index 7fe142a..04f82c6 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -230,6 +230,12 @@ class BuildContext:
         and hence also after a build that failed or was killed"""
         return os.path.join(self.out_folder, "build_incomplete.txt")
 
+    @property
+    def build_settings_file(self) -> str:
+        """Returns the path to the file containing the settings that were used to
+        produce what is in the out folder"""
+        return os.path.join(self.out_folder, "build_settings.json")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/incomplete_build.py b/vanillaplusjs/build/incomplete_build.py
index 827733f..016c347 100644
--- a/vanillaplusjs/build/incomplete_build.py
+++ b/vanillaplusjs/build/incomplete_build.py
@@ -1,4 +1,4 @@
-"""Recovers from builds that failed or were killed.
+"""Recovers from builds that failed or were killed, or had other settings.
 
 Once a build has started changing the out folder it no longer corresponds to the
 stored graphs until the build completes: outputs may be missing, stale, half
@@ -6,12 +6,20 @@ written, or not known to the graphs at all. Hence, while a build is in progress
 there is a marker in the out folder, and if a build is started while the marker
 of an earlier build is still there the outputs are recreated from scratch. The
 artifacts, which are expensive to recreate, are kept.
+
+Similarly, most outputs depend on the settings, but the graphs only describe how
+they depend on the source files. Hence the settings the outputs were produced with
+are stored in the out folder, and if they changed the outputs are recreated as well.
 """
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.constants import PROCESSOR_VERSION
 from loguru import logger
+import dataclasses
+import json
 import os
 import shutil
+from typing import Optional
 
 
 def mark_build_started(context: BuildContext) -> None:
@@ -27,20 +35,25 @@ def mark_build_completed(context: BuildContext) -> None:
 
 
 def discard_incomplete_build(context: BuildContext) -> bool:
-    """If the last build did not complete, removes everything that can be easily
-    recreated. This must be called before loading the graphs.
+    """If the last build did not complete or used other settings, removes everything
+    that can be easily recreated. This must be called before loading the graphs.
 
     Args:
         context (BuildContext): The context to build in
 
     Returns:
-        bool: True if the last build did not complete and hence all the files
-            must be rebuilt, False otherwise
+        bool: True if the last build did not complete or used other settings and
+            hence all the files must be rebuilt, False otherwise
     """
-    if not os.path.lexists(context.build_incomplete_file):
+    settings = _serialize_settings(context)
+    if os.path.lexists(context.build_incomplete_file):
+        logger.info("The last build did not complete; starting from scratch")
+    elif _load_settings(context) != settings:
+        logger.info("The settings changed; starting from scratch")
+    else:
         return False
 
-    logger.info("The last build did not complete; starting from scratch")
+    mark_build_started(context)
 
     # These describe files in the source folder, and are always consistent
     keep = {
@@ -62,4 +75,35 @@ def discard_incomplete_build(context: BuildContext) -> bool:
             else:
                 os.unlink(path)
 
+    with open(context.build_settings_file, "w", encoding="utf-8") as f:
+        f.write(settings)
+
     return True
+
+
+def _serialize_settings(context: BuildContext) -> str:
+    """Describes everything besides the source files which the outputs depend on"""
+    return json.dumps(
+        {
+            "processor_version": PROCESSOR_VERSION,
+            "host": context.host,
+            "default_css_file": context.default_css_file,
+            # the rest of the icon settings come from the default css file
+            "icons": dataclasses.asdict(context.icon_settings)["default_button"],
+            "images": dataclasses.asdict(context.image_settings),
+            "auto_generate_images_js_placeholders": (
+                context.auto_generate_images_js_placeholders
+            ),
+            "js_constants": dataclasses.asdict(context.js_constants),
+        },
+        default=str,
+    )
+
+
+def _load_settings(context: BuildContext) -> Optional[str]:
+    """Loads the settings that were used to produce the outputs, if known"""
+    try:
+        with open(context.build_settings_file, "r", encoding="utf-8") as f:
+            return f.read()
+    except FileNotFoundError:
+        return None
-- 
2.43.0


From 531fbc14f3da2791798a0ba8b51f7d026a9504c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 33/66] fix: never reuse the number of an image variant that is
 still there

---
 vanillaplusjs/build/html/manips/images/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index bd06750..9203acc 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -370,6 +370,9 @@ def reserve_target(
             counter = 0
 
         counter = counter + 1
+        while os.path.lexists(os.path.join(art_path, str(counter))):
+            # left behind by a build that was discarded
+            counter = counter + 1
 
         write_text_atomically(os.path.join(art_path, "counter.txt"), str(counter))
 
-- 
2.43.0


From caa104ac1dbd4db6ac7744d70e784b1af387657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 34/66] fix: read and peek over line breaks of two characters

---
 vanillaplusjs/build/ioutil.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 53bed25..8f1fb57 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -80,6 +80,11 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer or None
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
@@ -117,7 +122,7 @@ class PreprocessedTextIO:
             return None
         if len(res) == n and res[-1] == "\r":
             if self.fp.peek(1) == "\n":
-                res = res[:-1]
+                self.fp.read(1)
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -136,10 +141,7 @@ class PreprocessedTextIO:
         if res is None:
             return None
         if n >= 1 and len(res) == n + 1:
-            if res[-2:] == "\r\n":
-                res = res[:-2]
-            else:
-                res = res[:-1]
+            res = res[:-1]
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -180,14 +182,13 @@ class PreprocessedTextIO:
             return None
 
         attempted_peek_length = n
-        while True:
-            old_actual_peek_length = len(res)
-            missing_characters = n - old_actual_peek_length
-            new_peek_length = attempted_peek_length + missing_characters
-            res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+        while len(res) < n:
+            if len(self.fp.peek(attempted_peek_length + 1)) <= attempted_peek_length:
+                # there is nothing more to peek at
                 return res
-            attempted_peek_length = new_peek_length
+            attempted_peek_length += n - len(res)
+            res = self._peek(attempted_peek_length)
+        return res
 
 
 def write_text_atomically(path: str, contents: str) -> None:
-- 
2.43.0


From 5d7a0d28ab528c9640dd113679bdad9070714a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 35/66] fix: version urls with fragments and leave
 protocol-relative ones alone

---
 vanillaplusjs/build/css/manips/version_urls.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..9a22625 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -78,13 +78,13 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        if not url.startswith("/") or url.startswith("//"):
             return None
 
         if "?" in url:
             return None
 
-        path_relative_to_public = url[1:].replace("/", os.path.sep)
+        path_relative_to_public = url[1:].split("#", 1)[0].replace("/", os.path.sep)
         path_relative_to_root = os.path.join("src", "public", path_relative_to_public)
 
         if path_relative_to_root == self.relpath:
@@ -110,7 +110,8 @@ class VersionURLsManipulator(CSSManipulator):
             hash_value = f.read()
 
         suffix_to_add = "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
-        new_value = node["value"] + suffix_to_add
+        path, hash_sign, fragment = node["value"].partition("#")
+        new_value = path + suffix_to_add + hash_sign + fragment
 
         cp_node = node.copy()
         cp_node["value"] = new_value
-- 
2.43.0


From 1a7504eea6dabd2edf79e9864b6983035f8c7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 36/66] fix: leave names and numbers in stylesheets as they
 were written

---
 vanillaplusjs/build/css/serializer.py | 14 ++++----
 vanillaplusjs/build/css/token.py      |  7 ++++
 vanillaplusjs/build/css/tokenizer.py  | 50 ++++++++++++++++++++++-----
 3 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..e7e0355 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -19,7 +19,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.bad_string:
         return '"\n'
     elif token["type"] == CSSTokenType.hash:
-        return "#" + token["value"]
+        return "#" + token.get("repr", token["value"])
     elif token["type"] == CSSTokenType.delim:
         return token["value"]
     elif token["type"] == CSSTokenType.left_parens:
@@ -27,19 +27,21 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.right_parens:
         return ")"
     elif token["type"] == CSSTokenType.number:
-        return str(token["value"])
+        return token.get("repr", str(token["value"]))
     elif token["type"] == CSSTokenType.percentage:
-        return str(token["value"]) + "%"
+        return token.get("repr", str(token["value"])) + "%"
     elif token["type"] == CSSTokenType.dimension:
+        if "repr" in token:
+            return token["repr"]
         return str(token["value"]) + token["unit"]
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
         return "-->"
     elif token["type"] == CSSTokenType.ident:
-        return token["value"]
+        return token.get("repr", token["value"])
     elif token["type"] == CSSTokenType.function:
-        return token["value"] + "("
+        return token.get("repr", token["value"]) + "("
     elif token["type"] == CSSTokenType.url:
         return (
             "url("
@@ -57,7 +59,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.cdo:
         return "<!--"
     elif token["type"] == CSSTokenType.at_keyword:
-        return "@" + token["value"]
+        return "@" + token.get("repr", token["value"])
     elif token["type"] == CSSTokenType.left_square_bracket:
         return "["
     elif token["type"] == CSSTokenType.right_square_bracket:
diff --git a/vanillaplusjs/build/css/token.py b/vanillaplusjs/build/css/token.py
index b444ffe..0728f1d 100644
--- a/vanillaplusjs/build/css/token.py
+++ b/vanillaplusjs/build/css/token.py
@@ -77,6 +77,13 @@ class CSSToken(TypedDict):
     hash tokens are valid id selectors.
     """
 
+    repr: Optional[str]
+    """How the token was written, for tokens whose value can be written in more
+    than one way and which came from a stylesheet: names may contain escapes, and
+    numbers a sign, trailing zeros or an exponent. Preferred over the value when
+    serializing.
+    """
+
     unit: Optional[str]
     """The dimension token may have the unit set to one or more
     code points. In all other cases, the unit is None or unset
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 1fe32b6..c90f3bc 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -55,7 +55,9 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
                     res["type_flag"] = "id"
                 else:
                     res["type_flag"] = "unrestricted"
-                res["value"] = _consume_ident_sequence(peekable)
+                recorder = _RecordingTextIO(peekable)
+                res["value"] = _consume_ident_sequence(recorder)
+                res["repr"] = recorder.recorded
                 yield res
                 continue
 
@@ -140,8 +142,11 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "@":
             peekable.read(1)
             if _is_ident_sequence(peekable.peek(3)):
-                value = _consume_ident_sequence(peekable)
-                yield CSSToken(type=CSSTokenType.at_keyword, value=value)
+                recorder = _RecordingTextIO(peekable)
+                value = _consume_ident_sequence(recorder)
+                yield CSSToken(
+                    type=CSSTokenType.at_keyword, value=value, repr=recorder.recorded
+                )
                 continue
             yield CSSToken(type=CSSTokenType.delim, value="@")
             continue
@@ -197,6 +202,22 @@ def tokenize_and_close(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         fp.close()
 
 
+class _RecordingTextIO:
+    """Remembers what was read through it"""
+
+    def __init__(self, fp: PreprocessedTextIO) -> None:
+        self.fp = fp
+        self.recorded = ""
+
+    def peek(self, n: int) -> Optional[str]:
+        return self.fp.peek(n)
+
+    def read(self, n: int) -> Optional[str]:
+        res = self.fp.read(n)
+        self.recorded += res or ""
+        return res
+
+
 def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     """https://www.w3.org/TR/css-syntax-3/#consume-comments
 
@@ -388,14 +409,18 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     or a dimension token.
     https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
     """
-    number_value, number_type = _consume_number(fp)
+    recorder = _RecordingTextIO(fp)
+    number_value, number_type = _consume_number(recorder)
+    number_repr = recorder.recorded
 
     if _is_ident_sequence(fp.peek(3)):
+        unit = _consume_ident_sequence(recorder)
         return CSSToken(
             type=CSSTokenType.dimension,
             value=number_value,
             type_flag=number_type,
-            unit=_consume_ident_sequence(fp),
+            unit=unit,
+            repr=recorder.recorded,
         )
 
     if fp.peek(1) == "%":
@@ -404,12 +429,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             type=CSSTokenType.percentage,
             value=number_value,
             type_flag=number_type,
+            repr=number_repr,
         )
 
     return CSSToken(
         type=CSSTokenType.number,
         value=number_value,
         type_flag=number_type,
+        repr=number_repr,
     )
 
 
@@ -418,7 +445,8 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
     https://www.w3.org/TR/css-syntax-3/#consume-an-ident-like-token
     """
-    string = _consume_ident_sequence(fp)
+    recorder = _RecordingTextIO(fp)
+    string = _consume_ident_sequence(recorder)
     if len(string) == 3 and string.lower() == "url" and fp.peek(1) == "(":
         fp.read(1)
         while True:
@@ -433,15 +461,19 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
         if peek_2[0] in ('"', "'") or (
             len(peek_2) == 2 and _is_whitespace(peek_2[0]) and peek_2[1] in ('"', "'")
         ):
-            return CSSToken(type=CSSTokenType.function, value=string)
+            return CSSToken(
+                type=CSSTokenType.function, value=string, repr=recorder.recorded
+            )
 
         return _consume_url(fp)
 
     if fp.peek(1) == "(":
         fp.read(1)
-        return CSSToken(type=CSSTokenType.function, value=string)
+        return CSSToken(
+            type=CSSTokenType.function, value=string, repr=recorder.recorded
+        )
 
-    return CSSToken(type=CSSTokenType.ident, value=string)
+    return CSSToken(type=CSSTokenType.ident, value=string, repr=recorder.recorded)
 
 
 def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
-- 
2.43.0


From 0aa5d593d30e4cd8a6432da4a6cf030ed3e7b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 37/66] fix: read stylesheets ending in the middle of a
 construct

---
 vanillaplusjs/build/css/tokenizer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index c90f3bc..a80670d 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -45,7 +45,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "#":
             peekable.read(1)
             peek_2 = peekable.peek(2)
-            if len(peek_2) == 0:
+            if not peek_2:
                 yield CSSToken(type=CSSTokenType.delim, value="#")
                 continue
 
@@ -233,8 +233,9 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     comment = ""
     while True:
         peeked = fp.peek(2)
-        if peeked is None:
-            return None
+        if not peeked:
+            # parse error
+            return CSSToken(type=CSSTokenType.comment, value=comment)
         if peeked == "*/":
             fp.read(2)
             return CSSToken(type=CSSTokenType.comment, value=comment)
@@ -457,7 +458,8 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
         peek_2 = fp.peek(2)
         if peek_2 is None or peek_2 == "":
-            return CSSToken(type=CSSTokenType.ident, value=string)
+            # parse error
+            return CSSToken(type=CSSTokenType.url, value="")
         if peek_2[0] in ('"', "'") or (
             len(peek_2) == 2 and _is_whitespace(peek_2[0]) and peek_2[1] in ('"', "'")
         ):
@@ -519,7 +521,7 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
         if consumed is None or consumed == "" or consumed == ")":
             return
 
-        if _is_valid_escape(consumed + fp.peek(1)):
+        if _is_valid_escape(consumed + (fp.peek(1) or "")):
             _consume_escaped_code_point(fp)
             continue
 
@@ -557,7 +559,7 @@ def _is_valid_escape(two: str) -> bool:
 
     This does not support being called without the two characters
     """
-    if len(two) != 2:
+    if two is None or len(two) != 2:
         return False
 
     return two[0] == "\\" and two[1] != "\n"
@@ -571,7 +573,7 @@ def _is_ident_sequence(three: str) -> bool:
 
     This does not support being called without the three characters
     """
-    if len(three) != 3:
+    if three is None or len(three) != 3:
         return False
 
     if three[0] == "-":
-- 
2.43.0


From c4529545a41ffa7167a71d88845e51daaacc625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 38/66] fix: escape strings and urls in stylesheets the way
 stylesheets do

---
 vanillaplusjs/build/css/serializer.py | 29 ++++++---------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index e7e0355..a07cc23 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -46,7 +46,9 @@ def serialize(token: CSSToken) -> str:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"],
+                quote="",
+                simple_escape_characters=('"', "'", "(", ")", "\\", " "),
             )
             + ")"
         )
@@ -91,17 +93,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -110,18 +101,10 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
         char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char_ord <= 0x001F or char_ord >= 0x007F:
+            # the space ends the escape
+            res += "\\" + hex(char_ord)[2:] + " "
             continue
 
         res += char
-- 
2.43.0


From 567622113ec2a266ed4ecee81f218886f78315e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 39/66] fix: tell valid urls and digits in stylesheets from
 others

---
 .../build/css/manips/icons/tokenizer.py       |  3 +-
 vanillaplusjs/build/css/tokenizer.py          | 45 +++++++++++++------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/tokenizer.py b/vanillaplusjs/build/css/manips/icons/tokenizer.py
index 50981fa..d32fba5 100644
--- a/vanillaplusjs/build/css/manips/icons/tokenizer.py
+++ b/vanillaplusjs/build/css/manips/icons/tokenizer.py
@@ -12,6 +12,7 @@ from vanillaplusjs.build.css.token import CSSTokenType
 from .token import IconToken, IconTokenType
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
 from vanillaplusjs.build.css.tokenizer import (
+    _is_digit,
     _is_whitespace,
     _is_ident_start_codepoint,
     _is_ident_sequence,
@@ -97,7 +98,7 @@ def tokenize(fp: TextIOBase) -> Generator[IconToken, None, None]:
             yield IconToken(type=IconTokenType.delim, value=".")
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_number(peekable)
             continue
 
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index a80670d..6752961 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -180,7 +180,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
             yield CSSToken(type=CSSTokenType.right_curly_bracket)
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_numeric_token(peekable)
             continue
 
@@ -281,6 +281,8 @@ def _consume_string(
             return CSSToken(type=CSSTokenType.string, value=value)
 
         if peeked == "\n":
+            # serialized with the newline
+            fp.read(1)
             return CSSToken(type=CSSTokenType.bad_string, value=value)
 
         if peeked == "\\":
@@ -363,7 +365,7 @@ def _consume_number(
             if repr in "+-" or repr == "":
                 return None
             return int(repr), res_type
-        if not peeked.isdigit():
+        if not _is_digit(peeked):
             break
         repr += fp.read(1)
 
@@ -371,14 +373,14 @@ def _consume_number(
     if peek_2 is None or len(peek_2) < 2:
         return int(repr), res_type
 
-    if peek_2[0] == "." and peek_2[1].isdigit():
+    if peek_2[0] == "." and _is_digit(peek_2[1]):
         repr += fp.read(2)
         res_type = "number"
         while True:
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -387,8 +389,8 @@ def _consume_number(
         return float(repr), res_type
 
     if peek_3[0] in "eE" and (
-        peek_3[1].isdigit()
-        or (peek_3[1] in "+-" and len(peek_3) == 3 and peek_3[2].isdigit())
+        _is_digit(peek_3[1])
+        or (peek_3[1] in "+-" and len(peek_3) == 3 and _is_digit(peek_3[2]))
     ):
         res_type = "number"
         repr += fp.read(2)
@@ -396,7 +398,7 @@ def _consume_number(
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -497,14 +499,24 @@ def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             return CSSToken(type=CSSTokenType.url, value=value)
 
         if _is_whitespace(peeked):
-            fp.read(1)
+            _consume_whitespace(fp)
+            if fp.peek(1) not in (None, "", ")"):
+                if value == "":
+                    # before the url
+                    continue
+                _consume_remnants_of_bad_url(fp)
+                return CSSToken(type=CSSTokenType.bad_url)
             continue
 
-        if peeked in ('"', "'", "(") or _is_non_printable(peeked):
+        if (
+            peeked in ('"', "'", "(")
+            or _is_non_printable(peeked)
+            or (peeked == "\\" and fp.peek(2) == "\\\n")
+        ):
             _consume_remnants_of_bad_url(fp)
             return CSSToken(type=CSSTokenType.bad_url)
 
-        if peeked == "\\" and _is_valid_escape(fp.peek(2)):
+        if peeked == "\\":
             fp.read(1)
             value += _consume_escaped_code_point(fp)
             continue
@@ -529,6 +541,11 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
 HEX_CHARACTERS = "0123456789abcdefABCDEF"
 
 
+def _is_digit(char: Optional[str]) -> bool:
+    """Unlike str.isdigit, only ascii digits"""
+    return char is not None and len(char) == 1 and char in "0123456789"
+
+
 def _is_hex_digit(char: str) -> bool:
     return char is not None and char in HEX_CHARACTERS
 
@@ -550,7 +567,7 @@ def _is_ident_start_codepoint(char: Optional[str]) -> bool:
 def _is_ident_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
+    return _is_ident_start_codepoint(char) or _is_digit(char) or char == "-"
 
 
 def _is_valid_escape(two: str) -> bool:
@@ -602,12 +619,12 @@ def _is_number(three: Optional[str]) -> bool:
         return False
 
     if three[0] in "+-":
-        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())
+        return _is_digit(three[1]) or (three[1] == "." and _is_digit(three[2]))
 
     if three[0] == ".":
-        return three[1].isdigit()
+        return _is_digit(three[1])
 
-    return three[0].isdigit()
+    return _is_digit(three[0])
 
 
 def _is_non_printable(char: Optional[str]) -> bool:
-- 
2.43.0


From e90b488646b1a3883bfc100b20c03ec1c13fac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 40/66] fix: publish data images with the bytes they denote

---
 .../build/css/manips/outline_image_data.py    | 78 +++++++++++++------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..647b4e8 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Optional, Set
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -6,7 +6,9 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote, urlencode
+from urllib.parse import unquote_to_bytes, urlencode
+import base64
+import binascii
 import re
 import os
 
@@ -14,11 +16,26 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
 IMAGE_DATA_REGEX = re.compile(
-    r'^data:image/(?P<image_type>[^;,]+)[;,](?P<image_data>[^"]+)$'
+    r"^data:image/(?P<image_type>[^;,]+)(?P<parameters>(?:;[^,]*)?),(?P<image_data>.+)$",
+    re.IGNORECASE | re.DOTALL,
 )
 """Matches an image data source"""
 
 
+def decode_image_data(match: re.Match) -> Optional[bytes]:
+    """The contents of the matched image data source, or None if they are
+    malformed
+    """
+    data = unquote_to_bytes(match.group("image_data"))
+    if match.group("parameters").rstrip(" ").lower().endswith(";base64"):
+        data = b"".join(data.split())
+        try:
+            return base64.b64decode(data + b"=" * (-len(data) % 4), validate=True)
+        except binascii.Error:
+            return None
+    return data
+
+
 class OutlineImageDataManipulator(CSSManipulator):
     """When encountering a url function whose value is an image data source,
     replaces it with a new url function which points to a file which contains
@@ -39,7 +56,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
-        self.image_relpath_by_data: Optional[Dict[str, str]] = dict()
+        self.image_relpath_by_data: Dict[Tuple[str, bytes], str] = dict()
         self.image_counter = 0
 
         self.skip_next_url_function = False
@@ -55,9 +72,16 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.image_out_folder = os.path.join("out", "www", "img", "gen", path_in_gen)
 
     def start_mark(self, node: CSSToken) -> bool:
+        if node["type"] == CSSTokenType.url:
+            # unquoted url token
+            if self._match(node) is None:
+                return False
+            self.state = "expecting_string"
+            self.stack = []
+            return True
         if node["type"] != CSSTokenType.function:
             return False
-        if node["value"] != "url":
+        if node["value"].lower() != "url":
             return False
         if self.skip_next_url_function:
             self.skip_next_url_function = False
@@ -74,7 +98,7 @@ class OutlineImageDataManipulator(CSSManipulator):
                 node["type"] == CSSTokenType.function
             ), "continue_mark in state expecting_url should get a function"
             assert (
-                node["value"] == "url"
+                node["value"].lower() == "url"
             ), "continue_mark in state expecting_url should get a url function"
             self.state = "expecting_string"
             return None
@@ -82,14 +106,10 @@ class OutlineImageDataManipulator(CSSManipulator):
         assert (
             self.state == "expecting_string"
         ), f"continue_mark unknown state: {self.state=}"
-        if node["type"] != CSSTokenType.string:
-            self.skip_next_url_function = True
-            result = self.stack
-            self.stack = None
-            self.state = None
-            return result
+        if node["type"] == CSSTokenType.whitespace:
+            return None
 
-        match = IMAGE_DATA_REGEX.match(node["value"])
+        match = self._match(node)
         if match is None:
             self.skip_next_url_function = True
             result = self.stack
@@ -97,22 +117,22 @@ class OutlineImageDataManipulator(CSSManipulator):
             self.state = None
             return result
 
-        image_type = match.group("image_type")
-        image_data = match.group("image_data")
-        out_relpath = self.image_relpath_by_data.get(image_data)
+        file_ext = match.group("image_type").split("+", 1)[0].lower()
+        image_data = decode_image_data(match)
+        out_relpath = self.image_relpath_by_data.get((file_ext, image_data))
         need_to_create = out_relpath is None
         if need_to_create:
             self.image_counter += 1
-            file_ext = image_type.split("+", 1)[0]
             out_relpath = os.path.join(
                 self.image_out_folder, f"{self.image_counter}.{file_ext}"
             )
-            self.image_relpath_by_data[image_data] = out_relpath
+            self.image_relpath_by_data[(file_ext, image_data)] = out_relpath
 
+        self.skip_next_url_function = node["type"] == CSSTokenType.string
         result: List[CSSToken] = [
-            self.stack[0],
+            *self.stack[:-1],
             CSSToken(
-                type=CSSTokenType.string,
+                type=node["type"],
                 value=out_relpath[len(os.path.join("out", "www")) :].replace(
                     os.path.sep, "/"
                 ),
@@ -120,7 +140,6 @@ class OutlineImageDataManipulator(CSSManipulator):
         ]
         self.stack = None
         self.state = None
-        self.skip_next_url_function = True
 
         if self.mode == "scan":
             if need_to_create:
@@ -132,13 +151,13 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
+            if os.path.lexists(out_path):
                 self.reused.add(out_relpath)
             else:
                 self.produced.add(out_relpath)
                 makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "w", newline="\n") as f:
-                    f.write(unquote(image_data))
+                with open(out_path, "wb") as f:
+                    f.write(image_data)
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
@@ -148,12 +167,21 @@ class OutlineImageDataManipulator(CSSManipulator):
         with open(out_path + ".hash") as f:
             hash_value = f.read()
 
-        result[1]["value"] += "?" + urlencode(
+        result[-1]["value"] += "?" + urlencode(
             {"v": hash_value, "pv": PROCESSOR_VERSION}
         )
 
         return result
 
+    def _match(self, node: CSSToken) -> Optional[re.Match]:
+        """Matches the image data source which is the value of the given node, if any"""
+        if node["type"] not in (CSSTokenType.string, CSSTokenType.url):
+            return None
+        match = IMAGE_DATA_REGEX.match(node["value"])
+        if match is None or decode_image_data(match) is None:
+            return None
+        return match
+
     def scan_result(self) -> ScanFileResult:
         """The scan result for this manipulator"""
         return ScanFileResult(
-- 
2.43.0


From 1f068951bbc5056bdcff8dfa89eb7c7be984aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 41/66] fix: import selectors containing the word from

---
 vanillaplusjs/build/css/manips/nest.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index bbea1e5..a5dca59 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -364,10 +364,8 @@ class NestManipulator(CSSManipulator):
 
         args = match.group("args")
         args = args.strip()
-        try:
-            from_index = args.lower().index("from")
-        except ValueError:
-            from_index = None
+        from_match = re.search(r"\sfrom(?=\s)", args, re.IGNORECASE)
+        from_index = from_match.start() + 1 if from_match is not None else None
 
         import_relpath = None
         if from_index is not None:
-- 
2.43.0


From 6831a6bc74cbbc164dec8b2ce9a7b5605810ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 42/66] fix: end the declarations of imported rules

---
 vanillaplusjs/build/css/manips/nest.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a5dca59..abdaff2 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -219,6 +219,21 @@ PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
 )
 
 
+def _end_last_declaration(simple_block: List[CSSToken]) -> None:
+    """Adds the semicolon which may be omitted after the last declaration of a block,
+    since other declarations may follow where it's imported.
+    """
+    for token in reversed(simple_block):
+        if token["type"] in (CSSTokenType.whitespace, CSSTokenType.comment):
+            continue
+        if token["type"] not in (
+            CSSTokenType.semicolon,
+            CSSTokenType.right_curly_bracket,
+        ):
+            simple_block.append(CSSToken(type=CSSTokenType.semicolon))
+        return
+
+
 class NestManipulator(CSSManipulator):
     """Allows simple CSS nesting via importing another style into a given
     style.
@@ -572,6 +587,9 @@ class NestManipulator(CSSManipulator):
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            if not missing_references:
+                _end_last_declaration(value)
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
@@ -605,6 +623,7 @@ class NestManipulator(CSSManipulator):
             referenced_rule = self.referencable_rules.available_rules[imp]
             stack = referenced_rule.simple_block + stack
 
+        _end_last_declaration(new_nodes)
         resolved_rule = QualifiedRule(
             tokenized_prelude=unresolved_rule.rule.tokenized_prelude,
             serialized_prelude=unresolved_rule.rule.serialized_prelude,
-- 
2.43.0


From 5b85eba7505b14fec89049e5e9e9c44059c03cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 43/66] fix: import rules which import from other files

---
 vanillaplusjs/build/css/manips/nest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index abdaff2..cdfff1e 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -549,6 +549,10 @@ class NestManipulator(CSSManipulator):
                     continue
 
                 if (nested_import := self._get_import(token)) is not None:
+                    if nested_import.relpath not in (imp.relpath, self.relpath):
+                        # we won't find it here
+                        self._ensure_child_import_resolved(nested_import)
+
                     if nested_import in self.referencable_rules.available_rules:
                         stack = (
                             self.referencable_rules.available_rules[
-- 
2.43.0


From 1a2fabd6bcee40736f98334b3ec3056620139d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 44/66] fix: import rules which follow an at-rule without a
 block

---
 vanillaplusjs/build/css/manips/nest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index cdfff1e..435407f 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -495,10 +495,16 @@ class NestManipulator(CSSManipulator):
                 continue
 
             if token["type"] == CSSTokenType.at_keyword:
-                while token["type"] != CSSTokenType.left_curly_bracket:
+                while token["type"] not in (
+                    CSSTokenType.left_curly_bracket,
+                    CSSTokenType.semicolon,
+                ):
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
                         raise ValueError(f"{imp=}")
+                if token["type"] == CSSTokenType.semicolon:
+                    # without a block
+                    continue
                 nest_level = 1
                 while nest_level > 0:
                     token = next(generator)
-- 
2.43.0


From 9608742384b3829f9013b548ab764506c01b4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 45/66] fix: know the colours of stylesheets by their names

---
 vanillaplusjs/build/css/manips/icons/settings.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..a7276f7 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -246,6 +246,7 @@ NAMED_CSS_COLORS = {
     "darkcyan": Color(red=0, green=139, blue=139),
     "darkgoldenrod": Color(red=184, green=134, blue=11),
     "darkgray": Color(red=169, green=169, blue=169),
+    "darkgrey": Color(red=169, green=169, blue=169),
     "darkgreen": Color(red=0, green=100, blue=0),
     "darkkhaki": Color(red=189, green=183, blue=107),
     "darkmagenta": Color(red=139, green=0, blue=139),
@@ -257,11 +258,13 @@ NAMED_CSS_COLORS = {
     "darkseagreen": Color(red=143, green=188, blue=143),
     "darkslateblue": Color(red=72, green=61, blue=139),
     "darkslategray": Color(red=47, green=79, blue=79),
+    "darkslategrey": Color(red=47, green=79, blue=79),
     "darkturquoise": Color(red=0, green=206, blue=209),
     "darkviolet": Color(red=148, green=0, blue=211),
     "deeppink": Color(red=255, green=20, blue=147),
     "deepskyblue": Color(red=0, green=191, blue=255),
     "dimgray": Color(red=105, green=105, blue=105),
+    "dimgrey": Color(red=105, green=105, blue=105),
     "dodgerblue": Color(red=30, green=144, blue=255),
     "firebrick": Color(red=178, green=34, blue=34),
     "floralwhite": Color(red=255, green=250, blue=240),
@@ -271,7 +274,8 @@ NAMED_CSS_COLORS = {
     "ghostwhite": Color(red=248, green=248, blue=255),
     "gold": Color(red=255, green=215, blue=0),
     "goldenrod": Color(red=218, green=165, blue=32),
-    "gray": Color(red=127, green=127, blue=127),
+    "gray": Color(red=128, green=128, blue=128),
+    "grey": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
     "greenyellow": Color(red=173, green=255, blue=47),
     "honeydew": Color(red=240, green=255, blue=240),
@@ -289,12 +293,14 @@ NAMED_CSS_COLORS = {
     "lightcyan": Color(red=224, green=255, blue=255),
     "lightgoldenrodyellow": Color(red=250, green=250, blue=210),
     "lightgreen": Color(red=144, green=238, blue=144),
+    "lightgray": Color(red=211, green=211, blue=211),
     "lightgrey": Color(red=211, green=211, blue=211),
     "lightpink": Color(red=255, green=182, blue=193),
     "lightsalmon": Color(red=255, green=160, blue=122),
     "lightseagreen": Color(red=32, green=178, blue=170),
     "lightskyblue": Color(red=135, green=206, blue=250),
     "lightslategray": Color(red=119, green=136, blue=153),
+    "lightslategrey": Color(red=119, green=136, blue=153),
     "lightsteelblue": Color(red=176, green=196, blue=222),
     "lightyellow": Color(red=255, green=255, blue=224),
     "lime": Color(red=0, green=255, blue=0),
@@ -317,7 +323,6 @@ NAMED_CSS_COLORS = {
     "moccasin": Color(red=255, green=228, blue=181),
     "navajowhite": Color(red=255, green=222, blue=173),
     "navy": Color(red=0, green=0, blue=128),
-    "navyblue": Color(red=159, green=175, blue=223),
     "oldlace": Color(red=253, green=245, blue=230),
     "olive": Color(red=128, green=128, blue=0),
     "olivedrab": Color(red=107, green=142, blue=35),
@@ -335,12 +340,13 @@ NAMED_CSS_COLORS = {
     "plum": Color(red=221, green=160, blue=221),
     "powderblue": Color(red=176, green=224, blue=230),
     "purple": Color(red=128, green=0, blue=128),
+    "rebeccapurple": Color(red=102, green=51, blue=153),
     "red": Color(red=255, green=0, blue=0),
     "rosybrown": Color(red=188, green=143, blue=143),
     "royalblue": Color(red=65, green=105, blue=225),
     "saddlebrown": Color(red=139, green=69, blue=19),
     "salmon": Color(red=250, green=128, blue=114),
-    "sandybrown": Color(red=250, green=128, blue=114),
+    "sandybrown": Color(red=244, green=164, blue=96),
     "seagreen": Color(red=46, green=139, blue=87),
     "seashell": Color(red=255, green=245, blue=238),
     "sienna": Color(red=160, green=82, blue=45),
@@ -348,6 +354,7 @@ NAMED_CSS_COLORS = {
     "skyblue": Color(red=135, green=206, blue=235),
     "slateblue": Color(red=106, green=90, blue=205),
     "slategray": Color(red=112, green=128, blue=144),
+    "slategrey": Color(red=112, green=128, blue=144),
     "snow": Color(red=255, green=250, blue=250),
     "springgreen": Color(red=0, green=255, blue=127),
     "steelblue": Color(red=70, green=130, blue=180),
-- 
2.43.0


From de6c2de428046e003f65e0a99af33b8136e723a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 46/66] fix: find every colour and icon size the default
 stylesheet declares

---
 .../build/css/manips/icons/settings.py        | 67 ++++++++++++-------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a7276f7..6d9df5b 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -55,6 +55,22 @@ class IconSettings:
     """
 
 
+OPENING_TOKENS = (
+    CSSTokenType.function,
+    CSSTokenType.left_parens,
+    CSSTokenType.left_square_bracket,
+    CSSTokenType.left_curly_bracket,
+)
+"""The tokens which start a nested part of a value"""
+
+CLOSING_TOKENS = (
+    CSSTokenType.right_parens,
+    CSSTokenType.right_square_bracket,
+    CSSTokenType.right_curly_bracket,
+)
+"""The tokens which end a nested part of a value"""
+
+
 def load_icon_settings(context: BuildContext) -> IconSettings:
     """Loads the icon settings from the given build context."""
     with open(context.config_file, "r") as f:
@@ -176,32 +192,37 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                     break
 
                 # token is the left curly bracket for the :root qualified rule
-                token = next_significant()
-                while token["type"] != CSSTokenType.right_curly_bracket:
-                    if token["type"] != CSSTokenType.ident:
-                        # parse error
-                        break
-
-                    component_name = token["value"]
-
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.colon:
-                        # parse error
-                        break
-
-                    component_value: List[CSSToken] = [next_significant()]
-                    if component_value[0]["type"] == CSSTokenType.function:
+                ended = False
+                while not ended:
+                    declaration: List[CSSToken] = []
+                    nest_level = 0
+                    try:
                         token = next_significant()
-                        while token["type"] != CSSTokenType.right_parens:
-                            component_value.append(token)
+                        while nest_level > 0 or token["type"] not in (
+                            CSSTokenType.semicolon,
+                            CSSTokenType.right_curly_bracket,
+                        ):
+                            if token["type"] in OPENING_TOKENS:
+                                nest_level += 1
+                            elif token["type"] in CLOSING_TOKENS:
+                                nest_level = max(nest_level - 1, 0)
+                            declaration.append(token)
                             token = next_significant()
-                        component_value.append(token)
+                        ended = token["type"] == CSSTokenType.right_curly_bracket
+                    except StopIteration:
+                        # the end of the file ends the rule
+                        ended = True
+
+                    if (
+                        len(declaration) < 3
+                        or declaration[0]["type"] != CSSTokenType.ident
+                        or declaration[1]["type"] != CSSTokenType.colon
+                    ):
+                        # not a declaration with a value
+                        continue
 
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.semicolon:
-                        # parse error
-                        break
-                    token = next_significant()
+                    component_name = declaration[0]["value"]
+                    component_value = declaration[2:]
 
                     if component_name.startswith("--col-"):
                         color = interpret_as_color(component_value)
-- 
2.43.0


From 3755da1f0d1e3bcaed6c6800cf69bedd856f00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 47/66] fix: allow icon buttons with identifiers without a
 default one

---
 vanillaplusjs/build/css/manips/icons/settings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 6d9df5b..10a44a4 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -84,6 +84,7 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
         ),
         button_by_identifier=dict(),
     )
+    base_button: ButtonSetting = button_settings.default_button
     icons: Optional[dict] = config.get("icons")
     if icons is not None:
         default_button: Optional[dict] = icons.get(
@@ -124,15 +125,18 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 button_settings, button_by_identifier=dict()
             )
         else:
+            if button_settings.default_button is not None:
+                base_button = button_settings.default_button
+
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", base_button.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", base_button.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", base_button.disabled_color
                 )
                 if (
                     active_color is not None
-- 
2.43.0


From 1ac13569d2a5777afcb682a45b60c6214e69e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 48/66] fix: generate icon files for the colours only buttons
 use

---
 .../build/css/manips/icons/command.py          | 18 ++++++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py  |  4 ++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/command.py b/vanillaplusjs/build/css/manips/icons/command.py
index afae37a..13575fc 100644
--- a/vanillaplusjs/build/css/manips/icons/command.py
+++ b/vanillaplusjs/build/css/manips/icons/command.py
@@ -41,6 +41,24 @@ class IconCommand:
         """The location of the output icon folder relative to the project root"""
         return os.path.join("out", "www", "img", "icons", self.icon_name)
 
+    @property
+    def file_colors(self) -> List[str]:
+        """The colors for which there is a file: the colors to output for the icon,
+        and those its buttons use. Requires that the output colors and the button
+        settings have been filled in.
+        """
+        result = dict((color, None) for color in self.output_colors)
+        if self.button is not None:
+            for setting in (
+                self.button.default_button,
+                *self.button.button_by_identifier.values(),
+            ):
+                if setting is not None:
+                    result[setting.active_color] = None
+                    result[setting.hover_color] = None
+                    result[setting.disabled_color] = None
+        return list(result)
+
     def web_path_to(self, color: str) -> str:
         """Returns the path part of the URL for this icon in the given color"""
         return f"/img/icons/{self.icon_name}/{color}.svg"
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 8ab1e76..2ae5000 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -76,7 +76,7 @@ class IconManipulator(CSSManipulator):
         svg = None
         replacer = None
 
-        for color in args.output_colors:
+        for color in args.file_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
@@ -563,7 +563,7 @@ class IconManipulator(CSSManipulator):
         """
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in args.file_colors:
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From d36f6b8deb0b515ae434472603fe57ea599de7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 49/66] fix: recolour icons however their colour is written

---
 vanillaplusjs/build/css/manips/icons/color.py | 15 +++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py |  6 +++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/color.py b/vanillaplusjs/build/css/manips/icons/color.py
index 09a89de..0077600 100644
--- a/vanillaplusjs/build/css/manips/icons/color.py
+++ b/vanillaplusjs/build/css/manips/icons/color.py
@@ -1,4 +1,5 @@
 from dataclasses import dataclass
+import re
 
 
 @dataclass
@@ -36,3 +37,17 @@ class Color:
 
     def to_hex(self) -> str:
         return f"#{self.red:02X}{self.green:02X}{self.blue:02X}"
+
+    def to_pattern(self) -> "re.Pattern[str]":
+        """A pattern which matches this color in an svg in hexadecimal notation, i.e.,
+        #RRGGBB or #RGB where possible in upper or lower case, but neither longer
+        words nor references to elements (such as url(#abc) or href="#abc").
+        """
+        long_hex = self.to_hex()
+        alternatives = [long_hex]
+        if long_hex[1::2] == long_hex[2::2]:
+            alternatives.append("#" + long_hex[1::2])
+        return re.compile(
+            r"(?<![(\w&])(?<!href=[\"'])(?:" + "|".join(alternatives) + r")(?![\w-])",
+            flags=re.IGNORECASE,
+        )
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 2ae5000..ae8ff74 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -88,8 +88,8 @@ class IconManipulator(CSSManipulator):
                     svg = f.read()
 
                 og_color = self.context.icon_settings.color_map[args.icon_initial_color]
-                replacer = f'"{og_color.to_hex()}"'
-                if replacer not in svg:
+                replacer = og_color.to_pattern()
+                if replacer.search(svg) is None:
                     logger.warning(
                         f"Icon {args.icon_name} does not have the "
                         f"color {args.icon_initial_color} ({og_color.to_hex()}) in it"
@@ -98,7 +98,7 @@ class IconManipulator(CSSManipulator):
                     logger.debug(f"{replacer=}")
 
             target_color = self.context.icon_settings.color_map[color]
-            new_svg = svg.replace(replacer, f'"{target_color.to_hex()}"')
+            new_svg = replacer.sub(target_color.to_hex(), svg)
             makedirs_safely(os.path.dirname(output_path))
             with open(output_path, "w", newline="\n") as f:
                 f.write(new_svg)
-- 
2.43.0


From 73fda340de3b250fce626b921c79aa59409304b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 50/66] fix: only look for comments missed by the parser in
 title and textarea

---
 vanillaplusjs/build/html/tokenizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 654d110..41502bb 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -32,6 +32,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
     walker = html5lib.getTreeWalker("dom")
 
     tokens = iter(walker(doc))
+    in_rcdata = False
     while True:
         try:
             token = next(tokens)
@@ -45,7 +46,13 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
 
         # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
 
-        if token["type"] == "Characters" and token["data"] == "<":
+        if token["type"] == "StartTag":
+            in_rcdata = token["name"] in ("title", "textarea")
+        elif token["type"] == "EndTag":
+            in_rcdata = False
+
+        # elsewhere comments are handled correctly, and this is the text "<!--"
+        if in_rcdata and token["type"] == "Characters" and token["data"] == "<":
             try:
                 next_token = next(tokens)
             except StopIteration:
-- 
2.43.0


From e6c53e7fcb19298eadd3e5fa68d6276c44cf9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 51/66] fix: leave references to files on other hosts alone

---
 vanillaplusjs/build/html/manips/link_hash.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index c60abae..b6cdece 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -191,13 +191,20 @@ class LinkHash(HTMLManipulator):
         href = attributes.get((None, link_type.attr_name))
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
+        if href.startswith("//"):
+            # on another host
+            return None
 
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
             path=href[1:],
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                (
+                    (key[1], val)
+                    for (key, val) in attributes.items()
+                    if key[1] != link_type.attr_name
+                )
             ),
         )
 
-- 
2.43.0


From a129841b6bc1379d4319086d0f341e3591a85ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 52/66] fix: canonical urls for relative paths and other hosts

---
 .../build/html/manips/link_rel_canonical.py   | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..c835f06 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -5,13 +5,19 @@ from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
+import re
 from dataclasses import dataclass
+from urllib.parse import urljoin
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
 
+ABSOLUTE_URL_RULE = re.compile(r"^[a-zA-Z][a-zA-Z0-9+.-]*:")
+"""Regex that matches urls which start with a scheme"""
+
+
 @dataclass
 class TagToReplace:
     """Describes a tag with an attribute which functions like the href in a
@@ -73,13 +79,14 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         tag = self.try_get_tag(node)
 
         href = node["data"].get((None, tag.attr))
-        new_href = None
-        if href is None:
-            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
-        else:
-            new_href = f"https://{host}{href}"
+        path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
+        path = path_relative_to_public.replace(os.path.sep, "/")
+        new_href = f"https://{host}/{path}"
+        if href is not None:
+            if href.startswith("//") or href[:1] not in ("", "/", "?", "#"):
+                new_href = urljoin(new_href, href)
+            else:
+                new_href = f"https://{host}{href}"
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
@@ -93,7 +100,7 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        if href is not None and ABSOLUTE_URL_RULE.match(href):
             return None
 
         tag.other_tags = dict(
-- 
2.43.0


From b98acbcc15d1809bd0ea3210bf11768dc6636e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 53/66] fix: stack frames pushed for partials resolve their
 paths

---
 vanillaplusjs/build/html/manips/template.py | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 999c934..b00c6a8 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -102,8 +102,9 @@ class TemplateManipulator(HTMLManipulator):
         return []
 
     def handle_stack_push(self, parsed_args: list) -> List[tkn.HTMLToken]:
+        relpath = self.resolve_path(parsed_args[1])
         self.stack.append(self.current_frame)
-        self.current_frame = StackFrame(relpath=parsed_args[1], variables=dict())
+        self.current_frame = StackFrame(relpath=relpath, variables=dict())
         return []
 
     def handle_stack_pop(self) -> List[tkn.HTMLToken]:
@@ -146,7 +147,8 @@ class TemplateManipulator(HTMLManipulator):
         result = []
         result.append(
             tkn.HTMLToken(
-                type="Comment", data=f"[STACK: {json.dumps(['push', imp.relpath])}]"
+                type="Comment",
+                data=f"[STACK: {json.dumps(['push', self.to_command_path(imp.relpath)])}]",
             )
         )
         for key, val in imp.variables.items():
@@ -213,20 +215,7 @@ class TemplateManipulator(HTMLManipulator):
 
             variables = parsed_args[1]
 
-        if command_path.startswith("/"):
-            # assume relative to src/partials
-            command_path_rel_partials = command_path[1:].replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                "src", "partials", command_path_rel_partials
-            )
-        else:
-            command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                os.path.dirname(self.current_frame.relpath),
-                command_path_rel_current_relpath,
-            )
-
-        command_path_rel_project_root = os.path.normpath(command_path_rel_project_root)
+        command_path_rel_project_root = self.resolve_path(command_path)
 
         for var_key in list(variables.keys()):
             var_val = variables[var_key]
@@ -245,6 +234,32 @@ class TemplateManipulator(HTMLManipulator):
             relpath=command_path_rel_project_root, variables=variables
         )
 
+    def resolve_path(self, command_path: str) -> str:
+        """Determines which file, relative to the project root, the given path
+        within a command refers to.
+        """
+        if command_path.startswith("/"):
+            # assume relative to src/partials
+            command_path_rel_partials = command_path[1:].replace("/", os.path.sep)
+            command_path_rel_project_root = os.path.join(
+                "src", "partials", command_path_rel_partials
+            )
+        else:
+            command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
+            command_path_rel_project_root = os.path.join(
+                os.path.dirname(self.current_frame.relpath),
+                command_path_rel_current_relpath,
+            )
+
+        return os.path.normpath(command_path_rel_project_root)
+
+    def to_command_path(self, relpath: str) -> str:
+        """The path which refers to the given file, relative to the project root,
+        in any command.
+        """
+        rel_partials = os.path.relpath(relpath, os.path.join("src", "partials"))
+        return "/" + rel_partials.replace(os.path.sep, "/")
+
     def try_get_command(
         self, regex: Pattern[str], node: tkn.HTMLToken
     ) -> Optional[List]:
-- 
2.43.0


From 597eac8d352e473647bdc8626bd40314dbca8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 54/66] fix: leave data blocks in pages, they aren't scripts

---
 vanillaplusjs/build/html/manips/outline.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 35615bd..6369287 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -14,6 +14,26 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
+SCRIPT_TYPES = frozenset(
+    (
+        "",
+        "module",
+        "application/ecmascript",
+        "application/javascript",
+        "application/x-ecmascript",
+        "application/x-javascript",
+        "text/ecmascript",
+        "text/javascript",
+        "text/x-ecmascript",
+        "text/x-javascript",
+    )
+)
+"""The types of script tags which contain javascript. Other types are for data,
+e.g., application/ld+json, which is never loaded from another file nor restricted
+by the content security policy.
+"""
+
+
 class OutlineManipulator(HTMLManipulator):
     """Upon encountering a script tag without a src or a style
     tag, this will add a new script tag with the src pointing to the generated
@@ -198,6 +218,7 @@ class OutlineManipulator(HTMLManipulator):
             node["type"] == "StartTag"
             and node["name"] == "script"
             and (None, "src") not in node["data"]
+            and node["data"].get((None, "type"), "").strip().lower() in SCRIPT_TYPES
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-- 
2.43.0


From 9645afcdcc5e20989a16a17598d6fe4eb621bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 55/66] fix: export each size of an image once

---
 vanillaplusjs/build/html/manips/images/resolutions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/resolutions.py b/vanillaplusjs/build/html/manips/images/resolutions.py
index c66390e..a867418 100644
--- a/vanillaplusjs/build/html/manips/images/resolutions.py
+++ b/vanillaplusjs/build/html/manips/images/resolutions.py
@@ -49,9 +49,14 @@ def yield_sizes(
 ) -> Generator[Tuple[int, int], None, None]:
     """Analogous to yield_resolutions, but yields the sizes to export
     an image of the given source size targetting the given destination
-    size, instead of the multiple of the base resolution.
+    size, instead of the multiple of the base resolution. Resolutions which
+    result in the same size only yield it once.
     """
+    last_size = None
     for resolution in yield_resolutions(
         context, src_width, src_height, dst_width, dst_height
     ):
-        yield int(dst_width * resolution), int(dst_height * resolution)
+        size = int(dst_width * resolution), int(dst_height * resolution)
+        if size != last_size:
+            yield size
+        last_size = size
-- 
2.43.0


From 9d14a138a809443bf575862e4ae0dc4e186240fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 56/66] fix: read the loading choice behind crop arguments

---
 vanillaplusjs/build/html/manips/images/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index c977bf1..73c5af1 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -148,8 +148,8 @@ def parse_command(args: str) -> ImageCommand:
                 break
 
         remaining_arguments = p.read()
-        if remaining_arguments and remaining_arguments[0] == " ":
-            args = args[:4] + [real_crop_arguments, remaining_arguments]
+        if remaining_arguments and remaining_arguments[0].isspace():
+            args = args[:4] + [real_crop_arguments, *remaining_arguments.split()]
 
         try:
             crop_arguments = json.loads(real_crop_arguments)
-- 
2.43.0


From e326c3a6a39ca3147e1a54bee7c81a03bca081b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 57/66] fix: reject crops outside of the image

---
 vanillaplusjs/build/html/manips/images/cover_fit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/cover_fit.py b/vanillaplusjs/build/html/manips/images/cover_fit.py
index ff82c47..fb7e0f9 100644
--- a/vanillaplusjs/build/html/manips/images/cover_fit.py
+++ b/vanillaplusjs/build/html/manips/images/cover_fit.py
@@ -59,6 +59,15 @@ def cover_fit(
     crop_left_percentage = Decimal(crop_left_percentage)
     crop_top_percentage = Decimal(crop_top_percentage)
 
+    if min(pre_top_crop, pre_left_crop, pre_bottom_crop, pre_right_crop) < 0:
+        raise ValueError(
+            f"Cannot crop a negative amount: {pre_top_crop=}, {pre_left_crop=}, {pre_bottom_crop=}, {pre_right_crop=}"
+        )
+    if not (0 <= crop_left_percentage <= 1 and 0 <= crop_top_percentage <= 1):
+        raise ValueError(
+            f"{crop_left_percentage=} and {crop_top_percentage=} must be between 0 and 1"
+        )
+
     if (
         pre_top_crop != 0
         or pre_left_crop != 0
-- 
2.43.0


From 027f1c6ce526deb0b24d1dbb0aa6da74222c6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 58/66] fix: images of pages don't come from outside src/public

---
 vanillaplusjs/build/html/manips/images/command.py | 4 ++--
 vanillaplusjs/build/html/manips/images/manip.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index 73c5af1..141ff08 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -51,8 +51,8 @@ class ImageCommand:
         of the project.
         """
         if self.path.startswith("/"):
-            return os.path.join(
-                "src", "public", self.path[1:].replace("/", os.path.sep)
+            return os.path.normpath(
+                os.path.join("src", "public", self.path[1:].replace("/", os.path.sep))
             )
 
         abs_path = os.path.abspath(
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index c9f9eb1..22658d6 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -132,7 +132,7 @@ class ImagesManipulator(HTMLManipulator):
         command_file_path = os.path.join(self.context.folder, self.relpath)
         if not validate_command(cmd, self.context, command_file_path):
             image = cmd.source_path_relative_to_root(self.context, command_file_path)
-            if image.startswith(os.path.join("src", "public")):
+            if image.startswith(os.path.join("src", "public", "")):
                 # it might be valid once the image changes
                 (self.dependencies if self.mode == "scan" else self.children).add(
                     image
-- 
2.43.0


From 437b0b4652d8bd12744ae2bbaf3125de8a297532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 59/66] fix: only foresee image formats with an applicable
 export

---
 vanillaplusjs/build/html/manips/images/scanner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/scanner.py b/vanillaplusjs/build/html/manips/images/scanner.py
index 1672f99..936ade7 100644
--- a/vanillaplusjs/build/html/manips/images/scanner.py
+++ b/vanillaplusjs/build/html/manips/images/scanner.py
@@ -81,7 +81,12 @@ def scan_command(
     for out_width, out_height in yield_sizes(
         context, image_width, image_height, command.width, command.height
     ):
-        for format_name in context.image_settings.formats.keys():
+        for format_name, format_settings in context.image_settings.formats.items():
+            if not any(
+                export_settings.applies_to(out_width, out_height)
+                for export_settings in format_settings.exports.values()
+            ):
+                continue
             file_name = f"{out_width}x{out_height}.{format_name}"
             produces.append(os.path.join(target_art_folder_relative_to_root, file_name))
             produces.append(os.path.join(target_out_folder_relative_to_root, file_name))
-- 
2.43.0


From db3a1b7a0d19b80da15a7462dd85f5cfeb59e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 60/66] fix: images of image lists don't come from outside
 src/public

---
 vanillaplusjs/build/handlers/image_glue.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index ba92deb..8381367 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -296,8 +296,11 @@ def get_images(data: Any) -> List[str]:
         if not isinstance(img_target_settings, dict):
             continue
         path = img_target_settings.get("path")
-        if isinstance(path, str) and path.startswith("/"):
-            images.add(os.path.join("src", "public", path[1:]))
+        if not isinstance(path, str) or not path.startswith("/"):
+            continue
+        image = os.path.normpath(os.path.join("src", "public", path[1:]))
+        if image.startswith(os.path.join("src", "public", "")):
+            images.add(image)
     return list(images)
 
 
@@ -325,8 +328,11 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] path is not absolute", ctx())
             return False
 
-        path_rel_to_public = path[1:]
-        path_rel_to_root = os.path.join("src", "public", path_rel_to_public)
+        path_rel_to_root = os.path.normpath(os.path.join("src", "public", path[1:]))
+        if not path_rel_to_root.startswith(os.path.join("src", "public", "")):
+            logger.warning("[{}] path is not in the public folder", ctx())
+            return False
+
         if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
             logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
             return False
-- 
2.43.0


From 6eeef9aad389af871334d8967eddebb373f02efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 61/66] fix: check the crop arguments of image lists

---
 vanillaplusjs/build/handlers/image_glue.py | 28 ++++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 8381367..0035a6c 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -360,7 +360,7 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
+        crop_settings = img_target_settings.get("crop_arguments", dict())
         if not isinstance(crop_settings, dict):
             logger.warning("[{}] crop settings are not a dictionary", ctx())
             return False
@@ -383,20 +383,22 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             "pre_right_crop",
             "pre_bottom_crop",
         ):
-            if crop_settings.get(key, 0) < 0:
-                logger.warning("[{}] crop setting {} is negative", ctx(), key)
+            pre_crop = crop_settings.get(key, 0)
+            if not isinstance(pre_crop, int) or pre_crop < 0:
+                logger.warning(
+                    "[{}] crop setting {} is not an integer or is negative", ctx(), key
+                )
                 return False
 
-        if not (0 <= crop_settings.get("crop_left_percentage", 0.5) <= 1):
-            logger.warning(
-                "[{}] crop setting crop_left_percentage is out of range", ctx()
-            )
-            return False
-        if not (0 <= crop_settings.get("crop_top_percentage", 0.5) <= 1):
-            logger.warning(
-                "[{}] crop setting crop_top_percentage is out of range", ctx()
-            )
-            return False
+        for key in ("crop_left_percentage", "crop_top_percentage"):
+            percentage = crop_settings.get(key, 0.5)
+            if not isinstance(percentage, (int, float)) or not (0 <= percentage <= 1):
+                logger.warning(
+                    "[{}] crop setting {} is not a number or is out of range",
+                    ctx(),
+                    key,
+                )
+                return False
 
         post_cropped_img_width = (
             img_width
-- 
2.43.0


From 2d4f4446e16a3ee7925bb4229ebb0874a2e2701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 62/66] fix: find produced image variants despite a pending
 reservation

---
 vanillaplusjs/build/html/manips/images/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 9203acc..1005c42 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -265,6 +265,7 @@ def get_target(
 
     settings_hash = hash_image_settings(context.image_settings)
 
+    reserved_id: Optional[int] = None
     scanner = os.scandir(art_path)
     try:
         while True:
@@ -281,7 +282,8 @@ def get_target(
                 makedirs_safely(os.path.dirname(lock_path))
                 with fasteners.InterProcessLock(lock_path):
                     if is_reserved_for(entry.path, target):
-                        return int(entry.name)
+                        # it might have been produced under another id
+                        reserved_id = int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -317,7 +319,7 @@ def get_target(
 
             return int(entry.name)
 
-        return None
+        return reserved_id
     finally:
         scanner.close()
 
-- 
2.43.0


From d0a27c8fe6a7126e2d7c6e40967ade30f47419b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 63/66] fix: look for image list placeholders in the project
 folder

The check was relative to the current directory, so that building another
project (--folder) could omit placeholders.
---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 0035a6c..eea9f3e 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -173,7 +173,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
     if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
-- 
2.43.0


From 906d82e4a7041218daa5be518e40fb0150c658c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 64/66] fix: generate placeholders again once the script in
 their place was deleted

Only the deletion of scripts known to be placeholders was noticed, not the one of
the user's own scripts or of placeholders generated by builds that were killed.
---
 vanillaplusjs/build/hot_incremental_rebuild.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index ad14a4d..5a5283a 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,6 +6,7 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
+from vanillaplusjs.build.handlers.image_glue import get_generator
 from vanillaplusjs.build.incomplete_build import (
     mark_build_completed,
     mark_build_started,
@@ -135,12 +136,19 @@ async def hot_incremental_rebuild(
         # Files which merely depend on a file that changed are scanned as well, since
         # what they depend on and produce is not determined by their contents alone:
         # for example, an html page produces the images in the templates it uses
+        # This includes files whose placeholder has to be generated again
+        generators = {get_generator(context, file) for file in deleted_files}
         files_that_need_scanning = [
             file
             for file in get_affected_files(
                 old_dependency_graph,
                 old_placeholders_graph,
-                itertools.chain(changed_files, added_files, deleted_files),
+                itertools.chain(
+                    changed_files,
+                    added_files,
+                    deleted_files,
+                    (file for file in generators if file in old_dependency_graph),
+                ),
             )
             if file not in deleted_files
         ]
-- 
2.43.0


From c04fa1c05de76e59ad1de07fc08721c8b8f9d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 65/66] fix: remember placeholders that were generated by
 builds that fail

Otherwise they are not recognized as placeholders afterwards, and not removed by
clean.
---
 .../build/hot_incremental_rebuild.py          | 57 +++++++++++++++++--
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 5a5283a..abc25b2 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -191,6 +191,13 @@ async def hot_incremental_rebuild(
                         if placeholder_relpath in deleted_files:
                             deleted_files.remove(placeholder_relpath)
 
+        if new_placeholders:
+            # From now on they are known to be generated, even if the build fails
+            store_placeholder_graph(
+                context,
+                add_placeholders(context, old_placeholders_graph, new_placeholders),
+            )
+
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
         # to produce that output file.
@@ -644,11 +651,7 @@ async def hot_incremental_rebuild(
         with open(context.output_graph_file, "w") as fp:
             new_output_graph.store(fp)
 
-        placeholder_graph_contents = io.StringIO()
-        new_placeholder_graph.store(placeholder_graph_contents)
-        write_text_atomically(
-            context.placeholder_graph_file, placeholder_graph_contents.getvalue()
-        )
+        store_placeholder_graph(context, new_placeholder_graph)
 
         mark_build_completed(context)
 
@@ -656,6 +659,50 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def store_placeholder_graph(
+    context: BuildContext, placeholder_graph: FileDependencyGraph
+) -> None:
+    """Stores the given placeholder graph, which survives builds that fail."""
+    contents = io.StringIO()
+    placeholder_graph.store(contents)
+    write_text_atomically(context.placeholder_graph_file, contents.getvalue())
+
+
+def add_placeholders(
+    context: BuildContext,
+    old_placeholders_graph: FileDependencyGraph,
+    new_placeholders: Dict[str, str],
+) -> FileDependencyGraph:
+    """Adds placeholders that were just generated to a copy of the placeholder graph.
+
+    Args:
+        context (BuildContext): The context for the build
+        old_placeholders_graph (FileDependencyGraph): The placeholders as of the last build
+        new_placeholders (dict[str, str]): Maps from the placeholder to its generator
+
+    Returns:
+        FileDependencyGraph: The old and new placeholders
+    """
+    result = FileDependencyGraph()
+    for file, node in old_placeholders_graph.nodes.items():
+        result.add_file(file, node.filesize, node.mtime, node.inode)
+    for file in old_placeholders_graph.nodes:
+        result.set_children(file, old_placeholders_graph.get_children(file))
+
+    for placeholder, generator in new_placeholders.items():
+        for file in (placeholder, generator):
+            if file not in result:
+                signature = get_file_signature(os.path.join(context.folder, file))
+                result.add_file(
+                    file, signature.filesize, signature.mtime, signature.inode
+                )
+        children = result.get_children(generator)
+        if placeholder not in children:
+            result.set_children(generator, children + [placeholder])
+
+    return result
+
+
 def get_affected_files(
     old_dependency_graph: FileDependencyGraph,
     old_placeholders_graph: FileDependencyGraph,
-- 
2.43.0


From cfce1928ca50816a0ca968337b0fd7327411e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 66/66] fix: clean only removes placeholders which were not
 edited or replaced

Scripts of the user in place of a placeholder were removed as well.
---
 vanillaplusjs/build/handlers/image_glue.py | 11 ++++
 vanillaplusjs/runners/clean.py             | 58 +++++++++++-----------
 2 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index eea9f3e..8c46673 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -122,6 +122,17 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     )
 
 
+def is_placeholder(path: str) -> bool:
+    """Determines if the file at the given path exists and is a placeholder just as
+    we generate them.
+    """
+    try:
+        with open(path, "r", errors="replace") as f:
+            return f.read() == PLACEHOLDER_FILE
+    except FileNotFoundError:
+        return False
+
+
 def get_generator(context: BuildContext, relpath: str) -> Optional[str]:
     """If the given file, relative to the root of the project, is a placeholder
     for the javascript file which is generated from an images json file, then this
diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 960f4f7..98b3d6f 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -1,9 +1,10 @@
-from typing import List, Optional, Sequence
+from typing import Dict, List, Optional, Sequence
 import argparse
 import os
 import shutil
 import sys
 from vanillaplusjs.build.graph import FileDependencyGraph
+from vanillaplusjs.build.handlers.image_glue import is_placeholder
 
 
 def main(args: Sequence[str]):
@@ -55,57 +56,56 @@ def clean(folder: str, placeholders: bool) -> None:
         sys.exit(1)
 
     if placeholders:
-        placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
-        if os.path.exists(placeholder_graph_path):
-            with open(placeholder_graph_path, "r") as f:
-                placeholder_graph = FileDependencyGraph.load(f)
-
-            for file, node in placeholder_graph.nodes.items():
-                if node.parents:
-                    try:
-                        os.remove(os.path.join(folder, file))
-                    except FileNotFoundError:
-                        pass  # it was already removed by the user
+        for placeholder in get_placeholders(folder):
+            os.remove(os.path.join(folder, placeholder))
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
 
 
-def prompt_placeholders(folder: str) -> bool:
-    """Prompts the user if they want to remove the generated placeholders.
-    This will intelligently skip prompting if the choice is irrelevant, and
-    will provide relevant information to the user.
+def get_placeholders(folder: str) -> Dict[str, List[str]]:
+    """Determines which placeholders were generated and are still as they were
+    generated, i.e., were not removed, changed or replaced by the user.
 
     Args:
-        folder (str): The folder to clean
+        folder (str): The folder containing vanillaplusjs.json
 
     Returns:
-        bool: The users choice, if it matters, otherwise an arbitrary value
+        dict[str, list[str]]: Maps from the placeholder to the files that generated it
     """
     placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
     if not os.path.exists(placeholder_graph_path):
-        return False
+        return dict()
 
     with open(placeholder_graph_path, "r") as f:
         placeholder_graph = FileDependencyGraph.load(f)
 
-    if len(placeholder_graph.nodes) == 0:
-        return False
-
-    placeholders: List[str] = []
+    result: Dict[str, List[str]] = dict()
     for file, node in placeholder_graph.nodes.items():
-        if node.parents:
-            placeholders.append(file)
+        if node.parents and is_placeholder(os.path.join(folder, file)):
+            result[file] = placeholder_graph.get_parents(file)
+    return result
+
 
+def prompt_placeholders(folder: str) -> bool:
+    """Prompts the user if they want to remove the generated placeholders.
+    This will intelligently skip prompting if the choice is irrelevant, and
+    will provide relevant information to the user.
+
+    Args:
+        folder (str): The folder to clean
+
+    Returns:
+        bool: The users choice, if it matters, otherwise an arbitrary value
+    """
+    placeholders = get_placeholders(folder)
     if len(placeholders) == 0:
         return False
 
     print("This prompt can be suppressed by --placeholders or --no-placeholders.")
     print("The following placeholders would be removed:")
-    for idx, placeholder in enumerate(placeholders):
-        print(
-            f"{idx + 1}. {placeholder} (generated by {placeholder_graph.get_parents(placeholder)})"
-        )
+    for idx, (placeholder, generators) in enumerate(placeholders.items()):
+        print(f"{idx + 1}. {placeholder} (generated by {generators})")
 
     print("Do you want to remove them? (y/n) ", end="")
 
-- 
2.43.0

