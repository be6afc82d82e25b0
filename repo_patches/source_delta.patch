From 150e92211ba0b0c9192d3bd7112838586f7960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 01/62] fix: do not consume the path stack when converting it
 to a string

The selector table holds these stacks, so the second call to `get_selector_paths()` returned empty paths.
---
 conda_recipe_manager/parser/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..b1e9018 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -60,9 +60,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
+    # Normalize the type if a tuple is given. Lists are copied so that the caller's stack is left intact.
+    path_stack = list(path_stack)
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From be0e99d8e9c84e917725249f97e02e8c0336e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 02/62] fix: check out the resolved git target, not always the
 branch

Fetching a tag or a revision ran `git checkout None`.
---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..0c3ebab 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From 1deb5cbbf1290ca2ca03dd6619dc5899f73220da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 03/62] fix: allow fetching from a local git repository

The temporary directory always exists, so the copy always failed.
---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 0c3ebab..1004ded 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                # The temporary directory already exists.
+                shutil.copytree(self._git_target.url, self._temp_dir_path, symlinks=True, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From 961430a47b1d0d00ca50970c94aa893cc417cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 04/62] fix: let a git artifact be fetched again after an
 earlier attempt

Cloning into the leftovers of an earlier attempt always failed, and a failed attempt after a successful one left the
source accessible.
---
 .../fetcher/base_artifact_fetcher.py                | 13 +++++++++++++
 .../fetcher/git_artifact_fetcher.py                 |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/conda_recipe_manager/fetcher/base_artifact_fetcher.py b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
index 7ecc606..98f694f 100644
--- a/conda_recipe_manager/fetcher/base_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import shutil
 from abc import ABCMeta, abstractmethod
 from pathlib import Path
 from tempfile import TemporaryDirectory
@@ -52,6 +53,18 @@ class BaseArtifactFetcher(metaclass=ABCMeta):
             return
         raise FetchRequiredError(msg)
 
+    def _clear_temp_dir(self) -> None:
+        """
+        Removes everything a previous call to `fetch()` left in the temporary directory.
+
+        :raises IOError: If there is an issue with the file system.
+        """
+        for path in self._temp_dir_path.iterdir():
+            if path.is_dir() and not path.is_symlink():
+                shutil.rmtree(path)
+            else:
+                path.unlink()
+
     def __str__(self) -> str:
         """
         Returns a simple string identifier that identifies an ArtifactFetcher instance.
diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 1004ded..92de31a 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -95,7 +95,10 @@ class GitArtifactFetcher(BaseArtifactFetcher):
 
         :raises FetchError: If an issue occurred while cloning the repository.
         """
+        # Previous attempts must not be mistaken for, or get in the way of, this one.
+        self._successfully_fetched = False
         try:
+            self._clear_temp_dir()
             repo: Final[Repo] = self._clone()
         except git_exceptions.GitError as e:
             raise FetchError(f"Failed to git clone from: {self._git_target.url}") from e
-- 
2.43.0


From 08e55d8c825deade4bf43ae30798cde2463fa328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 05/62] fix: forget the previous HTTP artifact when fetching
 again

A failed attempt after a successful one left the accessors enabled, and files of earlier archives were mixed into the
extracted tree.
---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..5688674 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -93,8 +93,11 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
 
         :raises FetchError: If an issue occurred while downloading or extracting the archive.
         """
+        # Previous attempts must not be mistaken for, or leave files mixed with, this one.
+        self._successfully_fetched = False
         # Buffered download approach
         try:
+            self._clear_temp_dir()
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
-- 
2.43.0


From feec40004b5b4a60f5986d2355fa0d8687e51266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 06/62] fix: do not accept the body of an HTTP error response
 as the archive

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 5688674..59e6443 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -99,6 +99,8 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         try:
             self._clear_temp_dir()
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
+            if response.status_code >= 400:
+                raise FetchError(f"The server responded with HTTP status {response.status_code}.")
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
                     if not chunk:
-- 
2.43.0


From 10a44984306a7f46cd8be5b37ed23dcf36243cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 07/62] fix: report damaged archives as fetch errors

Truncated or corrupted compressed archives raised EOFError, zlib.error or LZMAError past the retry logic.
---
 .../fetcher/http_artifact_fetcher.py               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 59e6443..678b036 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -82,7 +84,17 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            zlib.error,
+            lzma.LZMAError,
+            EOFError,
+            # `zipfile` throws these on encrypted archives and unsupported compression methods.
+            RuntimeError,
+            NotImplementedError,
+            ValueError,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From 71a534564e997a73ebf36a3f8413ccd95cda1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 08/62] fix: replace recipe files atomically

A crash or a full disk while `bump-recipe`, `patch` or `convert -o` writes truncated the recipe.
---
 conda_recipe_manager/commands/bump_recipe.py |  3 +-
 conda_recipe_manager/commands/convert.py     |  4 +-
 conda_recipe_manager/commands/patch.py       |  3 +-
 conda_recipe_manager/utils/fs.py             | 40 ++++++++++++++++++++
 4 files changed, 46 insertions(+), 4 deletions(-)
 create mode 100644 conda_recipe_manager/utils/fs.py

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..18db563 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -20,6 +20,7 @@ from conda_recipe_manager.fetcher.exceptions import FetchError
 from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.types import JsonPatchType
+from conda_recipe_manager.utils.fs import write_text_atomic
 
 # Truncates the `__name__` to the crm command name.
 log = logging.getLogger(__name__.rsplit(".", maxsplit=1)[-1])
@@ -404,5 +405,5 @@ def bump_recipe(
     if dry_run:
         print(recipe_parser.render())
     else:
-        Path(recipe_file_path).write_text(recipe_parser.render(), encoding="utf-8")
+        write_text_atomic(recipe_file_path, recipe_parser.render())
     sys.exit(ExitCode.SUCCESS)
diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..c27d2df 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -21,6 +21,7 @@ from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
 from conda_recipe_manager.parser.types import V0_FORMAT_RECIPE_FILE_NAME, V1_FORMAT_RECIPE_FILE_NAME
 from conda_recipe_manager.types import MessageCategory, MessageTable
+from conda_recipe_manager.utils.fs import write_text_atomic
 
 # When performing a bulk operation, overall "success" is indicated by the % of recipe files that were converted
 # "successfully"
@@ -164,8 +165,7 @@ def convert_file(file_path: Path, output: Optional[Path], print_output: bool, de
             "WARNING: File is not called `recipe.yaml`.",
             print_enabled=print_output and os.path.basename(output) != "recipe.yaml",
         )
-        with open(output, "w", encoding="utf-8") as fptr:
-            fptr.write(conversion_result.content)
+        write_text_atomic(output, conversion_result.content)
 
     conversion_result.set_return_code()
     return conversion_result
diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..1163908 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -16,6 +16,7 @@ from conda_recipe_manager.commands.utils.types import ExitCode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.types import JsonPatchType
+from conda_recipe_manager.utils.fs import write_text_atomic
 
 
 def _pre_patch_validate(
@@ -81,5 +82,5 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
+    write_text_atomic(recipe_path, recipe_parser.render())
     sys.exit(error_code)
diff --git a/conda_recipe_manager/utils/fs.py b/conda_recipe_manager/utils/fs.py
new file mode 100644
index 0000000..babc92f
--- /dev/null
+++ b/conda_recipe_manager/utils/fs.py
@@ -0,0 +1,40 @@
+"""
+:Description: Provides file system utilities.
+"""
+
+from __future__ import annotations
+
+import os
+import shutil
+from pathlib import Path
+from typing import Final
+
+
+def write_text_atomic(file: str | Path, text: str) -> None:
+    """
+    Writes UTF-8 text to a file, such that the file always contains either its complete previous contents or the
+    complete new contents. This holds even if the process is interrupted or if the disk fails part way through.
+
+    :param file: Target file. Symbolic links are followed.
+    :param text: Text to write.
+    :raises IOError: If there is an issue with the file system. The target file is left untouched in this case.
+    """
+    # Replacing a symbolic link would detach it from the file that it points to.
+    target: Final[Path] = Path(os.path.realpath(file))
+    # Devices and pipes (like `/dev/stdout`) can't be replaced.
+    if target.exists() and not target.is_file():
+        target.write_text(text, encoding="utf-8")
+        return
+
+    tmp_file: Final[Path] = target.parent / f".{target.name}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_file, "w", encoding="utf-8") as fptr:
+            fptr.write(text)
+            fptr.flush()
+            os.fsync(fptr.fileno())
+        if target.exists():
+            shutil.copymode(target, tmp_file)
+        os.replace(tmp_file, target)
+    except BaseException:
+        tmp_file.unlink(missing_ok=True)
+        raise
-- 
2.43.0


From 415c40d5bd5a62d42a5612cbeac8ee86e7e14193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 09/62] fix: keep a failed write from aborting a bulk
 conversion

One unwritable output raised through the pool and discarded the results of every other recipe.
---
 conda_recipe_manager/commands/convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index c27d2df..ab159dd 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -165,7 +165,12 @@ def convert_file(file_path: Path, output: Optional[Path], print_output: bool, de
             "WARNING: File is not called `recipe.yaml`.",
             print_enabled=print_output and os.path.basename(output) != "recipe.yaml",
         )
-        write_text_atomic(output, conversion_result.content)
+        try:
+            write_text_atomic(output, conversion_result.content)
+        except IOError as e:
+            return _record_unrecoverable_failure(
+                conversion_result, ExitCode.IO_ERROR, f"EXCEPTION: Failed to write: {output}", print_output, e
+            )
 
     conversion_result.set_return_code()
     return conversion_result
-- 
2.43.0


From 6660b0417eae8e44271d36a58c376ada12a5054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 10/62] fix: count every kind of failed recipe in the bulk
 conversion report

Recipes that failed pre-processing or were not in the V0 format were in none of the lists, so the two success metrics
disagreed.
---
 conda_recipe_manager/commands/convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index ab159dd..383e821 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -311,7 +311,14 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in {
+            ExitCode.ILLEGAL_OPERATION,
+            ExitCode.IO_ERROR,
+            ExitCode.PARSE_EXCEPTION,
+            ExitCode.PRE_PROCESS_EXCEPTION,
+            ExitCode.READ_EXCEPTION,
+            ExitCode.RENDER_EXCEPTION,
+        }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
-- 
2.43.0


From 37500a945c8a1c96eeee16811159763af1a065e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 11/62] fix: quote the rattler-build command and tolerate
 undecodable output

Paths or arguments containing spaces or shell characters built the wrong thing (or ran it), and one recipe printing bytes
that are not UTF-8 aborted the whole bulk build.
---
 conda_recipe_manager/commands/rattler_bulk_build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..dcbd18a 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -8,6 +8,7 @@ import json
 import multiprocessing as mp
 import operator
 import re
+import shlex
 import subprocess
 import sys
 import time
@@ -53,8 +54,9 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            shlex.join(cmd),
             encoding="utf-8",
+            errors="replace",
             capture_output=True,
             shell=True,
             check=False,
-- 
2.43.0


From f2b7e623c7673e70d14d9355a9f387b4b429eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 12/62] fix: make the recipe graph independent of directory
 enumeration order

---
 conda_recipe_manager/grapher/recipe_graph_from_disk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/grapher/recipe_graph_from_disk.py b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
index f04dbe5..b60d9bb 100644
--- a/conda_recipe_manager/grapher/recipe_graph_from_disk.py
+++ b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
@@ -45,7 +45,8 @@ class RecipeGraphFromDisk(RecipeGraph):
         # TODO Handle the case where V0 and V1 recipes might exist in the same feedstock. Prefer V1?
         recipe_names: Final[set[str]] = {V0_FORMAT_RECIPE_FILE_NAME, V1_FORMAT_RECIPE_FILE_NAME}
 
-        files = (f for f in self._dir_path.rglob("*.yaml") if f.name in recipe_names)
+        # Which recipe wins when a package name is duplicated must not depend on the file system's enumeration order.
+        files = sorted(f for f in self._dir_path.rglob("*.yaml") if f.name in recipe_names)
 
         # Process recipes in parallel
         thread_pool_size: Final[int] = mp.cpu_count() if cpu_count <= 0 else cpu_count
-- 
2.43.0


From 3b32ef5b66a99e9130bbbd2a76ef0eb8c217c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 13/62] fix: allow plotting packages that have no edges in a
 graph

`plot test depends <package>` crashed the interactive shell on a known package without test dependencies.
---
 conda_recipe_manager/grapher/recipe_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..4a8a560 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -97,6 +97,9 @@ class RecipeGraph:
                     continue
                 self._name_to_sha256[package_name] = sha
                 self._package_stats.total_packages += 1
+                # Packages without dependencies are still part of both graphs.
+                self._build_graph.add_node(package_name)  # type: ignore[misc]
+                self._test_graph.add_node(package_name)  # type: ignore[misc]
                 for dep in deps:
                     match dep.type:
                         # Build graph
-- 
2.43.0


From dce2bd71987f361e7c7012d1a797a98cfe0b597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/62] fix: reject patches to out-of-bounds list positions
 instead of crashing

---
 conda_recipe_manager/parser/_traverse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..acb73de 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -144,7 +144,11 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
 
     node = traverse(root, path)
     if node is not None and virt_idx >= 0:
-        phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
+        idx_map: Final[list[int]] = remap_child_indices_virt_to_phys(node.children)
+        # Callers detect and reject a virtual index that is out of bounds.
+        if virt_idx >= len(idx_map):
+            return node, virt_idx, INVALID_IDX
+        phys_idx = idx_map[virt_idx]
 
         # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
         # the list. Collection Nodes are abstract containers that will contain the rest of
-- 
2.43.0


From 9f6ec887ed1e98ecd93c3f811af60feba3efb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 15/62] fix: report unreadable and undecodable pyproject files
 instead of raising

---
 .../scanner/dependency/pyproject_dep_scanner.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..1149f61 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,12 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (OSError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            elif isinstance(e, OSError):
+                self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not read `{self._project_fn}` file.")
+            else:
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From 4c4ec42ff6b7d5ab3f88297da7f3d112da9837ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 16/62] fix: report malformed pyproject dependency sections
 instead of raising

A string where a list belongs was read as one dependency per character, other types raised.
---
 .../dependency/pyproject_dep_scanner.py       | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 1149f61..02c5eb4 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -34,6 +34,29 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         self._src_dir: Final[Path] = Path(src_dir)
         self._project_fn: Final[str] = project_file_name
 
+    def _read_dependency_list(self, dep_lst: object, section: str) -> list[str]:
+        """
+        Validates a list of dependencies. Malformed entries are reported and skipped.
+
+        :param dep_lst: Value found in the project file.
+        :param section: Name of the section the value was found in.
+        :returns: The dependencies that are usable.
+        """
+        if not isinstance(dep_lst, list):
+            self._msg_tbl.add_message(
+                MessageCategory.ERROR, f"`{self._project_fn}` file has a malformed `{section}` section."
+            )
+            return []
+        deps: list[str] = []
+        for dep in cast(list[object], dep_lst):
+            if isinstance(dep, str):
+                deps.append(dep)
+                continue
+            self._msg_tbl.add_message(
+                MessageCategory.ERROR, f"`{self._project_fn}` file has a malformed entry in `{section}`: {dep}"
+            )
+        return deps
+
     def scan(self) -> set[ProjectDependency]:
         """
         Actively scans a project for dependencies. Implementation is dependent on the type of scanner used.
@@ -54,7 +77,7 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
 
         # NOTE: There is a `validate-pyproject` library hosted on `conda-forge`, but it is marked as "experimental" by
         # its maintainers. Given that and that we only read a small portion of the file, we only validate what we use.
-        if "project" not in data:
+        if not isinstance(data.get("project"), dict):
             self._msg_tbl.add_message(
                 MessageCategory.ERROR, f"`{self._project_fn}` file is missing a `project` section."
             )
@@ -66,13 +89,19 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         # TODO Future, consider handling Environment Markers:
         #   https://packaging.python.org/en/latest/specifications/dependency-specifiers/#environment-markers
         deps: set[ProjectDependency] = set()
-        for dep_name in cast(list[str], data["project"].get("dependencies", [])):
+        for dep_name in self._read_dependency_list(data["project"].get("dependencies", []), "dependencies"):
             deps.add(new_project_dependency(dep_name, DependencySection.RUN))
 
         # Optional dependencies are stored in a dictionary, where the key is the "package extra" name and the value is
         # a dependency list. For example: {'dev': ['pytest'], 'conda_build': ['conda-build']}
-        for dep_lst in cast(dict[str, list[str]], data["project"].get("optional-dependencies", {})).values():
-            for dep_name in dep_lst:
+        optional_deps = data["project"].get("optional-dependencies", {})
+        if not isinstance(optional_deps, dict):
+            self._msg_tbl.add_message(
+                MessageCategory.ERROR, f"`{self._project_fn}` file has a malformed `optional-dependencies` section."
+            )
+            return deps
+        for extra, dep_lst in optional_deps.items():
+            for dep_name in self._read_dependency_list(dep_lst, f"optional-dependencies.{extra}"):
                 deps.add(new_project_dependency(dep_name, DependencySection.RUN_CONSTRAINTS))
 
         return deps
-- 
2.43.0


From 4a0fb076efeaddf9271a9ce711f8e37ed91ab89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 17/62] fix: write variable changes to V1 recipes

`set_variable()` and `del_variable()` only changed the variables table. V1 recipes are rendered from `/context`, so
`bump-recipe` reported success and left the version and the hash variable of V1 recipes unchanged.
---
 conda_recipe_manager/parser/recipe_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..fe9fcff 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -32,7 +32,7 @@ from conda_recipe_manager.parser._traverse import (
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
@@ -103,6 +103,12 @@ class RecipeParser(RecipeReader):
         :param value: Value to set
         """
         self._vars_tbl[var] = value
+        # V1 recipes render variables from the `/context` section of the parse tree.
+        if self._schema_version == SchemaVersion.V1:
+            if self.contains_value("/context"):
+                self._patch_add(str_to_stack_path(f"/context/{var}"), value)
+            else:
+                self._patch_add(str_to_stack_path("/context"), {var: value})
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
@@ -114,6 +120,8 @@ class RecipeParser(RecipeReader):
         if not var in self._vars_tbl:
             return
         del self._vars_tbl[var]
+        if self._schema_version == SchemaVersion.V1:
+            self._patch_remove(str_to_stack_path(f"/context/{var}"))
         self._is_modified = True
 
     ## Selector Editing Functions ##
@@ -560,6 +568,9 @@ class RecipeParser(RecipeReader):
         if is_successful and op != "test":
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
+            # The variables of V1 recipes are a part of the parse tree.
+            if self._schema_version == SchemaVersion.V1:
+                self._init_vars_tbl()
             # TODO technically this doesn't handle a no-op.
             self._is_modified = True
 
-- 
2.43.0


From f8b8cfc46f2061e047d57f29cff23320bb5b4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 18/62] fix: treat an HTTP error status as an HTTP failure of
 the download

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 678b036..277ac3e 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -111,8 +111,8 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         try:
             self._clear_temp_dir()
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
-            if response.status_code >= 400:
-                raise FetchError(f"The server responded with HTTP status {response.status_code}.")
+            if response.status_code in range(400, 600):
+                raise requests.exceptions.HTTPError(f"The server responded with HTTP status {response.status_code}.")
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
                     if not chunk:
-- 
2.43.0


From eb583e332866503f5d5337d0e8dfd6501c24d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 19/62] fix: keep the exact text of values that look like
 numbers or dates

---
 conda_recipe_manager/parser/recipe_reader.py | 41 +++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..ce1b53f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -49,6 +49,35 @@ except ImportError:
     from yaml import SafeLoader  # type: ignore[assignment]
 
 
+class _RecipeLoader(SafeLoader):  # type: ignore[misc]
+    """
+    YAML loader that does not alter scalars that merely look like a number or a date. Recipes are full of version-like
+    values. For example, the version `1.10` is neither `1.1` nor is `1:30` equivalent to `90`.
+    """
+
+    def construct_exact_scalar(self, node: yaml.ScalarNode) -> Primitives:
+        """
+        Constructs a scalar, falling back to the original text if that text can't be recovered from the value.
+
+        :param node: YAML node to construct a value from.
+        :returns: Parsed value if it reads the same as the original text. Otherwise, the original text.
+        """
+        text: Final[str] = cast(str, node.value)
+        parsers: Final[tuple[type[int], type[float]]] = (int, float)
+        for parser in parsers:
+            try:
+                value = parser(text)
+            except ValueError:
+                continue
+            if str(value) == text:
+                return value
+        return text
+
+
+for _tag in ("int", "float", "timestamp"):
+    _RecipeLoader.add_constructor(f"tag:yaml.org,2002:{_tag}", _RecipeLoader.construct_exact_scalar)
+
+
 class RecipeReader(IsModifiable):
     """
     Class that parses a recipe file string for read-only operations.
@@ -106,12 +135,12 @@ class RecipeReader(IsModifiable):
         # then we fall back to performing JINJA substitutions.
         try:
             try:
-                output = _sub_jinja(cast(JsonType, yaml.load(s, Loader=SafeLoader)))
+                output = _sub_jinja(cast(JsonType, yaml.load(s, Loader=_RecipeLoader)))
             except yaml.scanner.ScannerError:
                 # We quote-escape here for problematic YAML strings that are non-JINJA, like `**/lib.so`. Parsing
                 # invalid YAML containing V0 JINJA statements should cause an exception and fallback to the other
                 # recovery logic.
-                output = _sub_jinja(cast(JsonType, yaml.load(quote_special_strings(s), Loader=SafeLoader)))
+                output = _sub_jinja(cast(JsonType, yaml.load(quote_special_strings(s), Loader=_RecipeLoader)))
         except Exception:  # pylint: disable=broad-exception-caught
             # If a construction exception is thrown, attempt to re-parse by replacing Jinja macros (substrings in
             # `{{}}`) with friendly string substitution markers, then re-inject the substitutions back in. We classify
@@ -123,7 +152,7 @@ class RecipeReader(IsModifiable):
             # variable substitutions.
             output = _sub_jinja(
                 RecipeReader._parse_yaml_recursive_sub(
-                    cast(JsonType, yaml.load(s, Loader=SafeLoader)), lambda d: substitute_markers(d, sub_list)
+                    cast(JsonType, yaml.load(s, Loader=_RecipeLoader)), lambda d: substitute_markers(d, sub_list)
                 )
             )
         return output
@@ -350,7 +379,7 @@ class RecipeReader(IsModifiable):
             #   - Ensures the returned value is YAML-parsable
             elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
                 s = f"${s}"
-        return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        return cast(JsonType, yaml.load(s, Loader=_RecipeLoader))
 
     def _init_vars_tbl(self) -> None:
         """
@@ -744,7 +773,7 @@ class RecipeReader(IsModifiable):
                 if replace_variables:
                     value = self._render_jinja_vars(value)
                 elif child.multiline_variant != MultilineVariant.NONE:
-                    value = cast(str, yaml.load(value, Loader=SafeLoader))
+                    value = cast(str, yaml.load(value, Loader=_RecipeLoader))
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
@@ -861,7 +890,7 @@ class RecipeReader(IsModifiable):
                 )
                 if sub_vars:
                     return self._render_jinja_vars(multiline_str)
-                return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
+                return cast(JsonType, yaml.load(multiline_str, Loader=_RecipeLoader))
             return_value = cast(Primitives, node.children[0].value)
         # Leaf nodes can return their value directly
         elif node.is_leaf():
-- 
2.43.0


From b2f6aeef8593da394775e511a5d5c090c45d323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 20/62] fix: report an undecodable recipe as unreadable

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 conda_recipe_manager/commands/patch.py       | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index 18db563..591555a 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -375,7 +375,7 @@ def bump_recipe(
 
     try:
         recipe_content = Path(recipe_file_path).read_text(encoding="utf-8")
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         log.error("Couldn't read the given recipe file: %s", recipe_file_path)
         sys.exit(ExitCode.IO_ERROR)
 
diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 1163908..3ef20ab 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -30,14 +30,15 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
-    except json.JSONDecodeError:
+        json_text = json_patch_file_path.read_text(encoding="utf-8")
+        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_text))
+    except (json.JSONDecodeError, UnicodeDecodeError):
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
-        contents_recipe = recipe_file_path.read_text()
-    except IOError:
+        contents_recipe = recipe_file_path.read_text(encoding="utf-8")
+    except (IOError, UnicodeDecodeError):
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
 
-- 
2.43.0


From c8dc1d2e566b49a64d340b804e4733d7405c57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 21/62] fix: a boolean is not a build number

---
 conda_recipe_manager/commands/bump_recipe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index 591555a..ef6bd56 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -141,7 +141,8 @@ def _update_build_num(recipe_parser: RecipeParser, increment_build_num: bool) ->
     if increment_build_num and recipe_parser.contains_value(RecipePaths.BUILD_NUM):
         build_number = recipe_parser.get_value(RecipePaths.BUILD_NUM)
 
-        if not isinstance(build_number, int):
+        # NOTE: In Python, a `bool` is an `int`.
+        if not isinstance(build_number, int) or isinstance(build_number, bool):
             log.error("Build number is not an integer.")
             sys.exit(ExitCode.ILLEGAL_OPERATION)
 
-- 
2.43.0


From 68c730ea66782871b507d6566715fa67e4e88013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 22/62] fix: skip malformed source objects instead of crashing

---
 conda_recipe_manager/fetcher/artifact_fetcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/fetcher/artifact_fetcher.py b/conda_recipe_manager/fetcher/artifact_fetcher.py
index e1384ed..2804b10 100644
--- a/conda_recipe_manager/fetcher/artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/artifact_fetcher.py
@@ -79,6 +79,14 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
         recipe_name = "Unknown Recipe"
 
     for i, parsed_source in enumerate(parsed_sources):
+        # If the source section is not a list, it contains one "flag" source object.
+        src_path = f"/source/{i}" if is_src_lst else "/source"
+        # Malformed and empty source objects can't be fetched from.
+        if not isinstance(parsed_source, dict):
+            if not ignore_unsupported:
+                raise FetchUnsupportedError(f"{recipe_name} contains an unsupported source object at `{src_path}`.")
+            continue
+
         # NOTE: `optional_str()` is used to force evaluation of potentially unknown types to strings for input
         #       sanitation purposes.
         # NOTE: `url` is the same for both V0 and V1 formats.
@@ -87,8 +95,6 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
 
         src_name = recipe_name if len(parsed_sources) == 1 else f"{recipe_name}_{i}"
 
-        # If the source section is not a list, it contains one "flag" source object.
-        src_path = f"/source/{i}" if is_src_lst else "/source"
         if url is not None:
             sources[src_path] = HttpArtifactFetcher(src_name, url)
         elif git_url is not None:
-- 
2.43.0


From 927ca104f0261f43be96a760260d20151986f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 23/62] fix: accept any recipe name when creating the temporary
 directory

---
 conda_recipe_manager/fetcher/base_artifact_fetcher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/base_artifact_fetcher.py b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
index 98f694f..0163d05 100644
--- a/conda_recipe_manager/fetcher/base_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import re
 import shutil
 from abc import ABCMeta, abstractmethod
 from pathlib import Path
@@ -14,6 +15,8 @@ from conda_recipe_manager.fetcher.exceptions import FetchRequiredError
 
 # Identifying string used to flag temp files and directories created by this module.
 _ARTIFACT_FETCHER_FILE_ID: Final[str] = "crm_artifact_fetcher"
+# Limits how much of an artifact's name is used, as file systems limit the length of a directory name.
+_MAX_FILE_ID_LEN: Final[int] = 32
 
 
 class BaseArtifactFetcher(metaclass=ABCMeta):
@@ -33,9 +36,11 @@ class BaseArtifactFetcher(metaclass=ABCMeta):
             this might be the package name combined with some identifying information.
         """
         self._name = name
+        # The name comes from a recipe and may contain characters that are not valid in the name of a directory.
+        file_id: Final[str] = re.sub(r"[^\w.+-]", "_", self._name)[:_MAX_FILE_ID_LEN]
         # NOTE: There is an open issue about this pylint edge case: https://github.com/pylint-dev/pylint/issues/7658
         self._temp_dir: Final[TemporaryDirectory[str]] = TemporaryDirectory(  # pylint: disable=consider-using-with
-            prefix=f"{_ARTIFACT_FETCHER_FILE_ID}_", suffix=f"_{self._name}"
+            prefix=f"{_ARTIFACT_FETCHER_FILE_ID}_", suffix=f"_{file_id}"
         )
         self._temp_dir_path: Final[Path] = Path(self._temp_dir.name)
         # Flag to track if `fetch()` has been called successfully once.
-- 
2.43.0


From 70052bb84d91600ee24e70868fcbbef0a2bb229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 24/62] fix: report a failed write of the recipe with the I/O
 error code

---
 conda_recipe_manager/commands/bump_recipe.py | 6 +++++-
 conda_recipe_manager/commands/patch.py       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index ef6bd56..7cb76cc 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -406,5 +406,9 @@ def bump_recipe(
     if dry_run:
         print(recipe_parser.render())
     else:
-        write_text_atomic(recipe_file_path, recipe_parser.render())
+        try:
+            write_text_atomic(recipe_file_path, recipe_parser.render())
+        except IOError:
+            log.error("Couldn't write the given recipe file: %s", recipe_file_path)
+            sys.exit(ExitCode.IO_ERROR)
     sys.exit(ExitCode.SUCCESS)
diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 3ef20ab..e326d63 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -83,5 +83,9 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    write_text_atomic(recipe_path, recipe_parser.render())
+    try:
+        write_text_atomic(recipe_path, recipe_parser.render())
+    except IOError:
+        print_err(f"Couldn't write the given recipe file: {recipe_path}")
+        error_code = ExitCode.IO_ERROR
     sys.exit(error_code)
-- 
2.43.0


From 12f413e734d95200bf82f88346d301d8e714c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 25/62] fix: report broken links and metadata in archives as
 fetch errors

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 277ac3e..87dd444 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -94,6 +94,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
             RuntimeError,
             NotImplementedError,
             ValueError,
+            # `tarfile` throws these on links to members that do not exist and on metadata that is out of range.
+            KeyError,
+            OverflowError,
         ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
-- 
2.43.0


From 4051df0e06a50192de3ebcd4d545bfc2b6cbfaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 26/62] fix: report disk errors around downloads instead of
 crashing

---
 conda_recipe_manager/commands/bump_recipe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index 7cb76cc..bec0abe 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -198,7 +198,7 @@ def _get_sha256(fetcher: HttpArtifactFetcher, retry_interval: float) -> str:
             log.info("Fetching artifact `%s`, attempt #%d", fetcher, retry_id)
             fetcher.fetch()
             return fetcher.get_archive_sha256()
-        except FetchError:
+        except (FetchError, IOError):
             time.sleep(retry_id * retry_interval)
     raise FetchError(f"Failed to fetch `{fetcher}` after {_RETRY_LIMIT} retries.")
 
@@ -274,7 +274,11 @@ def _update_sha256(recipe_parser: RecipeParser, retry_interval: float) -> None:
     :param recipe_parser: Recipe file to update.
     :param retry_interval: Scalable interval between fetch requests.
     """
-    fetcher_tbl = af_from_recipe(recipe_parser, True)
+    try:
+        fetcher_tbl = af_from_recipe(recipe_parser, True)
+    except IOError:
+        log.error("Couldn't create temporary storage for the source artifacts.")
+        sys.exit(ExitCode.IO_ERROR)
     if not fetcher_tbl:
         log.warning("`/source` is missing or does not contain a supported source type.")
         return
-- 
2.43.0


From 2af9ec7f59650e373b387957437fd1692c77240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 27/62] fix: check out exactly the requested kind of git target

---
 .../fetcher/git_artifact_fetcher.py           | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 92de31a..e3f8ecb 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -69,10 +69,27 @@ class GitArtifactFetcher(BaseArtifactFetcher):
                 shutil.copytree(self._git_target.url, self._temp_dir_path, symlinks=True, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
-    def _resolve_checkout_target(self) -> Optional[str]:
+    @staticmethod
+    def _qualify_target(repo: Repo, target: str, *prefixes: str) -> str:
+        """
+        Tags and branches may share a name. This disambiguates which kind of reference is requested.
+
+        :param repo: Repository to check out from.
+        :param target: Name of the tag or branch.
+        :param prefixes: Prefixes of the kind of references to look for, in order of preference.
+        :returns: The full name of the first reference found. Otherwise, the target is returned as-is.
+        """
+        refs: Final[set[str]] = set(repo.git.for_each_ref("--format=%(refname)").splitlines())
+        for prefix in prefixes:
+            if f"{prefix}{target}" in refs:
+                return f"{prefix}{target}"
+        return target
+
+    def _resolve_checkout_target(self, repo: Repo) -> Optional[str]:
         """
         Returns the appropriate target to checkout in the git repository, if available.
 
+        :param repo: Repository to check out from.
         :returns: If provided, returns the appropriate string to use during `git checkout`.
         """
         # In V1 recipes, branch, tag, and rev are mutually exclusive and that check should be enforced by a recipe
@@ -81,11 +98,11 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         # tagged versions as that makes the most sense for most feedstock repositories.
         # NOTE: These checkout commands will leave the temp repo in a detached head state.\
         if self._git_target.tag is not None:
-            return self._git_target.tag
+            return self._qualify_target(repo, self._git_target.tag, "refs/tags/")
         elif self._git_target.rev is not None:
             return self._git_target.rev
         elif self._git_target.branch is not None:
-            return self._git_target.branch
+            return self._qualify_target(repo, self._git_target.branch, "refs/heads/", "refs/remotes/origin/")
         return None
 
     def fetch(self) -> None:
@@ -105,12 +122,13 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         except IOError as e:
             raise FetchError(f"A file system error occurred while cloning from: {self._git_target.url}") from e
 
-        git_target: Final[Optional[str]] = self._resolve_checkout_target()
-        if git_target:
-            try:
-                repo.git.checkout(git_target, force=True)
-            except git_exceptions.GitError as e:
-                raise FetchError(f"Failed to git checkout target: {git_target}") from e
+        try:
+            git_target: Final[Optional[str]] = self._resolve_checkout_target(repo)
+            if git_target:
+                # The trailing `--` prevents git from mistaking an unknown target for the name of a file.
+                repo.git.checkout(git_target, "--", force=True)
+        except (git_exceptions.GitError, IOError) as e:
+            raise FetchError(f"Failed to git checkout from: {self._git_target.url}") from e
 
         self._successfully_fetched = True
 
-- 
2.43.0


From 366c5390e1a6127131ae574e983466577510cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 28/62] fix: count a failed recipe with errors once in the bulk
 conversion report

---
 conda_recipe_manager/commands/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 383e821..a6545bf 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -339,7 +339,7 @@ def convert(
             num_recipe_success += 1
 
     # Self-check metric. This should be the same as the other calculated success metric.
-    num_theoretical_recipe_success: Final[int] = total_recipes - (len(recipes_with_except) + len(recipes_with_errors))
+    num_theoretical_recipe_success: Final[int] = total_recipes - len({*recipes_with_except, *recipes_with_errors})
     percent_recipe_success: Final[float] = round(num_recipe_success / total_recipes, 2)
 
     stats = {
-- 
2.43.0


From 9b0544efa8dca07dce820d2b93731563124b7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 29/62] fix: keep the bulk build report when one build cannot
 start or the debug log cannot be written

---
 .../commands/rattler_bulk_build.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index dcbd18a..f27692e 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -67,6 +67,11 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
             code=ExitCode.TIMEOUT,
             errors=["Recipe build dry-run timed out."],
         )
+    except OSError as e:
+        return str(file.relative_to(path)), BuildResult(
+            code=ExitCode.IO_ERROR,
+            errors=[f"Recipe build could not be started: {e}"],
+        )
 
     return str(file.relative_to(path)), BuildResult(
         code=output.returncode,
@@ -208,8 +213,13 @@ def rattler_bulk_build(
     if not truncate:
         final_output["recipes_with_build_error_code"] = recipes_with_errors
 
+    print(json.dumps(final_output, indent=2))
+
     if debug_log is not None:
-        create_debug_file(debug_log, results, error_histogram)
+        try:
+            create_debug_file(debug_log, results, error_histogram)
+        except OSError as e:
+            print_err(f"Failed to write the debug log: {e}")
+            sys.exit(ExitCode.IO_ERROR)
 
-    print(json.dumps(final_output, indent=2))
     sys.exit(ExitCode.SUCCESS if percent_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
-- 
2.43.0


From 796d860b8341e1235e2ac55d4eb27e19f99d6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:08 +0000
Subject: [PATCH 30/62] fix: report plotting failures in the graph shell
 instead of ending it

---
 conda_recipe_manager/commands/graph.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/commands/graph.py b/conda_recipe_manager/commands/graph.py
index 9c62907..fd93627 100644
--- a/conda_recipe_manager/commands/graph.py
+++ b/conda_recipe_manager/commands/graph.py
@@ -9,7 +9,7 @@ import pickle
 import sys
 import time
 from pathlib import Path
-from typing import Final
+from typing import Final, Optional
 
 import click
 
@@ -20,6 +20,26 @@ from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromD
 from conda_recipe_manager.grapher.types import GraphDirection, GraphType, PackageStatsEncoder
 
 
+def _plot(
+    recipe_graph: RecipeGraph,
+    graph_type: GraphType,
+    direction: GraphDirection = GraphDirection.DEPENDS_ON,
+    package: Optional[str] = None,
+) -> None:
+    """
+    Draws a graph, reporting failures (for example, a missing Graphviz installation) without ending the shell.
+
+    :param recipe_graph: Graph to draw
+    :param graph_type: Indicates which kind of graph to render.
+    :param direction: (Optional) Indicates the direction of the dependency relationship.
+    :param package: (Optional) Name of the target package to draw a sub-graph of.
+    """
+    try:
+        recipe_graph.plot(graph_type, direction, package)
+    except Exception as e:  # pylint: disable=broad-exception-caught
+        print_err(f"Failed to plot the graph: {e}")
+
+
 @click.command(short_help="Interactive CLI for examining recipe dependency graphs.")
 @click.argument("path", type=click.Path(exists=True, path_type=Path, file_okay=False))  # type: ignore[misc]
 def graph(path: Path) -> None:
@@ -78,7 +98,7 @@ def graph(path: Path) -> None:
                     print(f"Unrecognized graph type: {g_type}")
                     continue
                 print("This might take a while...")
-                recipe_graph.plot(GraphType(g_type))
+                _plot(recipe_graph, GraphType(g_type))
             case ["plot", g_type, dir_str, pkg]:
                 if g_type not in GraphType:
                     print(f"Unrecognized graph type: {g_type}")
@@ -95,7 +115,7 @@ def graph(path: Path) -> None:
                 if not recipe_graph.contains_package_name(pkg):
                     print(f"Package not found: {pkg}")
                     continue
-                recipe_graph.plot(GraphType(g_type), direction, pkg)
+                _plot(recipe_graph, GraphType(g_type), direction, pkg)
             case ["stats"] | ["statistics"]:
                 print(
                     json.dumps(package_stats, indent=2, sort_keys=True, cls=PackageStatsEncoder)  # type: ignore[misc]
-- 
2.43.0


From faf066b469d65c9b6d80481acf267b64b2894c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 31/62] fix: read Python sources the way Python does

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..dcdef13 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,8 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        # NOTE: Parsing the raw bytes lets Python handle encoding declarations and byte order marks.
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
-- 
2.43.0


From 6c633e9324d10de2ddd3be288863da2cb5a8ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 32/62] fix: relative imports are not dependencies

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index dcdef13..c45f184 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -108,11 +108,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports refer to the project itself.
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 426c9cea5885e0ee028153dfbd57cf9c2e65c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 33/62] fix: save fetched recipes byte for byte

---
 scripts/randomly_select_recipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/randomly_select_recipes.py b/scripts/randomly_select_recipes.py
index f095eb0..f417db0 100755
--- a/scripts/randomly_select_recipes.py
+++ b/scripts/randomly_select_recipes.py
@@ -39,7 +39,7 @@ def fetch_repo(org_repo: str, out_dir: Path) -> str:
             response = requests.get(url, timeout=HTTP_GET_TIMEOUT)
             if response.status_code == 200:
                 file_path.parent.mkdir(exist_ok=True, parents=True)
-                file_path.write_text(response.text)
+                file_path.write_bytes(response.content)
                 return org_repo
         except requests.exceptions.RequestException:  # type: ignore[misc]
             continue
-- 
2.43.0


From a24de7f101f9e4348b4cd959ea3ee2fec34a0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 34/62] fix: keep empty keys on their own line

---
 conda_recipe_manager/parser/_node.py         |  8 +++++++-
 conda_recipe_manager/parser/recipe_reader.py | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..b6ace0b 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,13 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            # Empty keys look like leaves but they must be rendered on their own line.
+            and not self.children[0].key_flag
+        )
 
     def is_collection_element(self) -> bool:
         """
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index ce1b53f..a3fa764 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -494,8 +494,14 @@ class RecipeReader(IsModifiable):
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
+                # to be added to the stack to maintain composition. A key found one level deeper is the next key of
+                # that object, as the first key is empty.
+                is_next_key = new_indent - cur_indent == TAB_SPACE_COUNT and not clean_line.startswith("-")
+                if (
+                    last_node.is_collection_element()
+                    and not last_node.children[0].is_single_key()
+                    and not is_next_key
+                ):
                     node_stack.append(last_node.children[0])
             elif new_indent < cur_indent:
                 # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
@@ -709,7 +715,11 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
+                # The first key of an object in a list carries the list `-` mark
+                key_spaces = f"{spaces}{extra_tab}"
+                if node.is_collection_element() and child is node.children[0]:
+                    key_spaces = f"{spaces}- "
+                lines.append(f"{key_spaces}{stringify_yaml(child.value)}:  {child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
                 lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
-- 
2.43.0


From cf971877bf2a0fbe493bed6d9adbb202d7eb3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:43 +0000
Subject: [PATCH 35/62] fix: keep the indentation and the blank lines of
 multi-line values

---
 conda_recipe_manager/parser/recipe_reader.py | 45 +++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index a3fa764..1c28463 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -479,18 +479,30 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
+                # The key of a multi-line value may be the first key of an object in a list.
+                is_element = new_node.is_collection_element()
+                key_indent = new_indent + (len(clean_line) - len(clean_line[1:].lstrip()) if is_element else 0)
+                # The first line determines how far the value is indented. Any further indentation is part of the value.
+                value_indent: int | None = None
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
-                    multiline_node.value.append(multiline.strip())
-                    line_idx += 1
-                    multiline = lines[line_idx]
+                while line_idx < num_lines:
+                    multiline = lines[line_idx].rstrip()
                     multiline_indent = num_tab_spaces(multiline)
+                    if multiline and multiline_indent <= key_indent:
+                        break
+                    if multiline and value_indent is None:
+                        value_indent = multiline_indent
+                    multiline_node.value.append(multiline[min(multiline_indent, value_indent or 0) :])
+                    line_idx += 1
+                # The blank lines that end a top-level section are not a part of the value; they are rendered separately.
+                if line_idx == num_lines or num_tab_spaces(lines[line_idx]) == 0:
+                    while multiline_node.value and not multiline_node.value[-1]:
+                        multiline_node.value.pop()
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                key_node = new_node.children[0] if is_element else new_node
+                key_node.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -642,14 +654,13 @@ class RecipeReader(IsModifiable):
             parent is not None and parent.is_collection_element() and node == parent.children[0]
         )
 
+        key_prefix: Final[str] = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
+
         # Handle same-line printing
         if node.is_single_key():
             # Edge case: Handle a list containing 1 member
             if node.children[0].list_member_flag:
-                if is_first_collection_child:
-                    lines.append(f"{TAB_AS_SPACES * (depth-1)}- {node.value}:  {node.comment}".rstrip())
-                else:
-                    lines.append(f"{spaces}{node.value}:  {node.comment}".rstrip())
+                lines.append(f"{key_prefix}{node.value}:  {node.comment}".rstrip())
                 lines.append(
                     f"{spaces}{TAB_AS_SPACES}- "
                     f"{stringify_yaml(node.children[0].value, multiline_variant=node.children[0].multiline_variant)}  "
@@ -657,21 +668,13 @@ class RecipeReader(IsModifiable):
                 )
                 return
 
-            if is_first_collection_child:
-                lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
-                    f"{stringify_yaml(node.children[0].value)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
-                return
-
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
             # for other types.
             #
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
@@ -679,7 +682,7 @@ class RecipeReader(IsModifiable):
                     )
                 return
             lines.append(
-                f"{spaces}{node.value}: "
+                f"{key_prefix}{node.value}: "
                 f"{stringify_yaml(node.children[0].value)}  "
                 f"{node.children[0].comment}".rstrip()
             )
-- 
2.43.0


From 2540c9a82cc045bb77388f24b8316865424cd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 36/62] fix: tell comments from the contents of quoted strings

---
 conda_recipe_manager/parser/_types.py        | 4 ++++
 conda_recipe_manager/parser/recipe_reader.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..5f3d29c 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -202,3 +202,7 @@ class Regex:
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
     DETECT_TRAILING_COMMENT: Final[re.Pattern[str]] = re.compile(r"(\s)+(#)")
+    # Detects a quoted YAML value that is started, but not completed.
+    UNTERMINATED_QUOTE: Final[re.Pattern[str]] = re.compile(
+        r"^(?:- +)*(?:[^\s'\"#][^'\"#]*:\s+)?(?:'(?:[^']|'')*|\"(?:[^\"\\]|\\.)*)$"
+    )
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 1c28463..064642c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -182,10 +182,13 @@ class RecipeReader(IsModifiable):
             return Node(comment=s)
         # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
         # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
-        if comment_re_result is not None:
+        for comment_re_result in Regex.DETECT_TRAILING_COMMENT.finditer(s):
+            # A `#` symbol inside of an open quote is a part of that string.
+            if Regex.UNTERMINATED_QUOTE.search(s[: comment_re_result.start()]):
+                continue
             # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
             comment = s[comment_re_result.start(2) :]
+            break
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-- 
2.43.0


From c3e569a4bfea4e082b552bd4f4a6c10d0da31e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:28 +0000
Subject: [PATCH 37/62] fix: quote strings that YAML would read as something
 else

---
 conda_recipe_manager/parser/_utils.py | 44 +++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index b1e9018..0f65b7b 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -9,6 +9,8 @@ import re
 from collections.abc import Iterable
 from typing import Final, cast
 
+import yaml
+
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
@@ -103,6 +105,17 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
+def _quote_str(s: str) -> str:
+    """
+    Quotes a string, such that it can be used as a YAML value.
+
+    :param s: String to quote
+    :returns: Double-quoted version of the string.
+    """
+    # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
+    return json.dumps(s, ensure_ascii=not s.isprintable())
+
+
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
     """
     Ensure string quote escaping if quote marks are present. Otherwise this has the unintended consequence of
@@ -140,11 +153,33 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
-        # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
-        return json.dumps(s)
+        return _quote_str(s)
     return s
 
 
+def _is_ambiguous_str(s: str) -> bool:
+    """
+    Indicates if a string is not read as that same string, if it is written to a YAML file without quotes. Text that
+    looks like a number or a date is not ambiguous as the parser preserves such text.
+
+    :param s: String to check
+    :returns: True if the string must be quoted. False otherwise.
+    """
+    # JINJA V0 statements are not valid YAML to begin with.
+    if Regex.JINJA_V0_SUB.search(s) or Regex.JINJA_FUNCTION_MATCH.search(s):
+        return False
+    try:
+        value = cast(JsonType, yaml.safe_load(s))
+    except yaml.YAMLError:
+        return True
+    except ValueError:
+        # Looks like a date, but isn't one.
+        return False
+    if isinstance(value, str):
+        return value != s
+    return value is None or isinstance(value, (bool, dict, list))
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -170,7 +205,10 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        return quote_special_strings(val, multiline_variant)
+        quoted_val: Final[str] = quote_special_strings(val, multiline_variant)
+        if quoted_val == val and multiline_variant == MultilineVariant.NONE and _is_ambiguous_str(val):
+            return _quote_str(val)
+        return quoted_val
     return val
 
 
-- 
2.43.0


From 1e3d6bf454f3e781a93c7f86b2117a3a0fa29099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 38/62] fix: look up objects in lists and ambiguous strings by
 path

---
 conda_recipe_manager/parser/_utils.py        |  4 ++--
 conda_recipe_manager/parser/recipe_reader.py | 22 ++++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 0f65b7b..07471b9 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -157,7 +157,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
-def _is_ambiguous_str(s: str) -> bool:
+def is_ambiguous_str(s: str) -> bool:
     """
     Indicates if a string is not read as that same string, if it is written to a YAML file without quotes. Text that
     looks like a number or a date is not ambiguous as the parser preserves such text.
@@ -206,7 +206,7 @@ def stringify_yaml(
     # Handle special string quote cases
     if isinstance(val, str):
         quoted_val: Final[str] = quote_special_strings(val, multiline_variant)
-        if quoted_val == val and multiline_variant == MultilineVariant.NONE and _is_ambiguous_str(val):
+        if quoted_val == val and multiline_variant == MultilineVariant.NONE and is_ambiguous_str(val):
             return _quote_str(val)
         return quoted_val
     return val
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 064642c..fd36f96 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -27,6 +27,7 @@ from conda_recipe_manager.parser._types import (
 )
 from conda_recipe_manager.parser._utils import (
     dedupe_and_preserve_order,
+    is_ambiguous_str,
     normalize_multiline_strings,
     num_tab_spaces,
     quote_special_strings,
@@ -915,19 +916,22 @@ class RecipeReader(IsModifiable):
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
             lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
-            return_value = "\n".join(lst)
+            # Objects that are a member of a list are rendered as a list that only contains the object.
+            is_element: Final[bool] = node.is_collection_element()
+            RecipeReader._render_tree(Node(children=[node]) if is_element else node, -1, lst)
+            parsed_tree = RecipeReader._parse_yaml("\n".join(lst), self if sub_vars else None)
+            return cast(list[JsonType], parsed_tree)[0] if is_element else parsed_tree
 
-        # Collection types are transformed into strings above and will need to be transformed into a proper data type.
         # `_parse_yaml()` will also render JINJA variables for us, if requested.
         if isinstance(return_value, str):
             parser = self if sub_vars else None
-            parsed_value = RecipeReader._parse_yaml(return_value, parser)
-            # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
-            # and provide better type-safety, we will re-wrap such values.
-            if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
-                return [parsed_value]
-            return parsed_value
+            # Ambiguous strings do not survive being parsed again.
+            if not is_ambiguous_str(return_value):
+                return_value = RecipeReader._parse_yaml(return_value, parser)
+        # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
+        # and provide better type-safety, we will re-wrap such values.
+        if not isinstance(return_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
+            return [return_value]
         return return_value
 
     def find_value(self, value: Primitives) -> list[str]:
-- 
2.43.0


From 6e837346c0295a10d48b323fdcbac7fd48102564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 39/62] fix: apply JSON patches exactly, or refuse them

---
 conda_recipe_manager/parser/_node.py         |  41 ++++
 conda_recipe_manager/parser/_traverse.py     |  13 +-
 conda_recipe_manager/parser/_utils.py        |   2 +-
 conda_recipe_manager/parser/recipe_parser.py | 189 ++++++++++++++-----
 conda_recipe_manager/parser/recipe_reader.py |  19 +-
 5 files changed, 202 insertions(+), 62 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index b6ace0b..71fd75a 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -163,6 +163,47 @@ class Node:
             and not self.children[0].key_flag
         )
 
+    def get_first_key(self) -> Optional["Node"]:
+        """
+        Finds the first key this node contains.
+
+        :returns: The first child that is a key, if there is one.
+        """
+        for child in self.children:
+            if child.key_flag:
+                return child
+        return None
+
+    def is_empty_collection(self) -> bool:
+        """
+        Indicates if a node is a key to a collection that is written as `[]` or `{}`.
+
+        :returns: True if the node represents a key to an empty collection. False otherwise.
+        """
+        return self.is_single_key() and self.children[0].value in ([], {})
+
+    def is_object(self) -> bool:
+        """
+        Indicates if a node contains keys, or if keys can be added to it.
+
+        :returns: True if the node represents an object (or something that could become one). False otherwise.
+        """
+        if self.is_leaf():
+            return self.key_flag or self.is_root() or (self.list_member_flag and self.value in (None, {}))
+        if self.is_empty_collection():
+            return self.children[0].value == {}
+        return all(child.key_flag or child.is_comment() for child in self.children)
+
+    def is_list(self) -> bool:
+        """
+        Indicates if a node contains list members, or if list members can be added to it.
+
+        :returns: True if the node represents a list (or something that could become one). False otherwise.
+        """
+        if self.is_empty_collection():
+            return self.children[0].value == []
+        return self.key_flag and all(child.list_member_flag or child.is_comment() for child in self.children)
+
     def is_collection_element(self) -> bool:
         """
         Indicates if the node is a list member that contains other collection types. In other words, this node has no
diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index acb73de..dce7f7a 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,8 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        # Leaf nodes are values and not a part of a path.
+        if child.key_flag and child.value == path_part:
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
@@ -115,8 +116,9 @@ def traverse(node: Optional[Node], path: StrStack) -> Optional[Node]:
         if path[0] == ROOT_NODE_VALUE:
             return node
         return None
-    # Purge `root` from the path
-    path.pop()
+    # Purge `root` from the path. All paths must start from there.
+    if path.pop() != ROOT_NODE_VALUE:
+        return None
     return _traverse_recurse(node, path)
 
 
@@ -150,11 +152,6 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
             return node, virt_idx, INVALID_IDX
         phys_idx = idx_map[virt_idx]
 
-        # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
-        # the list. Collection Nodes are abstract containers that will contain the rest of
-        if node.children[phys_idx].is_collection_element():
-            return node.children[phys_idx], INVALID_IDX, INVALID_IDX
-
     return node, virt_idx, phys_idx
 
 
diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 07471b9..eb90cc0 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -44,7 +44,7 @@ def str_to_stack_path(path: str) -> StrStack:
     # TODO reduce 3 (O)n operations to 1 O(n) operation
 
     # Wipe the trailing `/`, if provided. It doesn't have meaning here; only the `root` path is tracked.
-    if path[-1] == ROOT_NODE_VALUE:
+    if path.endswith(ROOT_NODE_VALUE):
         path = path[:-1]
     parts = path.split("/")
     # Replace empty strings with `/` for compatibility in other functions.
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index fe9fcff..5b079c2 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -30,14 +30,14 @@ from conda_recipe_manager.parser._traverse import (
     traverse,
     traverse_with_index,
 )
-from conda_recipe_manager.parser._types import Regex, StrStack
+from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
 from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
-from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
-from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonPatchType, JsonType
+from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA, MultilineVariant, NodeValue
+from conda_recipe_manager.types import JsonPatchType, JsonType, SentinelType
 
 
 class RecipeParser(RecipeReader):
@@ -315,17 +315,88 @@ class RecipeParser(RecipeReader):
             append_to_list = True
 
         path_stack_copy = path_stack.copy()
+        if append_to_list:
+            return traverse(self._root, path_stack), INVALID_IDX, INVALID_IDX, "", True
+
         node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
         # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
         # allows us to create only 1 level in the path.
         path_to_create = ""
         # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
-        if node is None and not append_to_list:
+        if node is None:
             path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+            node, virt_idx, phys_idx = traverse(self._root, path_stack_copy), INVALID_IDX, INVALID_IDX
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
+    @staticmethod
+    def _is_valid_add_target(
+        node: Optional[Node], virt_idx: int, path_to_create: str, append_to_list: bool, value: JsonType
+    ) -> TypeGuard[Node]:
+        """
+        Indicates if the target of an `add` operation, as found by `_patch_add_find_target()`, can hold the new value.
+
+        :param node: Target node to validate
+        :param virt_idx: VIRTUAL index, if the target is the member of a list.
+        :param path_to_create: Key that needs to be created, if applicable.
+        :param append_to_list: Indicates if the value is appended to a list.
+        :param value: Value to add.
+        :returns: True if the value can be added. False otherwise.
+        """
+        if path_to_create:
+            # Keys can only be added to objects.
+            return node is not None and node.is_object() and path_to_create != ROOT_NODE_VALUE
+        if append_to_list:
+            # Lists of lists are not supported.
+            return node is not None and node.is_list() and not isinstance(value, list)
+        return RecipeParser._is_valid_patch_node(node, virt_idx) and RecipeParser._is_valid_replacement(
+            node, virt_idx, value
+        )
+
+    @staticmethod
+    def _is_valid_replacement(node: Node, virt_idx: int, value: JsonType) -> bool:
+        """
+        Indicates if a value may take the place of another value in the tree.
+
+        :param node: Node that holds the value, or the list that holds it.
+        :param virt_idx: VIRTUAL index, if the target is the member of a list.
+        :param value: Value to use.
+        :returns: True if the value can be used. False otherwise.
+        """
+        if virt_idx > INVALID_IDX:
+            # Lists of lists are not supported.
+            return not isinstance(value, list)
+        # The document itself is always an object.
+        return not node.is_root() or (isinstance(value, dict) and bool(value))
+
+    @staticmethod
+    def _generate_list_member(value: JsonType) -> Node:
+        """
+        Generates a new member of a list.
+
+        :param value: Value of the list member
+        :returns: Node that represents the new list member
+        """
+        new_children: Final[list[Node]] = RecipeReader._generate_subtree(value)
+        # Adding an object to a list requires the children to be wrapped in a collection node
+        if isinstance(value, dict) and value:
+            return Node(list_member_flag=True, children=new_children)
+        new_children[0].list_member_flag = True
+        return new_children[0]
+
+    @staticmethod
+    def _set_node_value(node: Node, value: JsonType) -> None:
+        """
+        Sets the value that a node holds. This replaces the line the old value was found on, including any comments.
+
+        :param node: Node to modify
+        :param value: Value to set
+        """
+        node.children = RecipeReader._generate_subtree(value)
+        # Values that share a line with their key share the comment on that line.
+        if node.is_single_key() and node.children[0].multiline_variant == MultilineVariant.NONE:
+            node.comment = ""
+
     def _patch_add(self, path_stack: StrStack, value: JsonType) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -341,33 +412,27 @@ class RecipeParser(RecipeReader):
         # trying to append to an existing list only applies if the append operator is at the end of the list.
         node, virt_idx, phys_idx, path_to_create, append_to_list = self._patch_add_find_target(path_stack)
 
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
+        if not RecipeParser._is_valid_add_target(node, virt_idx, path_to_create, append_to_list, value):
             return False
 
-        # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
-        # about to create.
-        if path_to_create:
-            value = {path_to_create: value}
-
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Mark children as list members if they are list members
-        if append_to_list or phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                for child in new_children:
-                    child.list_member_flag = True
+        # Collections that were written as `[]` or `{}` are about to get their first member.
+        if (append_to_list or path_to_create) and node.is_empty_collection():
+            node.children = []
 
         # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
         if phys_idx > INVALID_IDX:
-            node.children[phys_idx:phys_idx] = new_children
-        # Extend the list of children if we're appending or adding a new key.
-        elif append_to_list or path_to_create:
-            node.children.extend(new_children)
+            node.children.insert(phys_idx, RecipeParser._generate_list_member(value))
+        elif append_to_list:
+            node.children.append(RecipeParser._generate_list_member(value))
+        # If we couldn't find 1 level in the path, that level becomes the "root" of the sub-tree we are about to create.
+        elif path_to_create:
+            # An empty list member becomes an object.
+            if node.list_member_flag and node.is_leaf():
+                node.value = Node._sentinel
+            node.children.extend(RecipeReader._generate_subtree({path_to_create: value}))
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
         else:
-            node.children = new_children
+            RecipeParser._set_node_value(node, value)
 
         return True
 
@@ -401,10 +466,15 @@ class RecipeParser(RecipeReader):
 
         # In all other cases, the node to be removed must be found before eviction
         for i in range(len(node.children)):
-            if node.children[i] == node_to_rm:
+            if node.children[i] is node_to_rm:
                 node.children.pop(i)
-                return True
-        return False
+                break
+        # The last key of an object in a list is gone.
+        if node.list_member_flag and node.get_first_key() is None:
+            node.value = None
+            node.children = []
+            node.comment = ""
+        return True
 
     def _patch_replace(self, path_stack: StrStack, value: JsonType) -> bool:
         """
@@ -415,29 +485,34 @@ class RecipeParser(RecipeReader):
         :returns: True if the operation was successful. False otherwise.
         """
         node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
+        if not RecipeParser._is_valid_patch_node(node, virt_idx) or not RecipeParser._is_valid_replacement(
+            node, virt_idx, value
+        ):
             return False
 
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Lists inject all children at the target position.
+        # Members of a list are replaced as a whole
         if phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                # Ensure all children are marked as list members
-                for child in new_children:
-                    child.list_member_flag = True
-            node.children[phys_idx:phys_idx] = new_children
-            # Evict the old child, which is now behind the new children
-            node.children.pop(phys_idx + len(new_children))
+            node.children[phys_idx] = RecipeParser._generate_list_member(value)
             return True
 
         # Leafs that represent values/paths of values can evict all children, and be replaced with new children, derived
         # from a new tree of values.
-        node.children = new_children
+        RecipeParser._set_node_value(node, value)
         return True
 
+    def _get_patch_value(self, path: str) -> JsonType:
+        """
+        Gets the value that a patch operation refers to.
+
+        :param path: Path to the value.
+        :raises KeyError: If the value is not found
+        :returns: The value found. Empty keys do not have a value.
+        """
+        node: Final[Optional[Node]] = traverse(self._root, str_to_stack_path(path))
+        if node is not None and node.is_empty_key():
+            return None
+        return self.get_value(path)
+
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -452,16 +527,32 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
-        # Validate that `add` will succeed before we `remove` anything
-        node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
+        # NOTE from the RFC:
+        #   The "from" location MUST NOT be a proper prefix of the "path" location; i.e., a location cannot be moved into
+        #   one of its children.
+        from_stack: Final[StrStack] = str_to_stack_path(value_from)
+        if len(from_stack) < len(path_stack) and path_stack[-len(from_stack) :] == from_stack:
             return False
 
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # Removing the value may shift the location that is added to. Restore the value if it can't be added there.
+        from_parent: Final[Optional[Node]] = traverse(self._root, from_stack[1:])
+        if from_parent is None:
+            return False
+        backup: Final[tuple[list[Node], NodeValue | SentinelType, str]] = (
+            from_parent.children.copy(),
+            from_parent.value,
+            from_parent.comment,
+        )
+        if not self._patch_remove(from_stack):
+            return False
+        if self._patch_add(path_stack, original_value):
+            return True
+        from_parent.children, from_parent.value, from_parent.comment = backup
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
@@ -477,7 +568,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
@@ -492,7 +583,7 @@ class RecipeParser(RecipeReader):
         :returns: True if the target value is equal to the provided value. False otherwise.
         """
         try:
-            return self.get_value(path) == value
+            return self._get_patch_value(path) == value
         except KeyError:
             # Path not found
             return False
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index fd36f96..7b422ce 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -214,7 +214,7 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
+            if isinstance(output[0], dict) and output[0]:
                 # Build up the key-and-potentially-value pair nodes first
                 key_children: list[Node] = []
                 key = list(output[0].keys())[0]
@@ -247,6 +247,10 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
+        # Empty collections are written on one line, like primitives are.
+        if isinstance(value, (dict, list)) and not value:
+            return [Node(value)]
+
         # For complex types, generate the YAML equivalent and build a new tree.
         if not isinstance(value, PRIMITIVES_TUPLE):
             # Although not technically required by YAML, we add the optional spacing for human readability.
@@ -414,6 +418,10 @@ class RecipeReader(IsModifiable):
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
+            # Objects in a list share the line, and therefore the comment, of their first key.
+            first_key = node.get_first_key() if node.is_collection_element() else None
+            if first_key is not None:
+                node.comment = first_key.comment
             # Ignore empty comments
             if not node.comment:
                 return
@@ -655,7 +663,7 @@ class RecipeReader(IsModifiable):
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab.
         is_first_collection_child: Final[bool] = (
-            parent is not None and parent.is_collection_element() and node == parent.children[0]
+            parent is not None and parent.is_collection_element() and node is parent.get_first_key()
         )
 
         key_prefix: Final[str] = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
@@ -713,18 +721,21 @@ class RecipeReader(IsModifiable):
             # Nodes representing collections in a list have nothing to render
             lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
 
+        is_before_first_key = node.is_collection_element()
         for child in node.children:
             # Top-level empty-key edge case: Top level keys should have no additional indentation.
             extra_tab = "" if depth < 0 else TAB_AS_SPACES
+            is_before_first_key = is_before_first_key and not child.key_flag
             # Comments in a list are indented to list-level, but do not include a list `-` mark
             if child.is_comment():
-                lines.append(f"{spaces}{extra_tab}" f"{child.comment}".rstrip())
+                comment_tab = "" if is_before_first_key else extra_tab
+                lines.append(f"{spaces}{comment_tab}{child.comment}".rstrip())
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
                 # The first key of an object in a list carries the list `-` mark
                 key_spaces = f"{spaces}{extra_tab}"
-                if node.is_collection_element() and child is node.children[0]:
+                if node.is_collection_element() and child is node.get_first_key():
                     key_spaces = f"{spaces}- "
                 lines.append(f"{key_spaces}{stringify_yaml(child.value)}:  {child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
-- 
2.43.0


From ab68d32e08902badb6b778e8b71a52eecdb6eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 40/62] fix: keep multi-line strings whole wherever a patch
 puts them

---
 conda_recipe_manager/parser/_node.py         |  8 ++++----
 conda_recipe_manager/parser/_types.py        | 12 ++++++++++++
 conda_recipe_manager/parser/recipe_parser.py |  7 +++++--
 conda_recipe_manager/parser/recipe_reader.py |  6 +++++-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 71fd75a..25bc70e 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -176,11 +176,11 @@ class Node:
 
     def is_empty_collection(self) -> bool:
         """
-        Indicates if a node is a key to a collection that is written as `[]` or `{}`.
+        Indicates if a node is a key to a collection that is written as `[]`, `{}`, or `null`.
 
         :returns: True if the node represents a key to an empty collection. False otherwise.
         """
-        return self.is_single_key() and self.children[0].value in ([], {})
+        return self.is_single_key() and self.children[0].value in (None, [], {})
 
     def is_object(self) -> bool:
         """
@@ -191,7 +191,7 @@ class Node:
         if self.is_leaf():
             return self.key_flag or self.is_root() or (self.list_member_flag and self.value in (None, {}))
         if self.is_empty_collection():
-            return self.children[0].value == {}
+            return self.children[0].value in (None, {})
         return all(child.key_flag or child.is_comment() for child in self.children)
 
     def is_list(self) -> bool:
@@ -201,7 +201,7 @@ class Node:
         :returns: True if the node represents a list (or something that could become one). False otherwise.
         """
         if self.is_empty_collection():
-            return self.children[0].value == []
+            return self.children[0].value in (None, [])
         return self.key_flag and all(child.list_member_flag or child.is_comment() for child in self.children)
 
     def is_collection_element(self) -> bool:
diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 5f3d29c..30d454c 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -116,6 +116,18 @@ class ForceIndentDumper(yaml.Dumper):
     def increase_indent(self, flow: bool = False, indentless: bool = False) -> None:  # pylint: disable=unused-argument
         return super().increase_indent(flow, False)
 
+    def represent_str(self, data: str) -> yaml.ScalarNode:
+        """
+        Represents a string. Strings containing newlines are kept on 1 line as our parser reads a recipe line-by-line.
+
+        :param data: String to represent
+        :returns: YAML node for the string
+        """
+        return self.represent_scalar("tag:yaml.org,2002:str", data, style='"' if "\n" in data else None)
+
+
+ForceIndentDumper.add_representer(str, ForceIndentDumper.represent_str)
+
 
 class Regex:
     """
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 5b079c2..e5fe66b 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -377,6 +377,9 @@ class RecipeParser(RecipeReader):
         :param value: Value of the list member
         :returns: Node that represents the new list member
         """
+        # Multiline strings are only supported as the value of a key.
+        if isinstance(value, str) and "\n" in value:
+            return Node(value, list_member_flag=True)
         new_children: Final[list[Node]] = RecipeReader._generate_subtree(value)
         # Adding an object to a list requires the children to be wrapped in a collection node
         if isinstance(value, dict) and value:
@@ -415,7 +418,7 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_add_target(node, virt_idx, path_to_create, append_to_list, value):
             return False
 
-        # Collections that were written as `[]` or `{}` are about to get their first member.
+        # Collections that were written as `[]`, `{}`, or `null` are about to get their first member.
         if (append_to_list or path_to_create) and node.is_empty_collection():
             node.children = []
 
@@ -429,7 +432,7 @@ class RecipeParser(RecipeReader):
             # An empty list member becomes an object.
             if node.list_member_flag and node.is_leaf():
                 node.value = Node._sentinel
-            node.children.extend(RecipeReader._generate_subtree({path_to_create: value}))
+            node.children.append(Node(path_to_create, children=RecipeReader._generate_subtree(value), key_flag=True))
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
         else:
             RecipeParser._set_node_value(node, value)
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 7b422ce..90712b0 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -238,9 +238,13 @@ class RecipeReader(IsModifiable):
         """
         # Multiline values can replace the list of children with a single multiline leaf node.
         if isinstance(value, str) and "\n" in value:
+            lines: Final[list[str]] = value.splitlines()
+            # The first line sets the indentation of the whole value. Other values can only be written with quotes.
+            if not lines[0] or lines[0][0].isspace():
+                return [Node(value)]
             return [
                 Node(
-                    value=value.splitlines(),
+                    value=lines,
                     # The conversion from JSON-to-YAML is lossy here. Default to the closest equivalent, which preserves
                     # newlines.
                     multiline_variant=MultilineVariant.PIPE,
-- 
2.43.0


From d273ef28407503aef5ce714cc84de931cf18824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 41/62] fix: report an unreadable JSON patch file

---
 conda_recipe_manager/commands/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index e326d63..12f0c8d 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -35,6 +35,9 @@ def _pre_patch_validate(
     except (json.JSONDecodeError, UnicodeDecodeError):
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
+    except IOError:
+        print_err(f"Couldn't read the given JSON patch file: {json_patch_file_path}")
+        sys.exit(ExitCode.IO_ERROR)
 
     try:
         contents_recipe = recipe_file_path.read_text(encoding="utf-8")
-- 
2.43.0


From 2dbf71a4b178434d7c8af0e72f0b518cecce8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 42/62] fix: only decimal digits are list indices

---
 conda_recipe_manager/parser/_traverse.py     | 4 ++--
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index dce7f7a..3a9ee91 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -70,7 +70,7 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     path_part = path[-1]
     # Check if the path is attempting an array index.
-    if path_part.isdigit():
+    if path_part.isdecimal():
         # Map virtual to physical indices and perform some out-of-bounds checks.
         idx_map = remap_child_indices_virt_to_phys(node.children)
         virtual_idx = int(path_part)
@@ -140,7 +140,7 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
     virt_idx: int = INVALID_IDX
     phys_idx: int = INVALID_IDX
     # Pre-determine if the path is targeting a list position. Patching only applies on the last index provided.
-    if path[0].isdigit():
+    if path[0].isdecimal():
         # Find the index position of the target on the parent's list
         virt_idx = int(path.pop(0))
 
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index e5fe66b..8935789 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -450,7 +450,7 @@ class RecipeParser(RecipeReader):
             return False
 
         # Removal in all scenarios requires targeting the parent node.
-        node_idx = -1 if not path_stack[0].isdigit() else int(path_stack[0])
+        node_idx = -1 if not path_stack[0].isdecimal() else int(path_stack[0])
         # `traverse()` is destructive to the stack, so make a copy for the second traversal call.
         path_stack_copy = path_stack.copy()
         node_to_rm = traverse(self._root, path_stack)
-- 
2.43.0


From ce420e6b23e1f5b3823d2e6ead7c348f2b1ee93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 43/62] fix: null values are empty keys

---
 conda_recipe_manager/parser/recipe_parser.py | 4 ++--
 conda_recipe_manager/parser/recipe_reader.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 8935789..4d30bf1 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -377,8 +377,8 @@ class RecipeParser(RecipeReader):
         :param value: Value of the list member
         :returns: Node that represents the new list member
         """
-        # Multiline strings are only supported as the value of a key.
-        if isinstance(value, str) and "\n" in value:
+        # Multiline strings and `null` only have a notation of their own as the value of a key.
+        if value is None or (isinstance(value, str) and "\n" in value):
             return Node(value, list_member_flag=True)
         new_children: Final[list[Node]] = RecipeReader._generate_subtree(value)
         # Adding an object to a list requires the children to be wrapped in a collection node
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 90712b0..5db2890 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -251,6 +251,10 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
+        # Empty keys represent `null` values.
+        if value is None:
+            return []
+
         # Empty collections are written on one line, like primitives are.
         if isinstance(value, (dict, list)) and not value:
             return [Node(value)]
-- 
2.43.0


From 86605a9557a73b1f243558e2c06cf453f471d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 44/62] fix: do not add quotes to values found next to JINJA
 statements

---
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5db2890..5a2987b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -101,7 +101,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -129,7 +129,9 @@ class RecipeReader(IsModifiable):
             if parser is None:
                 return out
             return RecipeReader._parse_yaml_recursive_sub(
-                out, parser._render_jinja_vars  # pylint: disable=protected-access
+                out,
+                # The result is parsed again.
+                lambda d: parser._render_jinja_vars(quote_special_strings(d)),  # pylint: disable=protected-access
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
-- 
2.43.0


From 77139c7a401b3a0dd31972522a8802d546a2cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 45/62] fix: a list with an empty member is not an empty list

---
 conda_recipe_manager/parser/_node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 25bc70e..46b7812 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -180,7 +180,11 @@ class Node:
 
         :returns: True if the node represents a key to an empty collection. False otherwise.
         """
-        return self.is_single_key() and self.children[0].value in (None, [], {})
+        return (
+            self.is_single_key()
+            and not self.children[0].list_member_flag
+            and self.children[0].value in (None, [], {})
+        )
 
     def is_object(self) -> bool:
         """
-- 
2.43.0


From 143eab1b14dee9d0265a5efe202182d1455c9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 46/62] fix: put comments and selectors on every node of a
 line, and only on those

---
 conda_recipe_manager/parser/recipe_parser.py  | 43 +++++++++++--------
 .../parser/recipe_parser_deps.py              |  3 +-
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 4d30bf1..7e11b7b 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -125,6 +125,28 @@ class RecipeParser(RecipeReader):
         self._is_modified = True
 
     ## Selector Editing Functions ##
+
+    @staticmethod
+    def _set_comment(node: Node, comment: str) -> None:
+        """
+        Sets the comment on the line that a node is found on. Some lines of YAML correspond to multiple nodes. For
+        consistency, we need to ensure that comments are duplicated across all nodes on a line.
+
+        :param node: Node to modify
+        :param comment: Comment to set
+        """
+        node.comment = comment
+        # Objects in a list share the line of their first key.
+        first_key: Final[Optional[Node]] = node.get_first_key() if node.is_collection_element() else None
+        if first_key is not None:
+            RecipeParser._set_comment(first_key, comment)
+        # Keys share a line with their value. List members and multi-line values are found on their own lines.
+        elif (
+            node.is_single_key()
+            and not node.children[0].list_member_flag
+            and node.children[0].multiline_variant == MultilineVariant.NONE
+        ):
+            node.children[0].comment = comment
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
     ) -> None:
@@ -170,12 +192,7 @@ class RecipeParser(RecipeReader):
             # Strip the existing comment of it's leading `#` symbol
             comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
-
+        RecipeParser._set_comment(node, comment)
         self._rebuild_selectors()
         self._is_modified = True
 
@@ -207,12 +224,7 @@ class RecipeParser(RecipeReader):
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
-
+        RecipeParser._set_comment(node, comment)
         self._rebuild_selectors()
         self._is_modified = True
         return selector
@@ -253,11 +265,8 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        RecipeParser._set_comment(node, comment)
+        self._rebuild_selectors()
         self._is_modified = True
 
     ## YAML Patching Functions ##
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..bc5db4c 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -196,7 +196,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_success: Final[bool] = self._patch_add_dep(dep, patch_op, patch_path, sel_mode, is_new_section)
 
         if patch_success and dep.selector is not None:
-            sel_path = patch_path
+            # The only member of a new section is found one level below the section.
+            sel_path = f"{patch_path}/0" if is_new_section else patch_path
             # `add_selector()`, by nature of how selectors work, does not support "append" mode. If an append operation
             # occurred, we must calculate the position of the last array element. We only add selectors on a successful
             # patch, so we know we can make assume a dependency list exists.
-- 
2.43.0


From d01d088dbc50c0d3c47d2353a5c12ea3dc9f6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 47/62] fix: write variables such that they are read as the
 same values

---
 conda_recipe_manager/parser/recipe_parser.py |  4 +++-
 conda_recipe_manager/parser/recipe_reader.py | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 7e11b7b..0a7b827 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -102,13 +102,15 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
-        self._vars_tbl[var] = value
         # V1 recipes render variables from the `/context` section of the parse tree.
         if self._schema_version == SchemaVersion.V1:
             if self.contains_value("/context"):
                 self._patch_add(str_to_stack_path(f"/context/{var}"), value)
             else:
                 self._patch_add(str_to_stack_path("/context"), {var: value})
+            self._init_vars_tbl()
+        else:
+            self._vars_tbl[var] = value
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5a2987b..ca63b1d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -406,6 +406,8 @@ class RecipeReader(IsModifiable):
         """
         # Tracks Jinja variables set by the file
         self._vars_tbl: dict[str, JsonType] = {}
+        # Tracks which of those variables are set to an expression that is not evaluated
+        self._expressions: dict[str, str] = {}
 
         match self._schema_version:
             case SchemaVersion.V0:
@@ -417,8 +419,12 @@ class RecipeReader(IsModifiable):
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
+                        self._expressions[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                context: Final[JsonType] = self.get_value("/context", {})
+                # Anything but a mapping doesn't define variables.
+                if isinstance(context, dict):
+                    self._vars_tbl = context
 
     def _rebuild_selectors(self) -> None:
         """
@@ -770,9 +776,10 @@ class RecipeReader(IsModifiable):
         # `/context`.
         if self._schema_version == SchemaVersion.V0:
             for key, val in self._vars_tbl.items():
-                # Double quote strings
+                # Double quote strings. Some literals need to be escaped to be read as the same string.
                 if isinstance(val, str):
-                    val = f'"{val}"'
+                    is_escaped = (not val.isprintable() or '"' in val or "\\" in val) and self._expressions.get(key) != val
+                    val = repr(val) if is_escaped else f'"{val}"'
                 lines.append(f"{{% set {key} = {val} %}}")
             # Add spacing if variables have been set
             if len(self._vars_tbl):
-- 
2.43.0


From 3190e8e99c8544ef5f6296cef1497cd73851d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 48/62] fix: skip dependencies that are not strings

---
 conda_recipe_manager/parser/recipe_reader_deps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..59fb374 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -49,7 +49,7 @@ class RecipeReaderDeps(RecipeReader):
         :param dep: Dependency string to validate. This is the string found in a list in a dependency section.
         :returns: The sanitized string, if valid. `None`, if invalid.
         """
-        if dep is None:
+        if not isinstance(dep, str):
             return None
 
         dep = dep.strip()
-- 
2.43.0


From f0d183c3427269be24166c96fb16c9ec90b0ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:26 +0000
Subject: [PATCH 49/62] fix: do not parse quoted strings again when variables
 are substituted

---
 conda_recipe_manager/parser/recipe_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index ca63b1d..f32302d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -130,8 +130,12 @@ class RecipeReader(IsModifiable):
                 return out
             return RecipeReader._parse_yaml_recursive_sub(
                 out,
-                # The result is parsed again.
-                lambda d: parser._render_jinja_vars(quote_special_strings(d)),  # pylint: disable=protected-access
+                # The result is parsed again, which ambiguous strings do not survive.
+                lambda d: (
+                    d
+                    if is_ambiguous_str(d)
+                    else parser._render_jinja_vars(quote_special_strings(d))  # pylint: disable=protected-access
+                ),
             )
 
         # Our first attempt handles special string cases that require quotes that the YAML parser drops. If that fails,
-- 
2.43.0


From 9f7fc0ea7f06ac9b2cddabb602cf60f8bec595c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:26 +0000
Subject: [PATCH 50/62] fix: only lists contain dependencies

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index bc5db4c..f25241e 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -169,9 +169,9 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_path = RecipeParserDeps._init_patch_path(dep, dep_mode, base_path, is_new_section)
 
         # TODO: Add a "get dependencies at path" function to `RecipeReaderDeps`
-        cur_deps: Final[list[Optional[str]]] = cast(
-            list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[])
-        )
+        section: Final[JsonType] = self.get_value(base_path, sub_vars=True, default=[])
+        # Sections without any dependencies may not be a list.
+        cur_deps: Final[list[Optional[str]]] = cast(list[Optional[str]], section if isinstance(section, list) else [])
 
         # Check for duplicate dependencies, if applicable.
         if dep_mode not in {DependencyConflictMode.USE_BOTH, DependencyConflictMode.EXACT_POSITION}:
-- 
2.43.0


From 001729a3d51cba0a5ef6aef40a9d613d8c15c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:26 +0000
Subject: [PATCH 51/62] fix: forget the selectors of variables that were set or
 deleted

---
 conda_recipe_manager/parser/recipe_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0a7b827..0b0be6e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -109,6 +109,7 @@ class RecipeParser(RecipeReader):
             else:
                 self._patch_add(str_to_stack_path("/context"), {var: value})
             self._init_vars_tbl()
+            self._rebuild_selectors()
         else:
             self._vars_tbl[var] = value
         self._is_modified = True
@@ -124,6 +125,7 @@ class RecipeParser(RecipeReader):
         del self._vars_tbl[var]
         if self._schema_version == SchemaVersion.V1:
             self._patch_remove(str_to_stack_path(f"/context/{var}"))
+            self._rebuild_selectors()
         self._is_modified = True
 
     ## Selector Editing Functions ##
-- 
2.43.0


From 24136853ee2290198e6c7fc52b921b344ff25898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 52/62] fix: check only once if a string is ambiguous

---
 conda_recipe_manager/parser/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index eb90cc0..5a4d6da 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import json
 import re
 from collections.abc import Iterable
+from functools import lru_cache
 from typing import Final, cast
 
 import yaml
@@ -157,6 +158,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
+@lru_cache(maxsize=4096)
 def is_ambiguous_str(s: str) -> bool:
     """
     Indicates if a string is not read as that same string, if it is written to a YAML file without quotes. Text that
-- 
2.43.0


From cb385820caad866bc0351682a2e42e08908331ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:26 +0000
Subject: [PATCH 53/62] fix: do not hand out the parts of a recipe that reading
 must not change

---
 conda_recipe_manager/parser/recipe_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f32302d..0fd1e06 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -6,6 +6,7 @@
 from __future__ import annotations
 
 import ast
+import copy
 import hashlib
 import json
 import re
@@ -817,7 +818,7 @@ class RecipeReader(IsModifiable):
                 continue
 
             # Handle multiline strings and variable replacement
-            value = normalize_multiline_strings(child.value, child.multiline_variant)
+            value = copy.deepcopy(normalize_multiline_strings(child.value, child.multiline_variant))
             if isinstance(value, str):
                 if replace_variables:
                     value = self._render_jinja_vars(value)
@@ -960,6 +961,8 @@ class RecipeReader(IsModifiable):
             # Ambiguous strings do not survive being parsed again.
             if not is_ambiguous_str(return_value):
                 return_value = RecipeReader._parse_yaml(return_value, parser)
+        # The parse tree must not be exposed to changes made to the returned value.
+        return_value = copy.deepcopy(return_value)
         # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
         # and provide better type-safety, we will re-wrap such values.
         if not isinstance(return_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
@@ -1130,7 +1133,7 @@ class RecipeReader(IsModifiable):
             if default == RecipeReader._sentinel or isinstance(default, SentinelType):
                 raise KeyError
             return default
-        return self._vars_tbl[var]
+        return copy.deepcopy(self._vars_tbl[var])
 
     def get_variable_references(self, var: str) -> list[str]:
         """
-- 
2.43.0


From 5882122a95ad38c7244384d499b21f6ed06749d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 54/62] fix: invalid patch exceptions survive being sent to
 another process

---
 conda_recipe_manager/parser/exceptions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/exceptions.py b/conda_recipe_manager/parser/exceptions.py
index 9dabb97..947472b 100644
--- a/conda_recipe_manager/parser/exceptions.py
+++ b/conda_recipe_manager/parser/exceptions.py
@@ -21,4 +21,13 @@ class JsonPatchValidationException(Exception):
 
         :param op: Operation being encountered.
         """
-        super().__init__(f"Invalid patch was attempted:\n{json.dumps(patch, indent=2)}")
+        super().__init__(patch)
+        self._message = f"Invalid patch was attempted:\n{json.dumps(patch, indent=2)}"
+
+    def __str__(self) -> str:
+        """
+        Describes the exception. The message is not an argument of the exception, so that it survives pickling.
+
+        :returns: Message to display
+        """
+        return self._message
-- 
2.43.0


From d0c3195db72c86e64692d0aa608558bc4894939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 55/62] fix: convert the current state of a recipe, any number
 of times

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..69862a6 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -761,6 +761,10 @@ class RecipeParserConvert(RecipeParser):
         # Approach: In the event that we want to expand support later, this function should be implemented in terms
         # of a `RecipeParser` tree. This will make it easier to build an upgrade-path, if we so choose to pursue one.
 
+        # Every conversion starts from the current state.
+        self._v1_recipe = RecipeParser(self.render())
+        self._msg_tbl = MessageTable()
+
         # Log the original comments
         old_comments: Final[dict[str, str]] = self._v1_recipe.get_comments_table()
 
-- 
2.43.0


From 366fc1b25cdc9e7d7a25ee9b7ed8a1fddb60fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 56/62] fix: strings and empty sections do not contain
 dependencies, collections do not name a package

---
 conda_recipe_manager/parser/recipe_reader.py      | 5 ++++-
 conda_recipe_manager/parser/recipe_reader_deps.py | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 0fd1e06..143ca60 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1086,7 +1086,10 @@ class RecipeReader(IsModifiable):
                 section_path = f"{path_prefix}/requirements/{section}"
                 # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
                 # in-between dependencies.
-                dependencies = cast(list[str], self.get_value(section_path, []))
+                dependencies = self.get_value(section_path, [])
+                # Only lists contain dependencies; the characters of a string, for example, do not.
+                if not isinstance(dependencies, list):
+                    continue
                 for i in range(len(dependencies)):
                     paths.append(f"{section_path}/{i}")
 
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index 59fb374..aef2f16 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -95,6 +95,10 @@ class RecipeReaderDeps(RecipeReader):
             except KeyError as e:
                 raise KeyError(f"Could not find a package name associated with path: {path}") from e
 
+            # Collections do not name a package
+            if isinstance(name, (dict, list)):
+                raise KeyError(f"Could not find a package name associated with path: {path}")
+
             if name in package_tbl:
                 raise ValueError(f"Duplicate package name found: {name}")
 
@@ -125,8 +129,9 @@ class RecipeReaderDeps(RecipeReader):
             dep_map[package] = []
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
-                # Unrecognized sections will be skipped as "junk" data
-                if section is None:
+                # Unrecognized sections will be skipped as "junk" data. Only lists contain dependencies; the characters
+                # of a string, for example, do not.
+                if section is None or not isinstance(deps, list):
                     continue
 
                 for i, dep in enumerate(deps):
-- 
2.43.0


From 4711ab36e5826c34cbc73cae0edc04887f1a2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:47 +0000
Subject: [PATCH 57/62] fix: add_dependency rejects malformed selectors first
 and finds unsubstituted JINJA statements

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index f25241e..4665741 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from typing import Final, Optional, cast
 
+from conda_recipe_manager.parser._types import Regex
 from conda_recipe_manager.parser.dependency import (
     Dependency,
     DependencyConflictMode,
@@ -16,6 +17,7 @@ from conda_recipe_manager.parser.dependency import (
 from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
+from conda_recipe_manager.parser.types import SchemaVersion
 from conda_recipe_manager.types import JsonType
 
 # Dependency validation constants
@@ -121,7 +123,11 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             except KeyError:
                 pass
 
-        value: JsonType = dependency_data_render_as_str(dep.data)
+        dep_str = dependency_data_render_as_str(dep.data)
+        # Dependencies that were read from a recipe may contain JINJA statements in V1 syntax.
+        if self._schema_version == SchemaVersion.V0:
+            dep_str = dep_str.replace("${{", "{{")
+        value: JsonType = dep_str
         # This allows us to create new lists for dependency sections that do not currently exist.
         if is_new_section:
             value = [value]
@@ -152,12 +158,16 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             existing dependency. Duplicates match by name only.
         :param sel_mode: (Optional) Indicates how an existing selector should be handled. Defaults to replacing the
             existing selector.
+        :raises ValueError: If the selector of the dependency is malformed
         :returns: The result of the underlying patch command, indicating that a change occurred.
         """
         # TODO add V1 support
         # Validate the Dependency, in case the user rolled-their-own.
         if not RecipeParserDeps._is_valid_dependency_path(dep.path):
             return False
+        # A selector that can't be written must be rejected before the recipe is changed.
+        if dep.selector is not None and not Regex.SELECTOR.match(dep.selector.render()):
+            raise ValueError(f"Invalid selector provided: {dep.selector.render()}")
 
         base_path: Final[str] = dep.path.rsplit("/", 1)[0]
 
@@ -181,7 +191,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                     continue
 
                 cur_data = dependency_data_from_str(cur_dep)
-                if cast(str, cur_data.name) != cast(str, dep.data.name):
+                # JINJA statements that can't be substituted are found in V1 syntax.
+                if cast(str, cur_data.name).replace("${{", "{{") != cast(str, dep.data.name).replace("${{", "{{"):
                     continue
 
                 # If we have a name match, act according to the conflict mode
-- 
2.43.0


From 091183da245b03376fc9fecb8814d02cd71ff535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:05 +0000
Subject: [PATCH 58/62] fix: one bad CI log does not keep the others from being
 summarized

---
 scripts/parse_ci_output.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scripts/parse_ci_output.py b/scripts/parse_ci_output.py
index 7429754..13fa2f0 100755
--- a/scripts/parse_ci_output.py
+++ b/scripts/parse_ci_output.py
@@ -105,6 +105,23 @@ def generate_summary(convert_results: list[BasicJsonType], dry_run_results: list
     }
 
 
+@no_type_check
+def is_report(data: BasicJsonType) -> bool:
+    """
+    Determines if a JSON blob has all the parts of a report that are needed for the summary.
+
+    :param data: Parsed JSON blob
+    :returns: True if the JSON blob is a report. False otherwise.
+    """
+    info = data.get("info")
+    return (
+        isinstance(info, dict)
+        and "command_name" in info
+        and isinstance(info.get("directory"), str)
+        and isinstance(data["stats"] if "stats" in data else data.get("statistics"), dict)
+    )
+
+
 def read_logs(log_dir: Path) -> tuple[list[BasicJsonType], list[BasicJsonType]]:
     """
     Parses-out all the recognized JSON blobs found in the log files.
@@ -114,10 +131,15 @@ def read_logs(log_dir: Path) -> tuple[list[BasicJsonType], list[BasicJsonType]]:
     """
     convert_results: list[BasicJsonType] = []
     dry_run_results: list[BasicJsonType] = []
-    for file in log_dir.iterdir():
+    # Sorted, so that the results do not depend on the order the file system lists the logs in.
+    for file in sorted(log_dir.iterdir()):
         if file.is_dir() or file.name == ".DS_Store":
             continue
-        content = file.read_text(encoding="utf-8")
+        try:
+            content = file.read_text(encoding="utf-8")
+        except (OSError, UnicodeDecodeError) as e:
+            print(f"Could not read {file}: {e}", file=sys.stderr)
+            continue
         # Strip out all the timestamps
         lines = ISO_8601_REGEX.sub("", content).splitlines()
 
@@ -131,7 +153,7 @@ def read_logs(log_dir: Path) -> tuple[list[BasicJsonType], list[BasicJsonType]]:
                 try:
                     data = cast(BasicJsonType, json.loads("\n".join(lines[start_idx : i + 1])))
                     # Filter-out unrecognized JSON blobs in the logs
-                    if "info" not in data or "command_name" not in data["info"]:
+                    if not is_report(data):
                         print(f"Could not recognize JSON object from {log_range}", file=sys.stderr)
                         continue
                     if data["info"]["command_name"] == "convert":  # type: ignore[index]
-- 
2.43.0


From d9217ddb6a19bee5fb74c0e38119b0be51eaee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:54 +0000
Subject: [PATCH 59/62] fix: comments before the first key of an object in a
 list stay in that list when keys are removed

---
 conda_recipe_manager/parser/recipe_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0b0be6e..908ff5e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -151,6 +151,7 @@ class RecipeParser(RecipeReader):
             and node.children[0].multiline_variant == MultilineVariant.NONE
         ):
             node.children[0].comment = comment
+
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
     ) -> None:
@@ -471,6 +472,7 @@ class RecipeParser(RecipeReader):
             return False
 
         path_stack_copy.pop(0)
+        list_stack: Final[StrStack] = path_stack_copy[1:]
         node = traverse(self._root, path_stack_copy)
         if not RecipeParser._is_valid_patch_node(node, node_idx):
             return False
@@ -485,10 +487,16 @@ class RecipeParser(RecipeReader):
             if node.children[i] is node_to_rm:
                 node.children.pop(i)
                 break
+        # Comments found before the first key of an object in a list are comments in that list.
+        if node.is_collection_element():
+            lst = cast(Node, traverse(self._root, list_stack))
+            while node.children and node.children[0].is_comment():
+                lst.children.insert(
+                    next(i for i, member in enumerate(lst.children) if member is node), node.children.pop(0)
+                )
         # The last key of an object in a list is gone.
         if node.list_member_flag and node.get_first_key() is None:
             node.value = None
-            node.children = []
             node.comment = ""
         return True
 
@@ -563,11 +571,16 @@ class RecipeParser(RecipeReader):
             from_parent.value,
             from_parent.comment,
         )
+        # Removing the first key of an object in a list may move comments to that list.
+        from_list: Final[Optional[Node]] = traverse(self._root, from_stack[2:])
+        list_backup: Final[list[Node]] = from_list.children.copy() if from_list is not None else []
         if not self._patch_remove(from_stack):
             return False
         if self._patch_add(path_stack, original_value):
             return True
         from_parent.children, from_parent.value, from_parent.comment = backup
+        if from_list is not None:
+            from_list.children = list_backup
         return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
-- 
2.43.0


From d40b476fab9501b2a2a47aaf147379f5f8ee6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:18 +0000
Subject: [PATCH 60/62] fix: adding a selector to a line keeps the comment that
 is already there

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 908ff5e..c7661d2 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -184,7 +184,7 @@ class RecipeParser(RecipeReader):
 
         comment = ""
         old_selector_found = Regex.SELECTOR.search(node.comment)
-        if node.comment == "" or mode == SelectorConflictMode.REPLACE:
+        if node.comment == "" or (old_selector_found and mode == SelectorConflictMode.REPLACE):
             comment = f"# {selector}"
         # "Append" to existing selectors
         elif old_selector_found:
-- 
2.43.0


From 7053aeefef1e34623c44972b698232706f8b3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:42 +0000
Subject: [PATCH 61/62] fix: removing JINJA lines does not change the
 indentation of the next line

---
 conda_recipe_manager/parser/_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 30d454c..fe674d5 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -176,7 +176,8 @@ class Regex:
 
     ## Jinja regular expressions ##
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
-    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})\n")
+    # Matches whole lines, so that removing one does not change the indentation of the next line.
+    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"^[ \t]*({%.*%}|{#.*#})[ \t]*\n", re.MULTILINE)
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
         r"{%\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
     )
-- 
2.43.0


From 63f4f7f24677473f114f1a7d5ced96b21b0b675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:27 +0000
Subject: [PATCH 62/62] fix: empty keys of objects in lists are part of the
 recipe rendered as an object

---
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 143ca60..21b113d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -835,6 +835,9 @@ class RecipeReader(IsModifiable):
             if child.is_collection_element():
                 elem_dict = {}
                 for element in child.children:
+                    # Empty keys are interpreted to point to `None`
+                    if element.is_empty_key():
+                        elem_dict[element.value] = None
                     self._render_object_tree(element, replace_variables, elem_dict)
                 if len(data[key]) == 0:
                     data[key] = []
-- 
2.43.0

