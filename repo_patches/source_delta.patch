From f8e5f5c0abd00c4b9661e5c5e1b9f86a18d5ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 01/52] fix: run classes inside a section by their own path,
 not the section's

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..384786a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -168,9 +168,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From f462537c43c17c6e39e8fcf95190c13b5c5b12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 02/52] fix: running a list of one item returns a list of one
 result

---
 pyfileconf/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..c598752 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -148,10 +148,11 @@ class PipelineManager:
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
-        # Will be converted into list always
-        str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-            str_or_list_only, additional_items
-        )
+        if additional_items or not isinstance(str_or_list_only, list):
+            # Will be converted into list always
+            str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
+                str_or_list_only, additional_items
+            )
 
         if options.log_stdout:
             with stdout_also_logged():
-- 
2.43.0


From 5f47df3ce89ee139947b62c4c6a38a79cffc9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 03/52] fix: a failed attribute look up does not corrupt later
 look ups in the manager

---
 pyfileconf/main.py                 | 3 ++-
 pyfileconf/runner/models/runner.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index c598752..ac0dd73 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -89,7 +89,8 @@ class PipelineManager:
             raise PipelineManagerNotLoadedException('call PipelineManager.load() before accessing '
                                                     'functions and classes')
 
-        # Must be getting function
+        # Must be getting function. Discard any unfinished look up, this is a new one from the top level
+        self.runner._full_getattr = ''
         return getattr(self.runner, item)
 
     def __dir__(self):
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 384786a..b624938 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -49,7 +49,7 @@ class Runner(ReprMixin):
         self._full_getattr += item
         try:
             func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
+        except (KeyError, AttributeError) as e:
             self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
             raise e
 
-- 
2.43.0


From 82761344d5257566f9be2829f9e3bf0100f9a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 04/52] fix: restore stdout when a run with log_stdout raises

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From b258cd3c34f45c79a11a1070e43cd49f548efc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 05/52] fix: changing log_folder replaces the existing log file
 handler

---
 pyfileconf/logger/logger.py | 4 ++++
 pyfileconf/opts/filelog.py  | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..6f88e43 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -43,6 +43,10 @@ def add_file_handler():
     logger.addHandler(fh)
 
 
+def has_file_handler() -> bool:
+    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)
+
+
 def remove_file_handler():
     timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
     if len(timed_handlers) != 1:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..a1838db 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,10 +1,13 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
     if log_folder is not None:
+        if has_file_handler():
+            # Log folder is changing, stop logging into the prior folder
+            remove_file_handler()
         add_file_handler()
     else:
         remove_file_handler()
-- 
2.43.0


From 4935710e73f26fa01029e8bcfa4e124fee9708d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 06/52] fix: compare numpy arrays in configs without raising

---
 pyfileconf/basemodels/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..0a2261e 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -3,6 +3,7 @@ from typing import Tuple, Optional, Type, Sequence, Any, Dict
 import os
 from copy import deepcopy
 
+import numpy as np
 import pandas as pd
 
 from pyfileconf.basemodels.file import ConfigFileBase
@@ -182,6 +183,10 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         # First is not pandas object, so must not be equal
         return False
 
+    # Special handling for numpy, as comparing arrays with == does not give a single bool
+    if isinstance(val1, np.ndarray) or isinstance(val2, np.ndarray):
+        return type(val1) is type(val2) and np.array_equal(val1, val2)
+
     try:
         return val1 == val2
     except Exception as e:
-- 
2.43.0


From 76cb1356f282e2c6b067ddc7ec819748405032a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 07/52] fix: config attribute access returns the value

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 0a2261e..1c102f6 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -55,7 +55,7 @@ class ConfigBase(dict):
 
     def __getattr__(self, attr):
         try:
-            self[attr]
+            return self[attr]
         except KeyError:
             raise AttributeError(attr)
 
-- 
2.43.0


From 73ce8ac41a7d157877b8059be597b44b3739fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 08/52] fix: section path endswith is False when the suffix is
 longer than the path

---
 pyfileconf/sectionpath/sectionpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..5e747e0 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,8 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From 08e79591e58c4ba638043601478400d5cb99cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 09/52] fix: support keyword-only arguments without defaults

---
 pyfileconf/imports/logic/load/func.py | 6 +++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..7fc009b 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,9 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        kwonlydefaults = args.kwonlydefaults or {}
+        default = kwonlydefaults[kwarg] if kwarg in kwonlydefaults else None
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..0e7d1a0 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # Required keyword-only argument
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From b0d0dc86d6148193ce21a727ffb6dcd4c656e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 10/52] fix: iterative runner does not reuse stale state after
 a failed case or between runs

---
 pyfileconf/iterate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..2d33d3a 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -108,6 +108,7 @@ class IterativeRunner:
         """
         from pyfileconf.main import PipelineManager
         logger.info(f'Running {self.run_items} with cases')
+        self.last_case = None  # config may have changed since any prior run
         all_results = []
         for case in self.cases:
             if not self.should_run(case):
@@ -121,6 +122,7 @@ class IterativeRunner:
 
     def run_gen(self) -> Iterator[IterativeResult]:
         logger.info(f'Running {self.run_items} with cases')
+        self.last_case = None  # config may have changed since any prior run
         for case in self.cases:
             if not self.should_run(case):
                 continue
@@ -130,10 +132,15 @@ class IterativeRunner:
 
     def _run_case(self, case: Tuple[Dict[str, Any], ...]) -> Any:
         case_with_defaults = self._fill_case_with_defaults(case)
-        manager.plm.hook.pyfileconf_iter_update_for_case(case=case_with_defaults, runner=self)
-        result = self._run()
+        try:
+            manager.plm.hook.pyfileconf_iter_update_for_case(case=case_with_defaults, runner=self)
+        except Exception:
+            # Unknown which updates were applied, must apply all updates for the next case
+            self.last_case = None
+            raise
+        # Config is now at this case regardless of whether running it succeeds
         self.last_case = case_with_defaults
-        return result
+        return self._run()
 
     def _run(self) -> Any:
         from pyfileconf.main import PipelineManager
-- 
2.43.0


From 37433fa2f90ae664397f6a03cfe3b2cfca7f0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 11/52] fix: running a product over arrays or data frames does
 not raise comparing cases

---
 pyfileconf/plugin/default_hooks.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..569b487 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -46,7 +46,9 @@ def pyfileconf_iter_update_for_case(
 
     updated_confs: Sequence[Dict[str, Any]]
     if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
+        updated_confs = [
+            conf for conf in case if not any(_confs_are_equal(conf, last_conf) for last_conf in runner.last_case)
+        ]
     else:
         updated_confs = case
 
@@ -57,6 +59,14 @@ def pyfileconf_iter_update_for_case(
     bu.update(updated_confs)
 
 
+def _confs_are_equal(conf1: Dict[str, Any], conf2: Dict[str, Any]) -> bool:
+    from pyfileconf.basemodels.config import _values_are_equal
+
+    return conf1.keys() == conf2.keys() and all(
+        _values_are_equal(value, conf2[key]) for key, value in conf1.items()
+    )
+
+
 @hookimpl
 def pyfileconf_pre_update_batch(
     pm: "PipelineManager", updates: Iterable[dict],
-- 
2.43.0


From 764320ad38bc6de8971e2475ee5a9ad5378bdaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 12/52] fix: do not drop non-import lines or break multi-line
 imports when rewriting config files

---
 pyfileconf/config/logic/load.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..e1d3b23 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,4 +1,5 @@
-from typing import Tuple, List, Union, Sequence
+import ast
+from typing import Tuple, List, Union, Sequence, Set
 from copy import deepcopy
 
 ListOfStrs = List[str]
@@ -13,6 +14,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
     # TODO [#3]: deal with use of import other than the word import
 
+    import_line_numbers = _get_import_line_numbers(lines)
     import_section = []
     assignment_section = []
     # We can have three cases for the following two booleans:
@@ -28,7 +30,7 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
         # Handle import section and add whitespace below import section
         if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
+            if i + 1 in import_line_numbers or _is_whitespace_line(line):
                 import_section.append(line)
             else:
                 in_import_section = False  # no longer dealing with imports, must have assignment line
@@ -42,6 +44,19 @@ def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True)
 
     return import_section, assignment_section
 
+def _get_import_line_numbers(lines: ListOfStrs) -> Set[int]:
+    """
+    Gets the (1-indexed) numbers of the lines which hold only top-level import statements
+    """
+    module = ast.parse('\n'.join(line.strip('\n') for line in lines))
+    import_line_numbers: Set[int] = set()
+    other_line_numbers: Set[int] = set()
+    for node in module.body:
+        is_import = isinstance(node, (ast.Import, ast.ImportFrom))
+        numbers = import_line_numbers if is_import else other_line_numbers
+        numbers.update(range(node.lineno, node.end_lineno + 1))  # type: ignore
+    return import_line_numbers - other_line_numbers
+
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
     # handle whitespace lines
-- 
2.43.0


From 7b077334b8db1817e5243f66209821015d51a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 13/52] fix: do not add imports from the body of a config file
 to its top on every load

---
 pyfileconf/io/file/interfaces/config.py | 3 ++-
 pyfileconf/io/file/load/lazy/config.py  | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..388771e 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -11,7 +11,8 @@ class ConfigFileInterface(ConfigFileLoader):
         file_str_obj = ConfigFileStr(
             config,
             existing_assigns=self.assigns,
-            existing_imports=self.imports,
+            # Any other existing imports are already in the body
+            existing_imports=self.import_section_imports,
             existing_body=self.assignment_body
         )
 
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..aeefb1f 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,5 +1,8 @@
+import ast
 from typing import List, Tuple
 
+from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
 from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
@@ -25,6 +28,10 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
+    @property
+    def import_section_imports(self) -> ImportStatementContainer:
+        return self._try_getattr_else_call_func('_import_section_imports', self.load)
+
     def _file_body_to_assignment_body(self):
         """
         Warning: Assumes that imports come first, then an assignment section. May have
@@ -35,6 +42,8 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
             self._assignment_body = assignment_lines
+            self._import_section_imports = extract_imports_from_ast(ast.parse('\n'.join(import_lines)))
         else:
             self._assignment_body = []
+            self._import_section_imports = ImportStatementContainer([])
 
-- 
2.43.0


From c6382a02bfdd2a2d364c72e16685a6ca7579e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 14/52] fix: an import under another name does not count as
 importing the name itself

---
 pyfileconf/imports/models/statements/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..9e5e683 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -15,6 +15,11 @@ from pyfileconf.imports.models.statements.interfaces import (
 from pyfileconf.imports.models.statements.rename import RenameStatementCollection
 from pyfileconf.io.file.load.parsers.extname import extract_external_name_from_assign_value
 
+def _renames_match(item, other, names: List[str]) -> bool:
+    item_map, other_map = item.renames.name_map, other.renames.name_map
+    return all(item_map.get(name) == other_map.get(name) for name in names)
+
+
 class ImportStatementContainer(Container, ReprMixin):
     repr_cols = ['items']
 
@@ -38,7 +43,7 @@ class ImportStatementContainer(Container, ReprMixin):
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
                 matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
+                matching_renames = _renames_match(item, imp_or_comment, item.modules)
                 if matching_modules and matching_renames:
                     return True
 
@@ -47,7 +52,7 @@ class ImportStatementContainer(Container, ReprMixin):
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
                 matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
+                matching_renames = _renames_match(item, imp_or_comment, item.objs)
                 if matching_module and matching_objs and matching_renames:
                     return True
 
-- 
2.43.0


From 501db70dab192e64b1992eb3dbbe6df020a8e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 15/52] fix: look up nested items named the same as their
 section in the config

---
 pyfileconf/config/models/section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..68ad647 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -22,8 +22,9 @@ class ConfigSection(Container, ReprMixin):
 
     def __getattr__(self, item):
 
-        # Handle if trying to get this section's config
-        if self.config is not None and item == self.config.name:
+        # Handle if trying to get this section's config. An item inside the section may have the same name
+        # as the section, in that case need the item
+        if item not in self.config_map and self.config is not None and item == self.config.name:
             return self.config
 
         return self.config_map[item]
-- 
2.43.0


From 08b16819e6dfbcabca7c8216e42ec7e3d9b201f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 16/52] fix: support module constants and builtins in argument
 defaults

---
 pyfileconf/io/func/load/extractimp.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..fcc8982 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,7 +1,9 @@
 from typing import List, cast
 import ast
+import builtins
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -28,13 +30,22 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
 
     # Handle names which are imported into this file
+    builtin_names: List[str] = []
     for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
+        try:
+            import_or_none = imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException as e:
+            if assigns.contains_varname(name):
+                continue  # already handled as an assignment
+            if hasattr(builtins, name):
+                builtin_names.append(name)
+                continue
+            raise e
         if import_or_none is not None:
             out_imports.append(import_or_none)
 
     # Sanity check, did we find all the imports?
-    n_external = len(external_names)
+    n_external = len(external_names) - len(builtin_names)
     n_imports = len(out_imports)
     if n_external != n_imports:
         warnings.warn(f'had {n_external} external names from function definition, only '
-- 
2.43.0


From d94c85edd5e8da97a2c4e431da46c93130bf1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 17/52] fix: support import statements of several modules in
 config files

---
 pyfileconf/imports/models/statements/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 9e5e683..b8633b5 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -28,7 +28,8 @@ class ImportStatementContainer(Container, ReprMixin):
 
     def __contains__(self, item: AnyImportStatementOrComment):
         for imp_or_comment in self:
-            if item == imp_or_comment:
+            # statements of different types are never equal, and may not be comparable
+            if type(item) is type(imp_or_comment) and item == imp_or_comment:
                 return True
 
             if not isinstance(item, (ObjectImportStatement, ModuleImportStatement)) or \
-- 
2.43.0


From 87d12378c6344fc76f12a94dc96ab22c116a75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 18/52] fix: resetting a loaded item keeps the overrides of its
 sections

---
 pyfileconf/runner/models/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index b624938..94b0167 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -389,8 +389,10 @@ class Runner(ReprMixin):
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            # Look up the config again, as it may be overridden by section configs
+            config = self._get_config(section_path_str)
+            apply_config(self._loaded_objects[section_path_str], config)
+            self._config.track_post_update(config, section_path_str, {**config})
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0


From fbad35b358588947eb0e876fe48da3700fb626e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 19/52] fix: reset discards prior updates even when the values
 match the file

---
 pyfileconf/config/models/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..50ce5e1 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -193,8 +193,9 @@ class ConfigManager(ReprMixin):
 
         # Not a new config, need to actually determine whether would be updated
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        # Set regardless of whether any value would change, so that updates
+        # tracked in the current config are not applied upon refreshing
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From 792f846926da28d6dcebd52b841d185a47e3feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 20/52] fix: a persisted update which matches the current
 values lasts through refreshing

---
 pyfileconf/basemodels/config.py     | 9 +++++++++
 pyfileconf/config/models/manager.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 1c102f6..cf9697e 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -74,6 +74,15 @@ class ConfigBase(dict):
 
         super().update(E, **F)
 
+    def track_existing_values_as_updates(self, E=None, **F):
+        """
+        Tracks updates which match the existing values so they can be applied later
+        """
+        if E is None:
+            E = {}
+        all_updates = {**E, **F}
+        self._applied_updates.update({key: value for key, value in all_updates.items() if key in self})
+
     def to_file(self, filepath: str):
 
         if self._file is None:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 50ce5e1..6d79bd0 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -63,6 +63,9 @@ class ConfigManager(ReprMixin):
         )
         if would_update:
             config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+        elif pyfileconf_persist:
+            # Nothing changes now, but the update should still last through refreshing config
+            config_obj.track_existing_values_as_updates(d_, **kwargs)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
-- 
2.43.0


From b75f900a9a6c438897111ccd8a42ac576ad8bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 21/52] fix: class dicts sharing a class each use their own
 execute attribute

---
 pyfileconf/runner/models/runner.py     | 4 ++--
 pyfileconf/selector/models/itemview.py | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 94b0167..535b636 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -40,7 +40,7 @@ class Runner(ReprMixin):
 
         self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
@@ -208,7 +208,7 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            registrar = self._specific_class_registrar_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..80fb219 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -105,7 +105,7 @@ class ItemView:
         manager = PipelineManager.get_manager_by_section_path_str(self.section_path_str)
         collection_name = SectionPath(self.section_path_str)[1]
         try:
-            manager._registrar_dict[collection_name]
+            registrar = manager._registrar_dict[collection_name]
             specific_class = True
         except KeyError:
             specific_class = False
@@ -118,8 +118,7 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
-            execute_attr = collection.execute_attr
+            execute_attr = registrar.collection.execute_attr
             func = getattr(actual_item, execute_attr)
         else:
             cannot_parse_error = ValueError(f'could not parse actual item, expected partial, '
-- 
2.43.0


From 48f1b9dcfc42cfbeaa81b15adb8aab5567e6b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 22/52] fix: pre run hooks can return lists and items, and
 modify the passed list in place, as documented

---
 pyfileconf/main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index ac0dd73..995d1f9 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -143,12 +143,19 @@ class PipelineManager:
         Returns: result or list of results
 
         """
+        hook_results = plugin_manager.plm.hook.pyfileconf_pre_run(
+            section_path_str_or_list=section_path_str_or_list, pm=self
+        )
+        # Convert only after running hooks, as they may modify a passed list in place
         str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
             section_path_str_or_list
         )
-        additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
-            section_path_str_or_list=section_path_str_or_list, pm=self
-        )
+        additional_items: List[str] = []
+        for hook_result in hook_results:
+            hook_items = hook_result if isinstance(hook_result, list) else [hook_result]
+            additional_items.extend(
+                self._get_section_path_str_from_section_path_str_or_view(item) for item in hook_items
+            )
         if additional_items or not isinstance(str_or_list_only, list):
             # Will be converted into list always
             str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-- 
2.43.0


From 305c86ff7feb8ad7886303afeb149f2c854d3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 23/52] fix: running a list always gives a list of results,
 also when hooks add the only item

---
 pyfileconf/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 995d1f9..7ad07fa 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -156,8 +156,9 @@ class PipelineManager:
             additional_items.extend(
                 self._get_section_path_str_from_section_path_str_or_view(item) for item in hook_items
             )
-        if additional_items or not isinstance(str_or_list_only, list):
-            # Will be converted into list always
+        if isinstance(str_or_list_only, list):
+            str_or_list_only = [*str_or_list_only, *additional_items]
+        else:
             str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
                 str_or_list_only, additional_items
             )
-- 
2.43.0


From f7f39684c1a4efad1cc89ece3fc25d19bdd9bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 24/52] fix: a value which is kept is not taken for a change
 when it does not equal itself

Refreshing or updating with the very same object, such as NaN or an array
containing it, was treated as a change of the config, so that hooks were
called although nothing changed.
---
 pyfileconf/basemodels/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index cf9697e..f9ccbb2 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -185,6 +185,10 @@ class ConfigBase(dict):
 
 
 def _values_are_equal(val1: Any, val2: Any) -> bool:
+    # The very same object is never a change, even if it does not equal itself, such as NaN
+    if val1 is val2:
+        return True
+
     # Special handling for pandas
     if isinstance(val1, (pd.DataFrame, pd.Series)):
         return val1.equals(val2)
-- 
2.43.0


From ef163f2e118099b31e127e8f235be235037e8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 25/52] fix: resetting an item overridden by sections which
 changes nothing calls no hooks

The config file was compared without the section configs to the current config
with them, so that the config changed hooks were called although nothing changed,
and pre_config_changed got updates other than the ones made.
---
 pyfileconf/config/models/manager.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 6d79bd0..924754e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -105,6 +105,9 @@ class ConfigManager(ReprMixin):
 
         """
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
+        if section_path_str is not None and default and self._is_existing_function_or_pipeline_path(section_path_str):
+            # Override the same way as for the current config, to determine whether there is any change
+            self._override_with_section_and_local_configs(default, section_path_str)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
@@ -126,6 +129,12 @@ class ConfigManager(ReprMixin):
         """
         config = self._get_func_or_section_configs(section_path_str)
 
+        if config:
+            self._override_with_section_and_local_configs(config, section_path_str)
+
+        return config
+
+    def _override_with_section_and_local_configs(self, config: ActiveFunctionConfig, section_path_str: str) -> None:
         if self.section is None:
             raise ConfigManagerNotLoadedException('call .load() on ConfigManager before .get()')
 
@@ -150,15 +159,12 @@ class ConfigManager(ReprMixin):
             # if is a section, not function/pipeline
             section_configs.append(self._get_func_or_section_configs(full_section))
 
-        if config:
-            # Override configs. Default config is base config, then gets updated by project, then high
-            # level sections to low level sections
-            [config.update(section_config) for section_config in section_configs]
+        # Override configs. Default config is base config, then gets updated by project, then high
+        # level sections to low level sections
+        [config.update(section_config) for section_config in section_configs]
 
-            # Last, override with local config
-            config.update(self.local_config)
-
-        return config
+        # Last, override with local config
+        config.update(self.local_config)
 
     def set(self, section_path_str: Optional[str] = None, value: Optional[ConfigBase] = None,
             allow_create: bool = True) -> Tuple[ConfigBase, bool]:
@@ -304,6 +310,12 @@ class ConfigManager(ReprMixin):
         else:
             raise ValueError(f'expected Config or ConfigSection, got {config_or_section} of type {config_or_section}')
 
+    def _is_existing_function_or_pipeline_path(self, section_path_str: str) -> bool:
+        try:
+            return self._is_function_or_pipeline_path(section_path_str)
+        except KeyError:
+            return False
+
     def _get_project_config_or_local_config_by_section_path(self, section_path_str: Optional[str]
                                                             ) -> Optional[ActiveFunctionConfig]:
         if section_path_str is not None:
-- 
2.43.0


From e0402f6dd202ec044b6c7160def5d14855ae05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 26/52] fix: config changed hooks see the section configs also
 for items not used before

When updating, refreshing or resetting an item which was not used yet, the hooks
got its config without the section configs which override it.
---
 pyfileconf/config/models/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 924754e..f33f63e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -320,6 +320,9 @@ class ConfigManager(ReprMixin):
                                                             ) -> Optional[ActiveFunctionConfig]:
         if section_path_str is not None:
             config_obj = self._get_func_or_section_configs(section_path_str)
+            if config_obj and self._is_function_or_pipeline_path(section_path_str):
+                # May not have been used before, in which case section configs were not applied yet
+                self._override_with_section_and_local_configs(config_obj, section_path_str)
         else:
             # If no section passed, update local config
             config_obj = self.local_config
-- 
2.43.0


From d29751ebbd02d7e76eb84962938e6d5f1399d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 27/52] fix: a config does not count as changed because its
 file creates a new Selector

Scaffolded config files contain s = Selector(), and Selectors created before and
after reloading any manager are not equal. So refreshing or resetting an item after
that called the config changed hooks although nothing changed.
---
 pyfileconf/basemodels/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index f9ccbb2..b34c0bf 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -189,6 +189,11 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
     if val1 is val2:
         return True
 
+    # Selectors are interchangeable, even if managers were reloaded in between creating them
+    from pyfileconf.selector.models.selector import Selector
+    if type(val1) is Selector and type(val2) is Selector:
+        return True
+
     # Special handling for pandas
     if isinstance(val1, (pd.DataFrame, pd.Series)):
         return val1.equals(val2)
-- 
2.43.0


From 403bb49a0584588fd648e573645d6938e676d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 28/52] fix: a log_folder which cannot be used is refused
 without breaking the options

After setting such a log_folder raised, the option kept the unusable folder, logging
into the prior folder had stopped, and resetting the options raised, too.
---
 pyfileconf/logger/logger.py | 8 ++++++--
 pyfileconf/opts/__init__.py | 7 ++++++-
 pyfileconf/opts/filelog.py  | 6 ++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 6f88e43..13bbf12 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -27,7 +27,7 @@ ch.setFormatter(CustomFormatter())
 logger.addHandler(ch)
 
 
-def add_file_handler():
+def create_file_handler() -> TimedRotatingFileHandler:
     from pyfileconf.opts import options
 
     if options.log_folder is None:
@@ -40,7 +40,11 @@ def add_file_handler():
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
-    logger.addHandler(fh)
+    return fh
+
+
+def add_file_handler():
+    logger.addHandler(create_file_handler())
 
 
 def has_file_handler() -> bool:
diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..d466c6f 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -73,7 +73,12 @@ class PyfileconfOption:
         orig_value = getattr(options, self.name)
         setattr(options, self.name, val)
         if self.callback is not None and orig_value != val:
-            self.callback(self.name, val)
+            try:
+                self.callback(self.name, val)
+            except Exception:
+                # Could not be applied, so the prior value remains in effect
+                setattr(options, self.name, orig_value)
+                raise
 
     @property
     def default_value(self) -> Any:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index a1838db..e7f4212 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,13 +1,15 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
+from pyfileconf.logger.logger import create_file_handler, has_file_handler, logger, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
     if log_folder is not None:
+        # Create first, as it may not be possible to log into this folder
+        file_handler = create_file_handler()
         if has_file_handler():
             # Log folder is changing, stop logging into the prior folder
             remove_file_handler()
-        add_file_handler()
+        logger.addHandler(file_handler)
     else:
         remove_file_handler()
-- 
2.43.0


From a7f7ad19dec6ac132c3055be6d62adbd4018df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:18 +0000
Subject: [PATCH 29/52] fix: setting an option by assigning its attribute, as
 documented, sets the option

Instead, it replaced the option object, so the option did not change and leaving
the with block or resetting the options raised AttributeError.
---
 pyfileconf/opts/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index d466c6f..f48e041 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -164,6 +164,13 @@ class PyfileconfOptionsManager:
         opts_str = '\t' + '\n\t'.join(repr(opt) for opt in self._options) + '\n'
         return f'<PyfileconfOptionsManager(options=[\n{opts_str}])>'
 
+    def __setattr__(self, attr: str, value: Any):
+        if attr in options.option_attrs and not isinstance(value, PyfileconfOption):
+            # e.g. options.log_stdout = True
+            self.set_option(attr, value)
+        else:
+            super().__setattr__(attr, value)
+
     def __dir__(self) -> Iterable[str]:
         orig_items = super().__dir__()
         return list(orig_items) + list(options.option_attrs)
-- 
2.43.0


From 3d5c13ff8a484cb760dfee548ad3dfd65e5bddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 30/52] fix: a load or reload which is interrupted wipes what
 it imported and can be tried again

---
 pyfileconf/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 7ad07fa..db85171 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -316,7 +316,7 @@ class PipelineManager:
 
         try:
             self._load_pipeline_config_and_runner()
-        except Exception as e:
+        except BaseException as e:
             # Reset loaded modules from import, completely canceling load so it can be tried again
             self._loaded_modules = self._import_tracker.imported_modules
             self._wipe_loaded_modules()
@@ -578,7 +578,7 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        [sys.modules.pop(module, None) for module in self._loaded_modules]
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
-- 
2.43.0


From 6013c75e4b82fd406860a945957f2aeb611c5d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 31/52] fix: a manager is registered only once its project
 files could be created

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index db85171..e9b8d2f 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -78,8 +78,8 @@ class PipelineManager:
         self._general_registrar: Optional[PipelineRegistrar] = None
 
         self._validate_options()
-        context.active_managers[self.name] = self
         self._create_project_if_needed()
+        context.active_managers[self.name] = self
 
 
     def __getattr__(self, item):
-- 
2.43.0


From ef08c1c021bd2bd1c15a5c61ceedcbaae2f543dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 32/52] fix: a file belongs to the manager with the innermost
 folder containing it

---
 pyfileconf/main.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index e9b8d2f..cf16206 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -478,12 +478,18 @@ class PipelineManager:
             manager has a config file matching the file path
         """
         abs_filepath = os.path.abspath(filepath)
+        matches = []
         for manager in context.active_managers.values():
-            manager_path = os.path.abspath(manager.folder)
-            if abs_filepath.startswith(manager_path + os.sep):
-                return manager
+            for manager_path in (manager.folder, manager.default_config_path):
+                manager_path = os.path.abspath(manager_path)
+                if abs_filepath.startswith(manager_path + os.sep):
+                    matches.append((len(manager_path), manager))
 
-        raise NoPipelineManagerForFilepathException
+        if not matches:
+            raise NoPipelineManagerForFilepathException
+
+        # Folders of managers may be within each other, the innermost one owns the file
+        return max(matches, key=lambda match: match[0])[1]
 
     @classmethod
     def get_manager_by_section_path_str(cls, section_path_str: str) -> 'PipelineManager':
-- 
2.43.0


From 4313fcd5996d27040ea1df5d97995c69a3dcdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 33/52] fix: a config or dict file keeps its contents when
 writing its new contents fails

---
 pyfileconf/io/file/interfaces/config.py   |  4 ++--
 pyfileconf/io/file/interfaces/datadict.py |  4 ++--
 pyfileconf/io/file/interfaces/pipeline.py |  4 ++--
 pyfileconf/io/file/write/save.py          | 27 +++++++++++++++++++++++
 4 files changed, 33 insertions(+), 6 deletions(-)
 create mode 100644 pyfileconf/io/file/write/save.py

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index 388771e..1c87b76 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -4,6 +4,7 @@ if TYPE_CHECKING:
 
 from pyfileconf.io.file.load.lazy.config import ConfigFileLoader
 from pyfileconf.io.file.write.config import ConfigFileStr
+from pyfileconf.io.file.write.save import write_file_safely
 
 class ConfigFileInterface(ConfigFileLoader):
 
@@ -16,5 +17,4 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_body=self.assignment_body
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_safely(self.filepath, file_str_obj.file_str)
diff --git a/pyfileconf/io/file/interfaces/datadict.py b/pyfileconf/io/file/interfaces/datadict.py
index 7c7c78a..e152bfe 100644
--- a/pyfileconf/io/file/interfaces/datadict.py
+++ b/pyfileconf/io/file/interfaces/datadict.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.io.file.load.lazy.datadict import SpecificClassDictLoader
 from pyfileconf.io.file.write.base import FileStr
+from pyfileconf.io.file.write.save import write_file_safely
 
 
 class SpecificClassDictInterface(SpecificClassDictLoader):
@@ -19,5 +20,4 @@ class SpecificClassDictInterface(SpecificClassDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_safely(self.filepath, file_str_obj.file_str)
diff --git a/pyfileconf/io/file/interfaces/pipeline.py b/pyfileconf/io/file/interfaces/pipeline.py
index 1cac03f..c6b063f 100644
--- a/pyfileconf/io/file/interfaces/pipeline.py
+++ b/pyfileconf/io/file/interfaces/pipeline.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.io.file.load.lazy.pipeline import PipelineDictLoader
 from pyfileconf.io.file.write.base import FileStr
+from pyfileconf.io.file.write.save import write_file_safely
 
 
 class PipelineDictInterface(PipelineDictLoader):
@@ -19,5 +20,4 @@ class PipelineDictInterface(PipelineDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_safely(self.filepath, file_str_obj.file_str)
diff --git a/pyfileconf/io/file/write/save.py b/pyfileconf/io/file/write/save.py
new file mode 100644
index 0000000..9ed8ebe
--- /dev/null
+++ b/pyfileconf/io/file/write/save.py
@@ -0,0 +1,27 @@
+import os
+import shutil
+import tempfile
+
+
+def write_file_safely(filepath: str, contents: str) -> None:
+    """
+    Writes the file in a way that an existing file keeps its contents if writing fails or is interrupted
+
+    :param filepath: file to be created or replaced
+    :param contents: new contents of the file
+    """
+    filepath = os.path.realpath(filepath)  # write through symlinks rather than replacing them
+    descriptor, temp_path = tempfile.mkstemp(dir=os.path.dirname(filepath), prefix='.', suffix='.tmp')
+    try:
+        with os.fdopen(descriptor, 'w', newline='\n', encoding='utf8') as f:
+            f.write(contents)
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, temp_path)
+        else:
+            umask = os.umask(0)
+            os.umask(umask)
+            os.chmod(temp_path, 0o666 & ~umask)
+        os.replace(temp_path, filepath)
+    except BaseException:
+        os.remove(temp_path)
+        raise
-- 
2.43.0


From c15ebc01403a99b9af34a7a433c470d66275730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 34/52] fix: a Selector can be made while some manager is not
 loaded

---
 pyfileconf/selector/models/selector.py | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..9704129 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -2,6 +2,7 @@ import inspect
 from typing import Callable, List, Any
 import warnings
 
+from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
 from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
 from pyfileconf.sectionpath.sectionpath import SectionPath
 from pyfileconf.pipelines.models.collection import PipelineCollection
@@ -101,6 +102,8 @@ class Selector:
             # return only the manager itself
             return self._managers[manager_name], None
 
+        self._load_structure_for_manager_if_needed(manager_name)
+
         if section_path[1] in self._managers[manager_name].specific_class_names:
             # got a specific class path
             if len(section_path) == 2:
@@ -174,17 +177,33 @@ class Selector:
         out_dict = {}
         manager: PipelineManager
         for manager_name, manager in self._managers.items():
-            manager_dict = {
-                '_general': manager._general_registrar.collection,
-            }
-            for registrar in manager._registrars:
-                collection = registrar.collection
-                manager_dict.update({
-                    collection.name: collection
-                })
-            out_dict[manager_name] = manager_dict
+            if manager._general_registrar is None:
+                # Not loaded. Should not prevent using the other managers
+                continue
+            out_dict[manager_name] = self._get_structure_for_manager(manager)
         self._structure = out_dict
 
+    def _get_structure_for_manager(self, manager):
+        manager_dict = {
+            '_general': manager._general_registrar.collection,
+        }
+        for registrar in manager._registrars:
+            collection = registrar.collection
+            manager_dict.update({
+                collection.name: collection
+            })
+        return manager_dict
+
+    def _load_structure_for_manager_if_needed(self, manager_name: str):
+        if manager_name in self._structure:
+            return
+
+        # Was not loaded yet when the selector was created
+        manager = self._managers[manager_name]
+        if manager._general_registrar is None:
+            raise PipelineManagerNotLoadedException('call PipelineManager.load() before accessing '
+                                                    'functions and classes')
+        self._structure[manager_name] = self._get_structure_for_manager(manager)
 
 
 
-- 
2.43.0


From d6f93b93e704a01be49aa922a821ca99f0d9ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 35/52] fix: create in a manager which is not loaded does not
 modify the dict file

---
 pyfileconf/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index cf16206..3bad4f1 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -424,6 +424,9 @@ class PipelineManager:
         :return:
         """
         logger.info(f'Creating config for {section_path_str}')
+        if 'runner' not in self.__dict__:
+            # Must not modify any files
+            raise PipelineManagerNotLoadedException('call PipelineManager.load() before creating items')
         section_path = SectionPath(section_path_str)
 
         if section_path[0] in self.specific_class_names:
-- 
2.43.0


From 2cb3a4f52c875696d7d02545aff37df4caf72b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 36/52] fix: after a failed load the manager has no config
 which was not loaded

---
 pyfileconf/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 3bad4f1..aebc354 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -576,8 +576,9 @@ class PipelineManager:
             manager_name=self.name,
         )
 
-        self.config = ConfigManager(self.default_config_path, self.name)
-        self.config.load()
+        config = ConfigManager(self.default_config_path, self.name)
+        config.load()
+        self.config = config
 
         self.runner = Runner(
             config=self.config,
-- 
2.43.0


From 18c33e20e35cc2c643eefdeaf217f93a54e60cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 37/52] fix: a ValueError raised by a section config file is
 not taken for a missing file

---
 pyfileconf/config/models/section.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 68ad647..f10d8bf 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -89,11 +89,10 @@ class ConfigSection(Container, ReprMixin):
         ]
 
         # Special handling for section config
-        try:
+        if 'section.py' in config_file_list:
             config_file_list.remove('section.py')
             section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
-        except ValueError:
-            # Didn't find section config
+        else:
             section_config = None
 
         configs = [
-- 
2.43.0


From 23c4a61a111f01f5909a02d7408ed01981dd5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 38/52] fix: always_import_strs of a class dict do not remove
 the import which the default assignment uses

---
 pyfileconf/data/models/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/data/models/file.py b/pyfileconf/data/models/file.py
index 72884ec..534fd60 100644
--- a/pyfileconf/data/models/file.py
+++ b/pyfileconf/data/models/file.py
@@ -51,7 +51,10 @@ class SpecificClassConfigFile(ConfigFileBase):
         elif self.always_assign_strs == []:
             # None passed, remove default assignments
             self.always_assigns = []
-
+        elif self.always_import_strs is not None:
+            # The default assignments are kept, so what they use must be imported too
+            kept = [imp for imp in type(self).always_imports if imp not in self.always_imports]
+            self.always_imports = kept + self.always_imports
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 8029238c7c0cce8365b39854ca416a0404bd109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 39/52] fix: import specific classes and created items from the
 module which defines them

---
 pyfileconf/imports/logic/load/name.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..cf4f818 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -16,6 +16,14 @@ def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple
     if search_list is None:
         search_list = list(sys.modules.keys())
 
+    # Other modules may have it under another name, or may not be importable such as a script being run,
+    # so prefer the module in which it is defined
+    module_name = getattr(obj, '__module__', None)
+    if module_name in search_list and not _should_skip_module(module_name):
+        module = sys.modules[module_name]
+        if getattr(module, getattr(obj, '__name__', ''), None) is obj:
+            return module, module_name
+
     for module_name in search_list:
 
         # skip modules which were causing issues
-- 
2.43.0


From 2f08980225ce59bb8ddf162df696dd7fbe524520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 40/52] fix: always use the current contents of config files
 rather than cached bytecode

---
 pyfileconf/io/file/load/active/userdef.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/io/file/load/active/userdef.py b/pyfileconf/io/file/load/active/userdef.py
index b1ba2f1..f7cddab 100644
--- a/pyfileconf/io/file/load/active/userdef.py
+++ b/pyfileconf/io/file/load/active/userdef.py
@@ -1,5 +1,6 @@
 import importlib.util
 from importlib.abc import Loader
+from importlib.machinery import SourceFileLoader
 from types import ModuleType
 import sys
 from typing import Optional
@@ -31,6 +32,16 @@ def _get_user_defined_dict_from_module(module: ModuleType) -> dict:
     return out_dict
 
 
+class _UncachedSourceFileLoader(SourceFileLoader):
+    """
+    Always compiles the contents of the file. Cached bytecode is considered up to date as long as
+    the size and the modification time in seconds match, which may not be the case after quick edits
+    """
+
+    def path_stats(self, path):
+        raise OSError('do not use cached bytecode')
+
+
 def _load_file_as_module(filepath: str, name: Optional[str] = 'module.name') -> ModuleType:
     if name is None:
         name = 'module.name'
@@ -38,7 +49,9 @@ def _load_file_as_module(filepath: str, name: Optional[str] = 'module.name') ->
     else:
         add_to_sys = True
 
-    spec = importlib.util.spec_from_file_location(name, filepath)
+    spec = importlib.util.spec_from_file_location(
+        name, filepath, loader=_UncachedSourceFileLoader(name, filepath)
+    )
     module = importlib.util.module_from_spec(spec)
     if spec is None or spec.loader is None or not isinstance(spec.loader, Loader):
         raise CouldNotImportException(
-- 
2.43.0


From 33385562a5729b0f2b1ecdcde43ec495c262e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:52 +0000
Subject: [PATCH 41/52] fix: selectors created before a manager is loaded again
 look up what it has now

---
 pyfileconf/selector/models/selector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 9704129..6a4ff7a 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -195,14 +195,15 @@ class Selector:
         return manager_dict
 
     def _load_structure_for_manager_if_needed(self, manager_name: str):
-        if manager_name in self._structure:
-            return
-
-        # Was not loaded yet when the selector was created
         manager = self._managers[manager_name]
         if manager._general_registrar is None:
             raise PipelineManagerNotLoadedException('call PipelineManager.load() before accessing '
                                                     'functions and classes')
+        structure = self._structure.get(manager_name)
+        if structure is not None and structure['_general'] is manager._general_registrar.collection:
+            return
+
+        # Was loaded, possibly again, after the selector was created
         self._structure[manager_name] = self._get_structure_for_manager(manager)
 
 
-- 
2.43.0


From b24466162dd62a5f9109202f5cea9f832f5c3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 42/52] fix: names of a manager which is not loaded yet can be
 listed

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index aebc354..02defc8 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -107,7 +107,7 @@ class PipelineManager:
         ]
         exposed_attrs = ['name'] + self.specific_class_names
         exposed = exposed_methods + exposed_attrs
-        if hasattr(self, '_registrars'):
+        if getattr(self, '_registrars', None) is not None:
             skip_methods = [
                 'scaffold_config',
                 'basepath',
-- 
2.43.0


From 6f0b952484b0f971e8cbe732403fc4ac5cd4cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:19 +0000
Subject: [PATCH 43/52] fix: the order of imports in config files does not
 depend on the hash seed

---
 pyfileconf/io/file/load/parsers/extname.py | 2 +-
 pyfileconf/io/func/load/extractimp.py      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/io/file/load/parsers/extname.py b/pyfileconf/io/file/load/parsers/extname.py
index c4767c9..e8fdc2f 100644
--- a/pyfileconf/io/file/load/parsers/extname.py
+++ b/pyfileconf/io/file/load/parsers/extname.py
@@ -55,4 +55,4 @@ def extract_unique_external_names_from_assign_value(ast_node: ast.AST) -> List[s
     ne = NameExtractor()
     ne.visit(ast_node)
 
-    return list(set(ne.names))
+    return list(dict.fromkeys(ne.names))
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index fcc8982..9bd9fe6 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -58,13 +58,13 @@ def _unique_external_names_from_default_dict_and_annotation_dict(default_dict: d
     names = _unique_external_names_from_assignment_dict(default_dict)
     names += _unique_external_names_from_annotation_dict(annotation_dict)
 
-    return list(set(names))
+    return list(dict.fromkeys(names))
 
 def _unique_external_names_from_multiple_assignment_dicts(*assignment_dicts) -> List[str]:
     all_names: List[str] = []
     for assignment_dict in assignment_dicts:
         all_names += _unique_external_names_from_assignment_dict(assignment_dict)
-    return list(set(all_names))
+    return list(dict.fromkeys(all_names))
 
 def _unique_external_names_from_assignment_dict(assignment_dict: dict) -> List[str]:
     names = []
@@ -72,7 +72,7 @@ def _unique_external_names_from_assignment_dict(assignment_dict: dict) -> List[s
         new_names = extract_unique_external_names_from_assign_value(value)
         names.extend(new_names)
     no_none_names: List[str] = [name for name in names if name is not None]
-    return list(set(no_none_names))
+    return list(dict.fromkeys(no_none_names))
 
 def _unique_external_names_from_annotation_dict(annotation_dict: dict) -> List[str]:
     type_str_names = _extract_unique_type_str_names_from_annotation_dict(annotation_dict)
@@ -83,7 +83,7 @@ def _extract_unique_type_str_names_from_annotation_dict(annotation_dict: dict) -
     for value in annotation_dict.values():
         names.extend(_extract_str_names_from_ambiguous_annotation(value))
 
-    return list(set(names))
+    return list(dict.fromkeys(names))
 
 def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
     # TODO [#26]: remove type ignores once typeshed has better ast support
-- 
2.43.0


From f1caedbfd3a71849d0900b0ed5551c51c7db2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:05 +0000
Subject: [PATCH 44/52] fix: records which are not ASCII reach the log file in
 every locale

---
 pyfileconf/logger/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 13bbf12..1ddada9 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -36,7 +36,7 @@ def create_file_handler() -> TimedRotatingFileHandler:
         os.makedirs(options.log_folder)
     log_path = os.path.join(options.log_folder, 'pyfileconf.log')
     fh = TimedRotatingFileHandler(
-        log_path, when=options.log_file_rollover_freq, backupCount=options.log_file_num_keep
+        log_path, when=options.log_file_rollover_freq, backupCount=options.log_file_num_keep, encoding='utf8'
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
-- 
2.43.0


From 1f994a9ade8fc825196943455404f73883e79970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 45/52] fix: remember changes which failed while being applied,
 so that trying again finishes them

When applying a changed config to the loaded object or refreshing the dependents raised,
the config itself had changed already, so that repeating the update, reset or refresh
found nothing to do, and the object or the dependents kept their old values.
---
 pyfileconf/runner/models/runner.py | 47 +++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 535b636..7545a24 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -1,5 +1,6 @@
 import inspect
-from typing import Callable, Tuple, cast, Sequence, Type, Union, Dict, Any, List
+from contextlib import contextmanager
+from typing import Callable, Tuple, cast, Sequence, Type, Union, Dict, Any, List, Set, Iterator
 from functools import partial
 
 from mixins.repr import ReprMixin
@@ -42,6 +43,9 @@ class Runner(ReprMixin):
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
         self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
+        # Items with a changed config, for which an exception was raised while applying it to the loaded
+        # object and the dependents
+        self._unfinished_changes: Set[str] = set()
 
     def __getattr__(self, item):
         # TODO [#14]: find way of doing runner look ups with fewer side effects
@@ -378,9 +382,10 @@ class Runner(ReprMixin):
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
         new_config, updated = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
 
-        if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+        if self._is_loaded_with_change(section_path_str, updated):
+            with self._finishing_change(section_path_str):
+                apply_config(self._loaded_objects[section_path_str], new_config)
+                self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -388,19 +393,35 @@ class Runner(ReprMixin):
         is passed, resets local config.
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
-        if updated and section_path_str in self._loaded_objects:
-            # Look up the config again, as it may be overridden by section configs
-            config = self._get_config(section_path_str)
-            apply_config(self._loaded_objects[section_path_str], config)
-            self._config.track_post_update(config, section_path_str, {**config})
+        if self._is_loaded_with_change(section_path_str, updated):
+            with self._finishing_change(section_path_str):
+                # Look up the config again, as it may be overridden by section configs
+                config = self._get_config(section_path_str)
+                apply_config(self._loaded_objects[section_path_str], config)
+                self._config.track_post_update(config, section_path_str, {**config})
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
 
-        if updated and section_path_str in self._loaded_objects:
-            config = self._get_config(section_path_str)
-            apply_config(self._loaded_objects[section_path_str], config)
-            self._config.track_post_update(config, section_path_str, updates)
+        if self._is_loaded_with_change(section_path_str, updated):
+            with self._finishing_change(section_path_str):
+                config = self._get_config(section_path_str)
+                apply_config(self._loaded_objects[section_path_str], config)
+                self._config.track_post_update(config, section_path_str, updates)
+
+    def _is_loaded_with_change(self, section_path_str: str, updated: bool) -> bool:
+        has_change = updated or section_path_str in self._unfinished_changes
+        return has_change and section_path_str in self._loaded_objects
+
+    @contextmanager
+    def _finishing_change(self, section_path_str: str) -> Iterator[None]:
+        self._unfinished_changes.discard(section_path_str)
+        try:
+            yield
+        except BaseException:
+            # The config has changed already, so must remember for trying again to have an effect
+            self._unfinished_changes.add(section_path_str)
+            raise
 
     def _is_specific_class(self, obj: Any) -> bool:
         return self._all_specific_classes and isinstance(obj, self._all_specific_classes)  # type: ignore
-- 
2.43.0


From e23fb7214febd44a9fb3c21a34965a30a14b82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:33 +0000
Subject: [PATCH 46/52] fix: create a new project with the config folder it was
 given instead of always 'defaults'

---
 pyfileconf/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 02defc8..56929bf 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -618,7 +618,9 @@ class PipelineManager:
 
     def _create_project_if_needed(self):
         if self._need_to_create_project():
-            create_project(self.folder, options.log_folder, self.specific_class_config_dicts)
+            create_project(
+                self.folder, options.log_folder, self.specific_class_config_dicts, defaults_path=self.default_config_path
+            )
 
     def _need_to_create_project(self) -> bool:
         return any([
@@ -727,11 +729,13 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
 
 
 def create_project(path: str, logs_path: str,
-                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
+                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None,
+                   defaults_path: Optional[str] = None):
     """
     Creates a new pyfileconf project file structure
     """
-    defaults_path = os.path.join(path, 'defaults')
+    if defaults_path is None:
+        defaults_path = os.path.join(path, 'defaults')
     pipeline_path = os.path.join(path, 'pipeline_dict.py')
 
     if not os.path.exists(defaults_path):
-- 
2.43.0


From 69b43fb96ba8bcdd62f98751011d186d02c6bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 47/52] fix: keep the manager as it was when reloading fails

The registrars were replaced before the section configs were loaded, so a failing reload left
the names of the new dicts with the items and configuration of the old ones.
---
 pyfileconf/main.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 56929bf..e537f1b 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -568,7 +568,7 @@ class PipelineManager:
 
         """
         # Load dynamically instead of passing dict to ensure modules are loaded into sys now
-        self._registrars, self._general_registrar = create_registrars(
+        registrars, general_registrar = create_registrars(
             self.specific_class_config_dicts,
             self.default_config_path,
             self.folder,
@@ -578,15 +578,19 @@ class PipelineManager:
 
         config = ConfigManager(self.default_config_path, self.name)
         config.load()
-        self.config = config
 
-        self.runner = Runner(
-            config=self.config,
-            registrars=self._registrars,
-            general_registrar=self._general_registrar,
+        runner = Runner(
+            config=config,
+            registrars=registrars,
+            general_registrar=general_registrar,
             name=self.name,
         )
 
+        # Everything was loaded. Set only now so that a failure does not leave the manager partly reloaded
+        self._registrars, self._general_registrar = registrars, general_registrar
+        self.config = config
+        self.runner = runner
+
     def _wipe_loaded_modules(self):
         [sys.modules.pop(module, None) for module in self._loaded_modules]
 
-- 
2.43.0


From fa69a2412e3b28c359e75fbbccfff95a1227daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:27 +0000
Subject: [PATCH 48/52] fix: keep the comments of import statements when a
 config file is written again

---
 pyfileconf/io/file/load/lazy/config.py |  5 ++--
 pyfileconf/io/file/load/parsers/imp.py | 32 ++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index aeefb1f..1921bc2 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,8 +1,7 @@
-import ast
 from typing import List, Tuple
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
-from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
+from pyfileconf.io.file.load.parsers.imp import extract_imports_and_their_comments_from_str
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
 from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
@@ -42,7 +41,7 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
             self._assignment_body = assignment_lines
-            self._import_section_imports = extract_imports_from_ast(ast.parse('\n'.join(import_lines)))
+            self._import_section_imports = extract_imports_and_their_comments_from_str('\n'.join(import_lines))
         else:
             self._assignment_body = []
             self._import_section_imports = ImportStatementContainer([])
diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..4762639 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -1,11 +1,14 @@
 import ast
-from typing import Union
+import io
+import tokenize
+from typing import Dict, Optional, Union
 
 from pyfileconf.exceptions.imports import ExtractedIncorrectTypeOfImportException
 from pyfileconf.imports.models.statements.interfaces import (
     ObjectImportStatement,
     ModuleImportStatement,
-    AnyImportStatement
+    AnyImportStatement,
+    Comment
 )
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 
@@ -15,24 +18,35 @@ ModuleImportStatementOrNone = Union[ModuleImportStatement, None]
 
 class ImportExtractor(ast.NodeVisitor):
 
-    def __init__(self):
+    def __init__(self, comments: Optional[Dict[int, str]] = None):
         self.imports = ImportStatementContainer([])
+        self.comments = comments or {}
 
     def visit_Import(self, node):
-        self.imports.append(
-            ModuleImportStatement.from_ast_import(node)
-        )
+        self._add(ModuleImportStatement.from_ast_import(node), node)
 
     def visit_ImportFrom(self, node):
-        self.imports.append(
-            ObjectImportStatement.from_ast_import_from(node)
-        )
+        self._add(ObjectImportStatement.from_ast_import_from(node), node)
+
+    def _add(self, imp, node):
+        numbers = range(node.lineno, node.end_lineno + 1)
+        comments = [self.comments.pop(number) for number in numbers if number in self.comments]
+        if comments:
+            imp.comment = Comment('  '.join(comments)[1:])  # Comment adds the leading #
+        self.imports.append(imp)
 
 def extract_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
     ie = ImportExtractor()
     ie.visit(module)
     return ie.imports
 
+def extract_imports_and_their_comments_from_str(source: str) -> ImportStatementContainer:
+    tokens = tokenize.generate_tokens(io.StringIO(source).readline)
+    comments = {token.start[0]: token.string for token in tokens if token.type == tokenize.COMMENT}
+    ie = ImportExtractor(comments)
+    ie.visit(ast.parse(source))
+    return ie.imports
+
 def extract_obj_import_from_ast(module: ast.Module) -> ObjectImportStatementOrNone:
     import_container = extract_imports_from_ast(module)
     imp = _extract_single_import_from_container(import_container)
-- 
2.43.0


From 89dd58439f710d114c456b15b0d1ee94a3c5232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:25 +0000
Subject: [PATCH 49/52] fix: return classes of a general section named
 'general' when their views are called

---
 pyfileconf/selector/models/itemview.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index 80fb219..1a49dc5 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -104,11 +104,9 @@ class ItemView:
         # Determine whether this object is from a specific class collection
         manager = PipelineManager.get_manager_by_section_path_str(self.section_path_str)
         collection_name = SectionPath(self.section_path_str)[1]
-        try:
-            registrar = manager._registrar_dict[collection_name]
-            specific_class = True
-        except KeyError:
-            specific_class = False
+        # The registrar of other items is stored under the name 'general', which may also be
+        # the name of a section of these, so check against the names of specific classes
+        specific_class = collection_name in manager.specific_class_names
 
         # Handle depending on the type of item
         if isinstance(actual_item, partial):
@@ -118,7 +116,7 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            execute_attr = registrar.collection.execute_attr
+            execute_attr = manager._registrar_dict[collection_name].collection.execute_attr
             func = getattr(actual_item, execute_attr)
         else:
             cannot_parse_error = ValueError(f'could not parse actual item, expected partial, '
-- 
2.43.0


From b3e7581fc19c21aa4446464b61c588c081db7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:32 +0000
Subject: [PATCH 50/52] fix: copy the item of a Selector view instead of
 failing to copy the view

---
 pyfileconf/selector/models/itemview.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index 1a49dc5..9e5e5ec 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -11,7 +11,7 @@ from pyfileconf.selector.logic.exc.typo import (
 )
 from pyfileconf.selector.models.selector import Selector
 from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
-from copy import deepcopy
+from copy import copy, deepcopy
 
 
 class ItemView:
@@ -151,6 +151,9 @@ class ItemView:
         result = func(*args, **kwargs)
         return result
 
+    def __copy__(self):
+        return copy(self.item)
+
     def __deepcopy__(self, memodict={}):
         return deepcopy(self.item, memodict)
 
-- 
2.43.0


From 43625f01f8e036478c9a387bb37cd895d821a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:15 +0000
Subject: [PATCH 51/52] fix: do not take an import which renames an object for
 one of its original name

---
 pyfileconf/imports/models/statements/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index b8633b5..87c5934 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -20,6 +20,12 @@ def _renames_match(item, other, names: List[str]) -> bool:
     return all(item_map.get(name) == other_map.get(name) for name in names)
 
 
+def _names_without_rename(names: List[str], renames: RenameStatementCollection) -> List[str]:
+    # A renamed item is not available under its original name, unless it is imported a second time without the rename
+    orig_names = renames.orig_names
+    return [name for name in names if names.count(name) > orig_names.count(name)]
+
+
 class ImportStatementContainer(Container, ReprMixin):
     repr_cols = ['items']
 
@@ -104,7 +110,7 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
+                if name in _names_without_rename(imp.modules, imp.renames):
                     # match on original module name
                     # set up for creating a new import
                     found_import = True
@@ -124,7 +130,7 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
+                if name in _names_without_rename(imp.objs, imp.renames):
                     # match on original object name
                     # set up for creating a new import
                     found_import = True
-- 
2.43.0


From 0754d2808583562df84f131b4cb7283d9714b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:34 +0000
Subject: [PATCH 52/52] fix: keep every name when an object is imported under
 several names in one statement

---
 pyfileconf/imports/models/statements/container.py  | 8 ++++++--
 pyfileconf/imports/models/statements/importbase.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 87c5934..2b29200 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -16,8 +16,12 @@ from pyfileconf.imports.models.statements.rename import RenameStatementCollectio
 from pyfileconf.io.file.load.parsers.extname import extract_external_name_from_assign_value
 
 def _renames_match(item, other, names: List[str]) -> bool:
-    item_map, other_map = item.renames.name_map, other.renames.name_map
-    return all(item_map.get(name) == other_map.get(name) for name in names)
+    # The same object may be imported multiple times, under different names
+    other_new_names = [(rename.item, rename.new_name) for rename in other.renames]
+    other_names = _names_without_rename(getattr(other, other.rename_attr), other.renames)
+    return all(
+        (rename.item, rename.new_name) in other_new_names for rename in item.renames
+    ) and all(name in other_names for name in _names_without_rename(names, item.renames))
 
 
 def _names_without_rename(names: List[str], renames: RenameStatementCollection) -> List[str]:
diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..e6b59a3 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -22,10 +22,14 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
         if self.renames is None:
             return rename_items # no saved renames, just return original attrs
 
+        # The same item may be imported multiple times, under different names
+        unused_renames = list(self.renames)
         renamed_items = []
         for item in rename_items:
-            if item in self.renames:
-                renamed_items.append(str(self.renames[item]))
+            rename = next((rename for rename in unused_renames if rename.item == item), None)
+            if rename is not None:
+                unused_renames.remove(rename)
+                renamed_items.append(str(rename))
             else:
                 renamed_items.append(item)
 
-- 
2.43.0

