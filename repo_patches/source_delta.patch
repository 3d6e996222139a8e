From 26ce42caf481eb85399aaf5f1358e17a3c9014f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 01/78] fix: relative node paths that start at or climb to the
 world path

Expanding 'a' from '/' gave '//a', and '..' from a root node gave an empty
path instead of '/'.
---
 nxt/nxt_path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..671993b 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -124,6 +124,9 @@ def expand_relative_node_path(rel_path, start_node_path):
     current_path = start_node_path
     if rel_path.startswith(NODE_SEP):
         return rel_path
+    if current_path == WORLD:
+        # The world path is only a separator, it has no name to build on
+        current_path = ''
     split_path = rel_path.split(NODE_SEP)
     for directive in split_path:
         if directive == '..':
@@ -136,7 +139,7 @@ def expand_relative_node_path(rel_path, start_node_path):
         # If we get this far, it must be the name of something.
         current_path += NODE_SEP
         current_path += directive
-    return current_path
+    return current_path or WORLD
 
 
 def path_attr_partition(str_path):
-- 
2.43.0


From 35078066b5b912fbe94dc44934d07fbe849ece10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 02/78] fix: replace_ancestor only replaces a leading ancestor,
 and accepts the world

It replaced the first occurrence of the old ancestor anywhere in the path,
and left the path unchanged when the old ancestor was the world path.
---
 nxt/nxt_path.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 671993b..1b31b41 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -307,15 +307,13 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :return: New path with `old_ancestor` replaced with `new_ancestor`
     :rtype: str
     """
-    path = _add_path_terminator(path)
-    old_ancestor = _add_path_terminator(old_ancestor)
-    new_ancestor = _add_path_terminator(new_ancestor)
-    new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
-    if not old_ancestor_is_world:
-        new_path = path.replace(old_ancestor, new_ancestor, 1)
-    new_path = new_path[:-1]
-    return new_path.replace(NODE_SEP+NODE_SEP, NODE_SEP)
+    # The world path is only a separator, as a prefix it is empty
+    path, old_ancestor, new_ancestor = ['' if p == WORLD else p for p in
+                                        (path, old_ancestor, new_ancestor)]
+    terminated_path = _add_path_terminator(path)
+    if terminated_path.startswith(_add_path_terminator(old_ancestor)):
+        path = new_ancestor + path[len(old_ancestor):]
+    return path or WORLD
 
 
 def is_ancestor(path_to_check, ancestor_path):
-- 
2.43.0


From 53ee5bf5ab7fab2341a7b00ce1083edcd16993f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 03/78] fix: full_file_expand restores the working directory
 when it fails

---
 nxt/nxt_path.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 1b31b41..5a199cc 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -27,11 +27,13 @@ def full_file_expand(path, start=None):
     if start:
         os.chdir(start)
 
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 202ef39ba66841e772be67450217b683c84ea987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/78] fix: foreign env vars next to a name character, or with
 digits, expand

On linux '%A%_b' became '$A_b', another variable, and '%A1%' stayed as is.
---
 nxt/nxt_path.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 5a199cc..bec40bd 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -42,14 +42,14 @@ def full_file_expand(path, start=None):
 # NOTE match uses platform specific identifier, returns name only in group1.
 PLATFORM_VAR_PATTERN_MAP = {
     'linux': re.compile(r"\$([a-zA-Z_]*)"),
-    'win32': re.compile(r"%([a-zA-Z_]*)%")
+    'win32': re.compile(r"%([a-zA-Z_][a-zA-Z0-9_]*)%")
 }
 PLATFORM_VAR_PATTERN_MAP['linux2'] = PLATFORM_VAR_PATTERN_MAP['linux']
 PLATFORM_VAR_PATTERN_MAP['darwin'] = PLATFORM_VAR_PATTERN_MAP['linux']
 
 # Strings ready to format with env var name. Result is ready for os expansion.
 PLATFORM_VAR_FORMAT_MAP = {
-    'linux': "${}",
+    'linux': "${{{}}}",
     'win32': "%{}%"
 }
 PLATFORM_VAR_FORMAT_MAP['linux2'] = PLATFORM_VAR_FORMAT_MAP['linux']
@@ -85,7 +85,7 @@ def unify_env_vars(path, target_platform=sys.platform):
     replaced_patterns = []  # patterns we've alreay replaced.
     # replace platform vars from other platforms with vars from target platform
     result = path
-    for platform, pattern in PLATFORM_VAR_PATTERN_MAP.items():
+    for pattern in PLATFORM_VAR_PATTERN_MAP.values():
         # Do not replace vars from our target platform
         if pattern == target_search_pattern:
             continue
@@ -93,11 +93,9 @@ def unify_env_vars(path, target_platform=sys.platform):
         if pattern in replaced_patterns:
             continue
         replaced_patterns += [pattern]
-        found_vars = re.findall(pattern, path)
-        for var in found_vars:
-            bad_var = PLATFORM_VAR_FORMAT_MAP[platform].format(var)
-            new_var = PLATFORM_VAR_FORMAT_MAP[target_platform].format(var)
-            result = result.replace(bad_var, new_var)
+        new_var = PLATFORM_VAR_FORMAT_MAP[target_platform]
+        result = pattern.sub(lambda match: new_var.format(match.group(1)),
+                             result)
     return result
 
 
-- 
2.43.0


From c1ab251363996e874fc32e429c124daf9184e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 05/78] fix: nodes that instance one another's ancestors no
 longer comp forever

---
 nxt/stage.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..413f12f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2987,6 +2987,30 @@ class Stage:
                                              rm_layer_data=False)
         return proxy_map
 
+    @staticmethod
+    def instances_ancestor(node_path, instance_path, comp_layer):
+        """Follows the instance sources starting at the given instance path
+        and checks if any of them is an ancestor of the given node path.
+        Mirroring the children of such a source would never end.
+        :param node_path: String of node path
+        :param instance_path: Absolute instance path of the node
+        :param comp_layer: CompLayer
+        :return: bool
+        """
+        checked = set()
+        while instance_path and instance_path not in checked:
+            if node_path.startswith(instance_path + nxt_path.NODE_SEP):
+                return True
+            checked.add(instance_path)
+            source_node = comp_layer.lookup(instance_path)
+            source_inst = getattr(source_node, INTERNAL_ATTRS.INSTANCE_PATH,
+                                  None)
+            if not source_inst or source_inst == nxt_path.WORLD:
+                break
+            instance_path = nxt_path.expand_relative_node_path(source_inst,
+                                                               instance_path)
+        return False
+
     def discover_proxies(self, node_path, comp_node, comp_layer,
                          namespace=None):
         """Given a node and the current comp layer this function will return
@@ -3013,8 +3037,8 @@ class Stage:
                          links=[node_path])
             return to_do
         real_inst_path = _expand(instance_path, node_path)
-        # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        # Check that instance isn't, and doesn't itself instance, an ancestor
+        if self.instances_ancestor(node_path, real_inst_path, comp_layer):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return to_do
@@ -3308,8 +3332,8 @@ class Stage:
                          links=[node_path])
             return
         real_inst_path = _expand(instance_path, node_path)
-        # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        # Check that instance isn't, and doesn't itself instance, an ancestor
+        if Stage.instances_ancestor(node_path, real_inst_path, comp_layer):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return
-- 
2.43.0


From 8ea4e09be69796576342f4796688d1c105417d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 06/78] fix: children of an existing node below an instance are
 always mirrored

---
 nxt/stage.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 413f12f..1535988 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3076,6 +3076,11 @@ class Stage:
                                        INTERNAL_ATTRS.INSTANCE_PATH, None)
                 if ex_inst_path != '':
                     setattr(target, INTERNAL_ATTRS.INSTANCE_PATH, inst_child_src_path)
+                    if ex_inst_path != inst_child_src_path:
+                        # The target may have been visited before it got this
+                        # instance path, so its own children are due.
+                        to_do += self.discover_proxies(tgt_path, target,
+                                                       comp_layer)
             else:
                 to_do += [(target_ns, inst_child_src_path, tgt_path)]
         sort_multidimensional_list(to_do, 0)
@@ -3100,10 +3105,11 @@ class Stage:
             for _, comp_node in instance_sorted:
                 node_path = comp_layer.get_node_path(comp_node)
                 namespace = nxt_path.str_path_to_node_namespace(node_path)
-                to_do += self.discover_proxies(node_path,
-                                               comp_node,
-                                               comp_layer,
-                                               namespace=namespace)
+                discovered = self.discover_proxies(node_path,
+                                                   comp_node,
+                                                   comp_layer,
+                                                   namespace=namespace)
+                to_do += [d for d in discovered if d not in to_do]
             # Create and add new proxy nodes to the comp layer
             for new_tgt_ns, new_source_path, new_tgt_path, in to_do:
                 new = self.create_instance_node(new_source_path, new_tgt_path,
-- 
2.43.0


From 7bfba03f55c3ccafcb3d388bd2b4f8500c0400c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 07/78] fix: an instance of an implied node is not left behind
 as a real node

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1535988..5427f3e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3095,6 +3095,7 @@ class Stage:
         proxy_count = 0
         loops = 0
         implied_proxies = []
+        implied_paths = set()
         # Create all the proxy nodes called for by instance paths
         while node_count != new_node_count:
             new_node_count = node_count
@@ -3114,7 +3115,9 @@ class Stage:
             for new_tgt_ns, new_source_path, new_tgt_path, in to_do:
                 new = self.create_instance_node(new_source_path, new_tgt_path,
                                                 comp_layer, new_tgt_ns)
-                if not new:
+                # An instance of an implied node is just as implied
+                if not new or new_source_path in implied_paths:
+                    implied_paths.add(new_tgt_path)
                     implied_node = comp_layer.lookup(new_tgt_path)
                     implied_proxies += [(implied_node, new_tgt_path,
                                          new_tgt_ns)]
-- 
2.43.0


From de2ba6b831559bfa425e52d7ca1a74f9bed66c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 08/78] fix: child queries compare paths and names by value

---
 nxt/nxt_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..e8be6dd 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -353,7 +353,7 @@ class SpecLayer(object):
             return bool(children_paths)
         if ordered:
             node = self.lookup(node_path)
-            if include_implied and not node:
+            if not node:
                 child_order = []
             else:
                 co_attr = nxt_node.INTERNAL_ATTRS.CHILD_ORDER
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
@@ -390,7 +390,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
-- 
2.43.0


From 376824c6019776c5bdf03308ca33fe1b4c0e5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 09/78] fix: descendants of a node as Node objects; child
 caches aren't handed out

---
 nxt/nxt_layer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e8be6dd..49c2fd4 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -343,8 +343,13 @@ class SpecLayer(object):
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            # Callers may alter the lists they're given, the cache keeps its
+            # own.
+            self._cached_children[node_path] = {
+                LayerReturnTypes.Node: children_nodes[:],
+                LayerReturnTypes.Path: children_paths[:],
+                LayerReturnTypes.NodeTable: node_table[:],
+                LayerReturnTypes.NameDict: copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
@@ -436,6 +441,10 @@ class SpecLayer(object):
                 raise ValueError('Ordered descedants can only return paths.')
             return self._ordered_descendants(node_path,
                                              include_implied=include_implied)
+        if return_type == LayerReturnTypes.Node:
+            table = self.descendants(node_path, LayerReturnTypes.NodeTable,
+                                     include_implied=include_implied)
+            return [node for _, node in table]
         descendants = self.children(node_path, return_type,
                                     include_implied=include_implied)
         more_descendants = descendants
-- 
2.43.0


From 021ff3ed7a9d605b74748d8471a68eda5c423216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 10/78] fix: implied child caches don't outlive node additions
 and deletions

---
 nxt/nxt_layer.py | 2 ++
 nxt/stage.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 49c2fd4..9e76916 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -178,6 +178,8 @@ class SpecLayer(object):
         """Re-populates the node table, and sets nodes' source layer.
         """
         self._node_table = []
+        self._cached_children = {}
+        self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
             for attr in get_node_local_attr_names(path, [self]):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
diff --git a/nxt/stage.py b/nxt/stage.py
index 5427f3e..bf6836b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -657,6 +657,8 @@ class Stage:
         layer._nodes_node_as_key[new_node] = node_path
         layer.clear_node_child_cache(node_path)
         layer.clear_node_child_cache(node_parent_path)
+        for ancestor_path in nxt_path.all_ancestor_paths(node_path):
+            layer.clear_node_child_cache(ancestor_path)
         node_ns = nxt_path.str_path_to_node_namespace(node_path)
         layer._node_table += [[node_ns, new_node]]
         setattr(new_node, INTERNAL_ATTRS.SOURCE_LAYER, layer.real_path)
-- 
2.43.0


From 5c8419d45c270a0a6cfd3f2f14c8f77169d6e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 11/78] fix: deleting descendants skips implied ones

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index bf6836b..c66622e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -822,7 +822,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            remove_node_paths += [d for d in descendants
+                                  if layer.node_exists(d)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From d7662fb75cb8fd5eae4ef2db490ddb252f4811f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 12/78] fix: the world is not its own ancestor

---
 nxt/nxt_path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index bec40bd..374a7fb 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -326,8 +326,8 @@ def is_ancestor(path_to_check, ancestor_path):
     :return: Whether ancestor_path is ancestor of path_to_check
     :rtype: bool
     """
-    if ancestor_path is WORLD:
-        return True
+    if ancestor_path == WORLD:
+        return path_to_check != WORLD
     return path_to_check.startswith(ancestor_path + NODE_SEP)
 
 
-- 
2.43.0


From d20ead002949dfd3aabf0317e959ec637ca5d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 13/78] fix: resolving doesn't search substituted text for
 later tokens

---
 nxt/stage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c66622e..24d24b3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1862,7 +1862,8 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
+        cursor = 0
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1891,8 +1892,11 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Substituted text is final, it isn't searched for later tokens.
+            start = text.index(token, cursor)
+            resolved += text[cursor:start] + rep
+            cursor = start + len(token)
+        return resolved + text[cursor:]
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From 6437a8a73c826cf1910cbfb094999a55009002dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 14/78] fix: values like {[]} are raw text, not an error

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 24d24b3..06b95b2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4185,7 +4185,7 @@ def clean_globals(code_lines, good_keys, global_dict):
 def determine_nxt_type(value):
     try:
         type_name = type(literal_eval(value)).__name__
-    except (ValueError, NameError, SyntaxError):
+    except (ValueError, NameError, SyntaxError, TypeError):
         type_name = 'raw'
     return type_name
 
-- 
2.43.0


From 6ceb3c47e23e9ab067e14fb65e693ec8d39e5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 15/78] fix: a file among NXT_FILE_ROOTS is skipped, not
 entered

---
 nxt/plugins/file_fallbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..e61ebd2 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -229,7 +229,7 @@ def iter_env_roots(only_exsiting=True):
         return
     if NXT_FILE_ROOTS in os.environ:
         for root in os.environ.get(NXT_FILE_ROOTS).split(ROOT_PATH_SEP):
-            if only_exsiting and not os.path.exists(root):
+            if only_exsiting and not os.path.isdir(root):
                 continue
             yield root
 
-- 
2.43.0


From 15ef0b42b0a29635fd28f3dbdcf6512baed1d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 16/78] fix: references in file tokens resolve where they are
 written

A reference in the value of another node was read from the asking node, text
around a nested file token was dropped, and nested references were not
resolved.
---
 nxt/plugins/file_fallbacks.py | 62 ++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index e61ebd2..61f0de5 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -182,46 +182,48 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
     comp layer, that the historical comp should be built at.
     :return: string of the resolved attribute token
     """
-    tokens = stage.get_tokens_from(string, token_type=TOKENTYPE.ATTR)
-    resolved_token = string
-    for attr_token in tokens:
-        attr_ref = get_token_content(attr_token)
+    resolved = ''
+    cursor = 0
+    for full_token in get_standalone_tokens(string):
+        start = string.index(full_token, cursor)
+        resolved += string[cursor:start]
+        cursor = start + len(full_token)
+        token_content = get_token_content(full_token)
+        token_type = stage.determine_token_type(token_content)
+        if token_type == file_fallback_token:
+            resolved += historical_resolve_file_ref(stage, comp_node,
+                                                    full_token, comp_layer,
+                                                    active_layers, token_type,
+                                                    historical_depth)
+            continue
+        if token_type != TOKENTYPE.ATTR:
+            resolved += full_token
+            continue
+        # The reference itself may contain tokens
+        attr_ref = historical_resolve_attr_ref(stage, token_content, comp_node,
+                                               comp_layer, active_layers,
+                                               historical_depth)
         ref_path, ref_attr_name = nxt_path.path_attr_partition(attr_ref)
+        node_path = get_node_path(comp_node)
         if ref_path and ref_attr_name:
             attr_name = ref_attr_name
-            source_path = ref_path
+            source_path = nxt_path.expand_relative_node_path(ref_path,
+                                                             node_path)
         else:
             attr_name = attr_ref
-            source_path = get_node_path(comp_node)
-        # If this attr ref is to another node, go there and get the value
-        if source_path:
-            node_path = get_node_path(comp_node)
-            source_path = nxt_path.expand_relative_node_path(source_path,
-                                                             node_path)
+            source_path = node_path
         source_node = comp_layer.lookup(source_path)
+        if source_node is None:
+            continue
         historical_node = stage.infer_lower_comp(source_node, comp_layer,
                                                  active_layers,
                                                  historical_depth)
-
         value = getattr(historical_node, attr_name, None) or ''
-        more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
-                                                         file_fallback_token))
-        for token_content in more:
-            token = stage.determine_token_type(get_token_content(token_content))
-            if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
-            elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
-        raw_token = make_token_str(attr_ref)
-        resolved_token = resolved_token.replace(raw_token, value)
-    return resolved_token
+        # Tokens in the value are relative to the node the value is from
+        resolved += historical_resolve_attr_ref(stage, str(value), source_node,
+                                                comp_layer, active_layers,
+                                                historical_depth)
+    return resolved + string[cursor:]
 
 
 def iter_env_roots(only_exsiting=True):
-- 
2.43.0


From 47ee976e62854f16778742992adaed748e61c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 17/78] fix: attributes declared locally aren't listed as
 instanced ones

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 06b95b2..68990db 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1655,7 +1655,8 @@ class Stage:
             inherited = p_loc + p_inherits
             p_inst_attrs = self.get_node_instanced_attr_names(parent,
                                                               comp_layer)
-            attrs += [a for a in p_inst_attrs if a not in inherited]
+            attrs += [a for a in p_inst_attrs
+                      if a not in inherited + local_attrs]
         else:
             inherited = []
         try:
-- 
2.43.0


From 7336d6549678a11ab5ecd012c04e5f36d52c1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 18/78] fix: a lower comp keeps an instance its strongest layer
 has no opinion on

---
 nxt/stage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 68990db..f698cbd 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2077,6 +2077,11 @@ class Stage:
                                     add_to_child_order=False)
         if specs:
             self._replace_base_classes(inferred_comp, tuple(specs))
+            # The strongest spec may not be the one that has the instance
+            for spec in reversed(specs):
+                val, op = get_opinion(spec, INTERNAL_ATTRS.INSTANCE_PATH)
+                if op:
+                    setattr(inferred_comp, INTERNAL_ATTRS.INSTANCE_PATH, val)
         ancestor_paths = nxt_path.all_ancestor_paths(path) + [nxt_path.WORLD]
         ancestors = []
         parent = None
-- 
2.43.0


From 3e10d3ddf17c34175a763fe27e1171b22ec016eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 19/78] fix: falsy attr values and blank comments and types are
 saved

Values like 0 or False, and opinions blanked with an empty string, were lost
by saving, duplicating and in cache files.
---
 nxt/nxt_node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..016be41 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -253,11 +253,11 @@ def get_node_as_dict(spec_node):
         typ = get_node_attr(spec_node, key + META_ATTRS.TYPE)
         value = get_node_attr(spec_node, key)
         sub_attrs = OrderedDict()
-        if comment:
+        if comment is not None:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
-        if typ:
+        if typ is not None:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 25287863dd667649e72d1fdcc99dd8bfa06df41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:37 +0000
Subject: [PATCH 20/78] fix: saving to a new path updates the source of the
 world node and of attrs

---
 nxt/nxt_layer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 9e76916..6017b04 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -937,10 +937,14 @@ class SpecLayer(object):
         return order_nodes_dict(nodes_dict)
 
     def propegate_real_path(self):
-        """Update nodes source layer to current real path
+        """Update nodes source layer, and the source of their attrs, to current
+        real path
         """
-        for node in self.descendants(return_type=LayerReturnTypes.Node):
+        for path, node in self._nodes_path_as_key.items():
             setattr(node, nxt_node.INTERNAL_ATTRS.SOURCE_LAYER, self.real_path)
+            for attr in list(node.__dict__.keys()):
+                if attr.endswith(nxt_node.META_ATTRS.SOURCE):
+                    setattr(node, attr, (self.real_path, path))
 
 
 class CompLayer(SpecLayer):
-- 
2.43.0


From 5739557a7f546da53093c2d0f843c6846bd8829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 21/78] fix: a failed or interrupted save no longer destroys
 the existing file

---
 nxt/nxt_io.py | 63 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..f26fe57 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -1,11 +1,14 @@
 """Methods for file input and output of nxt file data.
 """
 # Builtin
+import errno
 import json
 import logging
 import os
+import shutil
 import time
 import sys
+import uuid
 # Python 2/3 compatibility
 if sys.version_info[0] == 2:
     import cPickle as pickle
@@ -112,6 +115,40 @@ def load_file_data(filepath):
     return file_data
 
 
+def _safe_write(filepath, out_data, mode):
+    """Writes the given data next to the given file and then moves it into
+    place, so that the file never holds a partially written save.
+
+    :param filepath: Output file path
+    :param out_data: Data to write
+    :param mode: File mode, 'w' or 'wb'
+    """
+    target = os.path.realpath(filepath)
+    target_dir, file_name = os.path.split(target)
+    exists = os.path.exists(target)
+    if exists and not (os.path.isfile(target)
+                       and os.access(target_dir, os.W_OK)):
+        # Nothing can be moved into place
+        with open(target, mode) as out_file:
+            out_file.write(out_data)
+        return
+    if exists and not os.access(target, os.W_OK):
+        raise IOError(errno.EACCES, os.strerror(errno.EACCES), filepath)
+    temp_path = os.path.join(target_dir, '.{}.{}.tmp'.format(file_name,
+                                                             uuid.uuid4()))
+    try:
+        with open(temp_path, mode) as out_file:
+            out_file.write(out_data)
+        if exists:
+            shutil.copymode(target, temp_path)
+        # os.replace isn't in Python 2
+        getattr(os, 'replace', os.rename)(temp_path, target)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     """Saves the given file data to the given file path in the given file
     format. If no filepath is provided a temp file is generated.
@@ -124,11 +161,12 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     """
     start = time.time()
     ext = file_format
-    _, filepath_ext = os.path.splitext(filepath)
-    if filepath_ext not in FILE_FORMAT._ALL:
-        raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
-    elif filepath_ext != ext:
-        ext = filepath_ext
+    if filepath:
+        _, filepath_ext = os.path.splitext(filepath)
+        if filepath_ext not in FILE_FORMAT._ALL:
+            raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
+        elif filepath_ext != ext:
+            ext = filepath_ext
     filepath = filepath or tempfile.mkstemp(prefix='nxt_tmp_',
                                             suffix=ext)[1]
     filepath = filepath.replace(os.sep, '/')
@@ -136,13 +174,16 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
         filepath += ext
     if file_format == FILE_FORMAT.BINARY:
         gc.disable()
-        with open(filepath, 'wb') as out_file:
-            pickle.dump(save_data, out_file, protocol=-1)
-        gc.enable()
+        try:
+            out_data = pickle.dumps(save_data, protocol=-1)
+        finally:
+            gc.enable()
+        mode = 'wb'
     else:
-        with open(filepath, 'w') as out_file:
-            json.dump(save_data, out_file, indent=4, sort_keys=False,
-                      separators=(',', ': '))
+        out_data = json.dumps(save_data, indent=4, sort_keys=False,
+                              separators=(',', ': '))
+        mode = 'w'
+    _safe_write(filepath, out_data, mode)
     logger.info('Successfully saved "' + filepath + '"')
     update_time = str(int(round((time.time() - start) * 1000)))
     logger.debug("Saved in: " + update_time + "ms")
-- 
2.43.0


From f5c3ebd315811de43b036be882e73d080839d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:20 +0000
Subject: [PATCH 22/78] fix: an interrupted in place conversion no longer
 destroys the graph

---
 nxt/legacy.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..749ccef 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -595,7 +595,17 @@ def cli_file_convert(file_path, replace=False):
     out_file_name = out_file_name + ending + ext
     out_file_dir = os.path.dirname(file_path)
     out_file_path = os.path.join(out_file_dir, out_file_name)
-    with open(out_file_path, 'w') as out_file:
-        json.dump(file_data, out_file, indent=4, sort_keys=False,
-                  separators=(',', ': '))
-        logger.info('Successfully saved "' + out_file_path + '"')
+    # Never write over the original until the whole result is on disc
+    temp_path = out_file_path + '.tmp'
+    try:
+        with open(temp_path, 'w') as out_file:
+            json.dump(file_data, out_file, indent=4, sort_keys=False,
+                      separators=(',', ': '))
+        shutil.copymode(file_path, temp_path)
+        # os.replace isn't in Python 2
+        getattr(os, 'replace', os.rename)(temp_path, out_file_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+    logger.info('Successfully saved "' + out_file_path + '"')
-- 
2.43.0


From 4f2b3cd3d3484aa31f709997afd13c997971143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:33 +0000
Subject: [PATCH 23/78] fix: converting a file from a newer version is refused
 instead of never ending

---
 nxt/legacy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 749ccef..9d8db7e 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -61,6 +61,12 @@ class FileConverter(object):
                           'to open it in '
                           '{}'.format(file_version,
                                       GRAPH_VERSION.VERSION_STR))
+        elif (major_version, minor_version) > GRAPH_VERSION.VERSION_TUPLE:
+            # There is nothing to convert to, stepping up would never end
+            raise IOError('File version v{} is newer than '
+                          '{}. Please update '
+                          'nxt!'.format(file_version,
+                                        GRAPH_VERSION.VERSION_STR))
         return minor_version
 
     @classmethod
-- 
2.43.0


From d4f6aa131fa2c49e388eb7149f2ffae1b175d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 24/78] fix: the working directory is restored when loading a
 reference fails

---
 nxt/stage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f698cbd..63ed357 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -352,6 +352,13 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
+        try:
+            self._load_references(layer_data, parent_layer)
+        finally:
+            os.chdir(old_cwd)
+
+    def _load_references(self, layer_data, parent_layer):
+        real_path = layer_data['real_path']
         for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
             try:
                 layer_data = nxt_io.load_file_data(sub_layer_path)
@@ -372,7 +379,6 @@ class Stage:
                     parent_layer.sub_layers.remove(dat)
                 continue
             self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 2adb82d0961b94ca31295ec122536caeb8ca8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:12 +0000
Subject: [PATCH 25/78] fix: a cycle of layer references no longer recurses
 forever

---
 nxt/stage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 63ed357..e851afc 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -364,6 +364,11 @@ class Stage:
                 layer_data = nxt_io.load_file_data(sub_layer_path)
                 if not layer_data:
                     continue
+                sub_real_path = layer_data[SAVE_KEY.REAL_PATH]
+                if self.check_for_layer_ref_cycle(parent_layer,
+                                                  sub_real_path):
+                    raise IOError('Layer reference cycle: '
+                                  '{}'.format(sub_real_path))
             except IOError as e:
                 msg_pattern = "Failed to open {} referenced by {}"
                 logger.exception(msg_pattern.format(sub_layer_path, real_path))
-- 
2.43.0


From 3668079f3b286a7b4180a46929064fe08ac2e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 26/78] fix: sub layers of an added layer keep the order of its
 references

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e851afc..3e61fa3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -254,6 +254,7 @@ class Stage:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
+        sub_idx = idx + 1
         for ref in new_sublayer.sub_layers:
             if ref.get('layer'):
                 continue
@@ -264,7 +265,9 @@ class Stage:
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
             deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
+            layer_count = len(self._sub_layers)
+            self.new_sublayer(deep_sub_layer_data, idx=sub_idx)
+            sub_idx += len(self._sub_layers) - layer_count
         else:
             new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
-- 
2.43.0


From 4142a5602753f59f74e20b363c54bf511783fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 27/78] fix: removing a layer removes all of its sub layers

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 3e61fa3..0257f9f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -279,7 +279,7 @@ class Stage:
             layer = self._sub_layers[layer]
         file_path = layer.filepath
         layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
+        for remove_sub_data in layer_data[:]:
             layer_data.remove(remove_sub_data)
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
-- 
2.43.0


From f2f59edd93ac8314c056fb39ebc60678bf5f3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 28/78] fix: clearing a lock override looks at the lock
 overrides

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 6017b04..2c41737 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -823,7 +823,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From 3f5b8664484239c8436bf13d89a185153ace0db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 29/78] fix: setting an override on the top layer is refused as
 reported instead of crashing

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 2c41737..3ac7359 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -760,6 +760,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set alias override on top layer!')
+            return
         if alias is None:
             if layer_path in list(root.aliases.keys()):
                 root.aliases.pop(layer_path)
@@ -788,6 +789,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if color is None:
             if layer_path in list(root.colors.keys()):
                 root.colors.pop(layer_path)
@@ -822,6 +824,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if lock is None:
             if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
-- 
2.43.0


From 5ae75c267682f6275c1e2593cee1d125d48ff199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 30/78] fix: parenting several nodes of one name gives each its
 own name

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0257f9f..1482ae1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1173,6 +1173,8 @@ class Stage:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
+                # The comp must know of the nodes that were already moved
+                layer.refresh()
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
                                                      parent_path=parent_path)
-- 
2.43.0


From 195593b73d382b4e8a69f7d581907bec9e515f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 31/78] fix: moving one node from beneath an implied one keeps
 its siblings' order

---
 nxt/stage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1482ae1..38d42c9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1169,7 +1169,13 @@ class Stage:
                         dummy_root = nxt_path.get_root_path(split_path)
                         child_name = nxt_path.node_name_from_node_path(dummy_root)
                         co = getattr(ancestor, INTERNAL_ATTRS.CHILD_ORDER)
-                        if child_name in co:
+                        child_path = ancestor_path + child_name
+                        # Other nodes may remain beneath the implied child
+                        remaining = [p for p in _path_data
+                                     if nxt_path.is_ancestor(p, child_path) and
+                                     p != old_path and
+                                     not nxt_path.is_ancestor(p, old_path)]
+                        if child_name in co and not remaining:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
-- 
2.43.0


From b79b9fbf73b1b2de8a5c8f898aba598dda21a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 32/78] fix: collapse states of descendants follow a moved node

---
 nxt/stage.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 38d42c9..cec5465 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1115,6 +1115,20 @@ class Stage:
 
         return dirty_nodes, deleted
 
+    @staticmethod
+    def _repath_keys(data_dict, old_path, new_path):
+        """Moves the values of a node and of its descendants to the paths
+        they have after the node moved.
+        :param data_dict: Dict with node paths as keys
+        :param old_path: Path the node had
+        :param new_path: Path the node has
+        """
+        for path in list(data_dict.keys()):
+            if path == old_path or nxt_path.is_ancestor(path, old_path):
+                updated_path = nxt_path.replace_ancestor(path, old_path,
+                                                         new_path)
+                data_dict[updated_path] = data_dict.pop(path)
+
     def parent_nodes(self, nodes, parent_path, layer, check_names=True):
         """Make the given parent path the parent of all the given nodes.
         :param nodes: Nodes that will become children of the parent.
@@ -1223,12 +1237,9 @@ class Stage:
                     setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
 
             # Update layer data
-            if old_path in list(_collapse_data.keys()):
-                _collapse_data[new_path] = _collapse_data.pop(old_path)
-            not_top = layer is not self.top_layer
-            if not_top and old_path in list(_top_collapse_data.keys()):
-                old_collapsed = self.top_layer.collapse.pop(old_path)
-                self.top_layer.collapse[new_path] = old_collapsed
+            self._repath_keys(_collapse_data, old_path, new_path)
+            if layer is not self.top_layer:
+                self._repath_keys(_top_collapse_data, old_path, new_path)
 
         # Refresh the layer to regenerate and sort the node table
         layer.refresh()
-- 
2.43.0


From 83f5d1b2b938316d42bbfb4619e6fc15f15253d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 33/78] fix: renaming a node renames the paths of everything
 beneath it

---
 nxt/stage.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index cec5465..c0fdab0 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1346,12 +1346,17 @@ class Stage:
                             "node's source layer")
         old_node_path = layer.get_node_path(node)
         rt = layer.RETURNS.Path
-        children_paths = layer.children(old_node_path, return_type=rt,
-                                        include_implied=True)
+        children_paths = layer.descendants(old_node_path, return_type=rt,
+                                           include_implied=True)
         children = []
         for child_path in children_paths:
             child_node = layer.lookup(child_path)
-            if child_node is not None:
+            child_parent = nxt_path.get_parent_path(child_path)
+            # Nodes with a real parent beneath this node move along with it
+            if (child_parent != old_node_path and
+                    layer.node_exists(child_parent)):
+                continue
+            if child_node is not None and child_node not in children:
                 children += [child_node]
 
         if not force:
@@ -1386,13 +1391,21 @@ class Stage:
             active_dict = self.top_layer.positions
             if old_node_path in list(active_dict.keys()):
                 active_dict[new_node_path] = active_dict.pop(old_node_path)
+            self._repath_keys(self.top_layer.collapse, old_node_path,
+                              new_node_path)
+        self._repath_keys(layer.collapse, old_node_path, new_node_path)
         if node not in layer._nodes_node_as_key.keys():
             raise Exception("Node rename failed!")
         layer._nodes_node_as_key[node] = new_node_path
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
-        if children:
-            self.parent_nodes(children, new_node_path, layer, check_names=False)
+        for child in children:
+            child_parent = getattr(child, INTERNAL_ATTRS.PARENT_PATH)
+            new_parent = nxt_path.replace_ancestor(child_parent, old_node_path,
+                                                   new_node_path)
+            if new_parent != child_parent:
+                self.parent_nodes([child], new_parent, layer,
+                                  check_names=False)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From bcd7242e911165951a1dabf1b0bc5bc962eb2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 34/78] fix: a renamed or moved node does not take the path of
 an implied one

---
 nxt/stage.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c0fdab0..9f46547 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -432,7 +432,7 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, allow_implied=True):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -451,6 +451,9 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param allow_implied: If false, the path of a node that isn't there
+        but has descendants counts as used
+        :type allow_implied: bool
         :return: an unused node name.
         :rtype: str
         """
@@ -466,7 +469,13 @@ class Stage:
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+
+        def is_used(path):
+            if allow_implied:
+                return layer.lookup(path)
+            return layer.lookup(path) or any(nxt_path.is_ancestor(p, path) for
+                                             p in layer.descendants())
+        if not is_used(test_path):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -474,7 +483,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not is_used(test_ns):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
@@ -1197,7 +1206,8 @@ class Stage:
                 layer.refresh()
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
-                                                     parent_path=parent_path)
+                                                     parent_path=parent_path,
+                                                     allow_implied=False)
                 setattr(node, INTERNAL_ATTRS.NAME, new_name)
             else:
                 new_name = name
@@ -1363,7 +1373,8 @@ class Stage:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             allow_implied=False)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From bb743e7549feb2f414b8dd1316bd1b4f413f9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 35/78] fix: duplicating a node copies everything beneath it
 under its own name

---
 nxt/stage.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9f46547..b1050b1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -781,29 +781,37 @@ class Stage:
                 parent = created_nodes[-1]
 
         data = get_node_as_dict(node)
+        # The new node must not adopt the descendants of an implied one
+        name = self.get_unique_node_name(name=name, layer=layer,
+                                         parent_path=parent_path,
+                                         allow_implied=False)
         new_nodes, dirty = self.add_node(name=name, data=data, parent=parent,
-                                         layer=layer.layer_idx())
+                                         layer=layer.layer_idx(),
+                                         fix_names=False)
         dirty_nodes += dirty
         created_nodes += new_nodes
 
         def dupe_descendants(new_parent, ref_parent, layer):
             ref_path = layer.get_node_path(ref_parent)
+            new_path = layer.get_node_path(new_parent)
             created = []
             dirty = []
-            for ref_child in layer.children(ref_path):
+            rt = layer.RETURNS.Path
+            for path in layer.descendants(ref_path, rt, include_implied=True):
+                ref_child = layer.lookup(path)
+                if ref_child is None:
+                    continue
                 name = getattr(ref_child, INTERNAL_ATTRS.NAME)
                 data = get_node_as_dict(ref_child)
-                parent = new_parent
+                parent = nxt_path.replace_ancestor(
+                    nxt_path.get_parent_path(path), ref_path, new_path)
                 lay_idx = layer.layer_idx()
+                # Overrides of instanced nodes keep the names they override
                 new, new_dirty = self.add_node(name=name, data=data,
-                                               parent=parent, layer=lay_idx)
+                                               parent=parent, layer=lay_idx,
+                                               fix_names=False)
                 dirty += new_dirty
                 created += new
-                desc_parent = new[-1]
-                new_desc, desc_dirty = dupe_descendants(desc_parent, ref_child,
-                                                        layer)
-                dirty += desc_dirty
-                created += new_desc
             return created, dirty
         if descendants:
             desc_created, desc_dirty = dupe_descendants(new_nodes[-1], node,
-- 
2.43.0


From 7f7dbf73b441024b0204945691531f5ee7bb6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 36/78] fix: moving a node within an implied one keeps the
 implied one's place

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b1050b1..0b5e719 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1206,7 +1206,10 @@ class Stage:
                                      if nxt_path.is_ancestor(p, child_path) and
                                      p != old_path and
                                      not nxt_path.is_ancestor(p, old_path)]
-                        if child_name in co and not remaining:
+                        stays = nxt_path.is_ancestor(
+                            nxt_path.join_node_paths(parent_path, name),
+                            child_path)
+                        if child_name in co and not (remaining or stays):
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
-- 
2.43.0


From 1c7039e4ac3ef8ce3254c30ae02d5537528cb24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 37/78] fix: data set on a node is its own, and leaves the node
 where it is

---
 nxt/stage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0b5e719..c6f43ab 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1459,16 +1459,20 @@ class Stage:
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
-                setattr(node, internal_attr, val)
+                # Lists are edited in place, each node needs its own
+                setattr(node, internal_attr, copy.copy(val))
                 setattr(node, internal_attr + META_ATTRS.SOURCE,
                         (layer.real_path, node_path))
         # Un-tracked attrs
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
+            if internal_attr != INTERNAL_ATTRS.CHILD_ORDER:
+                # Where a node is, and whose it is, isn't data
+                continue
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
-                setattr(node, internal_attr, val)
+                setattr(node, internal_attr, copy.copy(val))
         # User attrs
         attrs = node_data.get('attributes', {})
         for attr, attr_data in attrs.items():
-- 
2.43.0


From 4d5537b84340eeb53b0dd50849ffc72348ef849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 38/78] fix: empty names, and attr names that spell meta attrs,
 are made usable

---
 nxt/stage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c6f43ab..030159f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -458,7 +458,7 @@ class Stage:
         :rtype: str
         """
         # validate potential name
-        if name is not None:
+        if name:
             name = self.legalize_name(name)
             # cannot be in the illegal node name list below
             illegal_node_names = ['__name__']
@@ -503,7 +503,7 @@ class Stage:
         """
         # validate attribute attr_name
         # TODO: Validate not shadowing
-        if attr_name is not None:
+        if attr_name:
             attr_name = self.legalize_name(attr_name)
         else:
             attr_name = 'attr'
@@ -525,7 +525,8 @@ class Stage:
         while True:
             illegal_names = tuple(get_node_local_attr_names(node_path, layers))
             illegal_names += INTERNAL_ATTRS.PROTECTED
-            if test_name not in illegal_names:
+            if (test_name not in illegal_names and
+                    not test_name.endswith(META_ATTRS.ALL)):
                 break
             num_suffix += 1
             test_name = base_name + str(num_suffix)
-- 
2.43.0


From 0ec3b33e0ec4b1b87ad27f2cde5b2e1e69703551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 39/78] fix: attrs can't be named like the attributes of a
 class

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 030159f..08fc0e1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -525,6 +525,8 @@ class Stage:
         while True:
             illegal_names = tuple(get_node_local_attr_names(node_path, layers))
             illegal_names += INTERNAL_ATTRS.PROTECTED
+            # Nodes are classes, these would change the class itself
+            illegal_names += tuple(dir(type))
             if (test_name not in illegal_names and
                     not test_name.endswith(META_ATTRS.ALL)):
                 break
-- 
2.43.0


From a4d043922310375287143fe584a5d65101ab44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 40/78] fix: execute_in links that form a cycle no longer hang
 execution

---
 nxt/nxt_layer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 3ac7359..dde871a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -629,7 +629,11 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
-                prev_root_path = self.get_node_path(root)
+                root_path = self.get_node_path(root)
+                if root_path in exec_order:
+                    # Never execute the same root twice
+                    continue
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From 9a42b26d640b2d3ac81239168105d34359689da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 41/78] fix: node code continues as itself after executing
 other nodes

---
 nxt/stage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 08fc0e1..b1b2c2b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4213,6 +4213,9 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # Node code can execute other nodes, the outer node continues afterwards
+    outer_state = (console.node_path, console.running_lines,
+                   console.globals['self'], runtime_layer.running)
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4223,12 +4226,13 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        (console.node_path, console.running_lines,
+         console.globals['self'], runtime_layer.running) = outer_state
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From 22845fe59870a681939e21688d195d38b1924ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 42/78] fix: an attr set to an equal value of another type is
 passed on

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b1b2c2b..e0295b6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4237,7 +4237,8 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
         post_run_val = getattr(frame_node, attr_name)
-        if pre_run_val == post_run_val:
+        if (type(pre_run_val) is type(post_run_val) and
+                pre_run_val == post_run_val):
             continue
         # Push only changed values back to rt_node, which represents
         # what is inherited by children/instances
-- 
2.43.0


From 009a2e1fc04a94b15e05b3cd21a3186f7afe5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 43/78] fix: node code that deletes an attr no longer fails
 after it ran

---
 nxt/stage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e0295b6..bd28dd8 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4236,7 +4236,11 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-        post_run_val = getattr(frame_node, attr_name)
+        try:
+            post_run_val = getattr(frame_node, attr_name)
+        except AttributeError:
+            # Deleted by the code
+            continue
         if (type(pre_run_val) is type(post_run_val) and
                 pre_run_val == post_run_val):
             continue
-- 
2.43.0


From d2b45aa08fdfe65253db122204f5c45f971009e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 44/78] fix: attrs holding values that can't be copied can be
 inherited

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index bd28dd8..b3ae1cf 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4205,7 +4205,8 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         try:
             pre_run_cache[attr] = copy.deepcopy(real)
             setattr(frame_node, attr, copy.deepcopy(real))
-        except RuntimeError:
+        except Exception:
+            # Not everything can be copied
             pre_run_cache[attr] = real
             setattr(frame_node, attr, real)
     # Cache the node before exec so we can see what it tried to run if it fails
-- 
2.43.0


From 68bf4b8b7f2dc999d5478a67a5cb2fff836532e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 45/78] fix: every name of a global statement stays, and no
 other

---
 nxt/stage.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b3ae1cf..38c56cb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1,4 +1,5 @@
 # Built-in
+import ast
 import copy
 import logging
 import os
@@ -4260,15 +4261,11 @@ def clean_globals(code_lines, good_keys, global_dict):
     :param global_dict: global dict to clean
     :return: None
     """
-    code_lines = [l for l in code_lines if not l.startswith(('#', "'", '"'))]
     cur_keys = list(global_dict.keys())
-    sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
-    for sus_key in sus_keys:
-        for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
-                safe_keys += [sus_key]
-                break
+    for statement in ast.walk(ast.parse('\n'.join(code_lines))):
+        if isinstance(statement, ast.Global):
+            safe_keys += statement.names
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
         global_dict.pop(bad_key)
 
-- 
2.43.0


From 63795951cd4f37b4eff2ca1bde178efb4d5c1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 46/78] fix: a node that executes itself again no longer fails

---
 nxt/nxt_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index dde871a..6ad3855 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1029,9 +1029,10 @@ class CacheLayer(SpecLayer):
             t = time.time()
         try:
             node_runs = self.node_time_map[node_path]
-        except IndexError:
+        except KeyError:
             raise IndexError('No start time set for {}'.format(node_path))
-        for run_time in node_runs:
+        # The innermost run of a node that executes itself ends first
+        for run_time in reversed(node_runs):
             if run_time[1] is None:
                 run_time.pop(1)
                 run_time += [t]
-- 
2.43.0


From ae7aa0646f35842601a9e2a73ed1623dfb810d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 47/78] fix: errors in custom code name the right line

---
 nxt/stage.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 38c56cb..1d3f6dd 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2424,16 +2424,15 @@ class Stage:
         :return: code
         """
         if custom_code:
-            func_lines = custom_code
-            code_lines = func_lines.split('\n')
+            code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
             code_lines = self.get_node_code_lines(node=node, layer=layer,
                                                         data_state=resolved)
-            # Ensures the compute complies and executes with correct line
-            # numbers even if the compute is/startswith huge comment.
-            line_zero = ['# Blank Line']
-            func_lines = '\n'.join(line_zero + code_lines)
+        # Ensures the compute complies and executes with correct line
+        # numbers even if the compute is/startswith huge comment.
+        line_zero = ['# Blank Line']
+        func_lines = '\n'.join(line_zero + code_lines)
         path = layer.get_node_path(node)
         try:
             _code = compile(func_lines, path, 'exec')
-- 
2.43.0


From 16f575371d8c74fdbf0e46800e4f99f4fa26dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 48/78] fix: a parameter without an attr name is passed over
 like other bad ones

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1d3f6dd..ab3d313 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4064,6 +4064,9 @@ class Stage:
                 logger.error('Got an invalid node path "{}"'.format(node_path))
                 continue
             attr_name = nxt_path.attr_name_from_attr_path(attr_path)
+            if not attr_name:
+                logger.error('Got no attr name in "{}"'.format(attr_path))
+                continue
             _, has_it = get_opinion(node, attr_name)
             if has_it:
                 logger.info('Setting {} = {}'.format(attr_path, value),
-- 
2.43.0


From ad5280125037688f972ae589dee8c18782a1ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 49/78] fix: code that changes a value of STAGE in place no
 longer changes the layer

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index ab3d313..f75f1c3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4103,6 +4103,12 @@ class Stage:
             layer_node = CompNode.new(spec_layer)
             self.add_node_to_comp_layer(nxt_path.WORLD, layer_node, comp_layer,
                                         add_to_child_order=False)
+        # Node code gets the layer node itself, and can change its values in
+        # place, which must not reach the layers.
+        for attr in self.get_node_attr_names(layer_node):
+            value = getattr(layer_node, attr)
+            if isinstance(value, (list, dict)):
+                setattr(layer_node, attr, copy.deepcopy(value))
         # Set parameter overloads
         if parameters:
             self.set_runtime_parameters(parameters, runtime_layer)
-- 
2.43.0


From 7b6c7ee0d598567461f038ed443ba461f2b7d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 50/78] fix: a value that contains itself no longer keeps its
 node from being saved

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 016be41..f71ade4 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -262,7 +262,7 @@ def get_node_as_dict(spec_node):
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
                 sub_attrs[META_ATTRS.as_save_key(META_ATTRS.VALUE)] = val_copy
-            except TypeError:  # value is not JSON serializable
+            except (TypeError, ValueError):  # value isn't JSON serializable
                 pass
         sorted_sub_attrs = OrderedDict(sorted(sub_attrs.items(),
                                               key=lambda x: x[0]))
-- 
2.43.0


From c4f1898ffa8d391f7565f920e3ab8fddfa958790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 51/78] fix: save_to_temp kept paths, overrides or files of the
 source folders

A reference that was only a file name shifted the list of the following
ones, layers of the same file name overwrote each other, overrides of
nested layers lost their path and unsaved layers raised an error.
---
 nxt/stage.py | 59 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f75f1c3..abdacc8 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4159,30 +4159,49 @@ class Stage:
             output_dir = nxt_io.generate_temp_dir()
         s, e = comp_layer._layer_range
         layers = self._sub_layers[s:e]
-        temp_path = None
-        for layer in reversed(layers):
+        # Layers from different folders can have the same file name
+        file_names = []
+        for layer in layers:
+            name = os.path.basename(layer.real_path or UNTITLED)
+            name, ext = os.path.splitext(name)
+            file_name = name + (ext or nxt_io.FILE_FORMAT.ASCII)
+            copies = 0
+            while file_name in file_names:
+                copies += 1
+                file_name = '{}_{}{}'.format(name, copies,
+                                             ext or nxt_io.FILE_FORMAT.ASCII)
+            file_names += [file_name]
+        temp_path = os.path.join(output_dir, file_names[0])
+        temp_path = temp_path.replace(os.sep, '/')
+        # The paths overrides are stored by are different in the temp dir, the
+        # top layer gets what they amount to.
+        comp_overs = {}
+        for layer, file_name in zip(layers, file_names):
+            over = {SAVE_KEY.MUTE: layer.get_muted(),
+                    SAVE_KEY.SOLO: layer.get_soloed()}
+            if any(over.values()):
+                # The key is the path the layer will be loaded by
+                over_path = temp_path if layer is layers[0] else file_name
+                comp_overs[over_path] = over
+        for layer, file_name in zip(layers, file_names):
             save_data = layer.get_save_data()
-            cwd = layer.get_cwd()
-            save_data[SAVE_KEY.CWD] = cwd
-            refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
-                ref_file_name = os.path.basename(ref)
-                if ref_file_name == ref:
-                    continue
-                comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
-                for path, over in list(comp_overs.items()):
-                    if path == ref:
-                        comp_overs[ref_file_name] = comp_overs.pop(ref)
-                refs[idx] = ref_file_name
-                idx += 1
-            file_name = os.path.basename(layer.real_path)
-            temp_path = os.path.join(output_dir, file_name)
-            nxt_io.save_file_data(save_data, temp_path)
+            save_data[SAVE_KEY.CWD] = layer.get_cwd()
+            is_top = layer is layers[0]
+            refs = []
+            for sub_layer, sub_name in zip(layers[1:], file_names[1:]):
+                parent_layer = sub_layer.parent_layer
+                if parent_layer is layer:
+                    refs += [sub_name]
+                elif is_top and parent_layer not in layers:
+                    refs += [sub_name]
+            save_data[SAVE_KEY.REFERENCES] = refs
+            save_data[SAVE_KEY.COMP_ORVERRIDES] = comp_overs if is_top else {}
+            layer_path = os.path.join(output_dir, file_name)
+            nxt_io.save_file_data(save_data, layer_path)
         save_time = str(int(round((time.time() - start) * 1000)))
         logger.debug("{} layer(s) saved to temp dir in: {}ms".format((e-s)-1,
                                                                      save_time))
-        return temp_path.replace(os.sep, '/')
+        return temp_path
 
 
 def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
-- 
2.43.0


From 22999c068d508aa37db6910d59adc89945487a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 52/78] fix: asking for the editor without having it executed
 the graph

---
 nxt/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/cli.py b/nxt/cli.py
index 02b2bd3..6052ac9 100644
--- a/nxt/cli.py
+++ b/nxt/cli.py
@@ -252,7 +252,7 @@ def main():
                            'see: ui -h')
             count_down()
             editor(args)
-        if args.convert:
+        elif args.convert:
             logger.warning('The flag -c will be depreciated at 2.0, please '
                            'see: convert -h')
             count_down()
-- 
2.43.0


From 9a1c2fc7d626c2fff7a35ddf2656e0e38004ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 53/78] fix: a remote context with arguments lost the start
 node

A start index could not be handed on either.
---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..28300e1 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node is not None:
+            cli_args += ['/enter/call_graph._start', str(start_node)]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 96675c619ba46b3111ce042d2ed28b4c9e9578bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:09 +0000
Subject: [PATCH 54/78] fix: executing from a start index always took the first
 start node

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index abdacc8..42ce478 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3907,7 +3907,7 @@ class Stage:
             start_nodes = self.get_layer_start_nodes(layer)
             if not start_nodes:
                 raise ValueError("No start specified and no start nodes.")
-            start_path = start_nodes[0]
+            start_path = start_nodes[start or 0]
         exec_order = layer.get_exec_order(start_path)
         return self.execute_nodes(exec_order, layer, parameters)
 
-- 
2.43.0


From 85f79dd64606c0a08ca63c047ed2a37c1de6a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 55/78] fix: a graph that exits left no cache when executed in
 a context

---
 nxt/builtin/_context.nxt | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/builtin/_context.nxt b/nxt/builtin/_context.nxt
index c46d708..785f0a6 100644
--- a/nxt/builtin/_context.nxt
+++ b/nxt/builtin/_context.nxt
@@ -126,7 +126,10 @@
                 "            continue", 
                 "        attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)", 
                 "        self._parameters[attr_path] = attr_val", 
-                "    result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    try:", 
+                "        result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    except ExitGraph as exit_graph:", 
+                "        result_rt_layer = exit_graph.runtime_layer", 
                 "    if self._cache_file:", 
                 "        result_rt_layer.cache_layer.save('${_cache_file}')", 
                 "    # Bring attributes back from world node onto this node", 
-- 
2.43.0


From eaa437c912772fb2c634f418c7cf812758f4a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 56/78] fix: a relative graph path was looked for in the folder
 of the server

---
 nxt/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..946e04e 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -177,6 +177,8 @@ class Session(object):
             finally:
                 self.shutdown_rpc_server()
         else:
+            # The server runs in a folder of its own
+            filepath = nxt_path.full_file_expand(filepath)
             self._start_rpc_server()
             proxy = NxtClient()
             try:
-- 
2.43.0


From 60cf61b640f967153387f6a90c32120ea3d88ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 57/78] fix: log records cut by the network were lost, or read
 forever

---
 nxt/nxt_log.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..86aff68 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -302,13 +302,13 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
         according to whatever policy is configured locally.
         """
         while True:
-            chunk = self.connection.recv(4)
+            chunk = self.receive(4)
             if len(chunk) < 4:
                 break
             slen = struct.unpack('>L', chunk)[0]
-            chunk = self.connection.recv(slen)
-            while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+            chunk = self.receive(slen)
+            if len(chunk) < slen:
+                break
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
@@ -316,6 +316,16 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             record = logging.makeLogRecord(obj)
             self.handle_log_record(record)
 
+    def receive(self, size):
+        """Receives exactly size bytes, less only if the connection ended."""
+        data = b''
+        while len(data) < size:
+            chunk = self.connection.recv(size - len(data))
+            if not chunk:
+                break
+            data += chunk
+        return data
+
     def un_pickle(self, data):
         return pickle.loads(data)
 
-- 
2.43.0


From 30e8b20e18c1c015c5943c2b5e4d7f1793966738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 58/78] fix: a stopped log receiver kept its port

---
 nxt/nxt_log.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 86aff68..a24422a 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -370,6 +370,7 @@ class LogRecordSocketReceiver(SocketServer.ThreadingTCPServer):
             if rd:
                 self.handle_request()
             abort = self.abort
+        self.server_close()
 
 
 record_receiver = None
-- 
2.43.0


From 61f6f07748f4aab2ea373572bb7bee8492287b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 59/78] fix: no message could be sent to a socket server with
 python 3

---
 nxt/remote/nxt_socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index bd3ed3c..2c84f62 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -252,7 +252,7 @@ def send_to_server(data_dict):
         logger.error("No server! Try toggling the command port.")
         return
     msg = pickle.dumps(data_dict)
-    header = bytes("{:<{}}".format(len(msg), HEADER_SIZE))
+    header = "{:<{}}".format(len(msg), HEADER_SIZE).encode('ascii')
     data = header + msg
     # logger.debug('Size of data: {}'.format(sys.getsizeof(data)))
     try:
-- 
2.43.0


From acecfc2e133ec334eeb0c864b18715d8625a9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 60/78] fix: sending a log record failed if nothing else had
 formatted it

---
 nxt/remote/nxt_socket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index 2c84f62..21ffeea 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -233,7 +233,7 @@ def send_log(record):
     :return: None
     """
     links = getattr(record, 'links', None)
-    data_dict = format_msg([record.levelno, record.message, links],
+    data_dict = format_msg([record.levelno, record.getMessage(), links],
                            COM_TYPE.LOG)
     send_to_server(data_dict)
 
-- 
2.43.0


From b8814d5a9e34e862942038a72ed2ef020b65ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 61/78] fix: a failing socket made logging fail or recurse

---
 nxt/remote/nxt_socket.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index 21ffeea..0edfca2 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -258,7 +258,7 @@ def send_to_server(data_dict):
     try:
         __nxt_server__.sendall(data)
     except Exception as e:
-        if e.errno == 10053:  # Stale socket
+        if getattr(e, 'errno', None) == 10053:  # Stale socket
             __nxt_server__ = None
         else:
             logger.exception('Failed to send data to socket server!')
@@ -306,6 +306,14 @@ class NXTSocketLogHandler(logging.Handler):
     """
     def __init__(self):
         logging.Handler.__init__(self)
+        self.sending = False
 
     def emit(self, record):
-        send_log(record)
+        # Sending logs its own failures, those can not be sent either
+        if self.sending:
+            return
+        self.sending = True
+        try:
+            send_log(record)
+        finally:
+            self.sending = False
-- 
2.43.0


From 65f6023a2ac07c4e8635f544fbab971db9f12905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 62/78] fix: switching the verbosity repeated, hid or kept
 messages

---
 nxt/nxt_log.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index a24422a..29dc3d0 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -207,9 +207,10 @@ def set_verbosity(level):
         else:
             stderr_handler = logging.StreamHandler(sys.stderr)
             stderr_handler.setFormatter(nxt_formatter)
-            root_logger.addHandler(stderr_handler)
-        if level == 1:
-            stderr_handler.setLevel(EXECINFO)
+            verbose_handler = stderr_handler
+        # It may have been removed by level 0
+        root_logger.addHandler(stderr_handler)
+        stderr_handler.setLevel(EXECINFO if level == 1 else logging.NOTSET)
         return stderr_handler
 
 
-- 
2.43.0


From 34928875331e31524add704516ce50728e53fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 63/78] fix: sessions of the same second shared a log

---
 nxt/nxt_log.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 29dc3d0..9cdd43f 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -259,7 +259,14 @@ def get_new_session_log_filename():
         else:
             raise
     log_filename_template = "nxt_session_{time}.log"
-    log_filename = log_filename_template.format(time=str(int(time.time())))
+    session_time = str(int(time.time()))
+    log_filename = log_filename_template.format(time=session_time)
+    count = 0
+    # Sessions of the same second
+    while os.path.exists(os.path.join(log_dir, log_filename)):
+        count += 1
+        log_filename = log_filename_template.format(
+            time='{}_{}'.format(session_time, count))
     return os.path.join(log_dir, log_filename)
 
 
-- 
2.43.0


From 1d58917e4110fb06bdd088e64961b5986b599ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 64/78] fix: tracked logs whose name ends in a space were taken
 for other files

---
 nxt/nxt_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 9cdd43f..fe8f0a3 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -111,7 +111,7 @@ def track_log_file(path):
     try:
         with open(meta_log_location, 'r') as meta_log_file:
             # stripping of trailing newlines
-            existing_logs = [line.rstrip() for line in meta_log_file.readlines()]
+            existing_logs = [line.rstrip('\n') for line in meta_log_file.readlines()]
     except IOError:
         logger.exception('Error tracking log file!')
         pass
-- 
2.43.0


From f57a38135b8780f2cceb32cc50ab4c8e97111b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 65/78] fix: an unreadable list of logs kept sessions from
 starting

---
 nxt/nxt_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index fe8f0a3..de624a7 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -112,7 +112,7 @@ def track_log_file(path):
         with open(meta_log_location, 'r') as meta_log_file:
             # stripping of trailing newlines
             existing_logs = [line.rstrip('\n') for line in meta_log_file.readlines()]
-    except IOError:
+    except (IOError, UnicodeDecodeError):
         logger.exception('Error tracking log file!')
         pass
     # Remove old logs
-- 
2.43.0


From 90d71bd76e674ef1a9823809d9d7df9c486dffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 66/78] fix: editing code or enabled states left a given comp
 layer stale

---
 nxt/stage.py | 115 ++++++++++++++++++++++++---------------------------
 1 file changed, 53 insertions(+), 62 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 42ce478..7b76879 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2472,50 +2472,62 @@ class Stage:
 
     def set_node_code_lines(self, node, code_lines, comp_layer):
         node_path = get_node_path(node)
-        comp_node = comp_layer.lookup(node_path)
-        new_comp_lines = None
-        if not code_lines:
-            inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
-            if inst:
-                new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
 
-        live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
-        if not code_lines and new_comp_lines is None:
-            arcs = CompArc.get_bases_arc_dict(comp_node, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            for ref in refs:
-                _code = getattr(ref, INTERNAL_ATTRS.COMPUTE)
-                if _code:
-                    new_comp_lines = _code
-                    break
-        if new_comp_lines is None:
-            new_comp_lines = live_lines
-        if live_comp_code is not live_lines or not live_lines:
-            setattr(comp_node, INTERNAL_ATTRS.COMPUTE, new_comp_lines)
-            live_comp_code = new_comp_lines
-
-        for dirty_path in comp_layer.get_node_dirties(node_path):
-            dirty_comp = comp_layer.lookup(dirty_path)
-            if not dirty_comp:
-                break
-            arcs = CompArc.get_bases_arc_dict(dirty_comp, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            stop = False
-            for ref in refs:
-                if getattr(ref, INTERNAL_ATTRS.COMPUTE):
-                    stop = True
-                    break
-            if stop:
-                break
-            old_dirty_code = getattr(dirty_comp, INTERNAL_ATTRS.COMPUTE)
-            if live_comp_code is old_dirty_code and old_dirty_code:
-                break
-            setattr(dirty_comp, INTERNAL_ATTRS.COMPUTE, live_comp_code)
+        self.update_comp_opinion(node_path, INTERNAL_ATTRS.COMPUTE, comp_layer)
         return live_lines
 
+    @staticmethod
+    def get_comp_opinion(comp_node, attr, comp_layer):
+        """Get the opinion a comp node inherits from its references or, if
+        they have none, from its instance.
+        :param comp_node: CompNode
+        :param attr: Internal attr name
+        :param comp_layer: CompLayer
+        :return: Value or None
+        """
+        for base in comp_node.__bases__:
+            arc = CompArc.get_arc(comp_node, base, comp_layer)
+            if attr not in CompArc.INHERITANCE_MAP.get(arc, ()):
+                continue
+            if getattr(base, INTERNAL_ATTRS.PROXY) and arc != CompArc.INSTANCE:
+                # Proxies hold copies of what their sources once held
+                continue
+            if base.__name__ == CompNode.__name__:
+                value = Stage.get_comp_opinion(base, attr, comp_layer)
+            else:
+                value, _ = get_opinion(base, attr)
+            if has_opinion(value):
+                return value
+
+    @staticmethod
+    def update_comp_opinion(node_path, attr, comp_layer):
+        """Updates the given attr of the comp node with the given path and
+        of every node that depends on it.
+        :param node_path: Node path
+        :param attr: Internal attr name
+        :param comp_layer: CompLayer
+        :return: List of paths of the updated nodes that depend on it.
+        """
+        dirties = []
+        if comp_layer is None:
+            return dirties
+        for path in [node_path] + comp_layer.get_node_dirties(node_path):
+            comp_node = comp_layer.lookup(path)
+            if not comp_node:
+                continue
+            value = Stage.get_comp_opinion(comp_node, attr, comp_layer)
+            if not has_opinion(value):
+                value = INTERNAL_ATTRS.DEFAULTS.get(attr)
+                if callable(value):
+                    value = value()
+            setattr(comp_node, attr, value)
+            if path != node_path:
+                dirties += [path]
+        return dirties
+
     @staticmethod
     def clear_code_lines(node):
         del getattr(node, INTERNAL_ATTRS.COMPUTE)[:]
@@ -4017,30 +4029,9 @@ class Stage:
         :return: List of dirty nodes, aka nodes that were updated.
         """
         node_path = get_node_path(spec_node)
-        comp_node = comp_layer.lookup(node_path)
-        dirties = []
-        if not comp_node:
-            return dirties
-        update_it = True
-        for n in comp_node.__mro__[1:]:
-            # Ignore parents, self, and abstract base classes
-            if n in (spec_node, comp_node, object, SpecNode, Node):
-                continue
-            p = get_node_path(n)
-            if p in node_path:
-                continue
-            influencer_opinion = getattr(n, INTERNAL_ATTRS.ENABLED)
-            if influencer_opinion is None:
-                influencer_opinion = state
-            if influencer_opinion != state:
-                update_it = False
-        if update_it:
-            setattr(comp_node, INTERNAL_ATTRS.ENABLED, state)
-            for dnp in comp_layer.get_node_dirties(node_path):
-                dirties += [dnp]
-                dirty_node = comp_layer.lookup(dnp)
-                setattr(dirty_node, INTERNAL_ATTRS.ENABLED, state)
-        return dirties
+        setattr(spec_node, INTERNAL_ATTRS.ENABLED, state)
+        return Stage.update_comp_opinion(node_path, INTERNAL_ATTRS.ENABLED,
+                                         comp_layer)
 
     @staticmethod
     def get_layer_start_nodes(layer):
-- 
2.43.0


From 1b7ea238a217413d20de2f4bd752dc8dca7eddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 67/78] fix: adding a node to a weaker layer dropped stronger
 opinions from a given comp layer

---
 nxt/stage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7b76879..1c6771e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2903,7 +2903,11 @@ class Stage:
                     inserted = True
                     break
                 i += 1
-            if not inserted:  # Failsafe to insert new node into tuple
+            if not inserted:  # Nothing is weaker than our new spec
+                bases += [b for b in existing_bases if
+                          not getattr(b, INTERNAL_ATTRS.PROXY) and
+                          CompArc.get_arc(comp_node, b, comp_layer) ==
+                          CompArc.REFERENCE]
                 bases += [spec_node]
             # Rough outline for future extension of pre proxy arcs
             reference_map[CompArc.REFERENCE] = tuple(bases)
-- 
2.43.0


From 1260a7c44e2cdf9bb0735cb9027b874cf50b72b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:39 +0000
Subject: [PATCH 68/78] fix: a given comp layer lost or kept children when
 nodes were added or deleted

---
 nxt/nxt_layer.py | 6 ++++++
 nxt/stage.py     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 6ad3855..9527179 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -506,7 +506,12 @@ class SpecLayer(object):
             return node_table
         raise TypeError('Unsupported return type {}'.format(return_type))
 
+    def _clear_implied_child_caches(self, path):
+        for ancestor_path in nxt_path.all_ancestor_paths(path):
+            self._cached_implied_children.pop(ancestor_path, None)
+
     def add_child_to_child_cache(self, parent_path, child_path, child_node):
+        self._clear_implied_child_caches(child_path)
         if not parent_path or parent_path == nxt_path.WORLD:
             return
         children_cache = self._cached_children.get(parent_path)
@@ -537,6 +542,7 @@ class SpecLayer(object):
 
     def remove_child_from_child_cache(self, parent_path, child_path,
                                       child_node):
+        self._clear_implied_child_caches(child_path)
         if parent_path is nxt_path.WORLD:
             return
         children_cache = self._cached_children.get(parent_path)
diff --git a/nxt/stage.py b/nxt/stage.py
index 1c6771e..7b18753 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -710,6 +710,8 @@ class Stage:
             # Early exit if no/invalid comp layer
             return return_nodes, [new_path] + dirty_children
         comp_layer.clear_node_child_cache(node_path)
+        # A cache is added to, it must start with the children there are
+        comp_layer.children(node_path)
         return_nodes = new_nodes
         comp_node = self.targeted_comp_pre_proxies(spec_node=new_node,
                                                    new_node_path=node_path,
-- 
2.43.0


From 5c4e5627ad9d0ea22da672ff99df3c2872520923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 69/78] fix: created contexts lost their own graph, odd names
 kept nxt from starting, taken names were accepted

---
 nxt/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index b1d47b8..2d8e9cb 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -95,6 +95,9 @@ def create_context(custom_name, interpreter_exe=sys.executable,
 
     context_py_file = 'custom_{name}_context.py'.format(name=custom_name)
     context_py_filepath = os.path.join(_user_plugin_dir, context_py_file)
+    if custom_name in contexts.iter_context_names():
+        raise NameError('The context name you selected is already taken. '
+                        '"{}"'.format(custom_name))
     if os.path.exists(context_py_filepath):
         raise IOError('The context name you selected is already taken. '
                       '"{}"'.format(custom_name))
@@ -125,13 +128,16 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         if not os.path.isfile(expanded_context_graph):
             raise IOError('The context graph you provided does not exist! '
                           '"{}"'.format(context_graph))
-        root = os.path.commonprefix((context_graph, context_py_filepath))
-        if root:
-            context_graph = os.path.relpath(context_graph, root)
-        context_graph.replace(os.sep, '/')
+        # Contexts are executed from other folders than this one
+        context_graph = os.path.abspath(expanded_context_graph)
+        context_graph = context_graph.replace(os.sep, '/')
 
-    py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
-                           context_graph=context_graph, args=exe_script_args)
+    # The template holds these between single quotes
+    name, exe, graph = [
+        text.encode('unicode_escape').decode('ascii').replace("'", "\\'")
+        for text in (custom_name, interpreter_exe, context_graph)]
+    py_str = py_str.format(name=name, interpreter_exe=exe,
+                           context_graph=graph, args=exe_script_args)
     with open(context_py_filepath, 'w+') as fp:
         fp.write(py_str)
     exec(py_str)
-- 
2.43.0


From e369509552a9090ccd2c0ee3d31f31d10b739509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:56 +0000
Subject: [PATCH 70/78] fix: a blanked or missing comment or type of an
 attribute hid the inherited one until the file was loaded again

---
 nxt/stage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7b18753..383a472 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1307,6 +1307,9 @@ class Stage:
                 logger.warning('Invalid meta attr supplied! '
                                '"{}"'.format(sub_attr))
                 continue
+            if value is None:
+                # No opinion must not hide the inherited one
+                continue
             full_meta_attr = attr + meta_attr
             setattr(node, full_meta_attr, value)
         if tracked:
@@ -1542,6 +1545,11 @@ class Stage:
                     self.set_node_code_lines(node, code_lines, comp_layer)
                     continue
                 # Any other attrs
+                if value is None and sub_attr != META_ATTRS.VALUE:
+                    # No opinion must not hide the inherited one
+                    if full_attr_name in vars(node):
+                        delattr(node, full_attr_name)
+                    continue
                 setattr(node, full_attr_name, value)
                 if sub_attr == META_ATTRS.VALUE and tracked:
                     type_name = determine_nxt_type(value)
-- 
2.43.0


From 8210d13211d9fbb53a07bfe32ac7bff56cf18476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 71/78] fix: a blank snippet ran the code of the node, one in
 an unknown node broke

---
 nxt/stage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 383a472..099391f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2433,7 +2433,7 @@ class Stage:
         actual compute.
         :return: code
         """
-        if custom_code:
+        if custom_code is not None:
             code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
@@ -4003,6 +4003,8 @@ class Stage:
             runtime_layer = layer
         exec_start = time.time()
         rt_node = runtime_layer.lookup(node_path)
+        if rt_node is None:
+            raise InvalidNodeError(node_path)
         resolved_code = self.resolve(rt_node, code_string, runtime_layer)
         runtime_layer.cache_layer.set_node_enter_time(node_path)
         try:
@@ -4213,7 +4215,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     rt_path = runtime_layer.get_node_path(rt_node)
     frame_node = type('frame', (), {})
     setattr(frame_node, INTERNAL_ATTRS.NODE_PATH, rt_path)
-    if custom_code:
+    if custom_code is not None:
         code = custom_code
     else:
         code = stage.get_node_code_string(node=rt_node,
-- 
2.43.0


From 74328160439604f0c0925aae128342ea0a5ba324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:26 +0000
Subject: [PATCH 72/78] fix: every temp file left an open file behind

---
 nxt/nxt_io.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index f26fe57..e606bb7 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -167,8 +167,7 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
             raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
         elif filepath_ext != ext:
             ext = filepath_ext
-    filepath = filepath or tempfile.mkstemp(prefix='nxt_tmp_',
-                                            suffix=ext)[1]
+    filepath = filepath or _make_temp_file(prefix='nxt_tmp_', suffix=ext)
     filepath = filepath.replace(os.sep, '/')
     if not filepath.endswith(ext):
         filepath += ext
@@ -190,14 +189,20 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     return filepath
 
 
+def _make_temp_file(**kwargs):
+    handle, filepath = tempfile.mkstemp(**kwargs)
+    # Only the path is used, the open file would stay open for good
+    os.close(handle)
+    return filepath
+
+
 def generate_temp_file(suffix='.nxt'):
     """Safely generates a temp file and returns a Windows safe path
 
     :param suffix: Optional suffix for the file, default is `.nxt`
     :return: String filepath
     """
-    _, cache_filepath = tempfile.mkstemp(suffix=suffix)
-    return cache_filepath.replace(os.sep, '/')
+    return _make_temp_file(suffix=suffix).replace(os.sep, '/')
 
 
 def generate_temp_dir(prefix='nxt_tmp_'):
-- 
2.43.0


From c7c4f890067e6056f3565f4e588eac9e03b087ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:32 +0000
Subject: [PATCH 73/78] fix: every graph run by execute_graph left a log open,
 later runs were written to all of them

---
 nxt/__init__.py | 10 +++++++---
 nxt/nxt_log.py  |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index 2d8e9cb..0380370 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -55,9 +55,13 @@ def execute_graph(filepath, start=None, parameters=None, context=None):
                     '{}'.format(list(contexts.iter_context_names())))
         raise NameError('Unknown context: "{}"'.format(context))
     one_shot_session = Session()
-    one_shot_session.execute_graph(filepath,
-                                   start=start, parameters=parameters,
-                                   context=context)
+    try:
+        one_shot_session.execute_graph(filepath,
+                                       start=start, parameters=parameters,
+                                       context=context)
+    finally:
+        # Nobody else knows of the session, its log ends with it
+        nxt_log.stop_session_log(one_shot_session.log_file)
 
 
 def create_context(custom_name, interpreter_exe=sys.executable,
diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index de624a7..717fa1c 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -276,11 +276,12 @@ def stop_session_log(filename):
     :param filename: filename to stop outputting to.
     :type filename: str, required
     """
-    handler = SESSION_LOG_HANDLERS.get(filename)
+    handler = SESSION_LOG_HANDLERS.pop(filename, None)
     if not handler:
         return
     root_logger = logging.getLogger('nxt')
     root_logger.removeHandler(handler)
+    handler.close()
 
 
 def make_link(value):
-- 
2.43.0


From 3e336027ce9f80997f09216fa87f23eddb356e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:45 +0000
Subject: [PATCH 74/78] fix: a server that answered in the last second was an
 error, a failed start left it running, starts changed the environment

---
 nxt/session.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 946e04e..badfab6 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -333,20 +333,33 @@ class RPCServerProcess(object):
         call = [sys.executable, '-m', 'nxt.remote.server', self.server_log_file]
         logger.debug("Calling: ")
         logger.debug(str(call))
-        self.terminal = subprocess.Popen(call, stdout=server_log_handle,
-                                         stderr=server_log_handle)
-        count = 0
-        while count < self.STARTUP_TIMEOUT:
-            logger.debug('Waiting on rpc server...')
-            time.sleep(1)
-            count += 1
-            if self.is_running():
-                break
-        if count == self.STARTUP_TIMEOUT:
-            raise OSError('Failed to start RPC server!')
+        try:
+            self.terminal = subprocess.Popen(call, stdout=server_log_handle,
+                                             stderr=server_log_handle)
+            count = 0
+            while count < self.STARTUP_TIMEOUT:
+                logger.debug('Waiting on rpc server...')
+                time.sleep(1)
+                count += 1
+                if self.is_running():
+                    break
+            else:
+                raise OSError('Failed to start RPC server!')
+        except BaseException:
+            # Nobody else can end what was started
+            if self.terminal:
+                self.terminal.terminate()
+            if self.use_custom_stdout:
+                nxt_log.shutdown_log_socket()
+            raise
+        finally:
+            if server_log_handle:
+                server_log_handle.close()
+            if old_env_verbosity is not None:
+                os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
+            elif self.socket_logging:
+                os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
         logger.debug('rpc server started')
-        if old_env_verbosity is not None:
-            os.environ[nxt_log.VERBOSE_ENV_VAR] = old_env_verbosity
         return True
 
     def is_running(self):
-- 
2.43.0


From ad4dd0015008fce2dab601bfe671e57091fc7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:06 +0000
Subject: [PATCH 75/78] fix: nxt failed to start when an other nxt was just
 making the user folders

---
 nxt/constants.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nxt/constants.py b/nxt/constants.py
index c9f984b..c5b8ed6 100644
--- a/nxt/constants.py
+++ b/nxt/constants.py
@@ -40,18 +40,29 @@ else:
 SITE_DIR = USER_DIR
 if SITE_DIR_ENV_VAR in os.environ:
     SITE_DIR = os.environ.get(SITE_DIR_ENV_VAR)
+
+
+def _make_dir(path):
+    if os.path.isdir(path):
+        return
+    try:
+        os.makedirs(path)
+    except OSError:
+        # An other nxt that starts may have made it just now
+        if not os.path.isdir(path):
+            raise
+
+
 # Configs
 CONFIG_VERSION = str(API_VERSION.MAJOR)
 USER_CONFIG_DIR = os.path.join(USER_DIR, 'config', CONFIG_VERSION)
-if not os.path.isdir(USER_CONFIG_DIR):
-    os.makedirs(USER_CONFIG_DIR)
+_make_dir(USER_CONFIG_DIR)
 SITE_CONFIG_DIR = os.path.join(SITE_DIR, 'config', CONFIG_VERSION)
 # Plugins
 PLUGIN_DIR_NAME = 'plugins'
 BUILTIN_PLUGIN_DIR = os.path.join(os.path.dirname(__file__), PLUGIN_DIR_NAME)
 USER_PLUGIN_DIR = os.path.join(USER_CONFIG_DIR, PLUGIN_DIR_NAME)
-if not os.path.isdir(USER_PLUGIN_DIR):
-    os.makedirs(USER_PLUGIN_DIR)
+_make_dir(USER_PLUGIN_DIR)
 SITE_PLUGIN_DIR = os.path.join(SITE_CONFIG_DIR, PLUGIN_DIR_NAME)
 PLUGIN_DIRS = [USER_PLUGIN_DIR, SITE_PLUGIN_DIR, BUILTIN_PLUGIN_DIR]
 
-- 
2.43.0


From 45ec72c085ca7e4c1e18df50df05fe2b71002a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:10 +0000
Subject: [PATCH 76/78] fix: sessions started in the same second could share a
 log

---
 nxt/nxt_log.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 717fa1c..bab5122 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -262,12 +262,19 @@ def get_new_session_log_filename():
     session_time = str(int(time.time()))
     log_filename = log_filename_template.format(time=session_time)
     count = 0
-    # Sessions of the same second
-    while os.path.exists(os.path.join(log_dir, log_filename)):
+    while True:
+        log_path = os.path.join(log_dir, log_filename)
+        try:
+            # Sessions of the same second, making the file claims the name
+            os.close(os.open(log_path, os.O_CREAT | os.O_EXCL | os.O_WRONLY,
+                             0o666))
+            return log_path
+        except OSError as err:
+            if err.errno != errno.EEXIST:
+                raise
         count += 1
         log_filename = log_filename_template.format(
             time='{}_{}'.format(session_time, count))
-    return os.path.join(log_dir, log_filename)
 
 
 def stop_session_log(filename):
-- 
2.43.0


From 9fe67f5f895f08fdee17d93196fb69ee22cfd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:27 +0000
Subject: [PATCH 77/78] fix: removing a layer of a graph that was not built yet
 failed

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 099391f..470ac16 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -278,6 +278,8 @@ class Stage:
     def remove_sublayer(self, layer):
         if isinstance(layer, int):
             layer = self._sub_layers[layer]
+        # A stage that was not built yet has not linked its layers
+        self.assign_layer_parents(self._sub_layers)
         file_path = layer.filepath
         layer_data = layer.sub_layers
         for remove_sub_data in layer_data[:]:
-- 
2.43.0


From 78c125c7dd380bdae091b1945a8b3877ddc82c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:22 +0000
Subject: [PATCH 78/78] fix: removing a layer dropped another layer's reference
 spelled the same way

---
 nxt/stage.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 470ac16..9c1e7da 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -291,15 +291,15 @@ class Stage:
         for sub_layer in self._sub_layers:
             if sub_layer is layer:
                 continue
+            sub_layer_data = sub_layer.sub_layers
+            rm_d = [d for d in sub_layer_data if d.get('layer') is layer]
+            # The same text may name another file for another layer
+            if not rm_d and layer.parent_layer is not sub_layer:
+                continue
             if file_path in sub_layer.sub_layer_paths:
                 sub_layer.sub_layer_paths.remove(file_path)
-            sub_layer_data = sub_layer.sub_layers
-            rm_d = [d for d in sub_layer_data
-                    if d[SAVE_KEY.FILEPATH] == file_path]
             for rd in rm_d:
-                ref_layer = rd['layer']
-                if ref_layer is layer:
-                    sub_layer_data.remove(rd)
+                sub_layer_data.remove(rd)
         if layer in self._sub_layers:
             self._sub_layers.remove(layer)
         for i, layer in enumerate(self._sub_layers):
-- 
2.43.0

