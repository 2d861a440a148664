From 5663f1c7c4e86e085e17ec4d25105aa5dfaf355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 01/67] fix: later versions keep the specification version of
 the object declaration

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..dd8ba2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -305,6 +305,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -506,6 +507,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From e9e93f12516a1a7e6a2e4b91f0c3c60713a34995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 02/67] fix: first version with no files has a state block

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..93029b2 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From ab2a0998d17b410d18ba6d09f84f4ee131ba61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 03/67] fix: sidecar uses the digest algorithm of the inventory
 being written

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index dd8ba2a..fcdc37c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -247,11 +247,13 @@ class Object():  # pylint: disable=too-many-public-methods
         if not self.obj_fs.exists(vdir):
             self.obj_fs.makedir(vdir)
         invfile = os.path.join(vdir, INVENTORY_FILENAME)
+        digest_algorithm = self.digest_algorithm
         if inventory is not None:
+            digest_algorithm = inventory.digest_algorithm or digest_algorithm
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From f35ee6f46b7c78387c1984d06e22a5466278f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 04/67] fix: record the creation time of a version written
 without metadata

---
 ocfl/object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index fcdc37c..72f4be0 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -22,6 +22,7 @@ from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
+from .w3c_datetime import datetime_to_str
 
 
 class Object():  # pylint: disable=too-many-public-methods
@@ -359,6 +360,8 @@ class Object():  # pylint: disable=too-many-public-methods
                                       content_path_normalization=self.content_path_normalization)
         # Add content, everything in srcdir
         nv.add_from_srcdir()
+        if nv.created is None:
+            nv.created = datetime_to_str()
         inventory = nv.inventory
         # If objdir is not set then don't write anything, just return inventory
         if objdir is None:
@@ -528,6 +531,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        if new_version.created is None:
+            new_version.created = datetime_to_str()
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-- 
2.43.0


From 9bcc5f13fb96f4b82eacaaaca3d28db2b76db05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 05/67] fix: ocfl-sidecar uses the digest algorithm of the
 inventory

---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From e13ef8e6b3bfd0d180d0c9ed53f78788fd8ea655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 06/67] fix: a source file added more than once is copied to
 each of its content paths

---
 ocfl/new_version.py | 4 ++--
 ocfl/object.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 93029b2..e9faa50 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
diff --git a/ocfl/object.py b/ocfl/object.py
index 72f4be0..5fe2a2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -321,7 +321,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -373,7 +373,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -540,7 +540,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 85d39bf50d0c6ae129176db75333078f4faaa46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 07/67] fix: deleting a file just added leaves neither empty
 manifest entry nor unlisted content

---
 ocfl/inventory.py   | 5 ++++-
 ocfl/new_version.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..7da7cdf 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -792,7 +792,10 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
+                        if cpaths:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                     # FIXME - Also adjust fixity!
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index e9faa50..057d30f 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -362,6 +362,11 @@ class NewVersion():
         inventory = self.inventory
         try:
             inventory.current_version.delete_logical_path(logical_path)
+            # Do not copy any content that is no longer in the manifest
+            used = set(inventory.content_paths)
+            for content_path in list(self.files_to_copy):
+                if content_path not in used:
+                    del self.files_to_copy[content_path]
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
 
-- 
2.43.0


From e37d8495af87b222e33ba1494113f4efe522998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 08/67] fix: renaming a file just added keeps its content in
 the manifest

---
 ocfl/new_version.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 057d30f..0b5c6fe 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -384,14 +384,11 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        logical_paths = inventory.current_version.state[digest]
+        logical_paths[logical_paths.index(old_logical_path)] = new_logical_path
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From 68f73fe6b0c18589fee163230d68e7b80b17dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 09/67] fix: refuse logical paths that are invalid or conflict
 with others in a new version

---
 ocfl/new_version.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 0b5c6fe..5358b6c 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -283,6 +283,25 @@ class NewVersion():
             vfilepath = make_unused_filepath(vfilepath, used)
         return vfilepath
 
+    def _check_new_logical_path(self, path, exclude=None):
+        """Check that path may be used for a new logical file in this version.
+
+        Arguments:
+            path (str): the new logical path
+            exclude (str or None): existing logical path that is about to go away
+
+        Raises:
+            NewVersionException: if the path is not a valid logical path or if
+                it conflicts with another logical path such that one would have
+                to be both a file and a directory
+        """
+        if any(element in ("", ".", "..") for element in path.split("/")):
+            raise NewVersionException("Bad logical path %s" % (path))
+        for existing in self.inventory.current_version.logical_paths:
+            if existing != exclude and (existing.startswith(path + "/") or path.startswith(existing + "/")):
+                raise NewVersionException("Logical path %s conflicts with %s in new version %s"
+                                          % (path, existing, self.inventory.head))
+
     def add(self, src_path, logical_path, content_path=None, src_path_has_prefix=False):  # pylint: disable=unused-argument
         """Add a file to the new version.
 
@@ -319,6 +338,7 @@ class NewVersion():
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        self._check_new_logical_path(logical_path)
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -387,6 +407,7 @@ class NewVersion():
         digest = inventory.current_version.digest_for_logical_path(old_logical_path)
         if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        self._check_new_logical_path(new_logical_path, exclude=old_logical_path)
         logical_paths = inventory.current_version.state[digest]
         logical_paths[logical_paths.index(old_logical_path)] = new_logical_path
 
-- 
2.43.0


From 216b27c2728224ffb830ae52caa39fb9863447d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 10/67] fix: report an unreadable or malformed root inventory
 as ObjectException

---
 ocfl/object.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5fe2a2a..0d94a44 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -803,10 +803,16 @@ class Object():  # pylint: disable=too-many-public-methods
         Returns:
             ocfl.Inventory: new Inventory object for the parsed inventory.
         """
-        with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
-            inventory = Inventory(json.load(fh))
+        try:
+            with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
+                data = json.load(fh)
+        except (FileNotFoundError, ValueError) as e:
+            raise ObjectException("Failed to read root inventory (%s)" % e)
+        if not isinstance(data, dict):
+            raise ObjectException("Root inventory is not a JSON object")
+        inventory = Inventory(data)
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From fcd812de805836e6bdd6937bda08c4d3eb4e8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 11/67] fix: recognize inventory sidecars for digest algorithms
 with a hyphen

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..9b5dd9b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -230,7 +230,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
-- 
2.43.0


From 9df342096ac089335063626a6c88ddc4ba88d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 12/67] fix: compare states of prior versions by normalized
 digest

---
 ocfl/inventory_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..8c64e4e 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -589,8 +589,10 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, prior.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From c919029a9c85a012cbbc81f8d7cd8f496a360c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 13/67] fix: refuse content paths with dot elements or that
 conflict with other content

---
 ocfl/new_version.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 5358b6c..454b72a 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -334,6 +334,11 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        if any(element in ("", ".", "..") for element in content_path.split("/")):
+            raise NewVersionException("Bad content path %s" % (content_path))
+        for existing in inventory.content_paths:
+            if existing.startswith(content_path + "/") or content_path.startswith(existing + "/"):
+                raise NewVersionException("Bad content path %s, conflicts with %s" % (content_path, existing))
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
-- 
2.43.0


From ce14e16c8373f427c9f708298fd3a6bce91c6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 14/67] fix: remove the old root sidecar only after the new
 version is written

---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0d94a44..35cb957 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -533,10 +533,6 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = new_version.inventory
         if new_version.created is None:
             new_version.created = datetime_to_str()
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -545,6 +541,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 90133a091d8851bd3f8572ac8411c986761b824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 15/67] fix: claim the new version directory atomically

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 35cb957..9551112 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -534,7 +534,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if new_version.created is None:
             new_version.created = datetime_to_str()
         # Make new version directory
-        self.obj_fs.makedir(inventory.head)
+        self.obj_fs.makedir(inventory.head, create_parents=False)
         # Copy files into this version
         for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 77c78f22ce1e2291dc7649005ac75c7e41ae4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 16/67] fix: refuse to create or build an object where
 something already exists

---
 ocfl/object.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 9551112..f007b5f 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -142,6 +142,27 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def create_obj_fs(self, objdir, vdir):
+        """Create filesystem for a new object at objdir, with first version directory.
+
+        Arguments:
+            objdir (str): path string for the object, must not exist or be empty
+            vdir (str): name of the first version directory which is created
+                to claim objdir for this object
+
+        Raises:
+            ocfl.ObjectException: if there is already something at objdir
+        """
+        self.open_obj_fs(objdir, create=True)
+        try:
+            if len(fsw_listdir_names(self.obj_fs, "")) > 0:
+                raise ObjectException("Object directory '%s' already exists and is not empty" % (objdir))
+        except FileNotFoundError:
+            pass  # directory that does not exist until something is in it
+        except NotADirectoryError as e:
+            raise ObjectException("Object directory '%s' is not a directory (%s)" % (objdir, e))
+        self.obj_fs.makedir(vdir, create_parents=False)
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -288,8 +309,6 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -319,6 +338,8 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
+                if num_versions == 1:
+                    self.create_obj_fs(objdir, inventory.head)
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
@@ -367,7 +388,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self.create_obj_fs(objdir, "v1")
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From bc8a0bd2cd6ba8b07105847393cb0fc8b8d832a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 17/67] fix: build names version directories as its inventories
 do, whatever the source calls them

---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index f007b5f..c613455 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -220,6 +220,8 @@ class Object():  # pylint: disable=too-many-public-methods
             try:
                 vdir = entry["name"]
                 vn = parse_version_directory(vdir)
+                if vn in versions:
+                    raise FswException("Two directories for version %d (%s and %s)" % (vn, versions[vn], vdir))
                 versions[vn] = vdir
             except ObjectException:
                 # Ignore directories that are not valid version dirs
@@ -314,7 +316,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = None
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -340,10 +342,12 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 if num_versions == 1:
                     self.create_obj_fs(objdir, inventory.head)
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
+        if inventory is None:
+            raise ObjectException("No version directories found in %s" % (srcdir))
         # Finally populate the object root
         if objdir is not None:
             # Write object declaration, inventory and sidecar
-- 
2.43.0


From 8e776c64eff8eec0f83f52a78407fe7c30c966ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 18/67] fix: extract_file neither overwrites an existing file
 nor leaves a directory when refused

---
 ocfl/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index c613455..5871476 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -793,6 +793,8 @@ class Object():  # pylint: disable=too-many-public-methods
         exist.
         """
         inv, version = self._extract_setup(objdir, version)
+        if logical_path not in inv.version(version).logical_paths:
+            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
         # Check the destination
         try:
             dst_fs = fsw_openfs(dstdir, create=True)
@@ -800,6 +802,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
         # Now extract...
         basename = os.path.basename(logical_path)
+        if dst_fs.exists(basename):
+            raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
         manifest = inv.manifest
         state = inv.version(version).state
         # Extract the specified file
-- 
2.43.0


From eb79022b3a69a01c481229de23da66b8e3bf6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 19/67] fix: check content against its old digest before
 changing the digest algorithm

---
 ocfl/object.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5871476..2fe23a7 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -517,6 +517,12 @@ class Object():  # pylint: disable=too-many-public-methods
             old_to_new_digest = {}
             new_manifest = {}
             for old_digest, files in manifest.items():
+                for file in files:
+                    # New digests must be of the content that the old digests describe
+                    d = file_digest(file, old_digest_algorithm, fs=self.obj_fs)
+                    if d != old_digest:
+                        raise ObjectException("Content file %s is corrupt, has %s digest %s but expected %s" %
+                                              (file, old_digest_algorithm, d, old_digest))
                 digest = file_digest(files[0], digest_algorithm, fs=self.obj_fs)
                 old_to_new_digest[old_digest] = digest
                 for file in files[1:]:
@@ -524,7 +530,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From 8345ab5d3ee34c8d8b47a771d363304d5371d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 20/67] fix: a validator judges each object on its own errors
 only

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 9b5dd9b..af7912b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        start_errors = self.log.num_errors
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -162,7 +163,7 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == start_errors
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
@@ -179,7 +180,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0


From e83a5fd235eb6c5888e99abead3eb921146703e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 21/67] fix: storage root validation is false if any object is
 invalid

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..effbd18 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -453,7 +453,7 @@ class StorageRoot():
             return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or self.good_objects != self.num_objects:
             valid = False
         return valid
 
-- 
2.43.0


From e2e875463172a7fe621ed4cccdb346d0e7492c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 22/67] fix: storage root validation counts only its own
 traversal errors

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index effbd18..098b3df 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -443,6 +443,7 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_traversal_errors = 0
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
-- 
2.43.0


From 116b3e8ded3e2bf3726547b003196f72a3961ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 23/67] fix: initialize uses the specification version the
 storage root was created with

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 098b3df..2a56835 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -99,8 +99,8 @@ class StorageRoot():
         Sets self.spec_version to spec_version if given and good,
         otherwise to the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = default if self.spec_version is None else self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From aa67600634149463220cbd435e73a6befb7877f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 24/67] fix: a storage root created with the tuple-tree layout
 can be reopened

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From 4c5b4efb0ccd1110ad38377fa5e9bd34182cd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 25/67] fix: layouts without parameters accept an extension
 config

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..42956cd 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -203,7 +203,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From 24ae02216fdb0bd572cf12f8b4a4866dad45def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 26/67] fix: listing a storage root with an unregistered
 extension does not fail

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 2a56835..3838316 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -350,7 +350,7 @@ class StorageRoot():
         for entry in self.root_fs.listdir("extensions", detail=True):
             name = entry["name"]
             if entry["type"] == "directory":
-                if os.path.relpath(name, "extensions") not in self.registered_extensions:
+                if os.path.relpath(name, "extensions") not in self.registered_extensions and self.log is not None:
                     self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
-- 
2.43.0


From 5c09d967104ed1e5066630f6a2e02a093af7efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 27/67] fix: claim the storage root directory atomically

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 3838316..fed109b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -200,7 +200,7 @@ class StorageRoot():
         parent_fs = fsw_openfs(parent)
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
-        parent_fs.makedir(root_dir)
+        parent_fs.makedir(root_dir, create_parents=False)
         self.root_fs = fsw_openfs(self.root)
         logging.debug("Created OCFL storage root directory at %s", self.root)
         # Create root declaration
-- 
2.43.0


From db0b0f306602b9ba7f9aa4cab68dab2769dcc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 28/67] fix: list and add objects with the digests the storage
 root allows

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index fed109b..8d7ab5b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -371,7 +371,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -473,7 +473,7 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
+        o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
         # Now copy
-- 
2.43.0


From 7e6ae010d69d71fba3fdb077001aa7b1865112cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 29/67] fix: refuse to add an object inside another object or
 at a reserved path

---
 ocfl/storage_root.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8d7ab5b..bf1cb8d 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -478,6 +478,13 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
+        segments = path.split(os.sep)
+        if segments[0] == "extensions" or segments[0].startswith("0="):
+            raise StorageRootException("Add object failed because destination path %s is reserved" % (path))
+        for n in range(1, len(segments)):
+            parent = os.sep.join(segments[:n])
+            if self.root_fs.exists(parent) and len(find_namastes(0, dir=parent, fsw=self.root_fs)) > 0:
+                raise StorageRootException("Add object failed because destination path %s is within %s which is in use" % (path, parent))
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
-- 
2.43.0


From cb7658aff8f8a09b6ddc235d7bb25a7894bf08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 30/67] fix: declaration files must have exactly the declared
 content and a newline

---
 ocfl/namaste.py      | 13 ++++++++-----
 ocfl/storage_root.py |  2 +-
 ocfl/validator.py    |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..7614d49 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -114,15 +114,16 @@ class Namaste():
             with open(os.path.join(dir, self.filename), "w", encoding="utf-8") as fh:
                 fh.write(self.content + "\n")
 
-    def check_content(self, dir="", fsw=None):
+    def check_content(self, dir="", fsw=None, exact=False):
         """Check that the file content is compatible with the tvalue based on tr_func, else raise NamasteException."""
         filepath = os.path.join(dir, self.filename)
         if self.tvalue == "":
             raise NamasteException("Cannot check Namaste file %s without tvalue being set!" % (filepath))
         if fsw is not None:
             try:
-                content = fsw.read_text(filepath)
-            except FileNotFoundError:
+                with fsw.open(filepath, "rb") as fh:
+                    content = fh.read().decode("utf-8")
+            except (FileNotFoundError, IsADirectoryError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
@@ -131,11 +132,13 @@ class Namaste():
                 content = fh.read()
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
+        if exact and content != self.tvalue + "\n":
+            raise NamasteException("Content of Namaste file %s is not exactly tvalue %s and newline" % (filepath, self.tvalue))
 
-    def content_ok(self, dir="", fsw=None):
+    def content_ok(self, dir="", fsw=None, exact=False):
         """Return True if check_content() does not raise a NamasteException exception."""
         try:
-            self.check_content(dir, fsw)
+            self.check_content(dir, fsw, exact=exact)
         except NamasteException:
             return False
         return True
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index bf1cb8d..00f83e0 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -251,7 +251,7 @@ class StorageRoot():
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
-        if not namastes[0].content_ok(fsw=self.root_fs):
+        if not namastes[0].content_ok(fsw=self.root_fs, exact=True):
             raise StorageRootException("E069e", root=self.root,
                                        namaste_file=namastes[0].filename)
         # Layout file (if present)
diff --git a/ocfl/validator.py b/ocfl/validator.py
index af7912b..5ffa154 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -147,7 +147,7 @@ class Validator():
                     self.log.error("E006", filename=namaste.filename)
                 elif spec_version is None or this_file_version > spec_version:
                     spec_version = this_file_version
-                    if not namaste.content_ok(fsw=self.obj_fs):
+                    if not namaste.content_ok(fsw=self.obj_fs, exact=True):
                         self.log.error("E007", filename=namaste.filename)
             if spec_version is None:
                 self.log.error("E003c", assumed_version=self.spec_version)
-- 
2.43.0


From d3ca6385356ef5ca5e4deba991ff010567315622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 31/67] fix: bag extracted version with all files in a valid
 bag or fail

---
 ocfl/bagger.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..ea4258d 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -15,7 +15,7 @@ support versioning but is widely used as a transfer format and is thus well
 suited to transferring content that might be used to update an OCLF object
 or disseminate a particular version.
 """
-import os.path
+import os
 import logging
 import bagit
 
@@ -75,6 +75,9 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
             date as the Bagging-Date in the bagit metadata. Default is False
             in which case the current system date will be used to set the
             Bagging-Date
+
+    Raises:
+        BaggerError: if a valid bag with all the files cannot be created
     """
     tags = {}
     if metadata.id:
@@ -88,6 +91,20 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
     if set_bagging_date:
         # metadata.created is a well-formed datatime string, take portion before T
         tags["Bagging-Date"] = metadata.created.split("T")[0]
+    # Count files so we can check that everything ends up in the bag because
+    # the bagit code ignores errors reading directories
+    def walk_error(exception):
+        raise exception
+    num_files = sum(len(files) for (dirpath, dirs, files) in os.walk(dst, onerror=walk_error))
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    bag = bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    if num_files == 0:
+        # A payload manifest is required even if there is no payload
+        with open(os.path.join(dst, "manifest-sha512.txt"), "w", encoding="utf-8"):
+            pass
+        bag = bagit.Bag(dst)
+        bag.save()
+    # Some filenames cannot be expressed in a manifest
+    if len(bag.payload_entries()) != num_files or not bag.is_valid(completeness_only=True):
+        raise BaggerError("Failed to create valid Bagit bag with all files at %s" % (dst))
-- 
2.43.0


From 48d901ef011bbc6b01f2c35f867baf7b97d33572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 32/67] fix: create writes content before inventories so an
 interrupted create is not usable

---
 ocfl/object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2fe23a7..9bc557a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -393,13 +393,14 @@ class Object():  # pylint: disable=too-many-public-methods
             return inventory
         # Write out v1 object
         self.create_obj_fs(objdir, "v1")
+        # Write version files, before the inventory so that an object left
+        # incomplete by a failure does not look like a usable object
+        for (objpath, srcpath) in nv.files_to_copy.items():
+            self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
-        # Write version files
-        for (objpath, srcpath) in nv.files_to_copy.items():
-            self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
 
-- 
2.43.0


From 25b46c794a03aecee53fdbfb805c419254c6bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 33/67] fix: copy top level files last so an interrupted add is
 not a usable object

---
 ocfl/fsw.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..0be34f5 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -396,13 +396,16 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
     This is a copy of files only. Files are copied with the same path structure
     but empty directories are not recreated in the destination and thus this function
     may be used with filesystems that do not support directories.
+
+    The files at the top level are copied last so that an OCFL object left
+    incomplete by a failure does not have its declaration and root inventory.
     """
     if not src_fs.isdir(src_path):
         raise FswException("Source directory (%s) for copydir does not exist or is not a directory!" % (src_path))
     if dst_fs.exists(dst_path):
         raise FswException("Destination directory (%s) for copydir already exists!" % (dst_path))
     dst_fs.makedirs(dst_path)
-    for filepath in fsw_walk_files(src_fs, src_path):
+    for filepath in sorted(fsw_walk_files(src_fs, src_path), key=lambda path: "/" not in path):
         src_filepath = os.path.join(src_path, filepath)
         dst_filepath = os.path.join(dst_path, filepath)
         dst_filedir = os.path.dirname(dst_filepath)
-- 
2.43.0


From ac2e6f34f38d8d6cc0f8ac9641adcd22f38d874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 34/67] fix: validation reports malformed inventories and
 unreadable files instead of failing

---
 ocfl/data/validation-errors.json | 12 +++++++++
 ocfl/digest.py                   |  5 ++++
 ocfl/inventory_validator.py      | 22 +++++++++++++---
 ocfl/validator.py                | 45 +++++++++++++++++++++++---------
 4 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..337cddf 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -286,6 +286,12 @@
        "en": "OCFL Object includes directory %s that looks like a version directory but isn't a valid version in the inventory"
     }
   },
+  "E047": {
+    "params": ["where", "version"],
+    "description": {
+       "en": "OCFL Object %s inventory %s version block is not a JSON object"
+    }
+  },
   "E048": {
     "params": ["where", "version"],
     "description": {
@@ -587,6 +593,12 @@
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
     }
   },
+  "E092": {
+    "params": ["where", "digest"],
+    "description": {
+       "en": "OCFL Object %s inventory manifest entry for digest %s is not a JSON array of at least one content path"
+    }
+  },
   "E092a": {
     "params": ["where", "digest_algorithm", "digest", "content_path", "content_digest"],
     "description": {
diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..ec24400 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -105,6 +105,11 @@ DIGEST_REGEXES = {
 }
 
 
+def digest_supported(digest_type):
+    """Return True if digests of type digest_type can be calculated."""
+    return digest_type in DIGEST_REGEXES
+
+
 def digest_regex(digest_type="sha512"):
     """Regex to be used to check the un-normalized form of a digest string.
 
diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 8c64e4e..dae99e2 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -114,6 +114,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="inventory is not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -145,6 +148,9 @@ class InventoryValidator():
                 self._error("E038c", got=m.group(1), assumed_spec_version=self.spec_version)
         if "digestAlgorithm" not in inventory:
             self._error("E036c")
+        elif not isinstance(inventory["digestAlgorithm"], str):
+            self._error("E025a", digest_algorithm=inventory["digestAlgorithm"])
+            return False
         elif inventory["digestAlgorithm"] == "sha512":
             pass
         elif self.lax_digests:
@@ -282,6 +288,8 @@ class InventoryValidator():
                 elif not isinstance(manifest[digest], list):
                     self._error("E092", digest=digest)  # must have path list value
                 else:
+                    if len(manifest[digest]) == 0:
+                        self._error("E092", digest=digest)  # must have at least one path
                     unnormalized_digests.add(digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     if norm_digest in manifest_digests:
@@ -290,6 +298,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -344,7 +355,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str) or file not in (manifest_files or {}):
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -417,6 +428,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E047", version=v)
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -477,11 +491,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E052", version=version, path=path)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if digest not in (unnormalized_digests or ()):
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 5ffa154..076823c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -12,10 +12,11 @@ should enable application beyond the operating system filesystem.
 import json
 import os.path
 import re
+import sys
 
 from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
-from .digest import file_digest, normalized_digest
+from .digest import digest_supported, file_digest, normalized_digest
 from .inventory_validator import InventoryValidator
 from .namaste import find_namastes
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
@@ -131,7 +132,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        namastes = find_namastes(0, fsw=self.obj_fs, limit=sys.maxsize)
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
@@ -158,13 +159,16 @@ class Validator():
                     self.log.error("E003b", files=len(namastes), using_version=self.spec_version)
         # Object root inventory file
         inv_file = INVENTORY_FILENAME
-        if not self.obj_fs.exists(inv_file):
+        if not self.obj_fs.isfile(inv_file):
             self.log.error("E063")
             return False
+        inventory_start_errors = self.log.num_errors
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
             inventory_is_valid = self.log.num_errors == start_errors
-            self.root_inv_validator = inv_validator
+            # Other inventories can be compared only with a root inventory that is
+            # itself valid (whatever may be wrong with the object declaration)
+            self.root_inv_validator = inv_validator if self.log.num_errors == inventory_start_errors else None
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -206,7 +210,11 @@ class Validator():
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except IsADirectoryError:
+            self.log.error("E033", where=where, explanation="Inventory is a directory")
+            raise ValidatorAbortException
+        except (ValueError, RecursionError) as e:
+            # Includes JSONDecodeError and UnicodeDecodeError
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
@@ -218,7 +226,7 @@ class Validator():
     def validate_inventory_digest(self, inv_file, digest_algorithm, where="root"):
         """Validate the appropriate inventory digest file in path."""
         inv_digest_file = inv_file + "." + digest_algorithm
-        if not self.obj_fs.exists(inv_digest_file):
+        if not self.obj_fs.isfile(inv_digest_file):
             self.log.error("E058a", where=where, path=inv_digest_file)
         else:
             self.validate_inventory_digest_match(inv_file, inv_digest_file)
@@ -334,12 +342,14 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                version_start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == version_start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
                 self.inventory_digest_files[version_dir] = "inventory.json." + digest_algorithm
-                if self.id and "id" in version_inventory:
+                if self.id and inv_validator.id:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
                 if first_version:
@@ -357,7 +367,7 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
-                if "manifest" in version_inventory:
+                if version_inventory_is_valid:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
                     for digest in version_inventory["manifest"]:
@@ -379,11 +389,11 @@ class Validator():
                                 prior_manifest_digests[filepath][digest_algorithm][digest] = []
                             prior_manifest_digests[filepath][digest_algorithm][digest].append(version_dir)
                 # Is this inventory an appropriate prior version of the object root inventory?
-                if self.root_inv_validator is not None:
+                if self.root_inv_validator is not None and version_inventory_is_valid:
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-                if "fixity" in version_inventory:
+                if version_inventory_is_valid and "fixity" in version_inventory:
                     for digest_algorithm in version_inventory["fixity"]:
                         for unnormalized_digest in version_inventory["fixity"][digest_algorithm]:
                             digest = normalized_digest(unnormalized_digest, digest_type=digest_algorithm)
@@ -453,14 +463,19 @@ class Validator():
                                 fixity_digests[filepath][digest_algorithm][digest] = ["root"]
                         else:
                             self.log.error("E093b", where="root", digest_algorithm=digest_algorithm, digest=digest, content_path=filepath)
-        # Check all files in root manifest
+        # Check all files in root manifest, with lax_digests the algorithm may be
+        # one that we cannot calculate
+        check_digests = self.check_digests
+        if check_digests and not digest_supported(self.digest_algorithm):
+            self.log.error("E026a", where="root", digest=self.digest_algorithm)
+            check_digests = False
         if "manifest" in inventory:
             for digest in inventory["manifest"]:
                 for filepath in inventory["manifest"][digest]:
                     if filepath not in files_seen:
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
-                        if self.check_digests:
+                        if check_digests:
                             content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
@@ -491,6 +506,12 @@ class Validator():
         """
         if filepath in additional_digests:
             for digest_algorithm in additional_digests[filepath]:
+                if not digest_supported(digest_algorithm):
+                    # With lax_digests fixity may use algorithms that we cannot calculate
+                    if error_code != "E093a":
+                        where = ",".join(sum(additional_digests[filepath][digest_algorithm].values(), []))
+                        self.log.error("E026a", where=where, digest=digest_algorithm)
+                    continue
                 if digest_algorithm in known_digests:
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
-- 
2.43.0


From c0b0ee08698d2bd399a10931e47a950a14c1a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 35/67] fix: report a version inventory that is not the one of
 its version

---
 ocfl/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 076823c..b7a3a27 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -365,6 +365,9 @@ class Validator():
                     # two versions.
                     self.log.error("E019", where=version_dir)
                     first_version_content_directory_set = False  # report E019 just once
+                if inv_validator.all_versions and inv_validator.all_versions[-1] != version_dir:
+                    # Describes more or fewer versions than it should
+                    self.log.error("E040", where=version_dir, got=inv_validator.all_versions[-1], expected=version_dir)
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
                 if version_inventory_is_valid:
-- 
2.43.0


From d892267b5fd24e10cc2eab42db5eef059708c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 36/67] fix: report inventory sidecars with anything but the
 digest and file name

---
 ocfl/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index b7a3a27..01dcf59 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -537,9 +537,8 @@ class Validator():
                 the wrong format
         """
         with fsw_openfile(inv_digest_file, "r", fs=self.obj_fs) as fh:
-            line = fh.readline()
-            # we ignore any following lines, could raise exception
-        m = re.match(r"""(\w+)\s+(\S+)\s*$""", line)
+            text = fh.read()
+        m = re.match(r"""(\w+)[ \t]+(\S+)\s*$""", text)
         if not m:
             raise ValueError("Bad inventory digest file %s, wrong format" % (inv_digest_file))
         if m.group(2) != INVENTORY_FILENAME:
-- 
2.43.0


From 228a21a911b2306a527ae18201af0c79e8293b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 37/67] fix: inventory type must be exactly that of the
 declared specification version

---
 ocfl/inventory_validator.py | 2 +-
 ocfl/validator.py           | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index dae99e2..6908323 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -138,7 +138,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 01dcf59..6e07e14 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -174,6 +174,10 @@ class Validator():
             self.content_directory = inv_validator.content_directory
             self.content_directory_set = inv_validator.content_directory_set
             self.digest_algorithm = inv_validator.digest_algorithm
+            if inv_validator.spec_version != self.spec_version:
+                # Inventory must have the type of the declared specification version
+                self.log.error("E038a", where="root", expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory",
+                               got=inventory["type"])
             self.validate_inventory_digest(inv_file, self.digest_algorithm)
             # Object root
             self.validate_object_root(all_versions, already_checked=[namaste.filename for namaste in namastes])
-- 
2.43.0


From f68560d9de2e850e3221d4b30d675a8c6ac0d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 38/67] fix: report a root inventory of an earlier
 specification version than prior versions

---
 ocfl/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 6e07e14..f4b289b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -419,6 +419,10 @@ class Validator():
                                prev_version_dir=prev_version_dir, prev_spec_version=prev_spec_version)
             prev_version_dir = version_dir
             prev_spec_version = this_spec_version
+        if prev_spec_version > self.spec_version:
+            # Will have been missed if the last version does not have an inventory
+            self.log.error("E103", where="root", this_spec_version=self.spec_version,
+                           prev_version_dir=prev_version_dir, prev_spec_version=prev_spec_version)
         return prior_manifest_digests, prior_fixity_digests
 
     def validate_content(self, inventory, version_dirs, prior_manifest_digests, prior_fixity_digests):
-- 
2.43.0


From f87e6cdc288ceb9d174abbc476db0cc9003677fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 39/67] fix: report paths that are also a directory above
 another path at any level

---
 ocfl/inventory_validator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 6908323..ceaab3b 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_parents(directories):
+    """Get set of directories with all directories above them."""
+    all_directories = set()
+    for directory in directories:
+        while directory not in all_directories:
+            all_directories.add(directory)
+            directory = directory.rpartition("/")[0]
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -305,7 +315,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_parents(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -503,7 +513,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_parents(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
@@ -570,7 +580,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From 0f551253c5c2dda768e3224e9399984c2dfe25a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:30 +0000
Subject: [PATCH 40/67] fix: report an empty contentDirectory or a file in
 place of a content directory

---
 ocfl/inventory_validator.py | 2 +-
 ocfl/validator.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index ceaab3b..6cfbaad 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -174,7 +174,7 @@ class InventoryValidator():
         if "contentDirectory" in inventory:
             # Careful only to set self.content_directory if value is safe
             cd = inventory["contentDirectory"]
-            if not isinstance(cd, str) or "/" in cd:
+            if not isinstance(cd, str) or cd == "" or "/" in cd:
                 self._error("E017")
             elif cd in (".", ".."):
                 self._error("E018")
diff --git a/ocfl/validator.py b/ocfl/validator.py
index f4b289b..3544095 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -441,7 +441,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From 5bac4f1b24bc07d13616b70f5571d136f1a56060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 41/67] fix: an object at the root of an object store
 filesystem can be added

---
 ocfl/fsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 0be34f5..5a4e91c 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -406,7 +406,7 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
         raise FswException("Destination directory (%s) for copydir already exists!" % (dst_path))
     dst_fs.makedirs(dst_path)
     for filepath in sorted(fsw_walk_files(src_fs, src_path), key=lambda path: "/" not in path):
-        src_filepath = os.path.join(src_path, filepath)
+        src_filepath = os.path.join(src_path, filepath).lstrip("/")
         dst_filepath = os.path.join(dst_path, filepath)
         dst_filedir = os.path.dirname(dst_filepath)
         if dst_filedir != dst_path and not dst_fs.exists(dst_filedir):
-- 
2.43.0


From 1db100ef42aa6d5b0a14c64c188bd7cb854dee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 42/67] fix: refuse objects of a later specification version
 than the storage root

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 337cddf..e7cffa2 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -566,6 +566,12 @@
        "en": "OCFL storage root hierarchy contains an empty directory: %s"
     }
   },
+  "E081": {
+    "params": ["path", "version", "root_version"],
+    "description": {
+       "en": "OCFL Storage Root hierarchy includes object at %s with specification version %s that is later than version %s of the storage root"
+    }
+  },
   "E086": {
     "params": ["entry"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 00f83e0..659d017 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -321,8 +321,10 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)$""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
+                        if self.spec_version is not None and match.group(1) > self.spec_version:
+                            self.traversal_error("E081", path=dirpath, version=match.group(1), root_version=self.spec_version)
                         yield dirpath.lstrip("/")
                     elif match:
                         self.traversal_error("E004a", path=dirpath, version=match.group(1))
@@ -402,8 +404,6 @@ class StorageRoot():
                 validator = Validator(check_digests=check_digests,
                                       lax_digests=self.lax_digests,
                                       log_warnings=log_warnings)
-                # FIXME - Should check that all objest are not higher spec
-                # version that storage root https://ocfl.io/1.1/spec/#E081
                 if validator.validate_object(fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)):
                     good_objects += 1
                 else:
@@ -478,6 +478,8 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
+        if inventory.spec_version is not None and inventory.spec_version > self.spec_version:
+            raise StorageRootException("Add object failed because object specification version %s is later than %s of the storage root" % (inventory.spec_version, self.spec_version))
         segments = path.split(os.sep)
         if segments[0] == "extensions" or segments[0].startswith("0="):
             raise StorageRootException("Add object failed because destination path %s is reserved" % (path))
-- 
2.43.0


From bbcbe853c0337d687d74015ecd0efaff17ae1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 43/67] fix: flat quoted layout has no path for the identifiers
 . and ..

---
 ocfl/layout_nnnn_flat_quoted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..a5794d5 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,12 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Currently just a check for blank, "." and ".."
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From bf8a57560e17668e6f975ef89aca65731b4aff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 44/67] fix: a bad layout configuration or many declarations
 make a storage root invalid

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index e7cffa2..b4b397b 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -548,6 +548,12 @@
       "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
     }
   },
+  "E070d": {
+    "params": ["root", "message"],
+    "description": {
+      "en": "OCFL Storage Root %s has a bad layout extension configuration (%s)"
+    }
+  },
   "E071": {
     "params": ["root", "layout_name"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 659d017..3c4188a 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -7,6 +7,7 @@ import json
 import logging
 import os.path
 import re
+import sys
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import find_namastes, Namaste
@@ -16,6 +17,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -233,7 +235,7 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        namastes = find_namastes(0, fsw=self.root_fs, limit=sys.maxsize)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
@@ -452,6 +454,10 @@ class StorageRoot():
             logging.debug("Storage root structure is INVALID (%s)", str(e.code))
             self.log.error(e.code, **e.kwargs)
             return False
+        except LayoutException as e:
+            logging.debug("Storage root layout configuration is INVALID (%s)", str(e))
+            self.log.error("E070d", root=self.root, message=str(e))
+            return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
         if self.num_traversal_errors > 0 or self.good_objects != self.num_objects:
-- 
2.43.0


From 6a094c06b46177c1fa360ef90f5acd98a10a753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 45/67] fix: digest change also notices content corrupted while
 it runs

---
 ocfl/object.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 9bc557a..70068ef 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -518,12 +518,6 @@ class Object():  # pylint: disable=too-many-public-methods
             old_to_new_digest = {}
             new_manifest = {}
             for old_digest, files in manifest.items():
-                for file in files:
-                    # New digests must be of the content that the old digests describe
-                    d = file_digest(file, old_digest_algorithm, fs=self.obj_fs)
-                    if d != old_digest:
-                        raise ObjectException("Content file %s is corrupt, has %s digest %s but expected %s" %
-                                              (file, old_digest_algorithm, d, old_digest))
                 digest = file_digest(files[0], digest_algorithm, fs=self.obj_fs)
                 old_to_new_digest[old_digest] = digest
                 for file in files[1:]:
@@ -532,6 +526,13 @@ class Object():  # pylint: disable=too-many-public-methods
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
                                               (files[0], file, digest_algorithm, digest, d))
+                for file in files:
+                    # New digests must be of the content that the old digests describe. Check
+                    # this last so that content that is corrupted meanwhile is noticed too
+                    d = file_digest(file, old_digest_algorithm, fs=self.obj_fs)
+                    if d != old_digest:
+                        raise ObjectException("Content file %s is corrupt, has %s digest %s but expected %s" %
+                                              (file, old_digest_algorithm, d, old_digest))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From 7c5642803d21aa7b031bb12d233c74184d2e2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 46/67] fix: refuse settings or metadata that would give an
 invalid inventory before writing

---
 ocfl/object.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 70068ef..0fd8f9a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -252,6 +252,20 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         self.object_declaration_object().write(fsw=self.obj_fs)
 
+    def check_inventory(self, inventory):
+        """Check that inventory is valid before anything is written for it.
+
+        Arguments:
+            inventory: an Inventory object
+
+        Raises:
+            ocfl.ObjectException: if the inventory is not valid, perhaps because
+                of bad settings or version metadata
+        """
+        iv = InventoryValidator(lax_digests=self.lax_digests)
+        if not iv.validate(inventory=inventory.data):
+            raise ObjectException("Refusing to write inventory that is not valid: %s" % (iv.log))
+
     def write_inventory_and_sidecar(self, inventory=None, vdir=""):
         """Write inventory and sidecar to vdir in the current object.
 
@@ -311,7 +325,7 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        num_versions = 0
+        versions = []
         src_fs = fsw_openfs(srcdir)
         inventory = None
         # Create each version of the object
@@ -338,22 +352,23 @@ class Object():  # pylint: disable=too-many-public-methods
             # Add content, everything in srcdir
             nv.add_from_srcdir()
             inventory = nv.inventory
-            num_versions += 1
-            if objdir is not None:
-                if num_versions == 1:
-                    self.create_obj_fs(objdir, inventory.head)
-                self.write_inventory_and_sidecar(inventory, inventory.head)
-                # Copy files into this version
-                for (objpath, srcpath) in nv.files_to_copy.items():
-                    self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
+            self.check_inventory(inventory)
+            versions.append((nv, copy.deepcopy(inventory)))
         if inventory is None:
             raise ObjectException("No version directories found in %s" % (srcdir))
-        # Finally populate the object root
         if objdir is not None:
+            # Write all the versions
+            self.create_obj_fs(objdir, versions[0][1].head)
+            for (nv, version_inventory) in versions:
+                self.write_inventory_and_sidecar(version_inventory, version_inventory.head)
+                # Copy files into this version
+                for (objpath, srcpath) in nv.files_to_copy.items():
+                    self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
+            # Finally populate the object root
             # Write object declaration, inventory and sidecar
             self.write_object_declaration()
             self.write_inventory_and_sidecar(inventory)
-            logging.info("Built object %s at %s with %s versions", self.id, objdir, num_versions)
+            logging.info("Built object %s at %s with %s versions", self.id, objdir, len(versions))
         # Whether object written or not, return the last inventory
         return inventory
 
@@ -388,6 +403,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if nv.created is None:
             nv.created = datetime_to_str()
         inventory = nv.inventory
+        self.check_inventory(inventory)
         # If objdir is not set then don't write anything, just return inventory
         if objdir is None:
             return inventory
@@ -566,6 +582,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = new_version.inventory
         if new_version.created is None:
             new_version.created = datetime_to_str()
+        self.check_inventory(inventory)
         # Make new version directory
         self.obj_fs.makedir(inventory.head, create_parents=False)
         # Copy files into this version
-- 
2.43.0


From 5b20bf290d8261b2853401a1cbdcdb8a34eecb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 47/67] fix: verify tag manifests of bags older than v0.97 too

---
 ocfl/bagger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index ea4258d..da7b837 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -47,6 +47,10 @@ def bag_as_source(srcbag, metadata):
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
     bag = bagit.Bag(srcbag)
+    if bag.version_info < (0, 97):
+        # Tag manifests must match in any version but bagit checks only from v0.97
+        bag.version_info = (0, 97)
+        bag._load_manifests()  # pylint: disable=protected-access
     if not bag.is_valid():
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
-- 
2.43.0


From 3f7b8d76bf2ab809bb6027f1c15cbe396845632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 48/67] fix: refuse to write a version that exists already on
 storage without atomic directories

---
 ocfl/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0fd8f9a..d289395 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -583,7 +583,10 @@ class Object():  # pylint: disable=too-many-public-methods
         if new_version.created is None:
             new_version.created = datetime_to_str()
         self.check_inventory(inventory)
-        # Make new version directory
+        # Make new version directory, also refusing an existing version on
+        # storage where making a directory that already exists does not fail
+        if self.obj_fs.exists(inventory.head):
+            raise ObjectException("Version directory %s already exists" % (inventory.head))
         self.obj_fs.makedir(inventory.head, create_parents=False)
         # Copy files into this version
         for (objpath, srcpath) in new_version.files_to_copy.items():
-- 
2.43.0


From d18e2603cb5ec2f5ad7bf9b0ba044224b78f9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 49/67] fix: version directory names are exactly v and ASCII
 digits

---
 ocfl/object_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..58910cd 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -51,7 +51,7 @@ def next_version_directory(vdir):
     Raises an ObjectExtension if the format of version cannot be understood
     or if there is overflow of a zero-padded form.
     """
-    m = re.match(r"""v((\d)\d*)$""", vdir)
+    m = re.fullmatch(r"""v(([0-9])[0-9]*)""", vdir)
     if not m:
         raise ObjectException("Bad version directory '%s'" % vdir)
     next_n = int(m.group(1)) + 1
@@ -164,7 +164,7 @@ def parse_version_directory(dirname):
 
     Returns the integer version number from this version directory name.
     """
-    m = re.match(r"""v(\d{1,5})$""", dirname)
+    m = re.fullmatch(r"""v([0-9]{1,5})""", dirname)
     if not m:
         raise ObjectException("Bad version directory name: %s" % (dirname))
     v = int(m.group(1))
-- 
2.43.0


From 23d5efd859308dfc70547b2c107f83d0124c6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:57 +0000
Subject: [PATCH 50/67] fix: created timestamps with non-ASCII digits or a
 trailing newline are not valid

---
 ocfl/w3c_datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..3fdf3fc 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s, re.ASCII)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.fullmatch(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -101,8 +101,8 @@ def str_to_datetime(s, context="datetime"):
     # Seems that one should be able to handle timezone offset
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
-    m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+    m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
+                     r"(\d\d):(\d\d))?", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From e0d4faff5aa488a1eab69d380fefb4bd976e31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 51/67] fix: update without a source directory adds a version
 with the same content

---
 ocfl/new_version.py | 5 +++--
 ocfl/object.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 454b72a..4e790a5 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -30,7 +30,7 @@ class NewVersion():
         Arguments:
             srcdir (str): source directory name for files that will be added
                 to this new version. May be a fsw filesystem specification.
-                Default is "."
+                Default is ".". None if no files will be added
 
         The default constructor is not expected to be used directly, see
         NewVersion.first_version(...) and NewVersion.next_version(..) for the
@@ -46,7 +46,8 @@ class NewVersion():
         # Additional state needed for final commit
         self.old_digest_algorithm = None
         self.files_to_copy = {}  # dict: content_path -> src_path
-        self.src_fs = fsw_openfs(self.srcdir)
+        if self.srcdir is not None:
+            self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
     def first_version(cls, *,
diff --git a/ocfl/object.py b/ocfl/object.py
index d289395..e6c0e8a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -446,7 +446,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
-- 
2.43.0


From 91f5e3f20ba6ba138fb31e960d4fc86fd04d8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 52/67] fix: ObjectException if the root inventory is a
 directory or too deeply nested

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e6c0e8a..bc33fde 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -863,7 +863,7 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
                 data = json.load(fh)
-        except (FileNotFoundError, ValueError) as e:
+        except (FileNotFoundError, IsADirectoryError, ValueError, RecursionError) as e:
             raise ObjectException("Failed to read root inventory (%s)" % e)
         if not isinstance(data, dict):
             raise ObjectException("Root inventory is not a JSON object")
-- 
2.43.0


From 11ec3a025f5e113eed18b005075712cc41a2d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 53/67] fix: extract to a destination given as a URL

---
 ocfl/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index bc33fde..2998cc4 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -778,7 +778,10 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         inv, version = self._extract_setup(objdir, version)
         # Check the destination
-        (parentdir, dir) = os.path.split(os.path.normpath(dstdir))
+        if "://" in dstdir:
+            (parentdir, dir) = os.path.split(dstdir.rstrip("/"))  # Leave :// of URL alone
+        else:
+            (parentdir, dir) = os.path.split(os.path.normpath(dstdir))
         try:
             parent_fs = fsw_openfs(parentdir)
         except FileNotFoundError as e:
-- 
2.43.0


From 2200853f9f3155e9ec69798075052ce693c9f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 54/67] fix: tree must not count files of directories it cannot
 list as absent

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2998cc4..db0c345 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -18,7 +18,7 @@ from .inventory import Inventory
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
-from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs, FswException
+from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs, fsw_walk, FswException
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
@@ -655,7 +655,7 @@ class Object():  # pylint: disable=too-many-public-methods
                             seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
-                        for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
+                        for (v_dirpath, v_dirs, v_files) in fsw_walk(self.obj_fs, os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
                             num_files += len(v_files)
                         v_note += "(%d files)" % num_files
                     else:
-- 
2.43.0


From 7537d47de2332ed765a202b5338034f900b0b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 55/67] fix: fsw_openfs raises FileNotFoundError for a damaged
 zip file as documented

---
 ocfl/fsw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 5a4e91c..2d2b21d 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -20,6 +20,7 @@ import logging
 import os.path
 import tempfile
 from urllib.parse import parse_qs
+from zipfile import BadZipFile
 
 import fsspec
 from fsspec.spec import AbstractFileSystem
@@ -177,7 +178,10 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
             raise FileNotFoundError("Failed to access S3 bucket/path (%s) (%s)" % (path, str(e)))
         fs = DirFileSystem(path, fs)
     elif method == "zip":
-        fs = ZipFileSystem(fo=path)
+        try:
+            fs = ZipFileSystem(fo=path)
+        except BadZipFile as e:
+            raise FileNotFoundError("Failed to open %s as zip file (%s)" % (path, str(e)))
     else:
         # Not local, S3 or zip...
         fs = fsspec.filesystem(method)
-- 
2.43.0


From 342df4164de8483a09b99bcb753766f2b8b7751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 56/67] fix: read local files given by absolute path, as for
 ocfl-object.py build --metadata

---
 ocfl/fsw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 2d2b21d..bc3f23b 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -307,7 +307,8 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    if fs is None:
+        fs = LocalFileSystem()  # path may be absolute or relative
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -322,7 +323,8 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
+    if fs is None:
+        fs = LocalFileSystem()  # path may be absolute or relative
     with fs.open(filepath, "r") as fh:
         text = fh.read()
     return text
-- 
2.43.0


From dcf744f2865a41c50bc69d194c2c2dc4741f2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 57/67] fix: ocfl-object.py validate exits non-zero for an
 invalid object

---
 ocfl-object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
-- 
2.43.0


From 4cdbcdcd7b76824312dc6c79a56fe8beadc4db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 58/67] fix: ocfl-root.py validate exits non-zero for an
 invalid storage root

---
 ocfl-root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..084cd5d 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -107,6 +107,8 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if everything checked is valid, False otherwise
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +130,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,7 +160,8 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
-- 
2.43.0


From c8103504f31b0a77ce8f9727c63bfbfe4b055771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 59/67] fix: ocfl-root.py validate --max_errors takes a number

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 084cd5d..0e76870 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
-- 
2.43.0


From a182cb8afa46d4d2143f13163faa2fc469d59b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 60/67] fix: ocfl-root.py show looks for the object inside the
 storage root

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 0e76870..c77eabe 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -182,7 +182,7 @@ def do_store_operation(args):
         else:
             obj = ocfl.Object(identifier=args.id)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
+                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
             else:
                 logging.error("validate not implemented")
     else:
-- 
2.43.0


From 94b50ab934bb0b241e58bb79f818072e9e97fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:43 +0000
Subject: [PATCH 61/67] fix: digest change in an object whose path has wildcard
 characters removes only the object's own sidecar

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index db0c345..4f4eeae 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -597,7 +597,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
+            self.obj_fs.rm_file(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From c9795747c4415bebdc6dd2dc6a05432840b7e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 62/67] fix: contentDirectory is compared with the first
 version's inventory only if there is one, and for every later version

---
 ocfl/validator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 3544095..ae7e3eb 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -320,7 +320,7 @@ class Validator():
         if len(version_dirs) == 0:
             return prior_manifest_digests, prior_fixity_digests
         first_version = version_dirs[0]
-        first_version_content_directory_set = False
+        first_version_content_directory_set = None  # not known without an inventory for the first version
         last_version = version_dirs[-1]
         prev_version_dir = "NONE"  # will be set for first directory with inventory
         prev_spec_version = "1.0"  # lowest version
@@ -356,19 +356,19 @@ class Validator():
                 if self.id and inv_validator.id:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version:
+                if version_dir == first_version:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
-                        first_version_content_directory_set = False  # report E019 just once
-                elif not first_version_content_directory_set and inv_validator.content_directory_set:
+                        first_version_content_directory_set = None  # report E019 just once
+                elif first_version_content_directory_set is False and inv_validator.content_directory_set:
                     # E019 is a rather odd and specific error condition: that if
                     # the contentDirectory is set for any version it must be set
                     # the first version. It isn't clear that this is very usefully
                     # different from E020 that picks up inconsistency between ant
                     # two versions.
                     self.log.error("E019", where=version_dir)
-                    first_version_content_directory_set = False  # report E019 just once
+                    first_version_content_directory_set = None  # report E019 just once
                 if inv_validator.all_versions and inv_validator.all_versions[-1] != version_dir:
                     # Describes more or fewer versions than it should
                     self.log.error("E040", where=version_dir, got=inv_validator.all_versions[-1], expected=version_dir)
-- 
2.43.0


From eed9b25ba2d24641a35ac77af4f1206e53dff178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 63/67] fix: a digest with a trailing newline is not valid

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 6cfbaad..bf0460d 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -292,7 +292,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -349,7 +349,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -495,7 +495,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From 43fad57a251339065219230b314fc4b6798bca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 64/67] fix: the UUID layout does not map an identifier with a
 trailing newline to the path of the one without

---
 ocfl/layout_nnnn_uuid_quadtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..72bcbb6 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -84,7 +84,7 @@ class Layout_NNNN_UUID_Quadtree(Layout):
             identifier = identifier[len(self.prefix):]
         else:
             raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+        match = re.fullmatch(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})""", identifier)
         if not match:
             raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
-- 
2.43.0


From 73da5e230d8a9c795262b4b81794434906b7df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 65/67] fix: a file with a trailing newline in its name is not
 a declaration of an object or storage root

---
 ocfl/object_utils.py | 2 +-
 ocfl/storage_root.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index 58910cd..3759698 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -150,7 +150,7 @@ def find_path_type(path):
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
     # multiple declarations this will be caught later
     for namaste in namastes:
-        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)$""", namaste.tvalue)
+        m = re.fullmatch(r"""ocfl(_object)?_(\d+\.\d+)""", namaste.tvalue)
         if m:
             return "root" if m.group(1) is None else "object"
     return "unrecognized 0= declaration file or files (first is %s)" % (namastes[0].tvalue)
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 3c4188a..ceca323 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -323,7 +323,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)$""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         if self.spec_version is not None and match.group(1) > self.spec_version:
                             self.traversal_error("E081", path=dirpath, version=match.group(1), root_version=self.spec_version)
-- 
2.43.0


From 78d1a6286ec5e30a141634e454344a45c30b9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:24 +0000
Subject: [PATCH 66/67] fix: inventories are read as UTF-8 whatever the locale

---
 ocfl/object.py    | 2 +-
 ocfl/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4f4eeae..a6deff7 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -864,7 +864,7 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: new Inventory object for the parsed inventory.
         """
         try:
-            with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
+            with self.obj_fs.open(INVENTORY_FILENAME, "r", encoding="utf-8") as fh:
                 data = json.load(fh)
         except (FileNotFoundError, IsADirectoryError, ValueError, RecursionError) as e:
             raise ObjectException("Failed to read root inventory (%s)" % e)
diff --git a/ocfl/validator.py b/ocfl/validator.py
index ae7e3eb..f34ed3e 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -209,7 +209,7 @@ class Validator():
         This method does not look at anything else in the object itself.
         """
         try:
-            with self.obj_fs.open(inv_file, "r") as fh:
+            with self.obj_fs.open(inv_file, "r", encoding="utf-8") as fh:
                 inventory = json.load(fh)
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
-- 
2.43.0


From 21b4352539345749792fa28e67a4e922c751188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:00 +0000
Subject: [PATCH 67/67] fix: use the declared layout even if another was set up
 before

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index ceca323..71e49cf 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -259,6 +259,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # anything set up before may be for another layout
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
-- 
2.43.0

