From 1ba104d3f00064eb761c203eacd6d60ce5326a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 01/45] fix: squash: keep an explicit whiteout when the name
 comes back as a directory

---
 pkg/squash/vfs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..b392fe0 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -159,6 +159,7 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	}
 
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
+	_, wasWhiteout := f.parent.children[".wh."+path.Base(f.name)]
 
 	f.header = hdr
 	f.body = body
@@ -167,21 +168,23 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		// Changing a directory to a non-directory will implicitly whiteout anything in that
 		// directory.
 		f.children = nil
-	} else if wasFile {
+	} else if wasFile || wasWhiteout {
 		// If we previously changed a directory to a non-directory, then changing it back
 		// risks discarding that implicit whiteout, so if we change a file to a directory,
 		// make a potential previous implicit whiteout explicit.  I say "potential" because
 		// without the entire layer stack (which this function explicitly doesn't require),
 		// we can't know if any given file was such a dir-to-non-dir conversion.
+		//
+		// The same goes for an explicit whiteout that gets discarded because of this directory;
+		// except that in that case there may be children that were added since the whiteout
+		// (making this an implicit directory) that need to be kept.
 		whFile, err := f.Get(".wh..wh..opq", true, true)
 		if err != nil {
 			return err
 		}
-		if err := whFile.Set(&tar.Header{
+		whFile.header = &tar.Header{
 			Typeflag: tar.TypeReg,
 			Mode:     0o644,
-		}, nil); err != nil {
-			return err
 		}
 	}
 	if f.parent != nil {
-- 
2.43.0


From 3a1c8054032ee0d66ba827b591caa3e33f6ffd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 02/45] fix: squash: don't insist on the USTAR format for
 rewritten names

---
 pkg/squash/vfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index b392fe0..94351fb 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -214,6 +214,11 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		if hdr.Format == tar.FormatUSTAR {
+			// The name may be longer than it was in the input (trailing "/", resolved
+			// symlinks), don't insist on it fitting in USTAR.
+			hdr.Format = tar.FormatUnknown
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From 133a98c2e7b96a8462ea3b4c461d2ff8afb18507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 03/45] fix: squash: report symlink loops instead of
 overflowing the stack, resolve ".." after following symlinks

---
 pkg/squash/vfs.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 94351fb..ed4938c 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,9 +27,16 @@ type fsfile struct {
 	body   []byte
 }
 
+// maxLinks is the number of symlinks that may be followed when looking up one name (same as Linux).
+const maxLinks = 40
+
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
-	pathname = path.Clean(pathname)
+	return fsLookup(dir, path.Clean(pathname), create, followLinks, new(int))
+}
 
+// fsLookup is like fsGet, but it doesn't clean the pathname first (since "lnk/.." isn't necessarily "."), and
+// it counts the symlinks that have been followed.
+func fsLookup(dir *fsfile, pathname string, create, followLinks bool, links *int) (*fsfile, error) {
 	done := 0 // index of the next byte in pathname to look at
 
 	// handle absolute paths
@@ -47,13 +54,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.lookup(pathname[done:done+slash], create, false, links)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.lookup(pathname[done:], create, followLinks, links)
 	if err != nil {
 		return nil, err
 	}
@@ -61,16 +68,22 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.lookup(child, create, followLinks, new(int))
+}
+
+func (f *fsfile) lookup(child string, create, followLinks bool, links *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
-	case "..":
-		ret = f.parent
-	case ".":
+	case ".", "":
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			var newF *fsfile
+			err := error(ErrLoop)
+			if *links++; *links <= maxLinks {
+				newF, err = fsLookup(f.parent, f.header.Linkname, create, true, links)
+			}
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -80,6 +93,10 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 			f = newF
 		}
+		if child == ".." {
+			ret = f.parent
+			break
+		}
 		// Accessing "foo/bar" implies that "foo" is a directory; if it isn't, then white it
 		// out.
 		if f.header != nil && f.header.Typeflag != tar.TypeDir {
@@ -117,17 +134,15 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	}
 
 	// Resolve symlinks
-	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
+		if *links++; *links > maxLinks {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
 				Path: "/" + ret.name,
 				Err:  ErrLoop,
 			}
 		}
-		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsLookup(ret.parent, ret.header.Linkname, create, false, links)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From ea53d51fcf02ca9429db37ff3f9ba1e63472a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 04/45] fix: squash: resolve hard links when loading, and write
 them after their target

---
 pkg/squash/squash.go | 10 ++++++++++
 pkg/squash/vfs.go    | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/squash.go b/pkg/squash/squash.go
index e169b56..96e0a9c 100644
--- a/pkg/squash/squash.go
+++ b/pkg/squash/squash.go
@@ -38,6 +38,16 @@ func loadLayers(layers []ociv1.Layer, omitContent bool) (*fsfile, error) {
 			if err != nil {
 				return nil, err
 			}
+			if file.Header.Typeflag == tar.TypeLink {
+				target, err := fsGet(root, file.Header.Linkname, false, false)
+				if err == nil && target.header != nil && target.header.Typeflag != tar.TypeDir {
+					if err := vfsFile.Link(file.Header, target); err != nil {
+						return nil, err
+					}
+					continue
+				}
+				// Otherwise, the target must come from a layer that we don't have.
+			}
 			if err := vfsFile.Set(file.Header, file.Body); err != nil {
 				return nil, err
 			}
diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index ed4938c..1ff4b15 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -25,6 +25,13 @@ type fsfile struct {
 	// if header is nil, that implies that this is a directory
 	header *tar.Header
 	body   []byte
+
+	// inode is non-nil if this is one of several hard links to the same file; it is the same for all of them
+	inode *fsinode
+}
+
+type fsinode struct {
+	name string // the name that .WriteTo() has written the file as
 }
 
 // maxLinks is the number of symlinks that may be followed when looking up one name (same as Linux).
@@ -109,6 +116,7 @@ func (f *fsfile) lookup(child string, create, followLinks bool, links *int) (*fs
 			}
 			f.header = nil
 			f.body = nil
+			f.inode = nil
 			whFile, err := f.Get(".wh..wh..opq", true, true)
 			if err != nil {
 				return nil, err
@@ -178,6 +186,7 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 
 	f.header = hdr
 	f.body = body
+	f.inode = nil
 
 	if f.header.Typeflag != tar.TypeDir {
 		// Changing a directory to a non-directory will implicitly whiteout anything in that
@@ -220,6 +229,24 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	return nil
 }
 
+// Link makes f a hard link to target.
+func (f *fsfile) Link(hdr *tar.Header, target *fsfile) error {
+	if f == target {
+		return nil
+	}
+	if target.inode == nil {
+		target.inode = new(fsinode)
+	}
+	inode := target.inode
+	targetHdr := *target.header // shallow copy
+	targetHdr.Name = hdr.Name
+	if err := f.Set(&targetHdr, target.body); err != nil {
+		return err
+	}
+	f.inode = inode
+	return nil
+}
+
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 	name := f.name
 
@@ -234,10 +261,21 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 			// symlinks), don't insist on it fitting in USTAR.
 			hdr.Format = tar.FormatUnknown
 		}
+		body := f.body
+		if f.inode != nil {
+			if f.inode.name == "" {
+				f.inode.name = name
+			} else {
+				hdr.Typeflag = tar.TypeLink
+				hdr.Linkname = f.inode.name
+				hdr.Size = 0
+				body = nil
+			}
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-		if _, err := tarWriter.Write(f.body); err != nil {
+		if _, err := tarWriter.Write(body); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 8a7feddc08412ea0c17d1151c0e03443efead38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 05/45] fix: squash: don't modify the tree when looking up a
 name

---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 1ff4b15..7d3d51c 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -129,7 +129,7 @@ func (f *fsfile) lookup(child string, create, followLinks bool, links *int) (*fs
 			}
 		}
 		// Look up the child
-		if f.children == nil {
+		if create && f.children == nil {
 			f.children = make(map[string]*fsfile)
 		}
 		if _, ok := f.children[child]; create && !ok {
-- 
2.43.0


From 65af7d186a3e67639848ac8916385d6fa52ae96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 06/45] fix: squash: list directories that contain dangling
 symlinks

---
 pkg/squash/vfs_fs.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..718bc6c 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -186,11 +186,10 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 			}
 
 			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
 			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
+			if err != nil { // dangling symlink
+				tgtDirEnt = lnkDirEnt
+			} else if tgt.header != nil {
 				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
 			} else {
 				tgtDirEnt = missingDirEntry(childname)
-- 
2.43.0


From c021971c02e422b3905929664cc542c31f4056df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:28 +0000
Subject: [PATCH 07/45] fix: squash: notice corruption of a compressed layer

---
 pkg/squash/readlayer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index 1971833..f31f557 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -70,5 +70,10 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			lfs.Files = append(lfs.Files, entry)
 		}
 	}
+	// Read everything that comes after the end of the tar archive, so that a checksum of the compressed stream
+	// gets verified.
+	if _, err := io.Copy(io.Discard, layerReader); err != nil {
+		return nil, fmt.Errorf("reading layer contents: %w", err)
+	}
 	return lfs, nil
 }
-- 
2.43.0


From 9bfbb3565de496fee9e646b712c1a027eba513fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 08/45] fix: squash: don't show whiteout markers as files

---
 pkg/squash/vfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 7d3d51c..4e9bed5 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -138,7 +138,9 @@ func (f *fsfile) lookup(child string, create, followLinks bool, links *int) (*fs
 				parent: f,
 			}
 		}
-		ret = f.children[child]
+		if create || !strings.HasPrefix(child, ".wh.") { // markers aren't files
+			ret = f.children[child]
+		}
 	}
 
 	// Resolve symlinks
-- 
2.43.0


From be5ab4a3786a16b9985c2c50a4caddfed1fadf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 09/45] fix: squash: don't look up "file/.."

---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 4e9bed5..399bc1f 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -100,7 +100,7 @@ func (f *fsfile) lookup(child string, create, followLinks bool, links *int) (*fs
 			}
 			f = newF
 		}
-		if child == ".." {
+		if child == ".." && (create || f.header == nil || f.header.Typeflag == tar.TypeDir) {
 			ret = f.parent
 			break
 		}
-- 
2.43.0


From 1b5c0beb693c66a53209eca64f7d652baf63364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:24 +0000
Subject: [PATCH 10/45] fix: bdist: check every file of a wheel against RECORD,
 whatever its mode bits or name

The integrity check skipped entries whose mode bits claim to be a directory
(while the installation goes by the trailing slash), accepted names outside of
the archive root, and checked only the first of several same-named entries
(while the installation uses the last).
---
 .../pypa/bdist/binary_distribution_format.go      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..d8ea1a5 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -817,11 +817,22 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	seen := make(map[string]bool) // name => is it a directory?
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		// Go by the name (as the installation does), not by the mode bits.
+		isDir := strings.HasSuffix(file.Name, "/")
+		name := path.Clean(file.Name)
+		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") || (name == "." && !isDir) {
+			return fmt.Errorf("file name is not inside of the archive: %q", file.Name)
+		}
+		if wasDir, dup := seen[name]; dup && !(wasDir && isDir) {
+			// It'd be ambiguous which of them the entry in RECORD talks about.
+			return fmt.Errorf("duplicate file name: %q", name)
+		}
+		seen[name] = isDir
+		if isDir {
 			continue
 		}
-		name := path.Clean(file.Name)
 		switch name {
 		case path.Join(distInfoDir, "RECORD.jws"):
 			// skip
-- 
2.43.0


From 9900ffffac661275e8183b9cbf97de300b391ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 11/45] fix: bdist: detect files of a wheel that land on the
 same path

Spreading the .data directory modified the map it was iterating over, so which
file survived a collision, whether a nested "X.data" got spread again, and
whether a file used as a directory got noticed depended on map iteration order.
---
 .../pypa/bdist/binary_distribution_format.go  | 39 +++++++++++++++++--
 pkg/python/pypa/bdist/ioutil.go               | 23 ++++++++---
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index d8ea1a5..2202b5e 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -148,7 +148,11 @@ func InstallWheel(
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
-			if _, exists := vfs[dir]; !exists {
+			if parent, exists := vfs[dir]; exists {
+				if !parent.IsDir() {
+					return nil, fmt.Errorf("bdist.InstallWheel: %q: not a directory: %q", filename, dir)
+				}
+			} else {
 				vfs[dir] = &fsutil.InMemFileReference{
 					FileInfo: (&tar.Header{
 						Typeflag: tar.TypeDir,
@@ -287,7 +291,16 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	fullNames := make([]string, 0, len(vfs))
 	for fullName := range vfs {
+		fullNames = append(fullNames, fullName)
+	}
+	sort.Strings(fullNames)
+	moved := make(map[string]fsutil.FileReference)
+	for _, fullName := range fullNames {
+		if fullName == dataDir && !vfs[fullName].IsDir() {
+			return nil, "", fmt.Errorf("spread: not a directory: %q", fullName)
+		}
 		if !strings.HasPrefix(fullName, dataDir+"/") {
 			continue
 		}
@@ -316,11 +329,27 @@ func (wh *wheel) installToVFS(
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
 		newFullName := path.Join(dstDataDir, rest)
-		vfsTypes[newFullName] = key
-		if err := rename(vfs, fullName, newFullName); err != nil {
+		if !vfs[fullName].IsDir() {
+			if rest == "" {
+				return nil, "", fmt.Errorf("spread: not a directory: %q", fullName)
+			}
+			vfsTypes[newFullName] = key
+		}
+		if err := rename(vfs, moved, fullName, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
 		}
 	}
+	//   e. Remove empty ``distribution-1.0.data`` directory.
+	delete(vfs, dataDir)
+	for _, fullName := range fullNames {
+		if _, unmoved := vfs[fullName]; !unmoved {
+			continue
+		}
+		if err := insert(moved, fullName, vfs[fullName]); err != nil {
+			return nil, "", fmt.Errorf("spread: %w", err)
+		}
+	}
+	vfs = moved
 	//   c. If applicable, update scripts starting with ``#!python`` to point
 	//      to the correct interpreter.
 	if err := rewritePython(plat, vfs, vfsTypes); err != nil {
@@ -339,7 +368,9 @@ func (wh *wheel) installToVFS(
 	// create(vfs, path.Join(dstDir, distInfoDir, "RECORD"), TODO(vfs))
 
 	//   e. Remove empty ``distribution-1.0.data`` directory.
-	delete(vfs, path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data"))
+	//
+	//      (already done, above)
+
 	//   f. Compile any installed .py to .pyc. (Uninstallers should be smart
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index dd94628..02e44e0 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -54,8 +54,22 @@ func (f *zipEntry) IsDir() bool                  { return f.header.FileInfo().Is
 func (f *zipEntry) Sys() interface{}             { return f.header.FileInfo().Sys() }
 func (f *zipEntry) Open() (io.ReadCloser, error) { return f.open() }
 
-func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error {
-	ref, ok := vfs[oldpath]
+// insert adds a file to a vfs, refusing to replace an existing file; directories are merged.
+func insert(vfs map[string]fsutil.FileReference, name string, ref fsutil.FileReference) error {
+	if old, exists := vfs[name]; exists && !(old.IsDir() && ref.IsDir()) {
+		return &os.PathError{
+			Op:   "create",
+			Path: name,
+			Err:  os.ErrExist,
+		}
+	}
+	vfs[name] = ref
+	return nil
+}
+
+// rename moves a file from one vfs to another.
+func rename(src, dst map[string]fsutil.FileReference, oldpath, newpath string) error {
+	ref, ok := src[oldpath]
 	if !ok {
 		return &os.LinkError{
 			Op:  "rename",
@@ -69,9 +83,8 @@ func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error
 	if isDir {
 		ref.(*zipEntry).header.Name += "/"
 	}
-	delete(vfs, oldpath)
-	vfs[newpath] = ref
-	return nil
+	delete(src, oldpath)
+	return insert(dst, newpath, ref)
 }
 
 func create(vfs map[string]fsutil.FileReference, mtime time.Time, name string, content *zipEntry) {
-- 
2.43.0


From b7b89600a5cd836797901da8863d42669889f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:56 +0000
Subject: [PATCH 12/45] fix: bdist: normalise the install scheme, skip
 directories when compiling

An install scheme path such as "//usr/bin" sent InstallWheel in to an endless
loop, and "/" produced an entry with an empty name.  A directory named
"something.py" got passed to the compiler as if it were a file.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 ++++-
 pkg/python/pypa/bdist/misc.go                       | 4 ++--
 pkg/python/pypa/entry_points/entry_points.go        | 4 +++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 2202b5e..67544f4 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -145,6 +145,9 @@ func InstallWheel(
 		}
 	}
 
+	// don't include the root directory itself
+	delete(vfs, ".")
+
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
@@ -375,7 +378,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..7ddeaa7 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,8 +27,8 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
-		*pathPtr = clean
+		clean := strings.TrimPrefix(filepath.ToSlash(filepath.Clean(*pathPtr)), "/")
+		*pathPtr = path.Clean(clean) // "" => "."
 	}
 
 	return plat, nil
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..417916f 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 	"text/template"
@@ -55,6 +56,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 		if err := plat.Init(); err != nil {
 			return err
 		}
+		scriptsDir := strings.TrimPrefix(filepath.ToSlash(filepath.Clean(plat.Scheme.Scripts)), "/")
 		configFile, ok := vfs[path.Join(installedDistInfoDir, "entry_points.txt")]
 		if !ok {
 			return nil
@@ -102,7 +104,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join(scriptsDir, key),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From af9ea1a440f1d2e629db2da21f15a87a668c76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:01 +0000
Subject: [PATCH 13/45] fix: entry_points: import the first component of the
 attribute

"from m import a.b" is a syntax error; the script must "import a" and then call
"a.b()".
---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 417916f..c3f821e 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -28,7 +28,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From b3211a36ac79181519fa7cd7a2755fd04d3e413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:46 +0000
Subject: [PATCH 14/45] fix: entry_points: refuse names that are not plain file
 names, process sections in a fixed order

A key such as "../../etc/x" put a script outside of the scripts directory, and
if both sections have the same key it was random which of them won.
---
 pkg/python/pypa/entry_points/entry_points.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index c3f821e..3337e66 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -71,17 +71,18 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		interesting := []struct{ sectionName, shebang string }{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
-			sectionData, ok := configData[sectionName]
-			if !ok {
-				continue
-			}
-			for key, val := range sectionData {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
+			for key, val := range configData[sectionName] {
+				if key == "" || key == "." || key == ".." || strings.ContainsAny(key, "/\x00") {
+					return fmt.Errorf("entry_points.txt: %q: not a valid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From ea76aecdfade93361a2f116fb8a5b0707ee404c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:51 +0000
Subject: [PATCH 15/45] fix: python: keep concurrent compilations apart, and
 inside of their temporary directory

append(cmdline[1:], ...) might share its backing array between concurrent
calls.
---
 pkg/python/py_compile.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..a19f380 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 	"time"
@@ -73,6 +74,10 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 				}
 			}
 
+			if clean := path.Clean(inFile.FullName()); path.IsAbs(clean) ||
+				clean == ".." || strings.HasPrefix(clean, "../") {
+				return fmt.Errorf("invalid filename: %q", inFile.FullName())
+			}
 			tmpfilename := filepath.Join(tmpdir, filepath.FromSlash(inFile.FullName()))
 
 			if err := os.MkdirAll(filepath.Dir(tmpfilename), 0o777); err != nil {
@@ -125,11 +130,13 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		args := append([]string(nil), cmdline[1:]...)
+		args = append(args,
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
-		)...)
+		)
+		cmd := dexec.CommandContext(ctx, exe, args...)
 
 		cmd.Env = append(os.Environ(),
 			"PYTHONHASHSEED=0")
-- 
2.43.0


From e7d3d2c7f85f0b1dc9a053305e80a2d9cc85b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:45 +0000
Subject: [PATCH 16/45] fix: pep440: do not skip the first character of a '<'
 or '>' version

---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From 39c089692cf42142ec8a0733580e4702386a9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:45 +0000
Subject: [PATCH 17/45] fix: pep440: keep the '.*' of prefix clauses in
 SpecifierClause.String

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..5b45605 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	str := opStr + spec.Version.String()
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		str += ".*"
+	}
+	return str
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From a4bc44eeee8c3651424fd4bf19f681ec4b6c13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:09 +0000
Subject: [PATCH 18/45] fix: pep440: '>' must not match post-releases and local
 versions of its version

---
 pkg/python/pep440/02_version_specifiers.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 5b45605..493b22a 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -523,7 +523,21 @@ func matchLT(spec, ver Version) bool {
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	if spec.Cmp(ver) >= 0 {
+		return false
+	}
+	if spec.Post == nil && ver.Post != nil {
+		base := ver.PublicVersion
+		base.Post = nil
+		base.Dev = nil
+		if spec.PublicVersion.Cmp(base) == 0 {
+			return false // a post-release of the specified version
+		}
+	}
+	if len(ver.Local) > 0 && spec.PublicVersion.Cmp(ver.PublicVersion) == 0 {
+		return false // a local version of the specified version
+	}
+	return true
 }
 
 //
-- 
2.43.0


From 9d5c755082abbd2a992adf05865f74427506547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:09 +0000
Subject: [PATCH 19/45] fix: pep440, pep592: prefer the versions that are
 allowed, not the excluded ones

---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 493b22a..2875554 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -644,7 +644,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From d3fbf8fbc3038b0d9967f562644d4b77fd941dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:53 +0000
Subject: [PATCH 20/45] fix: pep592, simple_repo_api: yanking is per file,
 prefer the highest build tag

A version is yanked when all its files are; versions that are equal but
spelled differently are the same version.
---
 pkg/python/pep592/yank.go                     | 33 ++++++++++++-------
 .../pypa/simple_repo_api/pypa_repo_api.go     | 22 ++++++++++---
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 86784c1..cc26461 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -15,26 +15,37 @@ func IsYanked(l pep503.FileLink) bool {
 }
 
 type excludeYanked struct {
-	yankedVersions map[string]struct{}
+	yankedVersions    []pep440.Version
+	availableVersions []pep440.Version
 }
 
+// ExcludeYanked returns an ExclusionBehavior that excludes the versions for which every file in
+// 'links' is yanked.
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
-	ret := excludeYanked{
-		yankedVersions: make(map[string]struct{}),
-	}
+	var ret excludeYanked
 	for _, link := range links {
+		fileInfo, err := bdist.ParseFilename(link.Text)
+		if err != nil {
+			continue
+		}
 		if IsYanked(link) {
-			fileInfo, err := bdist.ParseFilename(link.Text)
-			if err != nil {
-				continue
-			}
-			ret.yankedVersions[fileInfo.Version.String()] = struct{}{}
+			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
+		} else {
+			ret.availableVersions = append(ret.availableVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
-	_, yanked := e.yankedVersions[v.String()]
-	return !yanked
+	return contains(e.availableVersions, v) || !contains(e.yankedVersions, v)
+}
+
+func contains(list []pep440.Version, v pep440.Version) bool {
+	for _, item := range list {
+		if item.Cmp(v) == 0 {
+			return true
+		}
+	}
+	return false
 }
diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..3982ab2 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,7 +47,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
 	for _, link := range links {
@@ -58,7 +57,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
 	}
@@ -71,7 +69,21 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	yankedLinks := []pep503.FileLink(nil)
+	for i, link := range whlLinks {
+		switch {
+		case versions[i].Cmp(*selectedVersion) != 0:
+			continue
+		case pep592.IsYanked(link):
+			yankedLinks = append(yankedLinks, link)
+		default:
+			links = append(links, link)
+		}
+	}
+	if len(links) == 0 {
+		links = yankedLinks
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
@@ -96,10 +108,10 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return &ret, nil
 	}
 	// 3. Finally, tie-break by build tag.
-	sort.Slice(links, func(i, j int) bool {
+	sort.SliceStable(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From 60f13f5d92438d1f62ff19f9dcdf429a08c40b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 21/45] fix: pep440: local version numbers of any size

---
 pkg/python/pep440/01_version_scheme.go | 38 ++++++++++++++++++++++----
 pkg/python/pep440/03_tail.go           |  4 +--
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 4a23f24..c5655df 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -2,6 +2,7 @@ package pep440
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"k8s.io/apimachinery/pkg/util/intstr"
@@ -222,6 +223,26 @@ func (ver LocalVersion) String() string {
 // segments, as long as the shorter local version's segments match the beginning
 // of the longer local version's segments exactly.
 
+// parseLocalSegment parses a (lower-case) segment of a local version label.  Numbers that do not fit
+// in an intstr.IntOrString are represented as strings of digits, without leading zeros.
+func parseLocalSegment(str string) intstr.IntOrString {
+	if strings.Trim(str, "0123456789") != "" {
+		return intstr.FromString(str)
+	}
+	str = strings.TrimLeft(str, "0")
+	if str == "" {
+		str = "0"
+	}
+	if n, err := strconv.ParseInt(str, 10, 32); err == nil {
+		return intstr.FromInt(int(n))
+	}
+	return intstr.FromString(str)
+}
+
+func isNumericSegment(seg *intstr.IntOrString) bool {
+	return seg.Type == intstr.Int || (seg.StrVal != "" && strings.Trim(seg.StrVal, "0123456789") == "")
+}
+
 func cmpLocalSegment(a, b *intstr.IntOrString) int {
 	// handle one or both of them being nil
 	switch {
@@ -233,8 +254,17 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 		return 1
 	}
 	switch {
-	case a.Type == intstr.Int && b.Type == intstr.Int:
-		return int(a.IntVal - b.IntVal)
+	case isNumericSegment(a) && isNumericSegment(b):
+		// Compare as numbers; they have no leading zeros, so the longer one is greater.
+		aStr, bStr := a.String(), b.String()
+		if d := len(aStr) - len(bStr); d != 0 {
+			return d
+		}
+		return strings.Compare(aStr, bStr)
+	case isNumericSegment(a):
+		return 1
+	case isNumericSegment(b):
+		return -1
 	case a.Type == intstr.String && b.Type == intstr.String:
 		switch {
 		case a.StrVal < b.StrVal:
@@ -243,10 +273,6 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 			return 1
 		}
 		return 0
-	case a.Type == intstr.Int && b.Type == intstr.String:
-		return 1
-	case a.Type == intstr.String && b.Type == intstr.Int:
-		return -1
 	default:
 		panic("should not happen: invalid intstr.IntOrString")
 	}
diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..2b97329 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -5,8 +5,6 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
-
-	"k8s.io/apimachinery/pkg/util/intstr"
 )
 
 // Direct references
@@ -715,7 +713,7 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		ver.Local = append(ver.Local, parseLocalSegment(strings.ToLower(part)))
 	}
 
 	return &ver, nil
-- 
2.43.0


From 97f7e9d8e8ba74841281e3a20512e8f54d667b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 22/45] fix: python: keep the serial of pre-release interpreter
 versions

---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From 22a9ed15d0a384528984a2fc95671af1a33808f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:03 +0000
Subject: [PATCH 23/45] fix: pep503: check every checksum of a link

Other parameters in the fragment no longer disable the check, and the
digest may be in either case.
---
 pkg/python/pep503/simple_repo_api.go | 31 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..2fbc32d 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,22 +89,21 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
-			for key, vals := range keyvals {
-				for _, val := range vals {
-					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-					if newHasher == nil {
-						continue
-					}
-					hasher := newHasher()
-					hasher.Write(content)
-					sum := hex.EncodeToString(hasher.Sum(nil))
-					if sum != val {
-						//nolint:lll // error string
-						return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
-							key, val, sum)
-					}
-				}
+		for _, keyval := range strings.Split(u.Fragment, "&") {
+			key, val := keyval, ""
+			if i := strings.Index(keyval, "="); i >= 0 {
+				key, val = keyval[:i], keyval[i+1:]
+			}
+			newHasher := python.HashlibAlgorithmsGuaranteed[key]
+			if newHasher == nil {
+				continue
+			}
+			hasher := newHasher()
+			hasher.Write(content)
+			sum := hex.EncodeToString(hasher.Sum(nil))
+			if !strings.EqualFold(sum, val) {
+				return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
+					key, val, sum)
 			}
 		}
 	}
-- 
2.43.0


From 97adced6fcad09e16fa5748b9b07bb33d438d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:03 +0000
Subject: [PATCH 24/45] fix: pep503: fetch the signature instead of the file
 itself

---
 pkg/python/pep503/simple_repo_api.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 2fbc32d..7f5d850 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -287,14 +287,24 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	u, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	u.Path += ".asc"
+	if u.RawPath != "" {
+		u.RawPath += ".asc"
+	}
+	u.Fragment = "" // it has the checksum of the file, not of the signature
+	u.RawFragment = ""
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, u.String())
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, u.String())
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From 0f2085f066b46466ac89dc556c051687a90c8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:03 +0000
Subject: [PATCH 25/45] fix: pep503: request project pages with a trailing
 slash

All URLs that respond with a HTML5 page must end with a slash, so that
relative links resolve correctly; redirecting to them is optional.
---
 pkg/python/pep503/simple_repo_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 7f5d850..7a92cc5 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -255,7 +255,7 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 	if err != nil {
 		return nil, err
 	}
-	u.Path = path.Join(u.Path, normalize(pkgname))
+	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"
 	rawLinks, err := c.getHTML5Index(ctx, u.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 46ddb7defd118115fd9c4f1e40d86a6e5d17e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 26/45] fix: bdist: refuse file name components that cannot be
 represented

Build tags that are not of the form of digits followed by other text, that do not
fit in an int, and empty components resulted in file names that are
invalid or parse as something else.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 67544f4..0306f26 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -568,7 +568,10 @@ func ParseFilename(filename string) (*FileNameData, error) {
 	ret.Version = *ver
 
 	if buildN := match[reFilename.SubexpIndex("build_n")]; buildN != "" {
-		n, _ := strconv.Atoi(buildN)
+		n, err := strconv.Atoi(buildN)
+		if err != nil {
+			return nil, fmt.Errorf("invalid wheel filename: %q: %w", filename, err)
+		}
 		ret.BuildTag = &BuildTag{
 			Int: n,
 			Str: match[reFilename.SubexpIndex("build_l")],
@@ -657,6 +660,12 @@ func GenerateFilename(data FileNameData) (string, error) {
 	ret.WriteString("-")
 	ret.WriteString(compat)
 	ret.WriteString(".whl")
+	// Verify that none of the components is invalid in some other way.
+	if parsed, err := ParseFilename(ret.String()); err != nil {
+		return "", err
+	} else if parsed.BuildTag.Cmp(data.BuildTag) != 0 || parsed.CompatibilityTag != data.CompatibilityTag {
+		return "", fmt.Errorf("invalid filename components: %q", ret.String())
+	}
 	return ret.String(), nil
 }
 
-- 
2.43.0


From 7e9004b8fff6474fd998846a788870a36d6f8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 27/45] fix: fsutil: ignore all timestamps when comparing
 layers

---
 pkg/fsutil/diff.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..cdfc7c3 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -38,11 +38,28 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+
+	// The precision of the timestamps affects which format is used.
+	b.Format = a.Format
+	a.PAXRecords = withoutTimestamps(a.PAXRecords)
+	b.PAXRecords = withoutTimestamps(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
 
+func withoutTimestamps(records map[string]string) map[string]string {
+	ret := make(map[string]string, len(records))
+	for key, val := range records {
+		switch key {
+		case "mtime", "atime", "ctime":
+		default:
+			ret[key] = val
+		}
+	}
+	return ret
+}
+
 func LayersEqualExceptTimestamps(aLayer, bLayer ociv1.Layer) (equal bool, err error) {
 	maybeSetErr := func(_err error) {
 		if _err != nil && err == nil {
-- 
2.43.0


From f9572dc2612d3829d115555ed8a091f994b13a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:46 +0000
Subject: [PATCH 28/45] fix: fsutil: notice truncated and corrupt layers when
 comparing

---
 pkg/fsutil/diff.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index cdfc7c3..da9b284 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -15,12 +15,12 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 
 	var aBuf, bBuf [chunkSize]byte
 	for {
-		aLen, err := io.ReadFull(a, aBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		aLen, err := readChunk(a, aBuf[:])
+		if err != nil {
 			return false, err
 		}
-		bLen, err := io.ReadFull(b, bBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		bLen, err := readChunk(b, bBuf[:])
+		if err != nil {
 			return false, err
 		}
 		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {
@@ -35,6 +35,20 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
+// readChunk is like io.ReadFull, but reaching the end of the file is not an error; an
+// io.ErrUnexpectedEOF from the reader itself is.
+func readChunk(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var m int
+		m, err = r.Read(buf[n:])
+		n += m
+	}
+	if errors.Is(err, io.EOF) {
+		err = nil
+	}
+	return n, err
+}
+
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
@@ -115,5 +129,13 @@ func LayersEqualExceptTimestamps(aLayer, bLayer ociv1.Layer) (equal bool, err er
 		}
 	}
 
+	// Read the remainder of the streams, to notice if they are truncated or corrupt (for example:
+	// the checksum of a gzip stream is at its very end).
+	for _, reader := range []io.Reader{aIOReader, bIOReader} {
+		if _, err := io.Copy(io.Discard, reader); err != nil {
+			return false, err
+		}
+	}
+
 	return true, nil
 }
-- 
2.43.0


From 02946ff993b0802b9aaa2c75a16d608ceb15b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 29/45] fix: python: correct the values of the Windows file
 attributes

---
 pkg/python/stat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From b8d291c6bfc6ff40e4fe9b94adf574f86c9df063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:24 +0000
Subject: [PATCH 30/45] fix: direct_url: escape the same characters as Python's
 json.dumps

---
 pkg/python/pypa/direct_url/json.go | 45 ++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pkg/python/pypa/direct_url/json.go b/pkg/python/pypa/direct_url/json.go
index cfb50d3..cd4ca1d 100644
--- a/pkg/python/pypa/direct_url/json.go
+++ b/pkg/python/pypa/direct_url/json.go
@@ -4,9 +4,41 @@ import (
 	"bytes"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"io"
+	"unicode/utf16"
 )
 
+// writeString writes a JSON string, escaping exactly the characters that Python's `json.dumps` does:
+// everything that is not printable ASCII, and nothing that is only special to HTML.
+func writeString(dst *bytes.Buffer, str string) {
+	_ = dst.WriteByte('"')
+	for _, r := range str {
+		switch {
+		case r == '"' || r == '\\':
+			_ = dst.WriteByte('\\')
+			_, _ = dst.WriteRune(r)
+		case r == '\b':
+			_, _ = dst.WriteString(`\b`)
+		case r == '\f':
+			_, _ = dst.WriteString(`\f`)
+		case r == '\n':
+			_, _ = dst.WriteString(`\n`)
+		case r == '\r':
+			_, _ = dst.WriteString(`\r`)
+		case r == '\t':
+			_, _ = dst.WriteString(`\t`)
+		case ' ' <= r && r <= '~':
+			_, _ = dst.WriteRune(r)
+		default:
+			for _, unit := range utf16.Encode([]rune{r}) {
+				fmt.Fprintf(dst, `\u%04x`, unit)
+			}
+		}
+	}
+	_ = dst.WriteByte('"')
+}
+
 // jsonDumps is like `json.Marshal`, but mimics the formatting of Python stdlib `json.dumps`.
 func jsonDumps(typedObj interface{}) ([]byte, error) {
 	// First, round-trip through JSON first to discard any type information.
@@ -70,13 +102,16 @@ func jsonDumps(typedObj interface{}) ([]byte, error) {
 				_, _ = dst.WriteString(", ")
 			}
 
-			bs, err := json.Marshal(tok)
-			if err != nil {
-				return nil, err
+			if str, ok := tok.(string); ok {
+				writeString(&dst, str)
+			} else {
+				bs, err := json.Marshal(tok)
+				if err != nil {
+					return nil, err
+				}
+				_, _ = dst.Write(bs)
 			}
 
-			_, _ = dst.Write(bs)
-
 			completeObj()
 		}
 	}
-- 
2.43.0


From 994d7a3c1b40f210c57411b1998825e62a1efc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:46 +0000
Subject: [PATCH 31/45] fix: cliutil: keep wrapping after a word that is longer
 than the line

---
 pkg/cliutil/borrowed_pflag.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/cliutil/borrowed_pflag.go b/pkg/cliutil/borrowed_pflag.go
index c1cbd5e..f7d6123 100644
--- a/pkg/cliutil/borrowed_pflag.go
+++ b/pkg/cliutil/borrowed_pflag.go
@@ -1,4 +1,4 @@
-// This file contains code copied verbatim from pflag.
+// This file contains code copied from pflag.
 //
 // Copyright (c) 2012 Alex Ogier. All rights reserved.
 // Copyright (c) 2009, 2012 The Go Authors. All rights reserved.
@@ -47,7 +47,13 @@ func wrapN(i, slop int, s string) (string, string) {
 
 	w := strings.LastIndexAny(s[:i], " \t\n")
 	if w <= 0 {
-		return s, ""
+		// The first word does not fit; put it on a line by itself, and wrap the remainder.
+		// (pflag does not wrap the remainder.)
+		w = 1 + strings.IndexAny(s[1:], " \t\n")
+		if w <= 0 {
+			return s, ""
+		}
+		return s[:w], s[w+1:]
 	}
 	nlPos := strings.LastIndex(s[:i], "\n")
 	if nlPos > 0 && nlPos < w {
-- 
2.43.0


From 881cd1fb2e35528a5f6cfd3a040b46f83a50af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:04 +0000
Subject: [PATCH 32/45] fix: python: parse INI files like Python's configparser
 does

---
 pkg/python/configparser.go | 48 +++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..61562b9 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,10 +6,15 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
+// defaultSection is the name of the section that has the default values for all other sections.
+const defaultSection = "DEFAULT"
+
 type Config map[string]ConfigSection
 
 type ConfigSection map[string]string
@@ -75,8 +80,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		// strip comments and whitespace
 		commentStart := len(line)
 		for _, commentPrefix := range p.InlineCommentPrefixes {
-			index := strings.Index(line, commentPrefix)
-			if index > 0 && index < commentStart {
+			if index := indexInlineComment(line, commentPrefix); index >= 0 && index < commentStart {
 				commentStart = index
 			}
 		}
@@ -96,7 +100,8 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line ends the value
+				curIndentLevel = math.MaxInt32
 			}
 			continue
 		}
@@ -104,7 +109,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		lineIndentLevel := 0
 		for i, r := range line {
 			if !unicode.IsSpace(r) {
-				lineIndentLevel = i
+				lineIndentLevel = utf8.RuneCountInString(line[:i])
 				break
 			}
 		}
@@ -112,14 +117,14 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
 			// continuation line
 			curVal = append(curVal, value)
-		case strings.HasPrefix(value, "[") && strings.HasSuffix(value, "]"):
+		case strings.HasPrefix(value, "[") && strings.LastIndex(value, "]") > 1:
 			// section header
 			flushKV()
 			curIndentLevel = lineIndentLevel
-			sectName := strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
+			sectName := value[1:strings.LastIndex(value, "]")]
 			if _, exists := config[sectName]; !exists {
 				config[sectName] = make(ConfigSection)
-			} else if p.Strict {
+			} else if p.Strict && sectName != defaultSection {
 				return nil, fmt.Errorf("line %d: duplicate section name %q", lineno, sectName)
 			}
 			curSection = config[sectName]
@@ -140,7 +145,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					}
 				}
 			}
-			if sepPos == len(value) {
+			if sepPos == len(value) || sepPos == 0 {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
 			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
@@ -154,6 +159,16 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	}
 	flushKV()
 
+	// values of the default section apply to all other sections
+	for key, val := range config[defaultSection] {
+		for sect := range config {
+			if _, exists := config[sect][key]; !exists {
+				config[sect][key] = val
+			}
+		}
+	}
+	delete(config, defaultSection)
+
 	for sect := range config {
 		for key, val := range config[sect] {
 			var err error
@@ -167,6 +182,23 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 	return config, nil
 }
 
+// indexInlineComment returns the index of the first instance of commentPrefix that starts an inline
+// comment; that is: one that is at the beginning of the line or that is preceded by whitespace.  It
+// returns -1 if there is no such instance.
+func indexInlineComment(line, commentPrefix string) int {
+	for start := 0; ; {
+		index := strings.Index(line[start:], commentPrefix)
+		if index < 0 {
+			return -1
+		}
+		index += start
+		if prev, _ := utf8.DecodeLastRuneInString(line[:index]); index == 0 || unicode.IsSpace(prev) {
+			return index
+		}
+		start = index + 1
+	}
+}
+
 func NoInterpolation(_ Config, val string) (string, error) {
 	return val, nil
 }
-- 
2.43.0


From 51f7c5743c5853e680870506a8d35b0570e4a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 33/45] fix: dir: apply the requested ownership to the layer

---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From 5725c690d376413f1b912ba6500d00f31d4b4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 34/45] fix: dir: hard links have no content

---
 pkg/dir/dir.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..5629476 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -104,6 +104,7 @@ func LayerFromDir(
 			if os.SameFile(entry.Info, info) {
 				header.Typeflag = tar.TypeLink
 				header.Linkname = entry.Name
+				header.Size = 0 // a link has no content of its own
 				break
 			}
 		}
-- 
2.43.0


From b095015c8bf7d2af6aa32e3c9bcf47e4ef265bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 35/45] fix: dir: don't loop forever on an absolute prefix

---
 pkg/dir/dir.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 5629476..24eb3e0 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -48,12 +48,15 @@ func LayerFromDir(
 
 	var log []logEntry
 
+	prefixDir := "."
 	if prefix != nil {
+		// Normalize it to be relative to "/", and not escape it.
+		prefixDir = path.Join(".", path.Clean("/"+prefix.DirName)[1:])
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
 		var dirs []string
-		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
+		for dir := prefixDir; dir != "."; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
 		}
 		for i := len(dirs) - 1; i >= 0; i-- {
@@ -85,9 +88,7 @@ func LayerFromDir(
 		if name == "." {
 			return nil
 		}
-		if prefix != nil {
-			name = path.Join(prefix.DirName, name)
-		}
+		name = path.Join(prefixDir, name)
 		defer func() {
 			log = append(log, logEntry{
 				Name: name,
-- 
2.43.0


From 3058b065b3668e289dd2f2633d63d1418a080935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 36/45] fix: dir: follow a symlink to a directory, and refuse
 things that are not a directory

---
 pkg/dir/dir.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 24eb3e0..8af43ea 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -51,7 +52,7 @@ func LayerFromDir(
 	prefixDir := "."
 	if prefix != nil {
 		// Normalize it to be relative to "/", and not escape it.
-		prefixDir = path.Join(".", path.Clean("/"+prefix.DirName)[1:])
+		prefixDir = path.Join(".", path.Clean("/" + prefix.DirName)[1:])
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
@@ -76,7 +77,17 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	// filepath.Walk doesn't follow dirname if it is a symlink, and is happy to "walk" a dirname that
+	// isn't a directory.
+	dirinfo, err := os.Stat(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if !dirinfo.IsDir() {
+		return nil, &fs.PathError{Op: "walk", Path: dirname, Err: syscall.ENOTDIR}
+	}
+
+	err = filepath.Walk(dirname+string(filepath.Separator), func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 44711459d60bc586be92c94617127fcc2be6ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:44 +0000
Subject: [PATCH 37/45] fix: pyinspect: stat unclean paths and the root
 directory of images

---
 pkg/python/pyinspect/fs_image.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..fd8032f 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,10 +100,17 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	fileinfo, err := fs.Stat(sys.imgFS, path.Join(".", path.Clean(name)))
 	if err != nil {
 		return nil, err
 	}
+	if !fileinfo.IsDir() && (strings.HasSuffix(name, "/") || strings.HasSuffix(name, "/.")) {
+		return nil, &fs.PathError{
+			Op:   "stat",
+			Path: name,
+			Err:  squash.ErrNotDir,
+		}
+	}
 	raw := fileinfo.Sys().(*tar.Header) //nolint:forcetypeassert // if not, this is a bug and it should crash
 	return &fileInfo{
 		FileInfo: fileinfo,
-- 
2.43.0


From 911c1315fc7893ded44805221890ceb912729013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:13 +0000
Subject: [PATCH 38/45] fix: image build: notice damaged base images before
 writing the image

---
 cmd_image_build.go | 51 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..dcb66ed 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"fmt"
 	"os"
 	"reflect"
 
@@ -116,6 +117,48 @@ func (flags configFlags) ApplyTo(config *ociv1.Config) {
 	// Healthcheck
 }
 
+// checkLayers reads all layers of an image, and checks that they are what the image's config says they are.
+func checkLayers(img ociv1.Image) error {
+	configFile, err := img.ConfigFile()
+	if err != nil {
+		return err
+	}
+	layers, err := img.Layers()
+	if err != nil {
+		return err
+	}
+	if len(layers) != len(configFile.RootFS.DiffIDs) {
+		return fmt.Errorf("image has %d layers, but its config lists %d",
+			len(layers), len(configFile.RootFS.DiffIDs))
+	}
+	for i, layer := range layers {
+		if err := checkLayer(layer, configFile.RootFS.DiffIDs[i]); err != nil {
+			return fmt.Errorf("layer %d: %w", i, err)
+		}
+	}
+	return nil
+}
+
+func checkLayer(layer ociv1.Layer, want ociv1.Hash) (err error) {
+	reader, err := layer.Uncompressed()
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if _err := reader.Close(); _err != nil && err == nil {
+			err = _err
+		}
+	}()
+	have, _, err := ociv1.SHA256(reader)
+	if err != nil {
+		return err
+	}
+	if have != want {
+		return fmt.Errorf("content has digest %v, but the image's config says %v", have, want)
+	}
+	return nil
+}
+
 func init() {
 	var flags struct {
 		base   string
@@ -159,7 +202,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
@@ -169,6 +215,9 @@ func init() {
 				}
 			}
 
+			if err := checkLayers(img); err != nil {
+				return err
+			}
 			if err := ociv1tarball.Write(tag, img, os.Stdout); err != nil {
 				return err
 			}
-- 
2.43.0


From 380ff69baf736e5f2efac2c218bdae29d5303a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:55 +0000
Subject: [PATCH 39/45] fix: layer wheel: report a missing --platform-file as a
 usage error

---
 cmd_layer_wheel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd_layer_wheel.go b/cmd_layer_wheel.go
index 0d0dfaf..9bcb4db 100644
--- a/cmd_layer_wheel.go
+++ b/cmd_layer_wheel.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"time"
@@ -60,6 +61,13 @@ func init() {
 			"\n" +
 			"LIMITATION: While checksums are verified, signatures are not.",
 		Args: cliutil.WrapPositionalArgs(cobra.ExactArgs(1)),
+		PreRunE: func(flags *cobra.Command, _ []string) error {
+			// Cobra's own check for this doesn't go through FlagErrorFunc.
+			if !flags.Flags().Changed("platform-file") {
+				return cliutil.FlagErrorFunc(flags, errors.New(`required flag(s) "platform-file" not set`))
+			}
+			return nil
+		},
 		RunE: func(flags *cobra.Command, args []string) error {
 			yamlBytes, err := os.ReadFile(platFile)
 			if err != nil {
-- 
2.43.0


From cfe6f2782d531a50e307b4df68e969fa41116de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:24 +0000
Subject: [PATCH 40/45] fix: layer gobuild: replace the --output file
 atomically

---
 cmd_layer_gobuild.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cmd_layer_gobuild.go b/cmd_layer_gobuild.go
index 62bb008..0a6cc14 100644
--- a/cmd_layer_gobuild.go
+++ b/cmd_layer_gobuild.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"os"
 
@@ -59,16 +60,21 @@ func init() {
 					}
 				}
 
-				// Open the file for writing.
-				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {
-					return err
-				}
-				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_WRONLY, 0o666)
-				if err != nil {
-					return err
+				// Write to a temporary file, and have that replace the actual file once it is
+				// complete, so that there's never a partially written layer there.
+				tmpFilename := fmt.Sprintf("%s.%d.tmp", outputFilename, os.Getpid())
+				outputFile, _err := os.OpenFile(tmpFilename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o666)
+				if _err != nil {
+					return _err
 				}
 				defer func() {
 					maybeSetErr(outputFile.Close())
+					if err == nil {
+						err = os.Rename(tmpFilename, outputFilename)
+					}
+					if err != nil {
+						_ = os.Remove(tmpFilename)
+					}
 				}()
 				outputWriter = outputFile
 			}
-- 
2.43.0


From d22c64834ea2ad0fa648e40005610915163cdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:39 +0000
Subject: [PATCH 41/45] fix: python: don't let the umask or the clock show in
 byte-compiled files

---
 pkg/python/py_compile.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index a19f380..0e4762a 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -1,6 +1,7 @@
 package python
 
 import (
+	"archive/tar"
 	"context"
 	"fmt"
 	"io"
@@ -181,8 +182,19 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			if err != nil {
 				return err
 			}
+			// Don't let the umask or the current time show up in the output.
+			header := &tar.Header{
+				Typeflag: tar.TypeReg,
+				Name:     fullname,
+				Mode:     0o644,
+				Size:     int64(len(content)),
+				ModTime:  info.ModTime(),
+			}
+			if !clampTime.IsZero() {
+				header.ModTime = clampTime
+			}
 			ret = append(ret, &fsutil.InMemFileReference{
-				FileInfo:  info,
+				FileInfo:  header.FileInfo(),
 				MFullName: fullname,
 				MContent:  content,
 			})
-- 
2.43.0


From 83e2da1176f3c81fae549194d5ac469f6212ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 42/45] fix: squash: don't share the cached directory listing
 with callers

---
 pkg/squash/vfs_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 718bc6c..2cdc933 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -220,7 +220,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 		ret = nil
 	}
 	f.pos += len(ret)
-	return ret, nil
+	return ret[:len(ret):len(ret)], nil // don't let appending to it reach in to the rest of f.dirents
 }
 
 func (f *fsfileReader) String() string {
-- 
2.43.0


From deb7f2a2cde64035100fa5c6bd9a96b15259ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 43/45] fix: squash: keep the content of GNU sparse files, and
 don't take PAX global headers for files

---
 pkg/squash/readlayer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index f31f557..5f3438e 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -41,6 +41,14 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			}
 			return nil, fmt.Errorf("reading tar: %w", err)
 		}
+		switch header.Typeflag {
+		case tar.TypeXGlobalHeader:
+			// Not a file.
+			continue
+		case tar.TypeGNUSparse:
+			// The reader fills in the holes, and the writer can't write sparse files.
+			header.Typeflag = tar.TypeReg
+		}
 
 		cleanName := path.Clean(header.Name)
 		if strings.HasPrefix(cleanName, "/") || strings.HasPrefix(cleanName, "../") || cleanName == ".." {
-- 
2.43.0


From 6661c23fd3b7e8a2596e8883b694e1a963623c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 44/45] fix: squash: don't keep redundant PAX path records, so
 that squashing is idempotent

---
 pkg/squash/readlayer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index 5f3438e..6fd36c9 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -55,6 +55,10 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			return nil, fmt.Errorf("layer contains file outside of image root: %q", header.Name)
 		}
 		header.Name = cleanName
+		// Let the writer decide whether it needs these records, so that the output doesn't depend on
+		// which name of a file had a redundant one.
+		delete(header.PAXRecords, "path")
+		delete(header.PAXRecords, "linkpath")
 
 		var body []byte
 		if omitContent {
-- 
2.43.0


From fabcaf3f273888ca416ac734637126dc5b9bc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 45/45] fix: wheel: don't take the size of an empty ZIP64
 member for 4 GiB

---
 pkg/python/pypa/bdist/ioutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index 02e44e0..5b45368 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -47,7 +47,7 @@ type zipEntry struct {
 
 func (f *zipEntry) FullName() string             { return path.Clean(f.header.Name) }
 func (f *zipEntry) Name() string                 { return path.Base(f.FullName()) }
-func (f *zipEntry) Size() int64                  { return f.header.FileInfo().Size() }
+func (f *zipEntry) Size() int64                  { return int64(f.header.UncompressedSize64) }
 func (f *zipEntry) Mode() fs.FileMode            { return f.header.FileInfo().Mode() }
 func (f *zipEntry) ModTime() time.Time           { return f.header.FileInfo().ModTime() }
 func (f *zipEntry) IsDir() bool                  { return f.header.FileInfo().IsDir() }
-- 
2.43.0

