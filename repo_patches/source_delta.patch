From 064d6a78cb3a2054d2b3ff60be10cfafb1e0c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:52 +0000
Subject: [PATCH 01/48] fix: return write errors from NM and SL entries instead
 of panicking

A failed write of the entry data left the byte count short, which tripped
the length check and panicked before the error could be returned.
---
 pkg/iso9660/rrip/nm.go | 3 +++
 pkg/iso9660/rrip/sl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/iso9660/rrip/nm.go b/pkg/iso9660/rrip/nm.go
index 55a81c0..1f10e6c 100644
--- a/pkg/iso9660/rrip/nm.go
+++ b/pkg/iso9660/rrip/nm.go
@@ -106,6 +106,9 @@ func (nm *Name) WriteTo(w io.Writer) (n int64, err error) {
 
 	m, err = io.WriteString(w, nm.data)
 	n += int64(m)
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..5eeb04a 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -209,6 +209,9 @@ func (sl *Symlink) WriteTo(w io.Writer) (n int64, err error) {
 
 	nn, err = sl.comp.WriteTo(w)
 	n += nn
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
-- 
2.43.0


From 305f530dcc8a609c3292a1020ccd3d3ce9a78d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:52 +0000
Subject: [PATCH 02/48] fix: refuse an ER entry longer than 255 bytes

The three strings were limited one by one but not together, so the length
byte of the entry could wrap around.
---
 pkg/iso9660/susp/er.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/susp/er.go b/pkg/iso9660/susp/er.go
index 9bd6457..2c0afdc 100644
--- a/pkg/iso9660/susp/er.go
+++ b/pkg/iso9660/susp/er.go
@@ -40,7 +40,11 @@ func NewExtensionsReferenceEntry(version byte, identifier string, descriptor str
 	if len(source) > math.MaxUint8 {
 		return nil, errors.New("source too long")
 	}
-	return &ExtensionsReferenceEntry{version, identifier, descriptor, source}, nil
+	er := &ExtensionsReferenceEntry{version, identifier, descriptor, source}
+	if er.Len() > math.MaxUint8 {
+		return nil, errors.New("extensions reference too long")
+	}
+	return er, nil
 }
 
 func (er *ExtensionsReferenceEntry) Len() int {
-- 
2.43.0


From a8bc55be5cc0056f1c6b753687c0e4cbac4ee162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:52 +0000
Subject: [PATCH 03/48] fix: refuse an SL part longer than 248 bytes

A longer part would not fit in the one-byte length of the entry.
---
 pkg/iso9660/rrip/sl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index 5eeb04a..a3c8b35 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -130,6 +130,9 @@ type Symlink struct {
 }
 
 func NewSymlinkPart(flags SymlinkComponentFlag, data string, cont bool) (susp.SystemUseEntry, error) {
+	if len(data) > 248 {
+		return nil, errors.New("symlink component too long")
+	}
 	return &Symlink{
 		comp: SymlinkComponent{
 			flags: flags,
-- 
2.43.0


From 8f04845060301357cac99fb6b46fa5295c061657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:53 +0000
Subject: [PATCH 04/48] fix: decode symlinks that end in ".", ".." or the root

The special components skipped the end-of-target check, so a target such
as ".." or "/" was reported as not being a symlink.
---
 pkg/iso9660/rrip/sl.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index a3c8b35..44f87f9 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -234,23 +234,16 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
 				return strings.Join(parts, string(os.PathSeparator)), true
-- 
2.43.0


From 456f87acc41f6edc21caf6181e4a28ca599e4cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:58 +0000
Subject: [PATCH 05/48] fix: stop listing a directory when reading a record
 fails

---
 pkg/iso9660/walk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..f98da75 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -513,6 +513,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From 348a9a5f4dad13f10cfd82d18d8fe2cd17061a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:58 +0000
Subject: [PATCH 06/48] fix: compute byte offsets beyond 4 GiB without wrapping

---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index f98da75..39cf5db 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -293,9 +293,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
+			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
 				return nil, err
@@ -469,7 +469,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From ec1af50f90abf1758b35431c880f1c8085f2a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:59 +0000
Subject: [PATCH 07/48] fix: cache looked up entries under their full path

---
 pkg/iso9660/walk.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 39cf5db..cf24212 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -181,7 +181,8 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	full := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(full)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -192,13 +193,16 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
 		return cached, nil
 	}
 
-	var path []string
+	path := full[:len(full)-len(parts)]
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
@@ -206,7 +210,7 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
 			if fi.IsDir() {
-				w.lstatCacheAdd(append(path, fi.Name()), fi)
+				w.lstatCacheAdd(append(path[:len(path):len(path)], fi.Name()), fi)
 			}
 
 			if fi.Name() == part {
@@ -231,7 +235,7 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 			return nil, syscall.ENOTDIR
 		}
 
-		path = append(path, part)
+		path = path[:len(path)+1]
 		start = partInfo.Extent()
 		size = partInfo.Size()
 	}
-- 
2.43.0


From bdbae4c528940a805b0c680a25f70b61a1efedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:59 +0000
Subject: [PATCH 08/48] fix: return the error of a walk callback

---
 pkg/iso9660/walk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index cf24212..daf11fa 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -73,9 +73,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 	for q.Len() > 0 {
 		item := q.Dequeue().(*walkItem)
+		var walkErr error
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
-			if err = walkFn(path, fi, nil); err != nil {
+			if walkErr = walkFn(path, fi, nil); walkErr != nil {
 				return false
 			}
 
@@ -87,6 +88,9 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 			return true
 		})
+		if walkErr != nil {
+			err = walkErr
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From ac5c5dfb2a9f1a492683d9d0c3092059fce97547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:00 +0000
Subject: [PATCH 09/48] fix: do not share path slices between directories of a
 walk

---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index daf11fa..b255186 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -82,7 +82,7 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(item.parts[:len(item.parts):len(item.parts)], fi.Name()),
 					fi:    fi,
 				})
 			}
-- 
2.43.0


From 7f3ab41097907615540fdde6247e5791a7f8d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:32 +0000
Subject: [PATCH 10/48] fix: keep . and .. records out of the lookup cache

---
 pkg/iso9660/walk.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index b255186..4a6aba4 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -145,8 +145,10 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 	}
 
 	err = iterDir(w.iso, fi.Extent(), fi.Size(), func(fi *FileInfo) bool {
-		cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
-		w.lstatCache.Add(cacheKey, fi)
+		if !isDot(fi.Name()) {
+			cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
+			w.lstatCache.Add(cacheKey, fi)
+		}
 		entries = append(entries, fi)
 		return true
 	})
@@ -213,7 +215,7 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
-			if fi.IsDir() {
+			if fi.IsDir() && (!isDot(fi.Name()) || len(path) == 0 && fi.Name() == ".") {
 				w.lstatCacheAdd(append(path[:len(path):len(path)], fi.Name()), fi)
 			}
 
@@ -246,6 +248,11 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	panic("never")
 }
 
+// The "." and ".." records describe directories that have a name of their own.
+func isDot(name string) bool {
+	return name == "." || name == ".."
+}
+
 func (w *Walker) lstatCacheAdd(parts []string, fi *FileInfo) {
 	key := filepath.Clean("/" + strings.Join(parts, "/"))
 	w.lstatCache.Add(key, fi)
-- 
2.43.0


From 79a6ae9ad3ea6a2c1fb9b0c07376db3ad995b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:32 +0000
Subject: [PATCH 11/48] fix: resolve absolute symlink targets from the root of
 the image

---
 pkg/iso9660/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 4a6aba4..2523167 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -175,6 +175,9 @@ func (w *Walker) stat(parts []string) (*FileInfo, error) {
 				path = filepath.Dir(path)
 			}
 			joined := filepath.Clean(filepath.Join(path, fi.Target()))
+			if filepath.IsAbs(fi.Target()) {
+				joined = filepath.Clean(fi.Target())
+			}
 			parts = w.pathParts(joined)
 		} else {
 			return fi, nil
-- 
2.43.0


From f853505fc79d4b7c3e275a9274dcb2bcbab4de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:33 +0000
Subject: [PATCH 12/48] fix: follow continuation areas when listing an open
 directory

---
 pkg/iso9660/file.go | 3 ++-
 pkg/iso9660/walk.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/file.go b/pkg/iso9660/file.go
index 5408633..4bdaeb3 100644
--- a/pkg/iso9660/file.go
+++ b/pkg/iso9660/file.go
@@ -23,6 +23,7 @@ import (
 
 type File struct {
 	name string
+	iso  io.ReaderAt
 	fi   *FileInfo
 	r    *io.SectionReader
 	pos  int64
@@ -62,7 +63,7 @@ func (f *File) ReadDir() ([]*FileInfo, error) {
 	}
 
 	var entries []*FileInfo
-	err := iterDir(f.r, 0, f.r.Size(), func(fi *FileInfo) bool {
+	err := iterDir(f.iso, f.fi.Extent(), f.fi.Size(), func(fi *FileInfo) bool {
 		entries = append(entries, fi)
 		return true
 	})
diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 2523167..297d235 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -125,6 +125,7 @@ func (w *Walker) Open(name string) (*File, error) {
 
 	return &File{
 		name: name,
+		iso:  w.iso,
 		fi:   fi,
 		r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),
 	}, nil
-- 
2.43.0


From acac5e792a9771eca623825c37a3627e482d2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:34 +0000
Subject: [PATCH 13/48] fix: give each extent of a file its own system use
 entries

---
 pkg/iso9660/directoryinode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..42b6311 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -285,7 +285,7 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 				Start:      part.Start(),
 				Length:     part.Size(),
 				Recorded:   inode.Modified(),
-				SystemUse:  systemUseEntries,
+				SystemUse:  append([]susp.SystemUseEntry(nil), systemUseEntries...),
 				VolumeID:   1,
 			}
 
-- 
2.43.0


From 17f60f9cf9bd65290810fed09cfc3951142cd602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:35 +0000
Subject: [PATCH 14/48] fix: return errors of file visitors

---
 pkg/iso9660/directoryinode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 42b6311..5e6b289 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,14 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				if err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
-				})
+				}); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 29fcb41873ded115846dfe12113180624ab3035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:35 +0000
Subject: [PATCH 15/48] fix: refuse to allocate sectors beyond the addressable
 range

---
 pkg/iso9660/sectorallocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/sectorallocator.go b/pkg/iso9660/sectorallocator.go
index 2e1cd3d..5ebf4d1 100644
--- a/pkg/iso9660/sectorallocator.go
+++ b/pkg/iso9660/sectorallocator.go
@@ -32,6 +32,9 @@ func NewSectorAllocator() *SectorAllocator {
 func (sa *SectorAllocator) Alloc(numBytes uint32) LogicalBlockAddress {
 	result := sa.next
 	sa.next += LogicalBlockAddress(bytesToSectors(numBytes))
+	if sa.next < result {
+		panic("overflow")
+	}
 	return result
 }
 
-- 
2.43.0


From 802f57ce17998a56259cda6270d13ce52813ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:27 +0000
Subject: [PATCH 16/48] fix: write the sector that belongs to an empty file

---
 pkg/iso9660/volume.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2184966..4efa885 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -394,9 +394,16 @@ func (v *Volume) WriteTo(w io.Writer) (int64, error) {
 			return nil
 		}
 		assertLBA(finode.Start())
-		if _, err := finode.WriteTo(cw); err != nil {
+		n, err := finode.WriteTo(cw)
+		if err != nil {
 			return err
 		}
+		if n == 0 {
+			// an empty file still owns one sector
+			if err := pad(cw, LogicalBlockSize); err != nil {
+				return err
+			}
+		}
 
 		if err := padOutSector(); err != nil {
 			return err
-- 
2.43.0


From d421c4d329f6b1a7213b3260234974eb26ed5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:51 +0000
Subject: [PATCH 17/48] fix: report a file whose content is shorter than its
 size

---
 pkg/iso9660/fileinode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/fileinode.go b/pkg/iso9660/fileinode.go
index a23744f..b13edae 100644
--- a/pkg/iso9660/fileinode.go
+++ b/pkg/iso9660/fileinode.go
@@ -113,7 +113,11 @@ func (f *FileInode) SetStart(start LogicalBlockAddress) {
 
 func (f *FileInode) WriteTo(w io.Writer) (n int64, err error) {
 	sr := io.NewSectionReader(f.o, 0, f.o.Size())
-	return io.Copy(w, sr)
+	n, err = io.Copy(w, sr)
+	if err == nil && n < f.o.Size() {
+		err = io.ErrUnexpectedEOF
+	}
+	return
 }
 
 func (f *FileInode) Object() storage.Object {
-- 
2.43.0


From 3381daeed9a70fd2d3584bbd876f38422e5b4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:18 +0000
Subject: [PATCH 18/48] fix: report a system use entry that is cut short

---
 pkg/iso9660/directoryrecord.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryrecord.go b/pkg/iso9660/directoryrecord.go
index f64a236..f4d0b79 100644
--- a/pkg/iso9660/directoryrecord.go
+++ b/pkg/iso9660/directoryrecord.go
@@ -230,7 +230,7 @@ func DecodeSystemUseEntries(r io.Reader) (entries []susp.SystemUseEntry, err err
 			return
 		}
 
-		body := io.LimitReader(r, int64(entryLen)-3)
+		body := &io.LimitedReader{R: r, N: int64(entryLen) - 3}
 
 		var entry susp.SystemUseEntry
 		switch string([]byte{nible0, nible1}) {
@@ -278,6 +278,11 @@ func DecodeSystemUseEntries(r io.Reader) (entries []susp.SystemUseEntry, err err
 			return
 		}
 
+		if body.N > 0 {
+			err = io.ErrUnexpectedEOF
+			return
+		}
+
 		if discarded > 0 {
 			log.Printf("Ignoring %d bytes of SUSP[type=\"%s\", len=%d] entry.", discarded, string([]byte{nible0, nible1}), entryLen)
 		}
-- 
2.43.0


From 4c9d2115f0736444062a3de11c193d68c2856ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:39 +0000
Subject: [PATCH 19/48] fix: read a concatenation whose last part is empty

A read reaching past the end started at the empty part and found nothing.
---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From a09922933505b4f9b3a803fdb93c8138a87d841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:53 +0000
Subject: [PATCH 20/48] fix: limit a memory object to the size it is opened
 with

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..0596831 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -74,7 +74,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 
 	return &object{
 		url: pathToUrl(path),
-		br:  bytes.NewReader(it.File),
+		br:  bytes.NewReader(data),
 	}, nil
 }
 
-- 
2.43.0


From f7b0c143c1a065132ab1c4c8d9e7b7919d6dda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:53 +0000
Subject: [PATCH 21/48] fix: report end of file for reads past a disk cache
 slice

Such a read crashed when the slice was not cached yet.
---
 pkg/caching/disk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..f05b85b 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -200,6 +200,11 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off >= ds.size {
+		err = io.EOF
+		return
+	}
+
 	for {
 		cobj, cerr := storage.Open(ds.cacheFname())
 		if cerr == nil {
-- 
2.43.0


From cd7fed6c23d0389f629fb5b4086fbba8a93b3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:10 +0000
Subject: [PATCH 22/48] fix: forget a memory cache buffer whose read-ahead
 failed

Later reads of that block reported end of file instead of trying again.
---
 pkg/caching/mem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..bace1d2 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,13 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+
+	if err != nil {
+		// Reset the buffer on error. The next caller will attempt to
+		// fill the buffer.
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From c5ca7e93d82f70be13b1aee830c6d629127801c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:18 +0000
Subject: [PATCH 23/48] fix: name memory objects by a URL that resolves to them

The first path segment was rendered as the host of the URL.
---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 0596831..dfb32f5 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -293,7 +293,7 @@ func urlToPath(url string) (string, error) {
 func pathToUrl(path string) string {
 	var u stdurl.URL
 	u.Scheme = "ram"
-	u.Path = path
+	u.Path = "/" + path
 	return u.String()
 }
 
-- 
2.43.0


From de4a6848333f5024c74abf836a65aa94397a2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:18 +0000
Subject: [PATCH 24/48] fix: refuse to remove the root of the memory store

Removing it made every later operation crash.
---
 pkg/storage/ram/ram.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index dfb32f5..1196841 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -166,6 +166,10 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 		return err
 	}
 
+	if f.Ino == rootIno {
+		return os.NewSyscallError("remove", syscall.EBUSY)
+	}
+
 	f.Parent.Dir.Delete(f.Name)
 	delete(d.inodes, f.Ino)
 	return nil
-- 
2.43.0


From 49ed3df8d9c5eb63911c5505491ae2e478be3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:18 +0000
Subject: [PATCH 25/48] fix: commit data objects under a media type that can be
 opened

---
 pkg/storage/data/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index e87efcc..1e1b1ef 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -35,7 +35,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, driver.CommitOnAbortedObjectWriter
 	}
 
-	durl := dataurl.New(ow.buf.Bytes(), "binary/octet-stream")
+	durl := dataurl.New(ow.buf.Bytes(), "application/octet-stream")
 
 	return driver.NewCommitInfo(durl.String()), nil
 }
-- 
2.43.0


From 6d3387300ad8c947e546cea3d1268dcc71465e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:18 +0000
Subject: [PATCH 26/48] fix: return an error when writing to an aborted data
 object

---
 pkg/storage/data/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index 1e1b1ef..b0f9f53 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -16,6 +16,7 @@ package datadriver
 
 import (
 	"bytes"
+	"os"
 
 	"github.com/vincent-petithory/dataurl"
 
@@ -41,6 +42,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
+	if ow.buf == nil {
+		err = os.ErrClosed
+		return
+	}
 	n, err = ow.buf.Write(p)
 	return
 }
-- 
2.43.0


From aacff6a155ce9bee600ba780bd77b2c5461c7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:28 +0000
Subject: [PATCH 27/48] fix: keep failing after a memory object could not be
 committed

A second commit reported success although nothing was published.
---
 pkg/storage/ram/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/ram/writer.go b/pkg/storage/ram/writer.go
index 151b44a..7225f03 100644
--- a/pkg/storage/ram/writer.go
+++ b/pkg/storage/ram/writer.go
@@ -45,6 +45,7 @@ func (w *writer) Write(b []byte) (int, error) {
 func (w *writer) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&w.state, stateCreating, stateClosed) {
 		if err := w.commit(w.path, w.buf.Bytes()); err != nil {
+			atomic.StoreInt32(&w.state, stateAborted)
 			return nil, err
 		}
 		return driver.NewCommitInfo(w.url), nil
-- 
2.43.0


From ef96b17675fe21aa0aab758be0bd02a6facadc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:53 +0000
Subject: [PATCH 28/48] fix: upload a positioned reader from where it stands

Multipart and single uploads of a seekable reader started at its beginning
while the length was taken from its current position.
---
 pkg/s3util/uploader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 70657da..dc9f976 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -166,6 +166,15 @@ func (u *uploader) initSize() {
 			// during the size calculation. e.g odd number of bytes.
 			u.cfg.PartSize = (u.totalSize / int64(u.cfg.MaxUploadParts)) + 1
 		}
+
+		// Positioned reads have to skip what precedes the input.
+		if _, ok := r.(io.ReaderAt); ok {
+			if u.readerPos, err = r.Seek(0, io.SeekCurrent); err != nil {
+				u.readerPos = 0
+				return
+			}
+			u.totalSize += u.readerPos
+		}
 	}
 }
 
-- 
2.43.0


From 34799d002fc82100fac59828658364a69cca5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:13 +0000
Subject: [PATCH 29/48] fix: report a failure to sign a request that has a body

The error was kept in a variable of the inner block, so the request was sent
without a signature.
---
 pkg/s3util/signer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/s3util/signer.go b/pkg/s3util/signer.go
index d119aae..86541cf 100644
--- a/pkg/s3util/signer.go
+++ b/pkg/s3util/signer.go
@@ -122,9 +122,9 @@ func (s *signer) RoundTrip(req *http.Request) (*http.Response, error) {
 		debugln("Signing request with no body...")
 		_, err = s.v4.Sign(req, nil, "s3", s.region, t)
 	default:
-		d, err := ioutil.ReadAll(req.Body)
-		if err != nil {
-			return nil, err
+		d, readErr := ioutil.ReadAll(req.Body)
+		if readErr != nil {
+			return nil, readErr
 		}
 		req.Body = ioutil.NopCloser(bytes.NewReader(d))
 		debugln("Signing request with body...")
-- 
2.43.0


From fc663d6985a178462632cf2cd90de47eac08c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:13 +0000
Subject: [PATCH 30/48] fix: wait for the upload of an object committed right
 after it is opened

The upload was registered from another goroutine, so a commit could return
before it had started.
---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..b7d929b 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -112,7 +112,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -123,7 +123,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From 3ccafe5e9bd73097e7b12f04b7ec34ec7ab81214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:13 +0000
Subject: [PATCH 31/48] fix: refuse to commit an object whose copy failed

---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index b7d929b..c7fa29e 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -91,6 +91,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From ae618883f626caca121e8731bb6c10554a5706d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:13 +0000
Subject: [PATCH 32/48] fix: do not create an object that was aborted before it
 was written

---
 pkg/storage/s3/writer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index c7fa29e..238db9a 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -34,8 +34,11 @@ const (
 	writerStateOpened int32 = iota
 	writerStatePiped
 	writerStateDirect
+	writerStateAborted
 )
 
+var errAborted = errors.New("abort file creation")
+
 func NewObjectWriter(svc s3iface.S3API, bucket, key, canonicalURL string) driver.ObjectWriter {
 	return &objectWriter{
 		uploader:     s3util.NewS3Uploader(svc),
@@ -100,6 +103,8 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 		return nil
 	} else if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		return fmt.Errorf("can't mix ReadFrom and Write")
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return errAborted
 	}
 	return fmt.Errorf("only one ReadFrom call supported")
 }
@@ -116,6 +121,8 @@ func (ow *objectWriter) Write(b []byte) (int, error) {
 		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return 0, errAborted
 	}
 	return ow.pipeWriter.Write(b)
 }
@@ -131,6 +138,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		ow.wg.Wait()
 	}
 
+	if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return nil, errAborted
+	}
+
 	if ow.err != nil {
 		return nil, ow.err
 	}
@@ -138,9 +149,12 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Abort() {
+	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStateAborted) {
+		return
+	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		// TODO: log error
-		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
+		ow.pipeWriter.CloseWithError(errAborted)
 		ow.wg.Wait()
 	}
 }
-- 
2.43.0


From 7b95c144ef3eb5424eec57456af04fed41a2d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 33/48] fix: store the swift region under its own context key

---
 pkg/storage/http/context.go  | 8 ++++----
 pkg/storage/s3/context.go    | 8 ++++----
 pkg/storage/swift/context.go | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..e5e9b4f 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -25,19 +25,19 @@ var (
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
-	return context.WithValue(ctx, ctxAuthzKey, &authz)
+	return context.WithValue(ctx, &ctxAuthzKey, &authz)
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func AuthzFromCtx(ctx context.Context) (*string, bool) {
-	v, ok := ctx.Value(ctxAuthzKey).(*string)
+	v, ok := ctx.Value(&ctxAuthzKey).(*string)
 	return v, ok
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..f2e408a 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -27,19 +27,19 @@ var (
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
-	return context.WithValue(ctx, ctxCredentialsKey, creds)
+	return context.WithValue(ctx, &ctxCredentialsKey, creds)
 }
 
 func CredentialsFromCtx(ctx context.Context) (*credentials.Credentials, bool) {
-	v, ok := ctx.Value(ctxCredentialsKey).(*credentials.Credentials)
+	v, ok := ctx.Value(&ctxCredentialsKey).(*credentials.Credentials)
 	return v, ok
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..f9f4f4d 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -44,7 +44,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 3e5ad9d2531e5938a99c008b326e2662c44f42ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 34/48] fix: give every context option a key of its own

All the keys were the integer zero, so setting one option hid the others.
---
 pkg/storage/swift/context.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index f9f4f4d..89e23a7 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -26,28 +26,28 @@ var (
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
-	return context.WithValue(ctx, ctxCredentialsKey, creds)
+	return context.WithValue(ctx, &ctxCredentialsKey, creds)
 }
 
 func CredentialsFromCtx(ctx context.Context) (*SwiftCreds, bool) {
-	v, ok := ctx.Value(ctxCredentialsKey).(*SwiftCreds)
+	v, ok := ctx.Value(&ctxCredentialsKey).(*SwiftCreds)
 	return v, ok
 }
 
 func CtxWithTimeout(ctx context.Context, timeout time.Duration) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, &timeout)
+	return context.WithValue(ctx, &ctxTimeoutKey, &timeout)
 }
 
 func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
-	v, ok := ctx.Value(ctxTimeoutKey).(*time.Duration)
+	v, ok := ctx.Value(&ctxTimeoutKey).(*time.Duration)
 	return v, ok
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxRegionKey, region)
+	return context.WithValue(ctx, &ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-	v, ok := ctx.Value(ctxRegionKey).(string)
+	v, ok := ctx.Value(&ctxRegionKey).(string)
 	return v, ok
 }
-- 
2.43.0


From f81d5104b3af86939dfcac03927b22975be4759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 35/48] fix: do not overwrite directories still waiting to be
 visited

In depth-first mode new directories were appended over the batch being handed
to the workers.
---
 pkg/storage/driver/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..fd74cab 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -117,7 +117,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
 			paths = nextPaths[amt:]
-			nextPaths = nextPaths[:amt]
+			nextPaths = nextPaths[:amt:amt]
 		} else {
 			paths = nextPaths
 			nextPaths = make([]string, 0)
-- 
2.43.0


From 1cada4bbd3aa6995ed5ff34b909cbfa643f56c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 36/48] fix: report an error from the last directory visited

When the results ended at the same time as an error or a cancellation arrived,
the visit could return success.
---
 pkg/storage/driver/visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index fd74cab..091eff2 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -163,6 +163,16 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 				return ctx.Err()
 			}
 		}
+
+		// The last worker may have failed just before the results ended.
+		select {
+		case err := <-errors:
+			return err
+		default:
+		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b2604529e9eeba81bb221039c0eb91e17f7a0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 37/48] fix: stop feeding directories when a visit ends early

The feeding goroutine stayed blocked forever once all workers had returned.
---
 pkg/storage/driver/visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index 091eff2..0a2a5ad 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -139,7 +139,10 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		// Feed workers.
 		go func() {
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
-- 
2.43.0


From dbdab3fb41b4d2292e30ae07476b991a23fccc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 38/48] fix: reject inconsistent content ranges with a zero
 total

---
 pkg/httputil/range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/httputil/range.go b/pkg/httputil/range.go
index 0dec697..c567c42 100644
--- a/pkg/httputil/range.go
+++ b/pkg/httputil/range.go
@@ -59,7 +59,7 @@ func GetContentRange(resp *http.Response) (*ContentRange, error) {
 	if err != nil {
 		return nil, fmt.Errorf("invalid Content-Range header %q", cr)
 	}
-	if total > 0 && (first > last || first >= total || last >= total) {
+	if first > last || last >= total {
 		return nil, fmt.Errorf("invalid Content-Range header %q", cr)
 	}
 
-- 
2.43.0


From 014b96e20f8d54705fd9bed130f47de58fd8afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 39/48] fix: return an error for a content range longer than
 any object

The length was converted before the range had been compared with the request,
which panicked on lengths over 2^63.
---
 pkg/storage/http/object.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..7e43b12 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -144,13 +144,13 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
-		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
+	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
+		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
 		return
 	}
 
-	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
-		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
+	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
+		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
 		return
 	}
 
-- 
2.43.0


From 47a05642260292d75c8912d04e7c96c6b4f96d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 40/48] fix: refuse to read an http object at a negative offset

---
 pkg/storage/http/object.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 7e43b12..fb78dc8 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -86,6 +86,11 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
+	if off < 0 {
+		err = fmt.Errorf("http get %q: negative offset %d", o.url, off)
+		return
+	}
+
 	// make sure we've computed the object size
 	o.Size()
 
-- 
2.43.0


From 9c80be66cdefd8c2585e486772a48a1eb2883e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 41/48] fix: make the channel that stops resolving an evicted
 host

Evicting a host closed a nil channel and panicked.
---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..679f16b 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -166,6 +166,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From 7e6559c14c6c508cffca314b6f28882fae08fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 42/48] fix: dial IPv6 addresses with brackets

---
 pkg/httputil/rr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 679f16b..f9aeb0d 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -290,5 +290,5 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
 	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, addr[separator+1:]))
 }
-- 
2.43.0


From f008d7e8bb012662b580d4acc125b821fa552586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:04 +0000
Subject: [PATCH 43/48] fix: give files that share a URL the same table entry

Only the last file added with a URL was found in the table; the others were
recorded with an empty URL.
---
 pkg/vdisc/builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..0929216 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -253,7 +253,8 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		lba, _ := trie.Get(obj.URL())
+		leaf := leaves[lba]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		entry.SetUriSuffix(leaf.Content)
 		entry.SetBlocks(blocks)
-- 
2.43.0


From 8e26d044b050034fb892b18bf683ce03d5f42e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 44/48] fix: name committed files by a URL that resolves to
 them

Paths with percent signs or question marks were returned unescaped.
---
 pkg/storage/file/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/file/writer.go b/pkg/storage/file/writer.go
index 7b57030..4ece322 100644
--- a/pkg/storage/file/writer.go
+++ b/pkg/storage/file/writer.go
@@ -15,6 +15,7 @@
 package filedriver
 
 import (
+	stdurl "net/url"
 	"os"
 
 	"golang.org/x/sys/unix"
@@ -42,7 +43,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, err
 	}
 
-	return driver.NewCommitInfo(ow.path), nil
+	return driver.NewCommitInfo((&stdurl.URL{Path: ow.path}).String()), nil
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
-- 
2.43.0


From 0f52ab5f90a96a0df6d61116abc4abac411cd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 45/48] fix: keep absolute extent URLs as they are

Loading a vdisc by a relative path turned absolute paths of extents into
relative ones, and dot segments in other URLs were removed.
---
 pkg/vdisc/extent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..31252cd 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -70,8 +70,12 @@ func (e *extent) URL() string {
 		panic(err)
 	}
 
+	if u.IsAbs() {
+		return uri
+	}
+
 	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
+	if !strings.HasPrefix(e.baseURL.Path, "/") && !strings.HasPrefix(u.Path, "/") {
 		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
 	}
 
-- 
2.43.0


From 717346d855e9b9ef7ef3753ccef852a4c2225244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 46/48] fix: refuse to release an unknown file handle

Releasing it dereferenced a missing object.
---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..48a1cf3 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return fuse.EINVAL
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From ff7d3ab1a44840060e4d136aac0c8894777733f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:16 +0000
Subject: [PATCH 47/48] fix: send the whole body again when a request is
 retried

---
 pkg/httputil/retry.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..18f70c3 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -15,6 +15,8 @@
 package httputil
 
 import (
+	"bytes"
+	"io/ioutil"
 	"net/http"
 	"time"
 
@@ -67,7 +69,19 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	var body []byte
+	if req.Body != nil {
+		body, err = ioutil.ReadAll(req.Body)
+		req.Body.Close()
+		if err != nil {
+			return
+		}
+	}
+
 	retry(func() (retry bool) {
+		if body != nil {
+			req.Body = ioutil.NopCloser(bytes.NewReader(body))
+		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
-- 
2.43.0


From 044d399bdd7fbadfe192ac6cddae01518eca521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:22 +0000
Subject: [PATCH 48/48] fix: do not take an empty body for the end of an http
 object

---
 pkg/storage/http/object.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index fb78dc8..8628ba1 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -160,6 +160,9 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	n, err = io.ReadFull(resp.Body, p[:resp.ContentLength])
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err == nil && safecast.IntToUint64(n) < contentRange.Len() {
 		err = fmt.Errorf("http get %q: Content-Length=%d, read=%d, %s", o.url, resp.ContentLength, n, io.ErrUnexpectedEOF)
 		return
-- 
2.43.0

