From 7b0abda61ec1167974b29b97074636f2cced403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 01/33] fix: let moves replace stale index rows of the target
 name

---
 pkg/persisters/metadata.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..f37fdc6 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -144,6 +144,25 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	// A row which already exists under the new name (i.e. of a deleted or replaced header) would conflict with the moved one
+	if newName != oldName {
+		if _, err := queries.Raw(
+			fmt.Sprintf(
+				`delete from %v where %v = ? and %v in (select %v from %v where %v = ?);`,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+				models.HeaderColumns.Linkname,
+				models.HeaderColumns.Linkname,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+			),
+			newName,
+			oldName,
+		).ExecContext(ctx, p.sqlite.DB); err != nil {
+			return err
+		}
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
 	n, err := queries.Raw(
 		fmt.Sprintf(
-- 
2.43.0


From b04a8c78589d56ab25511bd97128ef50ef6fdf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 02/33] fix: move the source when renaming onto an existing
 entry

---
 pkg/fs/filesystem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..b8e9355 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -780,10 +780,15 @@ func (f *STFS) Rename(oldname, newname string) error {
 			return os.ErrExist
 		}
 
+		// Renaming an entry to itself is a no-op
+		if target.Name == source.Name && target.Linkname == source.Linkname {
+			return nil
+		}
+
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
 		}
-
+	} else if err != sql.ErrNoRows {
 		return err
 	}
 
-- 
2.43.0


From 996087d65d955b703eb6413fdc78637aa4885853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 03/33] fix: refuse to move a directory into its own subtree

---
 internal/pathext/path.go | 8 ++++++++
 pkg/fs/filesystem.go     | 5 +++++
 pkg/operations/move.go   | 7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/internal/pathext/path.go b/internal/pathext/path.go
index 1e1e8d0..f71e88f 100644
--- a/internal/pathext/path.go
+++ b/internal/pathext/path.go
@@ -9,3 +9,11 @@ func IsRoot(path string, trim bool) bool {
 
 	return path == "" || path == "." || path == "/" || path == "./"
 }
+
+// IsBeneath checks if path is a descendant of dir, no matter if they are spelled as absolute or relative paths
+func IsBeneath(path, dir string) bool {
+	path = strings.TrimPrefix(strings.TrimPrefix(path, "./"), "/")
+	dir = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(dir, "./"), "/"), "/")
+
+	return strings.HasPrefix(path, dir+"/")
+}
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b8e9355..0a9928d 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -752,6 +752,11 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
+	// Prevent moving a directory into its own subtree
+	if source.Typeflag == tar.TypeDir && pathext.IsBeneath(newname, oldname) {
+		return os.ErrInvalid
+	}
+
 	if _, err := inventory.Stat(
 		f.metadata,
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..88488ef 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -4,11 +4,13 @@ import (
 	"archive/tar"
 	"context"
 	"database/sql"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
+	"github.com/pojntfx/stfs/internal/pathext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -68,6 +70,11 @@ func (o *Operations) Move(from string, to string) error {
 		return nil
 	}
 
+	// Prevent moving a directory into its own subtree
+	if dbhdr.Typeflag == tar.TypeDir && pathext.IsBeneath(to, from) {
+		return os.ErrInvalid
+	}
+
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
-- 
2.43.0


From b3bb935a257731127677d2d0727c5795dafa3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 04/33] fix: write delete and move records as PAX regardless of
 the entry's original format

---
 pkg/operations/delete.go | 3 ++-
 pkg/operations/move.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..d2824b3 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -69,7 +69,8 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The entry might come from an archive in a format which doesn't support PAX records
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 88488ef..0123640 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -93,7 +93,8 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The entry might come from an archive in a format which doesn't support PAX records
 		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-- 
2.43.0


From 0a020511761d24b27115920117933e6ca33347d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 05/33] fix: derive the names of moved children from the stored
 name of the moved directory

---
 pkg/operations/move.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 0123640..008c59c 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -95,7 +95,7 @@ func (o *Operations) Move(from string, to string) error {
 
 		hdr.Size = 0               // Don't try to seek after the record
 		hdr.Format = tar.FormatPAX // The entry might come from an archive in a format which doesn't support PAX records
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, headersToMove[0].Name))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-- 
2.43.0


From 84bbd037704dc06c97de2216c295082f7c017bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 06/33] fix: select children by exact name prefix instead of
 wildcard match

---
 pkg/persisters/metadata.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index f37fdc6..089ed92 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -256,8 +256,10 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
+
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix), // Don't use `like`; names can contain wildcards
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -320,9 +322,9 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 		query := fmt.Sprintf(
 			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+    length(substr(%v, length(?) + 1)) - length(replace(substr(%v, length(?) + 1), '/', '')) as depth
 from %v
-where %v like ?
+where substr(%v, 1, length(?)) = ?
     and (
         depth = ?
         or (
@@ -369,7 +371,8 @@ where %v like ?
 				query+`limit ?`,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 				limit+1, // +1 to accomodate the parent directory if it exists
@@ -385,7 +388,8 @@ where %v like ?
 				query,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-- 
2.43.0


From ef6d936a479df1ce5bb0b6c66a5bfb2742503e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 07/33] fix: include all entries in the children of the root,
 however it is spelled

---
 pkg/persisters/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 089ed92..b64ea8c 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -257,6 +257,9 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 	name = p.getSanitizedPath(ctx, name)
 
 	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
+	if pathext.IsRoot(name, false) {
+		prefix = "" // Everything is below the root, however it is spelled
+	}
 
 	headers, err := models.Headers(
 		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix), // Don't use `like`; names can contain wildcards
-- 
2.43.0


From 33d5db050380bfdc51d3fc560df018a73a4eb717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 08/33] fix: create every missing component in MkdirAll

---
 pkg/fs/filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 0a9928d..b0815ea 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -338,12 +339,20 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		return os.ErrPermission
 	}
 
-	path = cleanName(path)
+	path = filepath.ToSlash(cleanName(path))
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
+	parts := []string{}
+	if strings.HasPrefix(path, "/") {
+		parts = append(parts, "/")
+	}
+	for _, part := range strings.Split(path, "/") {
+		if part != "" {
+			parts = append(parts, part)
+		}
+	}
 	currentPath := ""
 
 	for _, part := range parts {
-- 
2.43.0


From c4b807f56eff33ff3aedced2d6d4ac79c55f60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 09/33] fix: refuse to create entries below regular files

---
 pkg/fs/filesystem.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b0815ea..fddd95b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -97,7 +97,7 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
@@ -110,6 +110,8 @@ func (f *STFS) Create(name string) (afero.File, error) {
 		}
 
 		return nil, err
+	} else if parent.Typeflag != tar.TypeDir {
+		return nil, config.ErrIsFile
 	}
 
 	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
@@ -289,7 +291,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
@@ -302,6 +304,8 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	if hdr, err := inventory.Stat(
@@ -475,7 +479,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			createFile := func() error {
 				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
+					if parent, err := inventory.Stat(
 						f.metadata,
 
 						filepath.Dir(name),
@@ -488,6 +492,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 						}
 
 						return err
+					} else if parent.Typeflag != tar.TypeDir {
+						return config.ErrIsFile
 					}
 
 					if target, err := inventory.Stat(
@@ -766,7 +772,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(newname),
@@ -779,6 +785,8 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	target, err := inventory.Stat(
@@ -1174,7 +1182,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(newname),
@@ -1187,6 +1195,8 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	if pathext.IsRoot(rawNewName, false) && pathext.IsRoot(rawOldName, false) {
-- 
2.43.0


From 4db31957d9f07cc1101effd6ad75cb48dffc892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 10/33] fix: honour O_EXCL when opening files

---
 pkg/fs/filesystem.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index fddd95b..7ab244b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -458,6 +458,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -478,7 +479,9 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				created = true
+
+				if !f.readOnly && flag&os.O_CREATE != 0 {
 					if parent, err := inventory.Stat(
 						f.metadata,
 
@@ -583,6 +586,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing entry if a new one was requested
+	if !created && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 8e1f1e44fab2076cdb1261077d6eaeefe26ee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 11/33] fix: tolerate torn tails and arbitrary zero padding
 between archives when reading the tape back

---
 pkg/recovery/index.go | 29 ++++++++++++++++++++++++++---
 pkg/recovery/query.go | 36 +++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..cb612c4 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -95,6 +95,15 @@ func Index(
 							break
 						}
 
+						if err != tar.ErrHeader && err != tar.ErrFieldTooLong && err != io.ErrUnexpectedEOF {
+							return err
+						}
+
+						// Retry at the next block; the failed attempt might have read past the start of a header
+						if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block+1)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
+							return err
+						}
+
 						continue
 					}
 
@@ -103,8 +112,8 @@ func Index(
 			}
 
 			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
+				// Continue after the zero blocks unless they are at the end; this makes it possible to append to a tar file created by i.e. GNU tar
+				if _, err := reader.Drive.Read(make([]byte, 1)); err != nil {
 					if err == io.EOF {
 						// EOF
 						break
@@ -113,6 +122,10 @@ func Index(
 					return err
 				}
 
+				if _, err := reader.Drive.Seek(-1, io.SeekCurrent); err != nil {
+					return err
+				}
+
 				continue
 			}
 
@@ -136,6 +149,11 @@ func Index(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content has been cut off, so no record can follow
+					break
+				}
+
 				return err
 			}
 
@@ -178,7 +196,7 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -219,6 +237,11 @@ func Index(
 			curr = int64(counter.BytesRead)
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content has been cut off, so no record can follow
+					break
+				}
+
 				return err
 			}
 
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..c99bb7f 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -70,10 +70,18 @@ func Query(
 					if err != nil {
 						if err == io.EOF {
 							// EOF
-
 							break
 						}
 
+						if err != tar.ErrHeader && err != tar.ErrFieldTooLong && err != io.ErrUnexpectedEOF {
+							return []*tar.Header{}, err
+						}
+
+						// Retry at the next block; the failed attempt might have read past the start of a header
+						if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block+1)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
+							return []*tar.Header{}, err
+						}
+
 						continue
 					}
 
@@ -82,9 +90,21 @@ func Query(
 			}
 
 			if hdr == nil {
-				// EOF
+				// Continue after the zero blocks unless they are at the end; this makes it possible to append to a tar file created by i.e. GNU tar
+				if _, err := reader.Drive.Read(make([]byte, 1)); err != nil {
+					if err == io.EOF {
+						// EOF
+						break
+					}
+
+					return []*tar.Header{}, err
+				}
 
-				break
+				if _, err := reader.Drive.Seek(-1, io.SeekCurrent); err != nil {
+					return []*tar.Header{}, err
+				}
+
+				continue
 			}
 
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
@@ -112,6 +132,11 @@ func Query(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content has been cut off, so no record can follow
+					break
+				}
+
 				return []*tar.Header{}, err
 			}
 
@@ -195,6 +220,11 @@ func Query(
 			headers = append(headers, hdr)
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content has been cut off, so no record can follow
+					break
+				}
+
 				return []*tar.Header{}, err
 			}
 
-- 
2.43.0


From 75b74e9f3c6adf5c810028b1a41d5cd50c83eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 12/33] fix: free the drive when opening or closing it fails

---
 pkg/fs/filesystem.go | 8 ++++----
 pkg/tape/manager.go  | 8 ++++++--
 pkg/tape/write.go    | 6 ++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7ab244b..dc4d365 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -217,10 +217,6 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
 	if err == config.ErrNoRootDirectory {
 		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
-
 			if f.readOnly {
 				return "", os.ErrPermission
 			}
@@ -260,6 +256,10 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 
 			f.onHeader,
 		); err != nil {
+			if err := f.readOps.GetBackend().CloseReader(); err != nil {
+				return "", err
+			}
+
 			return mkdirRoot()
 		}
 
diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..72b8048 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -55,6 +55,8 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
@@ -78,14 +80,14 @@ func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
 }
 
 func (m *TapeManager) Close() error {
+	defer m.physicalLock.Unlock()
+
 	if m.closer != nil {
 		if err := m.closer(); err != nil {
 			return err
 		}
 	}
 
-	m.physicalLock.Unlock()
-
 	return nil
 }
 
@@ -106,6 +108,8 @@ func (m *TapeManager) openOrReuseReader() error {
 
 		r, rr, err := OpenTapeReadOnly(m.drive)
 		if err != nil {
+			m.physicalLock.Unlock()
+
 			return err
 		}
 
diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..d856543 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -32,6 +32,8 @@ func OpenTapeWriteOnly(
 
 			// Clear the file's content
 			if err := f.Truncate(0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -46,6 +48,8 @@ func OpenTapeWriteOnly(
 
 			// Seek to the start of the tape
 			if err := mt.SeekToRecordOnTape(f.Fd(), 0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -71,6 +75,8 @@ func OpenTapeWriteOnly(
 		if !overwrite {
 			// Go to end of tape
 			if err := mt.GoToEndOfTape(f.Fd()); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 2d8a02e7c55a7e174509c7e91e0159c517d52879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 13/33] fix: don't append a new root to existing regular files
 which can't be indexed

---
 pkg/fs/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index dc4d365..f964d80 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -260,6 +260,11 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 				return "", err
 			}
 
+			// Positioning on a blank tape fails, but regular files which can't be indexed (i.e. due to a wrong key) must not be appended to
+			if reader.DriveIsRegular {
+				return "", err
+			}
+
 			return mkdirRoot()
 		}
 
-- 
2.43.0


From b2c2a633af0721f58a1cac0c03d8ca2c8938413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 14/33] fix: report failed restores to the reader instead of
 panicking

---
 pkg/fs/file.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..36de992 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -328,7 +328,7 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		}
 
 		go func() {
-			if err := f.readOps.Restore(
+			err := f.readOps.Restore(
 				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
 					return writer, nil
 				},
@@ -340,14 +340,10 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 				f.path,
 				"",
 				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+			)
 
-				// TODO: Handle error
-				panic(err)
-			}
+			// Unblock the reader: With the error, or with EOF if there is none
+			_ = writer.CloseWithError(err)
 		}()
 
 		f.readOpReader = reader
@@ -517,7 +513,7 @@ func (f *File) Read(p []byte) (n int, err error) {
 		}
 
 		go func() {
-			if err := f.readOps.Restore(
+			err := f.readOps.Restore(
 				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
 					return writer, nil
 				},
@@ -529,14 +525,10 @@ func (f *File) Read(p []byte) (n int, err error) {
 				f.path,
 				"",
 				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+			)
 
-				// TODO: Handle error
-				panic(err)
-			}
+			// Unblock the reader: With the error, or with EOF if there is none
+			_ = writer.CloseWithError(err)
 		}()
 
 		f.readOpReader = reader
-- 
2.43.0


From 2cc3f5dc4ea288c204684f274ed0a233786f23f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 15/33] fix: seek and read files like a byte array with a
 cursor

---
 pkg/fs/file.go | 160 ++++++++++++++++++++++++-------------------------
 1 file changed, 80 insertions(+), 80 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 36de992..3ba1c90 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -50,6 +50,7 @@ type File struct {
 
 	readOpReader *ioext.CounterReadCloser
 	readOpWriter io.WriteCloser
+	readOpOffset int64
 
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
@@ -205,6 +206,7 @@ func (f *File) closeWithoutLocking() error {
 
 	f.readOpReader = nil
 	f.readOpWriter = nil
+	f.readOpOffset = 0
 	f.writeBuf = nil
 
 	return nil
@@ -307,69 +309,21 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		dst = offset
 	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
+		dst = f.readOpOffset + offset
 	case io.SeekEnd:
-		dst = f.info.Size() - offset
+		dst = f.info.Size() + offset
 	default:
 		return -1, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
-
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			)
-
-			// Unblock the reader: With the error, or with EOF if there is none
-			_ = writer.CloseWithError(err)
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	if dst < 0 {
+		return -1, os.ErrInvalid
 	}
 
-	if err != nil {
-		return -1, err
-	}
+	// The reader gets positioned by the next read; seeking behind the end is allowed
+	f.readOpOffset = dst
 
-	return written, nil
+	return dst, nil
 }
 
 // Inventory
@@ -480,29 +434,22 @@ func (f *File) Readdirnames(n int) ([]string, error) {
 }
 
 // Read operations
-func (f *File) Read(p []byte) (n int, err error) {
-	f.log.Trace("File.Read", map[string]interface{}{
+func (f *File) readWithoutLocking(p []byte) (n int, err error) {
+	f.log.Trace("File.readWithoutLocking", map[string]interface{}{
 		"name": f.name,
 		"p":    len(p),
 	})
 
-	if !f.flags.Read {
-		return -1, os.ErrPermission
+	if f.writeBuf != nil {
+		return f.writeBuf.Read(p)
 	}
 
-	if len(p) <= 0 {
-		return 0, nil
-	}
+	if f.readOpReader != nil && f.readOpWriter != nil && f.readOpOffset < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
+		offset := f.readOpOffset
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
+		_ = f.closeWithoutLocking() // Ignore errors here as we don't need the old reader anymore
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
+		f.readOpOffset = offset
 	}
 
 	if f.readOpReader == nil || f.readOpWriter == nil {
@@ -535,17 +482,44 @@ func (f *File) Read(p []byte) (n int, err error) {
 		f.readOpWriter = writer
 	}
 
+	if _, err := io.CopyN(io.Discard, f.readOpReader, f.readOpOffset-int64(f.readOpReader.BytesRead)); err != nil {
+		return 0, err
+	}
+
 	w := &bytes.Buffer{}
 	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
+	n = copy(p, w.Bytes())
+	f.readOpOffset += int64(n)
+	if err == io.EOF && n > 0 {
+		// Report EOF on the next read
+		return n, nil
 	}
 
-	if err != nil {
-		return -1, err
+	return n, err
+}
+
+func (f *File) Read(p []byte) (n int, err error) {
+	f.log.Trace("File.Read", map[string]interface{}{
+		"name": f.name,
+		"p":    len(p),
+	})
+
+	if !f.flags.Read {
+		return 0, os.ErrPermission
+	}
+
+	if len(p) <= 0 {
+		return 0, nil
 	}
 
-	return copy(p, w.Bytes()), nil
+	if f.info.IsDir() {
+		return 0, config.ErrIsDirectory
+	}
+
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
+	return f.readWithoutLocking(p)
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -556,7 +530,7 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -564,14 +538,40 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
+	if off < 0 {
+		return 0, os.ErrInvalid
+	}
+
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
+	curr, err := f.seekWithoutLocking(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	for n < len(p) && err == nil {
+		nn := 0
+		nn, err = f.readWithoutLocking(p[n:])
+		n += nn
+	}
+	if err == io.EOF && n == len(p) {
+		err = nil
+	}
+
+	// Positioned reads don't move the cursor
+	if _, serr := f.seekWithoutLocking(curr, io.SeekStart); err == nil {
+		err = serr
 	}
 
-	return f.Read(p)
+	return n, err
 }
 
 // Read/write operations
-- 
2.43.0


From 03284b2415bbe777ec914a8e97d476df1bf3d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 16/33] fix: overwrite, pad and grow in-memory write buffers
 like files

---
 pkg/cache/write.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..b3c5c9f 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -37,11 +38,41 @@ func (f filebufferWithSize) Sync() error {
 }
 
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if grow := size - int64(f.Buff.Len()); grow > 0 {
+		_, err := f.Buff.Write(make([]byte, grow))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
 }
 
+// Write overwrites the bytes at the cursor and extends the buffer if necessary
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	// Checks if the buffer is closed
+	curr, err := f.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	if end := curr + int64(len(p)); len(p) > 0 && end > int64(f.Buff.Len()) {
+		if err := f.Truncate(end); err != nil {
+			return 0, err
+		}
+	}
+
+	n = copy(f.Bytes(), p)
+	f.Index += int64(n)
+
+	return n, nil
+}
+
 func NewCacheWrite(
 	root string,
 	cacheType string,
-- 
2.43.0


From 1d9fd9079f3df1bc0f6b81f7977fc7a5936663da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 17/33] fix: write, truncate and sync files like a byte array
 with a cursor

---
 internal/ioext/write.go |  10 +++
 pkg/fs/file.go          | 170 +++++++++++++++++++++++-----------------
 pkg/fs/filesystem.go    |  13 ++-
 3 files changed, 118 insertions(+), 75 deletions(-)

diff --git a/internal/ioext/write.go b/internal/ioext/write.go
index 5d2d4ba..ce8c35e 100644
--- a/internal/ioext/write.go
+++ b/internal/ioext/write.go
@@ -11,3 +11,13 @@ func (NopCloser) Close() error { return nil }
 func AddCloseNopToWriter(w io.Writer) NopCloser {
 	return NopCloser{w}
 }
+
+type NopReadSeekCloser struct {
+	io.ReadSeeker
+}
+
+func (NopReadSeekCloser) Close() error { return nil }
+
+func AddCloseNopToReadSeeker(r io.ReadSeeker) NopReadSeekCloser {
+	return NopReadSeekCloser{r}
+}
diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 3ba1c90..6c4536f 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -111,6 +111,12 @@ func (f *File) syncWithoutLocking() error {
 	}
 
 	if f.writeBuf != nil {
+		// Syncing doesn't move the cursor
+		curr, err := f.writeBuf.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+
 		done := false
 		if _, err := f.writeOps.Update(
 			func() (config.FileConfig, error) {
@@ -158,7 +164,8 @@ func (f *File) syncWithoutLocking() error {
 							return nil, err
 						}
 
-						return f.writeBuf, nil
+						// Don't close the buffer here, we want to be able to continue using it!
+						return ioext.AddCloseNopToReadSeeker(f.writeBuf), nil
 					},
 					Info: f.info,
 					Path: f.path,
@@ -171,6 +178,10 @@ func (f *File) syncWithoutLocking() error {
 		); err != nil {
 			return err
 		}
+
+		if _, err := f.writeBuf.Seek(curr, io.SeekStart); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -194,11 +205,14 @@ func (f *File) closeWithoutLocking() error {
 	}
 
 	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
 		if err := f.syncWithoutLocking(); err != nil {
 			return err
 		}
 
+		if err := f.writeBuf.Close(); err != nil {
+			return err
+		}
+
 		if err := f.cleanWriteBuf(); err != nil {
 			return err
 		}
@@ -217,6 +231,9 @@ func (f *File) enterWriteMode() error {
 		"name": f.name,
 	})
 
+	// Continue at the position of the read cursor
+	offset := f.readOpOffset
+
 	if f.readOpReader != nil || f.readOpWriter != nil {
 		if err := f.closeWithoutLocking(); err != nil {
 			return err
@@ -249,40 +266,40 @@ func (f *File) enterWriteMode() error {
 			return err
 		}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
-
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+		if err := func() error {
+			// Read existing file into buffer
+			if exists && !f.flags.Truncate {
+				if err := f.readOps.Restore(
+					func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+						// Don't close the file here, we want to re-use it!
+						return ioext.AddCloseNopToWriter(writeBuf), nil
+					},
+					func(path string, mode fs.FileMode) error {
+						// Not necessary; can't read on a directory
+						return nil
+					},
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
+					f.path,
+					"",
+					true,
+				); err != nil {
+					return err
+				}
 			}
-		}
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
-		}
+			_, err := writeBuf.Seek(offset, io.SeekStart)
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+			return err
+		}(); err != nil {
+			// Don't replace the file with a buffer that has only been loaded partially
+			_ = writeBuf.Close()
+			_ = cleanWriteBuf()
+
+			return err
 		}
+
+		f.writeBuf = writeBuf
+		f.cleanWriteBuf = cleanWriteBuf
 	}
 
 	return nil
@@ -589,6 +606,21 @@ func (f *File) Seek(offset int64, whence int) (int64, error) {
 }
 
 // Write operations
+func (f *File) appendOrWriteWithoutLocking(p []byte) (n int, err error) {
+	f.log.Trace("File.appendOrWriteWithoutLocking", map[string]interface{}{
+		"name": f.name,
+		"p":    len(p),
+	})
+
+	if f.flags.Append {
+		if _, err := f.writeBuf.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
+		}
+	}
+
+	return f.writeBuf.Write(p)
+}
+
 func (f *File) Write(p []byte) (n int, err error) {
 	f.log.Trace("File.Write", map[string]interface{}{
 		"name": f.name,
@@ -596,26 +628,21 @@ func (f *File) Write(p []byte) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
+		return 0, err
 	}
 
-	return n, nil
+	return f.appendOrWriteWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -626,25 +653,41 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
+	}
+
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+		return 0, err
+	}
+
+	curr, err := f.seekWithoutLocking(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
 	}
 
 	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+		return 0, err
 	}
 
-	return f.writeBuf.Write(p)
+	n, err = f.writeBuf.Write(p)
+
+	// Positioned writes don't move the cursor
+	if _, serr := f.seekWithoutLocking(curr, io.SeekStart); err == nil {
+		err = serr
+	}
+
+	return n, err
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -654,21 +697,21 @@ func (f *File) WriteString(s string) (ret int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+		return 0, err
 	}
 
-	return f.writeBuf.Write([]byte(s))
+	return f.appendOrWriteWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -685,6 +728,10 @@ func (f *File) Truncate(size int64) error {
 		return os.ErrPermission
 	}
 
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
@@ -692,30 +739,7 @@ func (f *File) Truncate(size int64) error {
 		return err
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
-	}
-
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
-	if err := f.writeBuf.Truncate(size); err != nil {
-		return err
-	}
-
-	return nil
+	return f.writeBuf.Truncate(size)
 }
 
 // Cleanup operations
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index f964d80..64bc006 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -601,7 +601,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -620,7 +620,16 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	// Truncation happens when opening, even if nothing is written afterwards
+	if flags.Write && flags.Truncate && hdr.Size > 0 {
+		if err := file.enterWriteMode(); err != nil {
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
-- 
2.43.0


From 978cdb56bcfbee3310c4eca0b3b127a40e7810b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 18/33] fix: free the drive when a write operation fails
 part-way

---
 pkg/operations/archive.go | 9 +++++++++
 pkg/operations/delete.go  | 9 +++++++++
 pkg/operations/move.go    | 9 +++++++++
 pkg/operations/update.go  | 9 +++++++++
 4 files changed, 36 insertions(+)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..ee8f936 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -48,6 +48,14 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
+	// Free the drive if the operation fails before the writer gets closed below
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -261,6 +269,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index d2824b3..4790ba9 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -26,6 +26,14 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	// Free the drive if the operation fails before the writer gets closed below
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -108,6 +116,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 008c59c..f0c7e23 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -35,6 +35,14 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	// Free the drive if the operation fails before the writer gets closed below
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -134,6 +142,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..73e8cd5 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -33,6 +33,14 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	// Free the drive if the operation fails before the writer gets closed below
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -279,6 +287,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
-- 
2.43.0


From 332d49fc6e4f7ea334ebbe5fe5af11980d5e55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 19/33] fix: don't crash when indexing without a header
 callback

---
 pkg/operations/archive.go | 12 +++++++-----
 pkg/operations/delete.go  | 12 +++++++-----
 pkg/operations/move.go    | 12 +++++++-----
 pkg/operations/update.go  | 12 +++++++-----
 4 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index ee8f936..099990a 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -307,11 +307,13 @@ func (o *Operations) archive(
 		},
 
 		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: true,
-				Header:  hdr,
-			})
+			if o.onHeader != nil {
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeArchive,
+					Indexed: true,
+					Header:  hdr,
+				})
+			}
 		},
 	)
 }
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 4790ba9..616c472 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -154,11 +154,13 @@ func (o *Operations) Delete(name string) error {
 		},
 
 		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: true,
-				Header:  hdr,
-			})
+			if o.onHeader != nil {
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeDelete,
+					Indexed: true,
+					Header:  hdr,
+				})
+			}
 		},
 	)
 }
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index f0c7e23..bccd711 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -180,11 +180,13 @@ func (o *Operations) Move(from string, to string) error {
 		},
 
 		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: true,
-				Header:  hdr,
-			})
+			if o.onHeader != nil {
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeMove,
+					Indexed: true,
+					Header:  hdr,
+				})
+			}
 		},
 	)
 }
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 73e8cd5..211af7e 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -325,11 +325,13 @@ func (o *Operations) Update(
 		},
 
 		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeUpdate,
-				Indexed: true,
-				Header:  hdr,
-			})
+			if o.onHeader != nil {
+				o.onHeader(&config.HeaderEvent{
+					Type:    config.HeaderEventTypeUpdate,
+					Indexed: true,
+					Header:  hdr,
+				})
+			}
 		},
 	)
 }
-- 
2.43.0


From 6bef559e9d0043fa8bcc1e6844464105c5fd24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 20/33] fix: reject malformed PGP header signatures instead of
 accepting them

---
 pkg/signature/verify.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..0c37ce1 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
 		if !ok {
-			return nil
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From fdb48e6af18a1b5426833dadb87a45494c459293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 21/33] fix: unlock PGP keys with the empty password, too

---
 pkg/keys/identity.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..0a3b3c7 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,21 +43,24 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
+		// Keys can also be locked with an empty password; unlocked keys are left as they are
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
+
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
+
+			for _, subkey := range identity.Subkeys {
+				if subkey.PrivateKey == nil {
 					return nil, config.ErrIdentityUnparsable
 				}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
 					return nil, err
 				}
-
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
-				}
 			}
 		}
 
-- 
2.43.0


From 480e999c111e2b4189aaf26d651f820fcdd9f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 22/33] fix: keep counting positions after the first file when
 querying tapes

---
 pkg/recovery/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index c99bb7f..43351a1 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -190,8 +190,8 @@ func Query(
 					block = 0
 
 					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+					curr = int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
+					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
 					tr = tar.NewReader(counter)
 
 					continue
-- 
2.43.0


From 94e8a3fa1d316c12b1072f97ee6b82395214a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 23/33] fix: restore files without content and close all
 restored files

---
 pkg/recovery/fetch.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..d1832bc 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -99,7 +99,19 @@ func Fetch(
 				return err
 			}
 
-			return nil
+			return dstFile.Close()
+		}
+
+		sig := ""
+		if hdr.PAXRecords != nil {
+			if s, ok := hdr.PAXRecords[records.STFSRecordSignature]; ok {
+				sig = s
+			}
+		}
+
+		// Files without content haven't passed through the pipeline when they were archived
+		if hdr.Size <= 0 && sig == "" {
+			return dstFile.Close()
 		}
 
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
@@ -112,13 +124,6 @@ func Fetch(
 			return err
 		}
 
-		sig := ""
-		if hdr.PAXRecords != nil {
-			if s, ok := hdr.PAXRecords[records.STFSRecordSignature]; ok {
-				sig = s
-			}
-		}
-
 		verifier, verify, err := signature.Verify(decompressor, reader.DriveIsRegular, pipes.Signature, crypto.Recipient, sig)
 		if err != nil {
 			return err
-- 
2.43.0


From 536b11f3a4f7c4e27e68b66273ce72f18e3226f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 24/33] fix: synchronize access to the cached root path

---
 pkg/persisters/metadata.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index b64ea8c..661a21f 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -10,6 +10,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/db/sqlite/migrations/metadata"
@@ -30,13 +31,14 @@ type depth struct {
 type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
+	rootLock          sync.Mutex
 	root              string
 	rootIsEmptyString bool
 }
 
 func NewMetadataPersister(dbPath string) *MetadataPersister {
 	return &MetadataPersister{
-		&ipersisters.SQLite{
+		sqlite: &ipersisters.SQLite{
 			DBPath: dbPath,
 			Migrations: migrate.AssetMigrationSource{
 				Asset:    metadata.Asset,
@@ -44,8 +46,6 @@ func NewMetadataPersister(dbPath string) *MetadataPersister {
 				Dir:      "../../db/sqlite/migrations/metadata",
 			},
 		},
-		"",
-		false,
 	}
 }
 
@@ -54,23 +54,21 @@ func (p *MetadataPersister) Open() error {
 		return err
 	}
 
-	root, err := p.GetRootPath(context.Background())
+	// This also caches the root directory
+	_, err := p.GetRootPath(context.Background())
 
 	// Ignore if root directory can't be found, which can happen i.e. on initial archiving
 	if err == config.ErrNoRootDirectory {
 		return nil
 	}
 
-	if err != nil {
-		return err
-	}
-
-	p.root = root
-
-	return nil
+	return err
 }
 
 func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	// Cache the root directory
 	if p.root != "" {
 		return p.root, nil
@@ -512,6 +510,9 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 		return err
 	}
 
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	p.root = ""
 	p.rootIsEmptyString = false
 
@@ -535,6 +536,9 @@ func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string)
 }
 
 func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	// If root is queried, return actual root
 	if pathext.IsRoot(name, false) || name == p.root {
 		return p.root
-- 
2.43.0


From cb092c6a5d3e2a2380556815160b02eb558ae259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 25/33] fix: check and use the state of files and entries under
 the same lock

---
 pkg/fs/file.go       | 49 ++++++++++++++++++++------------------------
 pkg/fs/filesystem.go | 25 +++-------------------
 2 files changed, 25 insertions(+), 49 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6c4536f..4e52458 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -384,15 +384,14 @@ func (f *File) Stat() (os.FileInfo, error) {
 		f.info.size = size
 	}
 
-	if f.link != "" {
-		info := f.info
+	// Return a copy so that the caller doesn't share the file's state
+	info := *f.info
 
+	if f.link != "" {
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -433,10 +432,6 @@ func (f *File) Readdirnames(n int) ([]string, error) {
 		"n":    n,
 	})
 
-	if !f.info.IsDir() {
-		return []string{}, config.ErrIsFile
-	}
-
 	dirs, err := f.Readdir(n)
 	if err != nil {
 		return []string{}, err
@@ -521,6 +516,9 @@ func (f *File) Read(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
 		return 0, os.ErrPermission
 	}
@@ -533,9 +531,6 @@ func (f *File) Read(p []byte) (n int, err error) {
 		return 0, config.ErrIsDirectory
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	return f.readWithoutLocking(p)
 }
 
@@ -546,6 +541,9 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
 		return 0, os.ErrPermission
 	}
@@ -562,9 +560,6 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		return 0, os.ErrInvalid
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	curr, err := f.seekWithoutLocking(0, io.SeekCurrent)
 	if err != nil {
 		return 0, err
@@ -627,6 +622,9 @@ func (f *File) Write(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return 0, config.ErrIsDirectory
 	}
@@ -635,9 +633,6 @@ func (f *File) Write(p []byte) (n int, err error) {
 		return 0, os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.enterWriteMode(); err != nil {
 		return 0, err
 	}
@@ -652,6 +647,9 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return 0, config.ErrIsDirectory
 	}
@@ -664,9 +662,6 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		return 0, os.ErrInvalid
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.enterWriteMode(); err != nil {
 		return 0, err
 	}
@@ -696,6 +691,9 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		"s":    len(s),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return 0, config.ErrIsDirectory
 	}
@@ -704,9 +702,6 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		return 0, os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.enterWriteMode(); err != nil {
 		return 0, err
 	}
@@ -720,6 +715,9 @@ func (f *File) Truncate(size int64) error {
 		"size": size,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return config.ErrIsDirectory
 	}
@@ -732,9 +730,6 @@ func (f *File) Truncate(size int64) error {
 		return os.ErrInvalid
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if err := f.enterWriteMode(); err != nil {
 		return err
 	}
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 64bc006..5e402bd 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -95,25 +95,6 @@ func (f *STFS) Create(name string) (afero.File, error) {
 		return nil, os.ErrInvalid
 	}
 
-	name = cleanName(name)
-
-	if parent, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
-		}
-
-		return nil, err
-	} else if parent.Typeflag != tar.TypeDir {
-		return nil, config.ErrIsFile
-	}
-
 	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
 }
 
@@ -1188,6 +1169,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1201,9 +1185,6 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if parent, err := inventory.Stat(
 		f.metadata,
 
-- 
2.43.0


From 955b110ae1744c907261c5a92e92ea6fe4a93f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 26/33] fix: deny creating files through OpenFile on read-only
 filesystems

---
 pkg/fs/filesystem.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 5e402bd..49c63eb 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -517,6 +517,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 						return err
 					}
+				} else if f.readOnly && flag&os.O_CREATE != 0 {
+					return os.ErrPermission
 				} else {
 					return os.ErrNotExist
 				}
-- 
2.43.0


From e5f3bd19427715ab105464d1020793fd6cf88493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 27/33] fix: keep the size of an entry when only its metadata
 gets updated

---
 pkg/recovery/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index cb612c4..c37023e 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -356,6 +356,7 @@ func indexHeader(
 					}
 
 					newHdr = h
+					newHdr.Size = oldHdr.Size // The content hasn't been replaced
 
 					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 						return err
-- 
2.43.0


From 3c9f67e14ae5dd082dd0d08d8c86bebda7752a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 28/33] fix: only remove suffixes from the names of records
 which have been suffixed

---
 pkg/recovery/index.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index c37023e..e5b2c91 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -282,7 +282,15 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only the names of records which have passed through the pipeline have been suffixed
+	hasSuffix := ok
+	if action, ok := hdr.PAXRecords[records.STFSRecordAction]; ok && action != records.STFSRecordActionCreate {
+		_, replacesName := hdr.PAXRecords[records.STFSRecordReplacesName]
+
+		hasSuffix = hasSuffix && action == records.STFSRecordActionUpdate && !replacesName && hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue
+	}
+
+	if hasSuffix && hdr.FileInfo().Mode().IsRegular() {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
-- 
2.43.0


From 11ec474688f42d4b521543a19ba2f5381a077e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 29/33] fix: read the target names of links when listing a
 directory

Links in a directory were listed with the root directory's kind, size and
mode, as the query did not select the name which is looked up afterwards.
---
 pkg/persisters/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 661a21f..abb1e8b 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -342,8 +342,8 @@ where substr(%v, 1, length(?)) = ?
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
-- 
2.43.0


From d93fbc4177f210a55d093754c002a8a90f2ebc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 30/33] fix: write files back with the entry's current
 attributes and don't recreate removed ones

---
 pkg/fs/file.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 4e52458..97e00d1 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,6 +1,7 @@
 package fs
 
 import (
+	"archive/tar"
 	"bytes"
 	"database/sql"
 	"io"
@@ -111,6 +112,27 @@ func (f *File) syncWithoutLocking() error {
 	}
 
 	if f.writeBuf != nil {
+		// The entry might have been changed, removed or replaced since it was opened
+		hdr, err := inventory.Stat(
+			f.metadata,
+
+			f.path,
+			false,
+
+			f.onHeader,
+		)
+		if err == nil {
+			if hdr.Typeflag == tar.TypeDir {
+				return nil
+			}
+
+			f.info = NewFileInfoFromTarHeader(hdr, f.log)
+		} else if err != sql.ErrNoRows {
+			return err
+		} else if f.link == "" {
+			return nil
+		}
+
 		// Syncing doesn't move the cursor
 		curr, err := f.writeBuf.Seek(0, io.SeekCurrent)
 		if err != nil {
-- 
2.43.0


From 94abfda8c6ddfa4db9b39323b399a65424ebac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 31/33] fix: refuse to move the root into itself no matter how
 it is spelled

---
 internal/pathext/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pathext/path.go b/internal/pathext/path.go
index f71e88f..ded0bff 100644
--- a/internal/pathext/path.go
+++ b/internal/pathext/path.go
@@ -12,6 +12,10 @@ func IsRoot(path string, trim bool) bool {
 
 // IsBeneath checks if path is a descendant of dir, no matter if they are spelled as absolute or relative paths
 func IsBeneath(path, dir string) bool {
+	if IsRoot(dir, false) {
+		return !IsRoot(path, false)
+	}
+
 	path = strings.TrimPrefix(strings.TrimPrefix(path, "./"), "/")
 	dir = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(dir, "./"), "/"), "/")
 
-- 
2.43.0


From 6ca7c3c8fe015a79688caedd76121c24c01fd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 32/33] fix: keep the owner of a file when it is written back

---
 pkg/fs/file.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 97e00d1..3347175 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -180,6 +180,13 @@ func (f *File) syncWithoutLocking() error {
 					f.log,
 				)
 
+				var info fs.FileInfo = f.info
+				if hdr != nil {
+					// Keep the attributes which only the header can hold, i.e. the owner
+					hdr.Size = size
+					info = hdr.FileInfo()
+				}
+
 				return config.FileConfig{
 					GetFile: func() (io.ReadSeekCloser, error) {
 						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
@@ -189,7 +196,7 @@ func (f *File) syncWithoutLocking() error {
 						// Don't close the buffer here, we want to be able to continue using it!
 						return ioext.AddCloseNopToReadSeeker(f.writeBuf), nil
 					},
-					Info: f.info,
+					Info: info,
 					Path: f.path,
 					Link: f.link,
 				}, nil
-- 
2.43.0


From 1207b764e87aa34a70b16fb956e22690e651fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 33/33] fix: Restore directories to the destination itself, so
 that entries named like them don't collide

---
 pkg/operations/restore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/operations/restore.go b/pkg/operations/restore.go
index 65c8ebd..dd9af3e 100644
--- a/pkg/operations/restore.go
+++ b/pkg/operations/restore.go
@@ -76,7 +76,7 @@ func (o *Operations) Restore(
 			} else {
 				dst = filepath.Join(to, strings.TrimPrefix(dst, from))
 
-				if strings.TrimSuffix(dst, "/") == strings.TrimSuffix(to, "/") {
+				if dbhdr.Typeflag != tar.TypeDir && strings.TrimSuffix(dst, "/") == strings.TrimSuffix(to, "/") {
 					dst = filepath.Join(dst, path.Base(dbhdr.Name)) // Append the name so we don't overwrite
 				}
 			}
-- 
2.43.0

