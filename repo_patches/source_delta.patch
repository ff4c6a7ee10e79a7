From 8137cb541d45a4e18b7a85fb8d5d2e7b4289499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 01/55] fix: keep a package's deltas listed when another
 release of it is added

Building the updated entry dropped the list of deltas, so their files and
pool references were leaked and they were never offered or removed again.
---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..f9158f7 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -632,6 +632,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From af0ccaa8d881dd7cba9e26116ae6878d162106d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 02/55] fix: copy source indexes the target unless asked to
 skip it

The skipIndex flag was acted on the wrong way round.
---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From 4a04568fdbb75800221a9fbb03bd3592a86daf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 03/55] fix: trim every release of every obsolete package

Only the first release of -dbginfo companions was removed; the packages
actually marked obsolete were kept.
---
 src/ferryd/core/repo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f9158f7..b1a766b 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1180,16 +1180,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(nom) || r.dist.IsObsolete(entry.Name) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From 30d16b7bd70c4f8236b960c654723b8ba894d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 04/55] fix: do not mangle characters split across writes of
 the index

---
 src/ferryd/core/escape.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..f26a8cb 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w    io.Writer
+	rest []byte // incomplete rune at the end of the previous write
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -20,9 +21,17 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 // Write implements [io.Writer].
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+	b = append(e.rest, b...)
+	e.rest = nil
 	escaped := make([]byte, 0, len(b))
 
 	for len(b) > 0 {
+		// Runes may be split across writes, keep the beginning for the next one
+		if !utf8.FullRune(b) {
+			e.rest = b
+			break
+		}
+
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
-- 
2.43.0


From 2d20f2ce71cae4b94597a0e8ca536028471126f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 05/55] fix: keep carriage returns in CDATA text of the index

---
 src/ferryd/core/escape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index f26a8cb..4336a40 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -56,5 +56,5 @@ func (e *EscapedWriter) appendRune(b []byte, r rune) []byte {
 }
 
 func (e *EscapedWriter) mustEscape(r rune) bool {
-	return r > unicode.MaxASCII && unicode.In(r, unicode.Symbol, unicode.C, unicode.Space)
+	return r == '\r' || (r > unicode.MaxASCII && unicode.In(r, unicode.Symbol, unicode.C, unicode.Space))
 }
-- 
2.43.0


From 2455285c2ed5d60317bc33b94733f982fd53f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 06/55] fix: emit xml:lang on distribution descriptions

---
 src/libeopkg/distribution.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 6105bff..9d1ae31 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -28,7 +28,7 @@ type Distribution struct {
 	// Translated description
 	Description []struct {
 		Value string `xml:",cdata"`
-		Lang  string `xml:"lang,attr,omitempty"`
+		Lang  string `xml:"http://www.w3.org/XML/1998/namespace lang,attr,omitempty"`
 	}
 
 	Version    string // Published version number for compatibility
-- 
2.43.0


From a12ff05064c3ec8bfab6bcce03ff41152062840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 07/55] fix: give delta jobs their handler

---
 src/ferryd/jobs/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index 6f36580..b74a466 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -146,6 +146,10 @@ func NewJobHandler(j *JobEntry) (JobHandler, error) {
 		return NewCreateRepoJobHandler(j)
 	case DeleteRepo:
 		return NewDeleteRepoJobHandler(j)
+	case Delta:
+		return NewDeltaJobHandler(j, false)
+	case DeltaIndex:
+		return NewDeltaJobHandler(j, true)
 	case DeltaRepo:
 		return NewDeltaRepoJobHandler(j)
 	case IndexRepo:
-- 
2.43.0


From 22b78177e5a26c99f97fd6f10daca4e030de6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 08/55] fix: iterate only a bucket's own keys

---
 src/libdb/leveldb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..d57a8ee 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,12 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	newKeyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   newKeyPrefix,
+		prefixBytes: util.BytesPrefix(newKeyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From 59469f55df7b2a25e0cf085291dc20f9d52d7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 09/55] fix: answer the status whatever has been queued

---
 src/ferryd/jobs/main.go   |  5 +++++
 src/ferryd/jobs/store.go  | 10 ++++------
 src/ferryd/jobs/worker.go |  1 +
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index b74a466..bcb2f10 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -132,6 +132,11 @@ func (j *JobEntry) GetID() string {
 	return fmt.Sprintf("%v", binary.BigEndian.Uint64(j.id))
 }
 
+// invalidDescription describes a job for which no handler can be made
+func (j *JobEntry) invalidDescription() string {
+	return fmt.Sprintf("Invalid job '%s'", j.Type)
+}
+
 // NewJobHandler will return a handler that is loaded only during the execution
 // of a previously serialised job
 func NewJobHandler(j *JobEntry) (JobHandler, error) {
diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..5772afd 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -358,15 +358,13 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 			}
 
 			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
-			}
-
 			r := &libferry.Job{
-				Description: hnd.Describe(),
+				Description: j.invalidDescription(),
 				Timing:      j.Timing,
 			}
+			if hnd, err := NewJobHandler(j); err == nil {
+				r.Description = hnd.Describe()
+			}
 			*ret = append(*ret, r)
 
 			return nil
diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 5226b33..50ea99c 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -183,6 +183,7 @@ func (w *Worker) processJob(job *JobEntry) {
 	if err != nil {
 		fields["error"] = err
 		job.failure = err
+		job.description = job.invalidDescription()
 		log.WithFields(fields).Error("No known job handler, cannot continue with job")
 		return
 	}
-- 
2.43.0


From 82d8a35d1e2318f58943a3cccb7422a00d9d4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/55] fix: never write through an existing link when placing
 a file

A target that already existed, as after an interrupted run, was truncated
although it could be the very file being copied, or share its data with the
pool and other repositories.
---
 src/ferryd/core/util.go | 56 +++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..3f9ed94 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -28,7 +28,10 @@ import (
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
 
-// CopyFile will copy the file and permissions to the new target
+// CopyFile will copy the file and permissions to the new target.
+//
+// The target is only ever replaced by a complete copy: writing into it would
+// alter every other hard link to the same file.
 func CopyFile(source, dest string) error {
 	var src *os.File
 	var dst *os.File
@@ -38,26 +41,35 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
-		return nil
+		return err
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
 	}
 	defer src.Close()
-	if dst, err = os.OpenFile(dest, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
+	tmp := dest + ".new"
+	// Might be left from an interrupted copy
+	os.Remove(tmp)
+	if dst, err = os.OpenFile(tmp, os.O_EXCL|os.O_CREATE|os.O_WRONLY, st.Mode()); err != nil {
 		return err
 	}
 	// Copy the files
-	if _, err = io.Copy(dst, src); err != nil {
-		dst.Close()
+	_, err = io.Copy(dst, src)
+	if cerr := dst.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		os.Remove(tmp)
 		return err
 	}
-	dst.Close()
 	// If it fails, meh.
-	os.Chtimes(dest, st.ModTime(), st.ModTime())
-	os.Chown(dest, os.Getuid(), os.Getgid())
-	os.Chmod(dest, 00644)
-	return nil
+	os.Chtimes(tmp, st.ModTime(), st.ModTime())
+	os.Chown(tmp, os.Getuid(), os.Getgid())
+	os.Chmod(tmp, 00644)
+	if err = os.Rename(tmp, dest); err != nil {
+		os.Remove(tmp)
+	}
+	return err
 }
 
 // LinkOrCopyFile is a helper which will initially try to hard link,
@@ -67,12 +79,34 @@ func LinkOrCopyFile(source, dest string, forceCopy bool) error {
 	if forceCopy {
 		return CopyFile(source, dest)
 	}
-	if os.Link(source, dest) == nil {
+	err := os.Link(source, dest)
+	if err == nil {
 		return nil
 	}
+	if os.IsExist(err) {
+		// Left by an interrupted run, perhaps it's the very same file
+		if sameFile(source, dest) {
+			return nil
+		}
+		tmp := dest + ".new"
+		os.Remove(tmp)
+		if os.Link(source, tmp) == nil {
+			return os.Rename(tmp, dest)
+		}
+	}
 	return CopyFile(source, dest)
 }
 
+// sameFile determines whether both paths lead to the same file on disk
+func sameFile(a, b string) bool {
+	ast, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	bst, err := os.Stat(b)
+	return err == nil && os.SameFile(ast, bst)
+}
+
 // RemovePackageParents will try to remove the leading components of
 // a package file, only if they are empty.
 func RemovePackageParents(path string) error {
-- 
2.43.0


From 93b2dc0749299f6d929ff0d54428d9e5683a33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/55] fix: replace compressed files left by an interrupted
 run

xz and zstd refuse to overwrite, so a repository could not be indexed again
after a crash during indexing.
---
 src/libeopkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index b4d7ec5..16a3aa6 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -57,6 +57,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"xz",
 		"-6",
+		"-f", // may be left from an interrupted run
 		"-T", "8",
 		inputPath,
 	}
@@ -73,6 +74,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 func UnxzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unxz",
+		"-f",
 		"-T", "8",
 		inputPath,
 	}
@@ -92,6 +94,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"zstd",
 		"-3",
+		"-f", // may be left from an interrupted run
 		"-T8",
 		inputPath,
 	}
@@ -108,6 +111,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 func UnzstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unzstd",
+		"-f",
 		"-T8",
 		inputPath,
 	}
-- 
2.43.0


From 931b97ce4277045d9fc5064c842e81f54d664e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 12/55] fix: change a package's records and reference count
 together

Being killed between the separate writes left reference counts which no
longer matched the repositories listing the package, and re-running the
interrupted job counted it twice.
---
 src/ferryd/core/repo.go | 80 ++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index b1a766b..37272da 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -372,17 +372,18 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		return err
 	}
 
-	// Grab the pool reference for this package
-	if err := pool.RefEntry(db, deltaID); err != nil {
-		return err
-	}
-
 	// Ensure the eopkg file is linked inside our own tree
 	if err := LinkOrCopyFile(localPath, targetPath, false); err != nil {
 		return err
 	}
 
-	return r.putEntry(db, entry)
+	// Grab the pool reference for this package along with our own record
+	return db.Update(func(db libdb.Database) error {
+		if err := pool.RefEntry(db, deltaID); err != nil {
+			return err
+		}
+		return r.putEntry(db, entry)
+	})
 }
 
 // AddDelta will first open and read the .delta.eopkg, before passing it back off to AddLocalDelta
@@ -436,18 +437,20 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 		return err
 	}
 
-	// Grab the pool reference for this package
-	if _, err = pool.AddDelta(db, pkg, mapping, false); err != nil {
-		return err
-	}
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package
+		if _, err := pool.AddDelta(db, pkg, mapping, false); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	source := pool.GetPackagePoolPath(pkg)
-	if err = LinkOrCopyFile(source, pkgTarget, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		source := pool.GetPackagePoolPath(pkg)
+		if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, entry)
+		return r.putEntry(db, entry)
+	})
 }
 
 // Internal helper to remove packages
@@ -496,7 +499,17 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 //
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
+//
+// All of the records change together: being interrupted halfway would leave
+// reference counts behind which no longer match what we list.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	return db.Update(func(db libdb.Database) error {
+		return r.unrefPackageInternal(db, pool, pkgID)
+	})
+}
+
+// unrefPackageInternal does the real work of UnrefPackage
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	newHighest := 0
 	var newHighestID string
 
@@ -602,17 +615,18 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 		return err
 	}
 
-	// Grab the pool reference for this package (Always copy)
-	if err = pool.RefEntry(db, pkgID); err != nil {
-		return err
-	}
-
 	// Ensure the eopkg file is linked inside our own tree
 	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
 		return err
 	}
 
-	return r.putEntry(db, repoEntry)
+	// Grab the pool reference for this package along with our own record
+	return db.Update(func(db libdb.Database) error {
+		if err := pool.RefEntry(db, pkgID); err != nil {
+			return err
+		}
+		return r.putEntry(db, repoEntry)
+	})
 }
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
@@ -689,18 +703,20 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 		return err
 	}
 
-	// Grab the pool reference for this package (Always copy)
-	if _, err := pool.AddPackage(db, pkg, false); err != nil {
-		return err
-	}
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package (Always copy)
+		if _, err := pool.AddPackage(db, pkg, false); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	source := pool.GetPackagePoolPath(pkg)
-	if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		source := pool.GetPackagePoolPath(pkg)
+		if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, repoEntry)
+		return r.putEntry(db, repoEntry)
+	})
 }
 
 // AddPackage will attempt to load the local package and then add it to the
-- 
2.43.0


From 1a30bfd61e3d92c0954ad29c64b59a53de903e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 13/55] fix: let an interrupted upload be processed again

The packages an interrupted run had already brought in made the re-run refuse
the upload, leaving it imported halfway and never indexed.
---
 src/ferryd/core/repo.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 37272da..c5d4e9a 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -743,6 +743,13 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 		return r.AddLocalPackage(db, pool, pkg)
 	}
 
+	// An interrupted run of this upload has brought in this very file already
+	for _, id := range localPkg.Available {
+		if id == pkg.ID && sameFile(filename, pool.GetPackagePoolPath(pkg)) {
+			return nil
+		}
+	}
+
 	// We have this package, so Published link must work
 	published, err := pool.GetEntry(db, localPkg.Published)
 	if err != nil {
-- 
2.43.0


From 0e4dce3cecc25eeba04e5f662d664b77afc1558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 14/55] fix: clean up a deleted repository before forgetting it

A crash in between left its directories behind, which nobody removed and
which made creating the repository again impossible.
---
 src/ferryd/core/repo.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c5d4e9a..07bf37f 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -249,7 +249,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
-	err = db.Update(func(db libdb.Database) error {
+	return db.Update(func(db libdb.Database) error {
 		repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
 		rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
 
@@ -281,22 +281,27 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		if err != nil {
 			return err
 		}
+		// Clean up the repo paths while we're still known to exist, nobody
+		// would pick up the remains once the record is gone.
+		if err := repo.removePaths(); err != nil {
+			return err
+		}
 		// Now remove the repository object itself
 		return repoBucket.DeleteObject([]byte(repo.ID))
 	})
+}
 
-	if err != nil {
-		return err
-	}
+// removePaths will clean up all of the paths belonging to the repository
+func (r *Repository) removePaths() error {
+	var failed error
 
 	deletionPaths := []string{
-		repo.path,
-		repo.assetPath,
-		repo.deltaPath,
-		repo.deltaStagePath,
+		r.path,
+		r.assetPath,
+		r.deltaPath,
+		r.deltaStagePath,
 	}
 
-	// Clean up the repo paths.
 	for _, p := range deletionPaths {
 		if !PathExists(p) {
 			continue
@@ -304,14 +309,15 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		// Just continue, warn in the log - do what we can here
 		if err := os.RemoveAll(p); err != nil {
 			log.WithFields(log.Fields{
-				"repo":  id,
+				"repo":  r.ID,
 				"path":  p,
 				"error": err,
 			}).Warning("Failed to remove repository path")
+			failed = err
 		}
 	}
 
-	return nil
+	return failed
 }
 
 // GetEntry will return the package entry for the given ID
-- 
2.43.0


From f2bfd2930db0ad11f64a0853634661c4a81becf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 15/55] fix: accept writes again after one has failed

A single failed write to leveldb's journal, say because the disk was full for
a moment, made every later write fail until the daemon was restarted.
---
 src/libdb/leveldb.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index d57a8ee..05d9ba2 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -21,6 +21,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"sync"
+	"sync/atomic"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -39,6 +40,7 @@ type levelDbHandle struct {
 	db          *leveldb.DB
 	batch       *leveldb.Batch // Usually nil but set for write transactions
 	seqLock     *sync.Mutex    // Must ensure we have atomic view of DB for sequence
+	failed      *int32         // Set once a write failed, shared between all handles
 }
 
 // levelDb is our concrete type
@@ -58,10 +60,29 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.keyPrefix = []byte("|rootBucket|-")
 	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
+	handle.failed = new(int32)
 	handle.initClosable()
 	return handle, nil
 }
 
+// write will commit the batch to the database.
+//
+// The journal of leveldb refuses everything once a single write to it failed,
+// say because the disk was full for a moment. A compaction starts a new one.
+func (l *levelDbHandle) write(batch *leveldb.Batch) error {
+	if atomic.LoadInt32(l.failed) != 0 {
+		if err := l.db.CompactRange(util.Range{}); err != nil {
+			return err
+		}
+		atomic.StoreInt32(l.failed, 0)
+	}
+	err := l.db.Write(batch, nil)
+	if err != nil {
+		atomic.StoreInt32(l.failed, 1)
+	}
+	return err
+}
+
 // Close the existing levelDbHandle
 func (l *levelDb) Close() {
 	if l.close() {
@@ -100,7 +121,9 @@ func (l *levelDbHandle) PutObject(id []byte, inObject interface{}) error {
 		l.batch.Put(l.getRealKey(id), by)
 		return nil
 	}
-	return l.db.Put(l.getRealKey(id), by, nil)
+	batch := &leveldb.Batch{}
+	batch.Put(l.getRealKey(id), by)
+	return l.write(batch)
 }
 
 func (l *levelDbHandle) DeleteObject(id []byte) error {
@@ -112,7 +135,9 @@ func (l *levelDbHandle) DeleteObject(id []byte) error {
 		l.batch.Delete(l.getRealKey(id))
 		return nil
 	}
-	return l.db.Delete(l.getRealKey(id), nil)
+	batch := &leveldb.Batch{}
+	batch.Delete(l.getRealKey(id))
+	return l.write(batch)
 }
 
 func (l *levelDbHandle) Decode(input []byte, o interface{}) error {
@@ -161,6 +186,7 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 		prefixBytes: util.BytesPrefix(newKeyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
+		failed:      l.failed,
 	}
 	return ret
 }
@@ -184,13 +210,14 @@ func (l *levelDbHandle) Update(f WriterFunc) error {
 		prefixBytes: l.prefixBytes,
 		batch:       &leveldb.Batch{},
 		seqLock:     l.seqLock,
+		failed:      l.failed,
 	}
 	err := f(&clone)
 	if err != nil {
 		clone.batch.Reset()
 		return err
 	}
-	return clone.db.Write(clone.batch, nil)
+	return l.write(clone.batch)
 }
 
 // NextSequence will return the next natural key to be used for inserts,
-- 
2.43.0


From 7a81bae096212615cf98a1845761fd88f07dab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 16/55] fix: keep listing what could not be removed

A package whose file failed to be unlinked was dropped from the records with
its file left behind, and any other failure midway through removing a package
with deltas, or a repository, left items listed whose files were gone. Each
item is now removed on its own, and stays when its removal fails.
---
 src/ferryd/core/pool.go |   5 +-
 src/ferryd/core/repo.go | 154 +++++++++++++++++++++++-----------------
 2 files changed, 90 insertions(+), 69 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..d9b2cb6 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -268,11 +268,12 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 
 	// RefCount is 0 so we now need to delete this entry
 	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
-	if err := os.Remove(pkgPath); err != nil {
+	if err := os.Remove(pkgPath); err != nil && !os.IsNotExist(err) {
 		log.WithFields(log.Fields{
 			"path":  pkgPath,
 			"error": err,
-		}).Warning("Failed to remove package")
+		}).Error("Failed to remove package")
+		return err
 	}
 
 	// Warn if unable to delete parents
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 07bf37f..cc2c923 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -249,46 +249,47 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
-	return db.Update(func(db libdb.Database) error {
-		repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
-		rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
+	var entries []*RepoEntry
+	repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
+	rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
+
+	err = rootBucket.ForEach(func(k, v []byte) error {
+		// Grab each repo entry
+		entry := &RepoEntry{}
+		if err := rootBucket.Decode(v, entry); err != nil {
+			return err
+		}
+		entries = append(entries, entry)
+		return nil
+	})
+	if err != nil {
+		return err
+	}
 
-		err := rootBucket.ForEach(func(k, v []byte) error {
-			// Grab each repo entry
-			entry := RepoEntry{}
-			if err := rootBucket.Decode(v, &entry); err != nil {
+	for _, entry := range entries {
+		// First up, find all the deltas to unref
+		for _, id := range append([]string(nil), entry.Deltas...) {
+			if err := repo.unrefDelta(db, pool, entry, id); err != nil {
 				return err
 			}
+		}
 
-			// First up, find all the packages to unref
-			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
-					return err
-				}
+		// Next up, find all the packages to unref, the entry goes with the last
+		for _, id := range entry.Available {
+			if err := repo.UnrefPackage(db, pool, id); err != nil {
+				return err
 			}
+		}
+	}
 
-			// Next up, find all the deltas to unref
-			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
+	// Clean up the repo paths while we're still known to exist, nobody
+	// would pick up the remains once the record is gone.
+	if err := repo.removePaths(); err != nil {
+		return err
+	}
 
-			// Remove all IDs for this package, now we must remove this entry
-			// Note this isn't applied within the foreach.
-			return rootBucket.DeleteObject([]byte(entry.Name))
-		})
-		if err != nil {
-			return err
-		}
-		// Clean up the repo paths while we're still known to exist, nobody
-		// would pick up the remains once the record is gone.
-		if err := repo.removePaths(); err != nil {
-			return err
-		}
-		// Now remove the repository object itself
-		return repoBucket.DeleteObject([]byte(repo.ID))
-	})
+	// Now remove the repository object itself
+	return repoBucket.DeleteObject([]byte(repo.ID))
 }
 
 // removePaths will clean up all of the paths belonging to the repository
@@ -473,12 +474,26 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 	pkgTarget := filepath.Join(pkgDir, poolEntry.Name)
 
 	// If we cant unlink the file it aint getting out of the DB either...
-	if err = os.Remove(pkgTarget); err != nil {
+	if err = os.Remove(pkgTarget); err != nil && !os.IsNotExist(err) {
 		log.WithFields(log.Fields{
 			"repo":  r.ID,
 			"id":    id,
 			"error": err,
-		}).Warning("Failed to remove target for package")
+		}).Error("Failed to remove target for package")
+		return err
+	}
+
+	// Tell the pool we no longer need this guy
+	if err = pool.UnrefEntry(db, id); err != nil {
+		// We keep it then, so it must stay in our tree
+		if lerr := LinkOrCopyFile(pool.GetMetaPoolPath(id, poolEntry.Meta), pkgTarget, false); lerr != nil {
+			log.WithFields(log.Fields{
+				"repo":  r.ID,
+				"id":    id,
+				"error": lerr,
+			}).Error("Failed to restore target for package")
+		}
+		return err
 	}
 
 	// This is a "we tried but oh noes, not fatal.
@@ -490,8 +505,7 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 		}).Warning("Failed to remove parent structure for package")
 	}
 
-	// Tell the pool we no longer need this guy
-	return pool.UnrefEntry(db, id)
+	return nil
 }
 
 // removeDeltaInternal has the same job as removePackageInternal, but in future should
@@ -506,16 +520,9 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 //
-// All of the records change together: being interrupted halfway would leave
+// The records of each item change together: being interrupted halfway would leave
 // reference counts behind which no longer match what we list.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
-	return db.Update(func(db libdb.Database) error {
-		return r.unrefPackageInternal(db, pool, pkgID)
-	})
-}
-
-// unrefPackageInternal does the real work of UnrefPackage
-func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	newHighest := 0
 	var newHighestID string
 
@@ -531,16 +538,8 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID s
 		return err
 	}
 
-	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
-	}
-
-	// Deltas remaining after removals
-	var remainDeltas []string
-
 	// Check out all the deltas
-	for _, deltaID := range entry.Deltas {
+	for _, deltaID := range append([]string(nil), entry.Deltas...) {
 		pkgDelta, err := pool.GetEntry(db, deltaID)
 		if err != nil {
 			return err
@@ -548,18 +547,12 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID s
 
 		// We found a delta that is referencing us, we must garbage collect it now
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
+			if err := r.unrefDelta(db, pool, entry, deltaID); err != nil {
 				return err
 			}
-		} else {
-			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
 	}
 
-	// These are the deltas left
-	entry.Deltas = remainDeltas
-	sort.Strings(entry.Deltas)
-
 	// Filter our ID from the available set
 	var remainAvailable []string
 	for _, id := range entry.Available {
@@ -584,15 +577,42 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID s
 	// Assign the new Published link
 	entry.Published = newHighestID
 
-	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
+	return db.Update(func(db libdb.Database) error {
+		// Try to remove it from disk first
+		if err := r.removePackageInternal(db, pool, pkgID); err != nil {
+			return err
+		}
 
-	// Is this package set now "empty"? Then remove it from our indexes
-	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
+
+		// Is this package set now "empty"? Then remove it from our indexes
+		if len(entry.Available) < 1 {
+			return rootBucket.DeleteObject([]byte(entry.Name))
+		}
+
+		// Stuff it back into the DB with the modified bits in place.
+		return r.putEntry(db, entry)
+	})
+}
+
+// unrefDelta will remove a single delta from our storage and from the given entry
+func (r *Repository) unrefDelta(db libdb.Database, pool *Pool, entry *RepoEntry, deltaID string) error {
+	// Deltas remaining after the removal
+	var remainDeltas []string
+
+	for _, id := range entry.Deltas {
+		if id != deltaID {
+			remainDeltas = append(remainDeltas, id)
+		}
 	}
 
-	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	return db.Update(func(db libdb.Database) error {
+		if err := r.removeDeltaInternal(db, pool, deltaID); err != nil {
+			return err
+		}
+		entry.Deltas = remainDeltas
+		return r.putEntry(db, entry)
+	})
 }
 
 // RefPackage will dupe a package from the pool into our own storage
-- 
2.43.0


From e49f3c5061873f51d222ee3dd68fc46c3024d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 17/55] fix: leave nothing behind when creating or cloning a
 repository fails

The half-made repository made every further attempt fail, as it existed
already.
---
 src/ferryd/core/api.go  | 9 +++++++++
 src/ferryd/core/repo.go | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index f66d02d..e98dc8a 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -19,6 +19,8 @@ package core
 import (
 	"path/filepath"
 
+	log "github.com/sirupsen/logrus"
+
 	"github.com/getsolus/ferryd/src/libeopkg"
 )
 
@@ -55,6 +57,13 @@ func (m *Manager) CloneRepo(repoID, newClone string, fullClone bool) error {
 
 	// Now ask it to clone..
 	if err = newRepo.CloneFrom(m.db, m.pool, sourceRepo, fullClone); err != nil {
+		// Half a clone is of no use, and would be in the way of another try
+		if derr := m.DeleteRepo(newClone); derr != nil {
+			log.WithFields(log.Fields{
+				"repo":  newClone,
+				"error": derr,
+			}).Error("Failed to remove incomplete clone")
+		}
 		return err
 	}
 
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index cc2c923..caf7c74 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -225,6 +225,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 
 	repository, err := r.bakeRepo(id)
 	if err != nil {
+		// Not created after all, don't be in the way of another try
+		rootBucket.DeleteObject([]byte(id))
+		for _, base := range []string{r.repoBase, r.assetBase, r.deltaBase, r.deltaStageBase} {
+			os.Remove(filepath.Join(base, id))
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From d9525ac0a76ba1b187b0103ca1a0bd6e0519fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 18/55] fix: retire and reset jobs in one database write

A daemon killed between removing a finished job from the queue and recording
it in the history forgot that the job ever ran.
---
 src/ferryd/jobs/store.go | 79 +++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 5772afd..be9679b 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -211,8 +211,9 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
-// Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+// Used to mark the completion of a job and store in the appropriate bucket,
+// as part of the given transaction
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -222,7 +223,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	bucket := db.Bucket(bucketID).Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
@@ -250,22 +251,18 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return db.Bucket(bucketID).PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -273,14 +270,14 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	// The job leaves the queue and enters the history at once, so that it is
+	// never lost in between
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -288,14 +285,14 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	// The job leaves the queue and enters the history at once, so that it is
+	// never lost in between
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
@@ -415,19 +412,19 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		bucket := db.Bucket(BucketRecord)
+		hasIndex, err := bucket.HasObject(IndexRecordKey)
+		if err != nil {
 			return err
 		}
-	}
+		if hasIndex {
+			if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+				return err
+			}
+		}
 
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		// batch delete the jobs
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 6a202a1a8b52a4816999d98efce5662d067e3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 19/55] fix: refuse packages whose metadata is incomplete or
 leads to other directories

A package without history, name or source crashed the daemon, and one with
parent directory components in any of the parts we form paths with made it
write, link and remove files and whole directories anywhere.
---
 src/libeopkg/main.go     |  2 +-
 src/libeopkg/metadata.go | 19 +++++++++++++++++++
 src/libeopkg/package.go  |  3 +++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..acd51bb 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) < 1 {
 		return
 	}
 	field := &(*fields)[0]
diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..54c71ad 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -175,6 +175,25 @@ type Metadata struct {
 	Package MetaPackage `xml:"Package"` // Meta on the package itself
 }
 
+// validate ensures that we have everything that is needed to store the package,
+// and that nothing we form a path with leads out of the directory it belongs to
+func (m *Metadata) validate() error {
+	p := &m.Package
+	if p.Name == "" || len(p.History) < 1 {
+		return ErrEopkgCorrupted
+	}
+	// "." and ".." are no names for a directory
+	if p.Source.Name == "" || strings.HasPrefix(p.Source.Name, ".") {
+		return ErrEopkgCorrupted
+	}
+	for _, s := range []string{p.Name, p.Source.Name, p.GetVersion(), p.Architecture, p.DistributionRelease} {
+		if strings.ContainsRune(s, filepath.Separator) {
+			return ErrEopkgCorrupted
+		}
+	}
+	return nil
+}
+
 // GetPathComponent will get the source part of the string which is used
 // in all subdirectories of the repository.
 //
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..280dbf9 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if err = metadata.validate(); err != nil {
+		return err
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 8ff6e47e9bf611eb40cf71a62b46a45f62853003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 20/55] fix: refuse repository names that lead to other
 directories

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index caf7c74..370ccab 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -203,6 +203,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
+	// The name is a directory within each of our base directories
+	if id == "" || id == "." || id == ".." || id != filepath.Base(id) {
+		return nil, fmt.Errorf("'%s' is not a valid repository name", id)
+	}
+
 	if _, err := r.GetRepo(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
-- 
2.43.0


From 70b7c21f5cdcc5da519db0eaf7138920894edc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 21/55] fix: refuse manifests listing files outside of their
 own directory

---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..13a78a4 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -149,6 +149,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// The payload accompanies the manifest, so nothing outside of its directory
+		if f.Path != filepath.Base(f.Path) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From 75a4b17bb2defc33e3bc0c491d9706af63fbea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 22/55] fix: never link a symlink in place of the file it leads
 to

---
 src/ferryd/core/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 3f9ed94..61bdc0d 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -76,10 +76,15 @@ func CopyFile(source, dest string) error {
 // however if we hit an error (because we tried a cross-filesystem hardlink)
 // we'll try to copy instead.
 func LinkOrCopyFile(source, dest string, forceCopy bool) error {
+	// A link to a symlink would be another symlink, not the file itself
+	source, err := filepath.EvalSymlinks(source)
+	if err != nil {
+		return err
+	}
 	if forceCopy {
 		return CopyFile(source, dest)
 	}
-	err := os.Link(source, dest)
+	err = os.Link(source, dest)
 	if err == nil {
 		return nil
 	}
-- 
2.43.0


From 525164a4114f74294d8e52a07f8ea3f07b31365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 23/55] fix: don't cut a letter in half to form the path of a
 package

---
 src/libeopkg/metadata.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 54c71ad..b231896 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -208,10 +208,11 @@ func (m *Metadata) validate() error {
 //
 func (m *MetaPackage) GetPathComponent() string {
 	nom := strings.ToLower(m.Source.Name)
-	letter := nom[0:1]
+	letters := []rune(nom)
+	letter := string(letters[0:1])
 	var path string
-	if strings.HasPrefix(nom, "lib") && len(nom) > 3 {
-		path = filepath.Join(nom[0:4], nom)
+	if strings.HasPrefix(nom, "lib") && len(letters) > 3 {
+		path = filepath.Join(string(letters[0:4]), nom)
 	} else {
 		path = filepath.Join(letter, nom)
 	}
-- 
2.43.0


From 5d760a94ed6b225efdf1096749cd74f7d505235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 24/55] fix: record a new package before any of its files are
 stored

---
 src/ferryd/core/repo.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 370ccab..4ea8770 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -734,24 +734,25 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 		return nil
 	}
 
-	// Construct root dirs
-	if err := os.MkdirAll(pkgDir, 00755); err != nil {
-		return err
-	}
-
 	return db.Update(func(db libdb.Database) error {
+		// Should our record be refused then nothing was touched on disk yet
+		if err := r.putEntry(db, repoEntry); err != nil {
+			return err
+		}
+
 		// Grab the pool reference for this package (Always copy)
 		if _, err := pool.AddPackage(db, pkg, false); err != nil {
 			return err
 		}
 
-		// Ensure the eopkg file is linked inside our own tree
-		source := pool.GetPackagePoolPath(pkg)
-		if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
+		// Construct root dirs
+		if err := os.MkdirAll(pkgDir, 00755); err != nil {
 			return err
 		}
 
-		return r.putEntry(db, repoEntry)
+		// Ensure the eopkg file is linked inside our own tree
+		source := pool.GetPackagePoolPath(pkg)
+		return LinkOrCopyFile(source, pkgTarget, false)
 	})
 }
 
-- 
2.43.0


From acd87b284b4fb41db0ed1ce3a01abed671a4be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 25/55] fix: refuse packages whose file name belongs to another
 package

---
 src/ferryd/core/pool.go | 7 +++++++
 src/ferryd/core/repo.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d9b2cb6..7536510 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -187,6 +187,13 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+		// The file name alone doesn't tell, make sure it's the same package
+		if meta := &pkg.Meta.Package; (entry.Delta == nil) != (delta == nil) ||
+			entry.Meta.Name != meta.Name ||
+			entry.Meta.GetRelease() != meta.GetRelease() ||
+			entry.Meta.GetPathComponent() != meta.GetPathComponent() {
+			return nil, fmt.Errorf("a different package is already known as '%s'", pkg.ID)
+		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 4ea8770..d9a3dd0 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -769,6 +769,11 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 		return err
 	}
 
+	// Deltas are only of use along with the packages they belong to
+	if strings.HasSuffix(pkg.ID, ".delta.eopkg") {
+		return fmt.Errorf("delta packages cannot be added: %v", pkg.ID)
+	}
+
 	// Not being strict, just let it in
 	if !anal {
 		return r.AddLocalPackage(db, pool, pkg)
-- 
2.43.0


From 8e8dd042ff8c71c61935ca226ca45c1fdeea7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 26/55] fix: publish what remains of a package whatever its
 release

---
 src/ferryd/core/repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index d9a3dd0..41cd4cf 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -575,7 +575,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
-- 
2.43.0


From a2bada88ac7ae698a51b77f5f10ec1403324cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 27/55] fix: never reference a normal package as a delta

---
 src/ferryd/core/repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 41cd4cf..d6c1c6e 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -358,6 +358,10 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		return err
 	}
 
+	if poolEntry.Delta == nil {
+		return fmt.Errorf("'%s' is not a delta package", deltaID)
+	}
+
 	// Now make sure we actually have the local entry
 	entry, err := r.GetEntry(db, poolEntry.Meta.Name)
 	if err != nil {
-- 
2.43.0


From d0664344988c9d60edd615e12d2f7ea349209163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 28/55] fix: don't wait on pipes in place of uploads

---
 src/ferryd/core/mmap.go             |  3 +++
 src/ferryd/core/transit_manifest.go |  4 ++++
 src/ferryd/core/util.go             | 14 ++++++++++++++
 src/libeopkg/package.go             |  8 ++++++++
 4 files changed, 29 insertions(+)

diff --git a/src/ferryd/core/mmap.go b/src/ferryd/core/mmap.go
index 179a1d7..b8517f6 100644
--- a/src/ferryd/core/mmap.go
+++ b/src/ferryd/core/mmap.go
@@ -36,6 +36,9 @@ type MmapFile struct {
 func MapFile(path string) (*MmapFile, error) {
 	var err error
 	ret := &MmapFile{}
+	if err = requireFile(path); err != nil {
+		return nil, err
+	}
 	ret.f, err = os.Open(path)
 	if err != nil {
 		return nil, err
diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 13a78a4..445de8a 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -116,6 +116,10 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 		id:   filepath.Base(abs),
 	}
 
+	if err = requireFile(ret.path); err != nil {
+		return nil, err
+	}
+
 	blob, err := ioutil.ReadFile(ret.path)
 	if err != nil {
 		return nil, err
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 61bdc0d..049f6e5 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -20,6 +20,7 @@ import (
 	"crypto/sha1"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/ioutil"
 	"os"
@@ -193,6 +194,19 @@ func PathExists(path string) bool {
 	return false
 }
 
+// requireFile returns an error for anything that isn't a regular file. Notably
+// opening a pipe would wait for a writer, perhaps forever.
+func requireFile(path string) error {
+	st, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	if !st.Mode().IsRegular() {
+		return fmt.Errorf("'%s' is not a regular file", path)
+	}
+	return nil
+}
+
 // ProduceDelta will attempt to batch the delta production between the
 // two listed file paths and then copy it into the final targetPath
 func ProduceDelta(tmpDir, oldPackage, newPackage, targetPath string) error {
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index 280dbf9..7ec8d4e 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -59,6 +59,14 @@ func Open(path string) (*Package, error) {
 		Path: path,
 		ID:   filepath.Base(path),
 	}
+	// Opening a pipe would wait for a writer
+	st, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !st.Mode().IsRegular() {
+		return nil, ErrEopkgCorrupted
+	}
 	zipFile, err := zip.OpenReader(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d87e6c7633e795a9f68548323c7bf0dfa813925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 29/55] fix: guard the repository cache wherever it is used

---
 src/ferryd/core/repo.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index d6c1c6e..55790ce 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -175,6 +175,14 @@ func (r *RepositoryManager) GetRepos(db libdb.Database) ([]*Repository, error) {
 // GetRepo will attempt to get the named repo if it exists, otherwise
 // return an error. This is a transactional helper to make the API simpler
 func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository, error) {
+	r.repoLock.Lock()
+	defer r.repoLock.Unlock()
+
+	return r.getRepo(db, id)
+}
+
+// getRepo is GetRepo for those already holding the lock
+func (r *RepositoryManager) getRepo(db libdb.Database, id string) (*Repository, error) {
 	// Cache each repository.
 	if repo, ok := r.repos[id]; ok {
 		return repo, nil
@@ -208,7 +216,7 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("'%s' is not a valid repository name", id)
 	}
 
-	if _, err := r.GetRepo(db, id); err == nil {
+	if _, err := r.getRepo(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -250,7 +258,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	repo, err := r.GetRepo(db, id)
+	repo, err := r.getRepo(db, id)
 	if err != nil {
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
-- 
2.43.0


From 76808a4a3d0508d6059700e4f3dd1d1ecaef659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 30/55] fix: let nobody else alter the pool or a repository in
 between

---
 src/ferryd/core/api.go     | 65 ++++++++++++++++++++++++++++++++------
 src/ferryd/core/manager.go |  5 +++
 2 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index e98dc8a..82337e3 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -29,11 +29,14 @@ import (
 
 // CreateRepo will request the creation of a new repository
 func (m *Manager) CreateRepo(id string) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	if _, err := m.repo.CreateRepo(m.db, id); err != nil {
 		return err
 	}
 	// Index the newly created repo
-	return m.Index(id)
+	return m.index(id)
 }
 
 // CloneRepo will initially construct a new repository, and then ask that
@@ -42,6 +45,9 @@ func (m *Manager) CreateRepo(id string) error {
 // If fullClone is set, all packages are copied. Otherwise only the tip for
 // each package is taken.
 func (m *Manager) CloneRepo(repoID, newClone string, fullClone bool) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	// Try to get the source repo
 	sourceRepo, err := m.repo.GetRepo(m.db, repoID)
 	if err != nil {
@@ -58,7 +64,7 @@ func (m *Manager) CloneRepo(repoID, newClone string, fullClone bool) error {
 	// Now ask it to clone..
 	if err = newRepo.CloneFrom(m.db, m.pool, sourceRepo, fullClone); err != nil {
 		// Half a clone is of no use, and would be in the way of another try
-		if derr := m.DeleteRepo(newClone); derr != nil {
+		if derr := m.repo.DeleteRepo(m.db, m.pool, newClone); derr != nil {
 			log.WithFields(log.Fields{
 				"repo":  newClone,
 				"error": derr,
@@ -68,11 +74,14 @@ func (m *Manager) CloneRepo(repoID, newClone string, fullClone bool) error {
 	}
 
 	// Success, index the new guy
-	return m.Index(newClone)
+	return m.index(newClone)
 }
 
 // PullRepo will pull from one repo, the source ID, into the target repository
 func (m *Manager) PullRepo(sourceID, targetID string) ([]string, error) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	// Try to get the source repo
 	sourceRepo, err := m.repo.GetRepo(m.db, sourceID)
 	if err != nil {
@@ -92,7 +101,7 @@ func (m *Manager) PullRepo(sourceID, targetID string) ([]string, error) {
 	}
 
 	// Success, index the target
-	if err = m.Index(targetID); err != nil {
+	if err = m.index(targetID); err != nil {
 		return nil, err
 	}
 
@@ -103,6 +112,9 @@ func (m *Manager) PullRepo(sourceID, targetID string) ([]string, error) {
 // RemoveSource will ask the repo to remove all matching source==release
 // packages.
 func (m *Manager) RemoveSource(repoID, sourceID string, release int) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.repo.GetRepo(m.db, repoID)
 	if err != nil {
 		return err
@@ -112,11 +124,14 @@ func (m *Manager) RemoveSource(repoID, sourceID string, release int) error {
 		return err
 	}
 
-	return m.Index(repoID)
+	return m.index(repoID)
 }
 
 // CopySource will ask the repo to copy all matching source==release packages
 func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipIndex bool) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	sourceRepo, err := m.repo.GetRepo(m.db, repoID)
 	if err != nil {
 		return err
@@ -135,11 +150,14 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 		return nil
 	}
 
-	return m.Index(target)
+	return m.index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
 func (m *Manager) TrimObsolete(repoID string) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.repo.GetRepo(m.db, repoID)
 	if err != nil {
 		return err
@@ -149,11 +167,14 @@ func (m *Manager) TrimObsolete(repoID string) error {
 		return err
 	}
 
-	return m.Index(repoID)
+	return m.index(repoID)
 }
 
 // TrimPackages will ask the repo to remove excessive packages
 func (m *Manager) TrimPackages(repoID string, maxKeep int) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.repo.GetRepo(m.db, repoID)
 	if err != nil {
 		return err
@@ -163,7 +184,7 @@ func (m *Manager) TrimPackages(repoID string, maxKeep int) error {
 		return err
 	}
 
-	return m.Index(repoID)
+	return m.index(repoID)
 }
 
 // GetRepos will return all known repositories
@@ -173,6 +194,9 @@ func (m *Manager) GetRepos() ([]*Repository, error) {
 
 // DeleteRepo exposes the API for repository deletion
 func (m *Manager) DeleteRepo(id string) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	return m.repo.DeleteRepo(m.db, m.pool, id)
 }
 
@@ -189,6 +213,9 @@ func (m *Manager) GetPoolItems() ([]*PoolEntry, error) {
 
 // AddPackages will attempt to add the named packages to the repository
 func (m *Manager) AddPackages(repoID string, packages []string, anal bool) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.GetRepo(repoID)
 	if err != nil {
 		return err
@@ -200,11 +227,19 @@ func (m *Manager) AddPackages(repoID string, packages []string, anal bool) error
 		}
 	}
 
-	return m.Index(repoID)
+	return m.index(repoID)
 }
 
 // Index will cause the repository's index to be reconstructed
 func (m *Manager) Index(repoID string) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	return m.index(repoID)
+}
+
+// index is Index for those already holding the lock
+func (m *Manager) index(repoID string) error {
 	repo, err := m.GetRepo(repoID)
 	if err != nil {
 		return err
@@ -227,6 +262,9 @@ func (m *Manager) GetPackageNames(repoID string) ([]string, error) {
 // GetPackages will return a set of packages for the package name within the
 // specified repository
 func (m *Manager) GetPackages(repoID, pkgName string) ([]*libeopkg.MetaPackage, error) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.GetRepo(repoID)
 	if err != nil {
 		return nil, err
@@ -258,6 +296,9 @@ func (m *Manager) HasDelta(repoID, pkgID, deltaPath string) (bool, error) {
 // AddDelta will attempt to include the delta package specified by deltaPath into
 // the target repository
 func (m *Manager) AddDelta(repoID, deltaPath string, mapping *DeltaInformation) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.GetRepo(repoID)
 	if err != nil {
 		return err
@@ -268,6 +309,9 @@ func (m *Manager) AddDelta(repoID, deltaPath string, mapping *DeltaInformation)
 
 // RefDelta will dupe an existing delta into the target repository
 func (m *Manager) RefDelta(repoID, deltaID string) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	repo, err := m.GetRepo(repoID)
 	if err != nil {
 		return err
@@ -278,6 +322,9 @@ func (m *Manager) RefDelta(repoID, deltaID string) error {
 // MarkDeltaFailed will permanently record the delta package as failing so we do
 // not attempt to recreate it (expensive)
 func (m *Manager) MarkDeltaFailed(deltaID string, delta *DeltaInformation) error {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	return m.pool.MarkDeltaFailed(m.db, deltaID, delta)
 }
 
diff --git a/src/ferryd/core/manager.go b/src/ferryd/core/manager.go
index f7ef8e3..60d1aab 100644
--- a/src/ferryd/core/manager.go
+++ b/src/ferryd/core/manager.go
@@ -19,6 +19,7 @@ package core
 import (
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/getsolus/ferryd/src/libdb"
 )
@@ -30,6 +31,10 @@ type Manager struct {
 	pool *Pool              // Our main pool for eopkgs
 	repo *RepositoryManager // Repo management
 
+	// Held by whoever alters the pool or any repository, as they're linked to
+	// each other through the reference counts.
+	lock sync.Mutex
+
 	IncomingPath string // Incoming directory
 }
 
-- 
2.43.0


From d4c73e292426cd925abb1f20a4475bde1ca85479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 31/55] fix: don't include deltas of packages that were removed
 meanwhile

---
 src/ferryd/core/repo.go  | 22 ++++++++++++++++++++++
 src/ferryd/jobs/delta.go |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 55790ce..81ed454 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -91,6 +91,18 @@ type RepoEntry struct {
 	Deltas        []string // Delta packages known for this package.
 }
 
+// hasPackages determines whether all of the given packages are available
+func (e *RepoEntry) hasPackages(ids ...string) bool {
+	for _, id := range ids {
+		// Available is kept sorted
+		i := sort.SearchStrings(e.Available, id)
+		if i == len(e.Available) || e.Available[i] != id {
+			return false
+		}
+	}
+	return true
+}
+
 // Init will create our initial working paths and DB bucket
 func (r *RepositoryManager) Init(ctx *Context, db libdb.Database) error {
 	r.repoBase = filepath.Join(ctx.BaseDir, RepoPathComponent)
@@ -392,6 +404,11 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		}
 	}
 
+	// Of no use unless we have both ends of it
+	if !entry.hasPackages(poolEntry.Delta.FromID, poolEntry.Delta.ToID) {
+		return fmt.Errorf("delta '%s' belongs to packages missing from '%s'", deltaID, r.ID)
+	}
+
 	// Insert this deltas ID to this package map
 	entry.Deltas = append(entry.Deltas, deltaID)
 	sort.Strings(entry.Deltas)
@@ -457,6 +474,11 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 		}
 	}
 
+	// They may be gone by now, it took a while to produce the delta
+	if !entry.hasPackages(mapping.FromID, mapping.ToID) {
+		return fmt.Errorf("delta '%s' belongs to packages missing from '%s'", pkg.ID, r.ID)
+	}
+
 	// Insert this deltas ID to this package map
 	entry.Deltas = append(entry.Deltas, pkg.ID)
 	sort.Strings(entry.Deltas)
diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index bbfc8ad..0b5be32 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -179,6 +179,8 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 func (j *DeltaJobHandler) includeDelta(manager *core.Manager, mapping *core.DeltaInformation, deltaPath string) error {
 	// Try to insert the delta
 	if err := manager.AddDelta(j.repoID, deltaPath, mapping); err != nil {
+		// Don't leave it for packages that merely have the same name
+		os.Remove(deltaPath)
 		return err
 	}
 
-- 
2.43.0


From a3f5f51ed95e661e4ec571af1fbd835a8de1e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 32/55] fix: never produce the same delta twice at the same
 time

---
 src/ferryd/core/api.go     | 10 ++++++++++
 src/ferryd/core/manager.go |  2 ++
 src/ferryd/jobs/delta.go   |  3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 82337e3..e1ca140 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -18,6 +18,7 @@ package core
 
 import (
 	"path/filepath"
+	"sync"
 
 	log "github.com/sirupsen/logrus"
 
@@ -273,6 +274,15 @@ func (m *Manager) GetPackages(repoID, pkgName string) ([]*libeopkg.MetaPackage,
 	return repo.GetPackages(m.db, m.pool, pkgName)
 }
 
+// LockDeltas ensures that only the caller produces deltas for the given package
+// in the given repository, until the returned function is called.
+func (m *Manager) LockDeltas(repoID, pkgName string) func() {
+	l, _ := m.deltaLocks.LoadOrStore([2]string{repoID, pkgName}, &sync.Mutex{})
+	lock := l.(*sync.Mutex)
+	lock.Lock()
+	return lock.Unlock
+}
+
 // CreateDelta will attempt to create a new delta package between the old and new IDs
 func (m *Manager) CreateDelta(repoID string, oldPkg, newPkg *libeopkg.MetaPackage) (string, error) {
 	repo, err := m.GetRepo(repoID)
diff --git a/src/ferryd/core/manager.go b/src/ferryd/core/manager.go
index 60d1aab..8f4fed8 100644
--- a/src/ferryd/core/manager.go
+++ b/src/ferryd/core/manager.go
@@ -35,6 +35,8 @@ type Manager struct {
 	// each other through the reference counts.
 	lock sync.Mutex
 
+	deltaLocks sync.Map // One lock for each package to be delta'd
+
 	IncomingPath string // Incoming directory
 }
 
diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index 0b5be32..6484a4f 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -72,6 +72,9 @@ func NewDeltaJobHandler(j *JobEntry, indexRepo bool) (*DeltaJobHandler, error) {
 // executeInternal is the common code shared in the delta jobs, and is
 // split out to save duplication.
 func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
+	// The same job may have been queued twice
+	defer manager.LockDeltas(j.repoID, j.packageName)()
+
 	pkgs, err := manager.GetPackages(j.repoID, j.packageName)
 	if err != nil {
 		return err
-- 
2.43.0


From da5c33ad65706941401491a12307f9ca54b639ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 33/55] fix: start no job once a worker was told to stop

---
 src/ferryd/jobs/worker.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 50ea99c..944e80c 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -99,9 +99,6 @@ func NewWorkerSequential(processor *Processor) *Worker {
 // Stop will demand that all new requests are no longer processed
 func (w *Worker) Stop() {
 	w.exit <- 1
-	if w.timer != nil {
-		w.timer.Stop()
-	}
 }
 
 // Start will begin the main execution of this worker, and will continuously
@@ -111,6 +108,7 @@ func (w *Worker) Start() {
 
 	// Let's get our timer initialised
 	w.setTime()
+	defer w.timer.Stop()
 
 	for {
 		select {
@@ -119,6 +117,13 @@ func (w *Worker) Start() {
 			return
 
 		case <-w.timer.C:
+			// Both may have happened, don't start anything new then
+			select {
+			case <-w.exit:
+				return
+			default:
+			}
+
 			// Try to grab a job
 			job, err := w.fetcher()
 
-- 
2.43.0


From c51b797d15ad3078833a7e55a3afa09d01ba82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 34/55] fix: report jobs that could not be queued

---
 src/ferryd/handlers.go         | 29 ++++++++++++++++++-----------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   |  9 +++++----
 src/ferryd/jobs/transit_job.go |  4 +++-
 src/ferryd/monitor.go          |  7 ++++++-
 5 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..3a97a6f 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -62,6 +62,13 @@ func (s *Server) sendStockError(err error, w http.ResponseWriter, r *http.Reques
 	w.Write(buf.Bytes())
 }
 
+// pushJob will queue the job, and tell the client if that isn't possible
+func (s *Server) pushJob(w http.ResponseWriter, r *http.Request, job *jobs.JobEntry) {
+	if err := s.jproc.PushJob(job); err != nil {
+		s.sendStockError(err, w, r)
+	}
+}
+
 // GetStatus will return the current status of the ferryd instance
 func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.Params) {
 	ret := libferry.StatusRequest{
@@ -146,7 +153,7 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.pushJob(w, r, jobs.NewCreateRepoJob(id))
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +162,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.pushJob(w, r, jobs.NewDeleteRepoJob(id))
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +171,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.pushJob(w, r, jobs.NewDeltaRepoJob(id))
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +180,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.pushJob(w, r, jobs.NewIndexRepoJob(id))
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +199,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.pushJob(w, r, jobs.NewBulkAddJob(id, req.Path))
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +219,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.pushJob(w, r, jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +238,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.pushJob(w, r, jobs.NewPullRepoJob(req.Source, target))
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +258,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.pushJob(w, r, jobs.NewRemoveSourceJob(target, req.Source, req.Release))
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +280,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.pushJob(w, r, jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +299,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.pushJob(w, r, jobs.NewTrimPackagesJob(target, req.MaxKeep))
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +308,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.pushJob(w, r, jobs.NewTrimObsoleteJob(id))
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..22b9c77 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,11 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+//
+// An error means that the job could not be stored, and will not be executed.
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..07620fe 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,9 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..fb14db1 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -91,5 +91,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From 5a8de239721f2eaf599a4e0ab386ad4387e411f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 35/55] fix: rely on the lock, not on a process ID left in the
 lock file

---
 src/ferryd/lockfile.go | 70 ++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..81cdc92 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -93,38 +93,43 @@ func (l *LockFile) GetOwnerProcess() string {
 
 // Lock will attempt to lock the file, or return an error if this fails
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
-
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
-				return ErrOwnedLockFile
+	for {
+		l.conlock.Lock()
+
+		// The lock itself goes with its owner. A process ID left in the file tells
+		// us nothing, it may belong to an entirely different process by now.
+		if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+			l.conlock.Unlock()
+			if err != syscall.EWOULDBLOCK {
+				return err
+			}
+			if pid, err2 := l.readPID(); err2 == nil {
+				l.owningPID = pid
 			}
+			return ErrOwnedLockFile
 		}
-	}
 
-	l.conlock.Lock()
+		// The previous owner might have removed the file just before we got it, the
+		// lock is then of no use
+		opened, err := l.fd.Stat()
+		if err != nil {
+			l.conlock.Unlock()
+			return err
+		}
+		if current, err2 := os.Stat(l.path); err2 == nil && os.SameFile(opened, current) {
+			l.owner = true
+			l.conlock.Unlock()
+			break
+		}
 
-	// Finally lock it.
-	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
+		l.fd.Close()
+		l.fd, err = os.OpenFile(l.path, os.O_RDWR|os.O_CREATE, 00644)
 		l.conlock.Unlock()
-		return err
+		if err != nil {
+			return err
+		}
 	}
 
-	l.owner = true
-
-	l.conlock.Unlock()
-
 	// Write the PID now we have an exclusive lock on it
 	if err := l.writePID(); err != nil {
 		return err
@@ -177,7 +182,11 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
-	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
+	// Whatever the previous owner left must not remain behind our own PID
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := l.fd.WriteAt([]byte(fmt.Sprintf("%d", l.ourPID)), 0); err != nil {
 		return err
 	}
 	return l.fd.Sync()
@@ -191,9 +200,10 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Remove it while it's still ours, closing it gives up the lock
+	err := os.Remove(l.path)
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	l.fd = nil
+	l.owner = false
+	return err
 }
-- 
2.43.0


From f72c93b4443309d7f63172dfc02edf5d2e6ac692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 36/55] fix: replace a socket nobody listens on anymore

---
 src/ferryd/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..7c35d17 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -160,11 +160,20 @@ func (s *Server) Bind() error {
 		systemdEnabled = true
 	} else {
 		l, e := net.Listen("unix", s.socketPath)
+		if errors.Is(e, syscall.EADDRINUSE) {
+			// Left by a daemon that had no chance to clean up?
+			if c, e2 := net.Dial("unix", s.socketPath); e2 == nil {
+				c.Close()
+			} else if errors.Is(e2, syscall.ECONNREFUSED) && os.Remove(s.socketPath) == nil {
+				l, e = net.Listen("unix", s.socketPath)
+			}
+		}
 		if e != nil {
 			return e
 		}
 		listener = l
 	}
+	s.socket = listener
 
 	m, e := core.NewManager(baseDir)
 	if e != nil {
@@ -197,7 +206,6 @@ func (s *Server) Bind() error {
 			return e
 		}
 	}
-	s.socket = listener
 	return nil
 }
 
-- 
2.43.0


From 16d891f44d2e7a2dc6df6ba450f9ca24b8478ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 37/55] fix: keep the lock until everything else is shut down

---
 src/ferryd/main.go    |  6 +++--
 src/ferryd/monitor.go |  5 +++-
 src/ferryd/server.go  | 61 ++++++++++++++++++++++++++-----------------
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/ferryd/main.go b/src/ferryd/main.go
index a451127..31c5def 100644
--- a/src/ferryd/main.go
+++ b/src/ferryd/main.go
@@ -104,7 +104,8 @@ func mainLoop() {
 			"error":  err,
 		}).Error("Error in binding server socket")
 		fmt.Fprintf(os.Stderr, "Fatal error in socket bind, check logs: %v\n", err)
-		return
+		srv.Close()
+		os.Exit(1)
 	}
 	if err := srv.Serve(); err != nil {
 		log.WithFields(log.Fields{
@@ -112,7 +113,8 @@ func mainLoop() {
 			"error":  err,
 		}).Error("Error in serving on socket")
 		fmt.Fprintf(os.Stderr, "Fatal error in runtime execution, check logs: %v\n", err)
-		return
+		srv.Close()
+		os.Exit(1)
 	}
 }
 
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index fb14db1..153d13a 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -70,7 +70,10 @@ func (s *Server) WatchIncoming() {
 
 // StopWatching will force the fsnotify code to shut down
 func (s *Server) StopWatching() {
-	s.watchChan <- true
+	if s.watchChan == nil {
+		return
+	}
+	close(s.watchChan)
 	s.watchGroup.Wait()
 }
 
diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 7c35d17..3455026 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -37,11 +38,14 @@ import (
 	"github.com/getsolus/ferryd/src/ferryd/jobs"
 )
 
+// shutdownTimeout is how long we wait for pending requests on shutdown
+const shutdownTimeout = 5 * time.Second
+
 // Server sits on a unix socket accepting connections from authenticated
 // client, i.e. root or those in the "ferry" group
 type Server struct {
 	srv     *http.Server
-	running bool
+	closing sync.Once
 	router  *httprouter.Router
 	socket  net.Listener
 
@@ -68,7 +72,6 @@ func NewServer() (*Server, error) {
 		srv: &http.Server{
 			Handler: router,
 		},
-		running:     false,
 		router:      router,
 		timeStarted: time.Now().UTC(),
 		watchGroup:  &sync.WaitGroup{},
@@ -128,7 +131,7 @@ func (s *Server) killHandler() {
 		log.Warning("ferryd shutting down")
 		s.Close()
 		// Stop any mainLoop defers here
-		os.Exit(1)
+		os.Exit(0)
 	}()
 }
 
@@ -214,14 +217,11 @@ func (s *Server) Serve() error {
 	if s.socket == nil {
 		return errors.New("Cannot serve without a bound server socket")
 	}
-	s.running = true
-	s.killHandler()
-	defer func() {
-		s.running = false
-	}()
 	// Serve the job queue
 	s.jproc.Begin()
 	s.WatchIncoming()
+	// Everything is up, so now it may be taken down
+	s.killHandler()
 
 	if systemdEnabled {
 		daemon.SdNotify(false, "READY=1")
@@ -231,28 +231,41 @@ func (s *Server) Serve() error {
 	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
 		return e
 	}
+	// Wait until that's finished
+	s.Close()
 	return nil
 }
 
-// Close will shut down and cleanup the socket
+// Close will shut down and cleanup the socket. Nothing but the first call has
+// an effect, any other will merely wait for it.
 func (s *Server) Close() {
-	if !s.running {
-		return
+	s.closing.Do(s.close)
+}
+
+func (s *Server) close() {
+	// Stop taking requests, but don't wait forever for those who never finish theirs
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := s.srv.Shutdown(ctx); err != nil {
+		s.srv.Close()
 	}
-	if s.lockFile != nil {
-		s.lockFile.Unlock()
-		s.lockFile.Clean()
-		s.lockFile = nil
+	// Closing the socket removes it too, unless it was created by systemd
+	if s.socket != nil {
+		s.socket.Close()
 	}
-	s.StopWatching()
-	s.jproc.Close()
-	s.store.Close()
-	s.manager.Close()
-	s.running = false
-	s.srv.Shutdown(nil)
 
-	// We don't technically fully own it if systemd created it
-	if !systemdEnabled {
-		os.Remove(s.socketPath)
+	// Let the running jobs finish
+	s.StopWatching()
+	if s.jproc != nil {
+		s.jproc.Close()
 	}
+	if s.store != nil {
+		s.store.Close()
+	}
+	if s.manager != nil {
+		s.manager.Close()
+	}
+
+	// Nothing is left of us, so anyone else may take over now
+	s.lockFile.Clean()
 }
-- 
2.43.0


From 581dd2690ad133b1baf774e5da745e67ab27c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 38/55] fix: escape the names that form part of a request path

---
 src/libferry/main.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..b34dc62 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -95,8 +96,8 @@ func (c *Client) GetPoolItems() ([]PoolItem, error) {
 
 // A helper to wrap the trivial functionality, chaining off
 // the appropriate errors, etc.
-func (c *Client) getBasicResponse(url string, outT interface{}) error {
-	resp, e := c.client.Get(url)
+func (c *Client) getBasicResponse(uri string, outT interface{}) error {
+	resp, e := c.client.Get(uri)
 	if e != nil {
 		return e
 	}
@@ -115,14 +116,14 @@ func (c *Client) getBasicResponse(url string, outT interface{}) error {
 
 // A helper to wrap the trivial functionality, chaining off
 // the appropriate errors, etc.
-func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}) error {
+func (c *Client) postBasicResponse(uri string, inT interface{}, outT interface{}) error {
 	b := &bytes.Buffer{}
 	enc := json.NewEncoder(b)
 	if err := enc.Encode(inT); err != nil {
 		return err
 	}
 
-	resp, e := c.client.Post(url, "application/json; charset=utf-8", b)
+	resp, e := c.client.Post(uri, "application/json; charset=utf-8", b)
 	if e != nil {
 		return e
 	}
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -241,12 +242,12 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 
 // ResetFailed asks the daemon to reset failed jobs
 func (c *Client) ResetFailed() error {
-	uri := c.formURI("/api/v1/reset/failed")
+	uri := c.formURI("api/v1/reset/failed")
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // ResetCompleted asks the daemon to reset completed jobs
 func (c *Client) ResetCompleted() error {
-	uri := c.formURI("/api/v1/reset/completed")
+	uri := c.formURI("api/v1/reset/completed")
 	return c.getBasicResponse(uri, &Response{})
 }
-- 
2.43.0


From 9551b1ee921e6274bdc1e0e570f2213ecceb7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 39/55] fix: never take a refused request for a success

---
 src/libferry/main.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/libferry/main.go b/src/libferry/main.go
index b34dc62..c891c30 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -22,9 +22,11 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"net"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 )
 
@@ -66,6 +68,23 @@ func (c *Client) formURI(part string) string {
 	return fmt.Sprintf("http://localhost.localdomain:0/%s", part)
 }
 
+// checkStatus returns an error unless the daemon has accepted the request, no
+// matter in which form it tells us the reason.
+func checkStatus(resp *http.Response) error {
+	if resp.StatusCode == http.StatusOK {
+		return nil
+	}
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		return err
+	}
+	var fc Response
+	if err = json.Unmarshal(body, &fc); err == nil && fc.Error {
+		return errors.New(fc.ErrorString)
+	}
+	return fmt.Errorf("%s: %s", resp.Status, strings.TrimSpace(string(body)))
+}
+
 // GetRepos will grab a list of repos from the daemon
 func (c *Client) GetRepos() ([]string, error) {
 	var lq RepoListingRequest
@@ -74,6 +93,9 @@ func (c *Client) GetRepos() ([]string, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = checkStatus(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&lq); err != nil {
 		return nil, err
 	}
@@ -88,6 +110,9 @@ func (c *Client) GetPoolItems() ([]PoolItem, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = checkStatus(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&lq); err != nil {
 		return nil, err
 	}
@@ -102,6 +127,9 @@ func (c *Client) getBasicResponse(uri string, outT interface{}) error {
 		return e
 	}
 	defer resp.Body.Close()
+	if e = checkStatus(resp); e != nil {
+		return e
+	}
 	if resp.ContentLength > 0 {
 		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
 			return e
@@ -129,6 +157,9 @@ func (c *Client) postBasicResponse(uri string, inT interface{}, outT interface{}
 	}
 
 	defer resp.Body.Close()
+	if e = checkStatus(resp); e != nil {
+		return e
+	}
 	if resp.ContentLength > 0 {
 		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
 			return e
@@ -234,6 +265,9 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 		return nil, err
 	}
 	defer resp.Body.Close()
+	if err = checkStatus(resp); err != nil {
+		return nil, err
+	}
 	if err = json.NewDecoder(resp.Body).Decode(&sq); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8b828add596ca9c2dc8e7af54a1c45c959b8b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 40/55] fix: let ferryctl exit with an error when it failed

---
 src/ferryctl/cmd/clone_repo.go      | 4 ++--
 src/ferryctl/cmd/copy_source.go     | 8 ++++----
 src/ferryctl/cmd/create_repo.go     | 4 ++--
 src/ferryctl/cmd/delta.go           | 4 ++--
 src/ferryctl/cmd/import.go          | 8 ++++----
 src/ferryctl/cmd/index.go           | 4 ++--
 src/ferryctl/cmd/list_pool.go       | 4 ++--
 src/ferryctl/cmd/list_repos.go      | 4 ++--
 src/ferryctl/cmd/pull_repo.go       | 4 ++--
 src/ferryctl/cmd/remove_repo.go     | 2 +-
 src/ferryctl/cmd/remove_source.go   | 8 ++++----
 src/ferryctl/cmd/reset_completed.go | 4 ++--
 src/ferryctl/cmd/reset_failed.go    | 4 ++--
 src/ferryctl/cmd/status.go          | 4 ++--
 src/ferryctl/cmd/trim_obsolete.go   | 4 ++--
 src/ferryctl/cmd/trim_packages.go   | 8 ++++----
 16 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/ferryctl/cmd/clone_repo.go b/src/ferryctl/cmd/clone_repo.go
index b325e1c..94928b1 100644
--- a/src/ferryctl/cmd/clone_repo.go
+++ b/src/ferryctl/cmd/clone_repo.go
@@ -44,7 +44,7 @@ func init() {
 func cloneRepo(cmd *cobra.Command, args []string) {
 	if len(args) != 2 {
 		fmt.Fprintf(os.Stderr, "usage: clone [fromRepo] [newRepo]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -52,6 +52,6 @@ func cloneRepo(cmd *cobra.Command, args []string) {
 
 	if err := client.CloneRepo(args[0], args[1], fullClone); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while cloning repo: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/copy_source.go b/src/ferryctl/cmd/copy_source.go
index 7ffd63d..1e20bbf 100644
--- a/src/ferryctl/cmd/copy_source.go
+++ b/src/ferryctl/cmd/copy_source.go
@@ -64,16 +64,16 @@ func copySource(cmd *cobra.Command, args []string) {
 		release, err := strconv.ParseInt(args[3], 10, 32)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Invalid integer: %v\n", err)
-			return
+			os.Exit(1)
 		}
 		if release < 1 {
 			fmt.Fprintf(os.Stderr, "Release should be higher than 1\n")
-			return
+			os.Exit(1)
 		}
 		sourceRelease = int(release)
 	default:
 		fmt.Fprintf(os.Stderr, "usage: [fromRepo] [targetRepo] [sourceName] [releaseNumber]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -81,6 +81,6 @@ func copySource(cmd *cobra.Command, args []string) {
 
 	if err := client.CopySource(repoID, targetID, sourceID, sourceRelease, skipIndex); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while copying source: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/create_repo.go b/src/ferryctl/cmd/create_repo.go
index d9c8443..68fc708 100644
--- a/src/ferryctl/cmd/create_repo.go
+++ b/src/ferryctl/cmd/create_repo.go
@@ -39,7 +39,7 @@ func init() {
 func createRepo(cmd *cobra.Command, args []string) {
 	if len(args) != 1 {
 		fmt.Fprintf(os.Stderr, "usage: create-repo [repoName]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func createRepo(cmd *cobra.Command, args []string) {
 
 	if err := client.CreateRepo(args[0]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while creating repo: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/delta.go b/src/ferryctl/cmd/delta.go
index a793a97..b065e9b 100644
--- a/src/ferryctl/cmd/delta.go
+++ b/src/ferryctl/cmd/delta.go
@@ -39,7 +39,7 @@ func init() {
 func delta(cmd *cobra.Command, args []string) {
 	if len(args) != 1 {
 		fmt.Fprintf(os.Stderr, "Usage: delta [repoName]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func delta(cmd *cobra.Command, args []string) {
 
 	if err := client.DeltaRepo(args[0]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while creating deltas: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/import.go b/src/ferryctl/cmd/import.go
index 405fcc9..77a1c4b 100644
--- a/src/ferryctl/cmd/import.go
+++ b/src/ferryctl/cmd/import.go
@@ -77,7 +77,7 @@ func GetEopkgs(providedPath string) (files []string, getErr error) {
 func importEx(cmd *cobra.Command, args []string) {
 	if len(args) < 2 {
 		fmt.Fprintf(os.Stderr, "Usage: import [repo] [packages]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -90,19 +90,19 @@ func importEx(cmd *cobra.Command, args []string) {
 
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Failed to probe: %s: %v\n", f, err)
-			return
+			os.Exit(1)
 		}
 
 		if eopkgs, getErr := GetEopkgs(f); getErr == nil { // If we successfully got eopkgs
 			packages = append(packages, eopkgs...)
 		} else {
 			fmt.Fprintf(os.Stderr, "Failed to get eopkgs: %v", getErr)
-			return
+			os.Exit(1)
 		}
 	}
 
 	if err := client.ImportPackages(repoID, packages); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while importing packages: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/index.go b/src/ferryctl/cmd/index.go
index d15e27a..30f8193 100644
--- a/src/ferryctl/cmd/index.go
+++ b/src/ferryctl/cmd/index.go
@@ -39,7 +39,7 @@ func init() {
 func index(cmd *cobra.Command, args []string) {
 	if len(args) != 1 {
 		fmt.Fprintf(os.Stderr, "usage: index [repoName]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func index(cmd *cobra.Command, args []string) {
 
 	if err := client.IndexRepo(args[0]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while indexing: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/list_pool.go b/src/ferryctl/cmd/list_pool.go
index 848a43a..df5bf82 100644
--- a/src/ferryctl/cmd/list_pool.go
+++ b/src/ferryctl/cmd/list_pool.go
@@ -39,7 +39,7 @@ func init() {
 func listPool(cmd *cobra.Command, args []string) {
 	if len(args) != 0 {
 		fmt.Fprintf(os.Stderr, "list pool takes no arguments\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -48,7 +48,7 @@ func listPool(cmd *cobra.Command, args []string) {
 	pools, err := client.GetPoolItems()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error while getting pool items: %v\n", err)
-		return
+		os.Exit(1)
 	}
 	if len(pools) == 0 {
 		fmt.Printf("No pool items have been created yet.\n\n")
diff --git a/src/ferryctl/cmd/list_repos.go b/src/ferryctl/cmd/list_repos.go
index ba366cc..40a695a 100644
--- a/src/ferryctl/cmd/list_repos.go
+++ b/src/ferryctl/cmd/list_repos.go
@@ -40,7 +40,7 @@ func init() {
 func listRepos(cmd *cobra.Command, args []string) {
 	if len(args) != 0 {
 		fmt.Fprintf(os.Stderr, "list-repos takes no arguments\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -49,7 +49,7 @@ func listRepos(cmd *cobra.Command, args []string) {
 	repos, err := client.GetRepos()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error while getting repos: %v\n", err)
-		return
+		os.Exit(1)
 	}
 	sort.Strings(repos)
 	if len(repos) == 0 {
diff --git a/src/ferryctl/cmd/pull_repo.go b/src/ferryctl/cmd/pull_repo.go
index 792e46b..8a5aaa1 100644
--- a/src/ferryctl/cmd/pull_repo.go
+++ b/src/ferryctl/cmd/pull_repo.go
@@ -39,7 +39,7 @@ func init() {
 func pullRepo(cmd *cobra.Command, args []string) {
 	if len(args) != 2 {
 		fmt.Fprintf(os.Stderr, "usage: pull [sourceRepo] [destRepo]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func pullRepo(cmd *cobra.Command, args []string) {
 
 	if err := client.PullRepo(args[0], args[1]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while pulling repo: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/remove_repo.go b/src/ferryctl/cmd/remove_repo.go
index 25c82e2..d6d5c67 100644
--- a/src/ferryctl/cmd/remove_repo.go
+++ b/src/ferryctl/cmd/remove_repo.go
@@ -47,6 +47,6 @@ func removeRepo(cmd *cobra.Command, args []string) {
 
 	if err := client.DeleteRepo(args[0]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while deleting repo: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/remove_source.go b/src/ferryctl/cmd/remove_source.go
index b2aac81..f1150a2 100644
--- a/src/ferryctl/cmd/remove_source.go
+++ b/src/ferryctl/cmd/remove_source.go
@@ -55,16 +55,16 @@ func removeSource(cmd *cobra.Command, args []string) {
 		release, err := strconv.ParseInt(args[2], 10, 32)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Invalid integer: %v\n", err)
-			return
+			os.Exit(1)
 		}
 		if release < 1 {
 			fmt.Fprintf(os.Stderr, "Release Number should be higher than 1\n")
-			return
+			os.Exit(1)
 		}
 		sourceRelease = int(release)
 	default:
 		fmt.Fprintf(os.Stderr, "usage: [repoName] [sourceName] [releaseNumber]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -72,6 +72,6 @@ func removeSource(cmd *cobra.Command, args []string) {
 
 	if err := client.RemoveSource(repoID, sourceID, sourceRelease); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while removing source: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/reset_completed.go b/src/ferryctl/cmd/reset_completed.go
index 08be3c4..f395b5e 100644
--- a/src/ferryctl/cmd/reset_completed.go
+++ b/src/ferryctl/cmd/reset_completed.go
@@ -39,7 +39,7 @@ func init() {
 func resetCompleted(cmd *cobra.Command, args []string) {
 	if len(args) != 0 {
 		fmt.Fprintf(os.Stderr, "reset completed takes no arguments\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func resetCompleted(cmd *cobra.Command, args []string) {
 
 	if err := client.ResetCompleted(); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while resetting completed log: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/reset_failed.go b/src/ferryctl/cmd/reset_failed.go
index 51ec34b..4d5db75 100644
--- a/src/ferryctl/cmd/reset_failed.go
+++ b/src/ferryctl/cmd/reset_failed.go
@@ -39,7 +39,7 @@ func init() {
 func resetFailed(cmd *cobra.Command, args []string) {
 	if len(args) != 0 {
 		fmt.Fprintf(os.Stderr, "reset failed takes no arguments\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func resetFailed(cmd *cobra.Command, args []string) {
 
 	if err := client.ResetFailed(); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while resetting failed log: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/status.go b/src/ferryctl/cmd/status.go
index bb55ed8..a48047b 100644
--- a/src/ferryctl/cmd/status.go
+++ b/src/ferryctl/cmd/status.go
@@ -144,7 +144,7 @@ func printCompletedJobs(js []*libferry.Job) {
 func getStatus(cmd *cobra.Command, args []string) {
 	if len(args) != 0 {
 		fmt.Fprintf(os.Stderr, "status takes no arguments\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -153,7 +153,7 @@ func getStatus(cmd *cobra.Command, args []string) {
 	status, err := client.GetStatus()
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error while getting status: %v\n", err)
-		return
+		os.Exit(1)
 	}
 
 	// Show uptime
diff --git a/src/ferryctl/cmd/trim_obsolete.go b/src/ferryctl/cmd/trim_obsolete.go
index bc3c024..ecfc6ec 100644
--- a/src/ferryctl/cmd/trim_obsolete.go
+++ b/src/ferryctl/cmd/trim_obsolete.go
@@ -39,7 +39,7 @@ func init() {
 func trimObsolete(cmd *cobra.Command, args []string) {
 	if len(args) != 1 {
 		fmt.Fprintf(os.Stderr, "usage: trim obsolete [repoName]\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -47,6 +47,6 @@ func trimObsolete(cmd *cobra.Command, args []string) {
 
 	if err := client.TrimObsolete(args[0]); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while trimming obsoletes: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/src/ferryctl/cmd/trim_packages.go b/src/ferryctl/cmd/trim_packages.go
index ae73c4e..50a8e97 100644
--- a/src/ferryctl/cmd/trim_packages.go
+++ b/src/ferryctl/cmd/trim_packages.go
@@ -40,18 +40,18 @@ func init() {
 func trimPackages(cmd *cobra.Command, args []string) {
 	if len(args) != 2 {
 		fmt.Fprintf(os.Stderr, "usage: trim packages [repoName] [maxToKeep]\n")
-		return
+		os.Exit(1)
 	}
 
 	maxKeep, err := strconv.ParseInt(args[1], 10, 32)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Invalid integer: %v\n", err)
-		return
+		os.Exit(1)
 	}
 
 	if maxKeep < 1 {
 		fmt.Fprintf(os.Stderr, "maxToKeep should be higher than 1\n")
-		return
+		os.Exit(1)
 	}
 
 	client := libferry.NewClient(socketPath)
@@ -61,6 +61,6 @@ func trimPackages(cmd *cobra.Command, args []string) {
 
 	if err := client.TrimPackages(repoID, int(maxKeep)); err != nil {
 		fmt.Fprintf(os.Stderr, "Error while trimming packages: %v\n", err)
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 890fd58ebd7a3c2f39620261681229d754797734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 41/55] fix: open a database whose creation was interrupted

---
 src/libdb/leveldb.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 05d9ba2..e58fc43 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -20,10 +20,13 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"os"
+	"path/filepath"
 	"sync"
 	"sync/atomic"
 
 	"github.com/syndtr/goleveldb/leveldb"
+	"github.com/syndtr/goleveldb/leveldb/errors"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -51,6 +54,9 @@ type levelDb struct {
 
 func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	ldb, err := leveldb.OpenFile(storagePath, nil)
+	if errors.IsCorrupted(err) && halfCreated(storagePath) {
+		ldb, err = leveldb.RecoverFile(storagePath, nil)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -65,6 +71,20 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	return handle, nil
 }
 
+// halfCreated determines whether the process that was to create the database
+// ended before that was done. Nothing can have been stored in it yet.
+func halfCreated(storagePath string) bool {
+	if _, err := os.Stat(filepath.Join(storagePath, "CURRENT")); !os.IsNotExist(err) {
+		return false
+	}
+	for _, pattern := range []string{"*.log", "*.ldb", "*.sst"} {
+		if files, err := filepath.Glob(filepath.Join(storagePath, pattern)); err != nil || len(files) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // write will commit the batch to the database.
 //
 // The journal of leveldb refuses everything once a single write to it failed,
-- 
2.43.0


From f994d98cc9107f442d563834f34f3e746c356be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 42/55] fix: don't wait for a definition file that isn't one

---
 src/libeopkg/components.go   |  3 +--
 src/libeopkg/distribution.go |  3 +--
 src/libeopkg/groups.go       |  3 +--
 src/libeopkg/util.go         | 13 +++++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libeopkg/components.go b/src/libeopkg/components.go
index f6bc3d2..f51e66e 100644
--- a/src/libeopkg/components.go
+++ b/src/libeopkg/components.go
@@ -18,7 +18,6 @@ package libeopkg
 
 import (
 	"encoding/xml"
-	"os"
 	"sort"
 )
 
@@ -64,7 +63,7 @@ func (g ComponentSort) Swap(a, b int) {
 
 // NewComponents will load the Components data from the XML file
 func NewComponents(xmlfile string) (*Components, error) {
-	fi, err := os.Open(xmlfile)
+	fi, err := openRegular(xmlfile)
 	if err != nil {
 		return nil, err
 	}
diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 9d1ae31..db0e5e6 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -18,7 +18,6 @@ package libeopkg
 
 import (
 	"encoding/xml"
-	"os"
 )
 
 // A Distribution as seen through the eyes of XML
@@ -42,7 +41,7 @@ type Distribution struct {
 
 // NewDistribution will load the Distribution data from the XML file
 func NewDistribution(xmlfile string) (*Distribution, error) {
-	fi, err := os.Open(xmlfile)
+	fi, err := openRegular(xmlfile)
 	if err != nil {
 		return nil, err
 	}
diff --git a/src/libeopkg/groups.go b/src/libeopkg/groups.go
index e48b6c0..fa17797 100644
--- a/src/libeopkg/groups.go
+++ b/src/libeopkg/groups.go
@@ -18,7 +18,6 @@ package libeopkg
 
 import (
 	"encoding/xml"
-	"os"
 	"sort"
 )
 
@@ -54,7 +53,7 @@ func (g GroupSort) Swap(a, b int) {
 
 // NewGroups will load the Groups data from the XML file
 func NewGroups(xmlfile string) (*Groups, error) {
-	fi, err := os.Open(xmlfile)
+	fi, err := openRegular(xmlfile)
 	if err != nil {
 		return nil, err
 	}
diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index 16a3aa6..15f9672 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -27,6 +27,19 @@ import (
 // package format with a hash-indexed self deduplicating archive to
 // mitigate delta issues, reduce sizes, and ensure verification at all stages
 
+// openRegular will open the given file for reading, refusing anything that isn't
+// a file. Opening a pipe would wait for a writer
+func openRegular(path string) (*os.File, error) {
+	st, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !st.Mode().IsRegular() {
+		return nil, fmt.Errorf("%s is not a regular file", path)
+	}
+	return os.Open(path)
+}
+
 // ComputeDeltaName will determine the target name for the delta eopkg
 func ComputeDeltaName(oldPackage, newPackage *MetaPackage) string {
 	return fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg",
-- 
2.43.0


From 8800ce53840b7a83a20a61172fab7013ee153376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 43/55] fix: keep watching for uploads after a watcher error

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 153d13a..bc7b115 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// Nothing else is delivered until this is taken
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to watch the incoming directory")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From 666dedea02a814425bf6af38206a23f7e8e038c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 44/55] fix: publish where a delta from release 0 starts

---
 src/libeopkg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index b231896..bd2e62c 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -102,7 +102,7 @@ type Provides struct {
 // releaseFrom IDs in their installation, that delta package will be selected instead of the
 // full package.
 type Delta struct {
-	ReleaseFrom int    `xml:"releaseFrom,attr,omitempty"` // Delta from specified release to this one
+	ReleaseFrom int    `xml:"releaseFrom,attr"` // Delta from specified release to this one
 	PackageURI  string // Relative location to the package
 	PackageSize int64  // Actual size on disk of the .eopkg
 	PackageHash string // Sha1sum for this package
-- 
2.43.0


From cabe0ed918395f888e03a98fa39d1c9987457732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 45/55] fix: release both packages of a mismatched delta

---
 src/libeopkg/delta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 3f0c75f..5b90cce 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -77,7 +77,8 @@ func NewDeltaProducer(baseDir string, pkgOld string, pkgNew string) (*DeltaProdu
 	}
 
 	if !IsDeltaPossible(&ret.old.Meta.Package, &ret.new.Meta.Package) {
-		return nil, ErrMismatchedDelta
+		err = ErrMismatchedDelta
+		return nil, err
 	}
 
 	// Form a unique directory entry
-- 
2.43.0


From bc56d6636515f64a33e3ad82df9b80431a919c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 46/55] fix: close the files of a delta build, and notice a
 tarball that could not be finished

---
 src/libeopkg/delta.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/libeopkg/delta.go b/src/libeopkg/delta.go
index 5b90cce..436d110 100644
--- a/src/libeopkg/delta.go
+++ b/src/libeopkg/delta.go
@@ -166,27 +166,23 @@ func (d *DeltaProducer) produceInstallBall() (string, error) {
 		return "", nil
 	}
 
-	// Make sure we clean up properly!
-	defer func() {
-		if tw != nil {
-			tw.Close()
-		}
-	}()
-
 	// Open output file to write our tarfile.
 	installTar := filepath.Join(d.baseDir, "delta-eopkg.install.tar")
 	outF, err := os.Create(installTar)
 	if err != nil {
 		return "", err
 	}
+	defer outF.Close()
 	tw = tar.NewWriter(outF)
 
 	if err = d.copyInstallPartial(tw); err != nil {
 		return filename, err
 	}
 
-	tw.Flush()
-	tw.Close()
+	// An incomplete tarball is of no use
+	if err = tw.Close(); err != nil {
+		return "", err
+	}
 
 	if err = XzFile(installTar, false); err != nil {
 		return "", err
@@ -282,12 +278,12 @@ func (d *DeltaProducer) pushInstallBall(zipFile *zip.Writer, xzFileName string)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	// Stat for header
 	fst, err := f.Stat()
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	fh, err := zip.FileInfoHeader(fst)
 	if err != nil {
@@ -332,6 +328,7 @@ func (d *DeltaProducer) Commit() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	defer out.Close()
 	zipFileName = out.Name()
 	zip := zip.NewWriter(out)
 	if err = d.copyZipPartial(zip); err != nil {
-- 
2.43.0


From 287d8831e49f30e3e6ec3bf758ac31300e183c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 47/55] fix: don't crash when the CDN refuses a purge without a
 reason

---
 src/ferryd/core/purge_cloudflare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index dc545bb..0c0a061 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -69,5 +69,9 @@ func purgeCloudflare(target string) error {
 	if result.Success {
 		return nil
 	}
+	// Not every refusal comes with a reason
+	if len(result.Errors) == 0 {
+		return errors.New("Cloudflare response without success")
+	}
 	return errors.New("Cloudflare response " + result.Errors[0].Message)
 }
-- 
2.43.0


From 5b0409625249f0bd942d3360b5fca899231dd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 48/55] fix: an empty purge list is nothing to purge, not an
 error

---
 src/ferryd/core/purge_cloudflare.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index 0c0a061..013e285 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -55,6 +55,11 @@ func purgeCloudflare(target string) error {
 		return e == ""
 	})
 
+	// Asking for nothing would be refused
+	if len(files) == 0 {
+		return nil
+	}
+
 	api, err := cloudflare.NewWithAPIToken(apiKey)
 	if err != nil {
 		return err
-- 
2.43.0


From 999f19a759d1e3782e38af9f362e5aa49644db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 49/55] fix: don't hold up indexing forever when the CDN
 doesn't answer

---
 src/ferryd/core/purge_cloudflare.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/purge_cloudflare.go b/src/ferryd/core/purge_cloudflare.go
index 013e285..01cc8af 100644
--- a/src/ferryd/core/purge_cloudflare.go
+++ b/src/ferryd/core/purge_cloudflare.go
@@ -24,6 +24,7 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+	"time"
 )
 
 const FerrydDir = "/etc/ferryd"
@@ -65,7 +66,9 @@ func purgeCloudflare(target string) error {
 		return err
 	}
 
-	ctx := context.Background()
+	// Indexing waits for us, so don't wait forever
+	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
+	defer cancel()
 	result, err := api.PurgeCache(ctx, zoneId, cloudflare.PurgeCacheRequest{Files: files})
 	if err != nil {
 		return err
-- 
2.43.0


From 88bcc7f2164c1c37cadc555ce885ccb8bb83f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 50/55] fix: don't take a failure to read the database for a
 missing record

---
 src/ferryd/core/pool.go  |  4 ++++
 src/ferryd/core/repo.go  | 47 +++++++++++++++++++++++++++++-----------
 src/ferryd/jobs/store.go |  4 +++-
 src/libdb/leveldb.go     |  6 +++++
 4 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 7536510..db5e76c 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -163,6 +163,8 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if !libdb.IsNotFound(err) {
+		return nil, err
 	}
 
 	// Validate these source/target packages *actually* exist
@@ -196,6 +198,8 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
+	} else if !libdb.IsNotFound(err) {
+		return nil, err
 	}
 
 	st, err := os.Stat(pkg.Path)
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 81ed454..a4a97db 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -202,8 +202,10 @@ func (r *RepositoryManager) getRepo(db libdb.Database, id string) (*Repository,
 
 	var rTmp Repository
 	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
-	if err := rootBucket.GetObject([]byte(id), &rTmp); err != nil {
+	if err := rootBucket.GetObject([]byte(id), &rTmp); libdb.IsNotFound(err) {
 		return nil, fmt.Errorf("The specified repository '%s' does not exist", id)
+	} else if err != nil {
+		return nil, err
 	}
 
 	repository, err := r.bakeRepo(id)
@@ -228,7 +230,10 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("'%s' is not a valid repository name", id)
 	}
 
-	if _, err := r.getRepo(db, id); err == nil {
+	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
+	if exists, err := rootBucket.HasObject([]byte(id)); err != nil {
+		return nil, err
+	} else if exists {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -239,7 +244,6 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	}
 
 	// Create the main sub-bucket for this repo
-	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
 	repo := Repository{
 		ID: id,
 	}
@@ -510,9 +514,12 @@ func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id str
 	defer r.insertMut.Unlock()
 
 	poolEntry, err := pool.GetEntry(db, id)
-	if err != nil {
+	if libdb.IsNotFound(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	pkgDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	pkgTarget := filepath.Join(pkgDir, poolEntry.Name)
@@ -674,7 +681,10 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
 
-	repoEntry := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	repoEntry, err := r.buildSaneEntry(db, pool, poolEntry.Meta, pkgID)
+	if err != nil {
+		return err
+	}
 	// Already included
 	if repoEntry == nil {
 		return nil
@@ -701,7 +711,7 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
 // take an existing entry and correctly set up the available/published fields
-func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) *RepoEntry {
+func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeopkg.MetaPackage, newID string) (*RepoEntry, error) {
 	// Fallback in case one actually doesn't exist yet
 	repoEntry := &RepoEntry{
 		SchemaVersion: RepoSchemaVersion,
@@ -709,8 +719,11 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 		Published:     newID,
 	}
 
-	// Not so worried about the error, just having the entry
-	entry, _ := r.GetEntry(db, newPkg.Name)
+	// Not so worried about there being none, just having the entry
+	entry, err := r.GetEntry(db, newPkg.Name)
+	if err != nil && !libdb.IsNotFound(err) {
+		return nil, err
+	}
 
 	// Clone across the relevant field now
 	if entry != nil {
@@ -729,8 +742,10 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 					"repo":       r.ID,
 				}).Error("Duplicate release number detected. Fix immediately!")
 			}
-		} else {
+		} else if libdb.IsNotFound(err) {
 			repoEntry.Published = newID
+		} else {
+			return nil, err
 		}
 	}
 
@@ -741,7 +756,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 				"id":   id,
 				"repo": r.ID,
 			}).Info("Skipping already included package")
-			return nil
+			return nil, nil
 		}
 	}
 
@@ -749,7 +764,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	repoEntry.Available = append(repoEntry.Available, newID)
 	sort.Strings(repoEntry.Available)
 
-	return repoEntry
+	return repoEntry, nil
 }
 
 // AddLocalPackage will do the real work of adding an open & loaded eopkg to the repository
@@ -761,7 +776,10 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 	pkgTarget := filepath.Join(pkgDir, pkg.ID)
 
 	// Already have a package, so let's copy the existing bits over
-	repoEntry := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	repoEntry, err := r.buildSaneEntry(db, pool, &pkg.Meta.Package, pkg.ID)
+	if err != nil {
+		return err
+	}
 
 	// nil == already included
 	if repoEntry == nil {
@@ -815,9 +833,12 @@ func (r *Repository) AddPackage(db libdb.Database, pool *Pool, filename string,
 
 	// Do we have this?
 	localPkg, err := r.GetEntry(db, pkg.Meta.Package.Name)
-	if err != nil {
+	if libdb.IsNotFound(err) {
 		return r.AddLocalPackage(db, pool, pkg)
 	}
+	if err != nil {
+		return err
+	}
 
 	// An interrupted run of this upload has brought in this very file already
 	for _, id := range localPkg.Available {
diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index be9679b..687938d 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -229,8 +229,10 @@ func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	}
 
 	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	if err := bucket.GetObject(IndexRecordKey, &record); libdb.IsNotFound(err) {
 		record.Index = 0
+	} else if err != nil {
+		return err
 	} else {
 		// Grabbed an existing record, so increment the key
 		record.Index++
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index e58fc43..df75458 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -85,6 +85,12 @@ func halfCreated(storagePath string) bool {
 	return true
 }
 
+// IsNotFound determines whether the error means that there is no such object,
+// as opposed to not being able to tell.
+func IsNotFound(err error) bool {
+	return err == errors.ErrNotFound
+}
+
 // write will commit the batch to the database.
 //
 // The journal of leveldb refuses everything once a single write to it failed,
-- 
2.43.0


From f6fe1ab6b4aca4826c33f1908724aaed645447c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:08 +0000
Subject: [PATCH 51/55] fix: don't take a path for missing when it can't be
 examined

---
 src/ferryd/core/repo.go | 9 ++-------
 src/ferryd/core/util.go | 8 +++-----
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index a4a97db..8bd4634 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -154,9 +154,6 @@ func (r *RepositoryManager) bakeRepo(id string) (*Repository, error) {
 
 	// Create all required paths
 	for _, p := range paths {
-		if PathExists(p) {
-			continue
-		}
 		if err := os.MkdirAll(p, 00755); err != nil {
 			return nil, err
 		}
@@ -968,10 +965,8 @@ func (r *Repository) pullAssets(sourceRepo *Repository) error {
 	}
 
 	// In case anyone is being cranky ..
-	if !PathExists(r.assetPath) {
-		if err := os.MkdirAll(r.assetPath, 00755); err != nil {
-			return err
-		}
+	if err := os.MkdirAll(r.assetPath, 00755); err != nil {
+		return err
 	}
 
 	for _, p := range copyPaths {
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 049f6e5..15d874a 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -185,13 +185,11 @@ func WriteSha256sum(inpPath, outPath string) error {
 	return ioutil.WriteFile(outPath, []byte(hash), 00644)
 }
 
-// PathExists is a trivial helper to figure out if a path exists or not
+// PathExists is a trivial helper to figure out if a path exists or not. Should
+// it not be possible to tell then it isn't to be taken for missing.
 func PathExists(path string) bool {
 	_, err := os.Stat(path)
-	if err == nil {
-		return true
-	}
-	return false
+	return !os.IsNotExist(err)
 }
 
 // requireFile returns an error for anything that isn't a regular file. Notably
-- 
2.43.0


From e1d6856a91cee72c30fa723dadbc00f7484efacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 52/55] fix: a job queue which can't be read must not have its
 jobs overwritten

---
 src/ferryd/jobs/store.go | 3 +++
 src/libdb/leveldb.go     | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 687938d..dc7f0ce 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -314,6 +314,9 @@ func (s *JobStore) pushJobInternal(j *JobEntry, bk []byte) error {
 		// Use next natural sequence in the bucket
 
 		j.id = bucket.NextSequence()
+		if j.id == nil {
+			return errors.New("failed to read the job queue")
+		}
 		return bucket.PutObject(j.id, j)
 	})
 }
diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index df75458..0008919 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -247,7 +247,8 @@ func (l *levelDbHandle) Update(f WriterFunc) error {
 }
 
 // NextSequence will return the next natural key to be used for inserts,
-// when the application only needs a unique record, not a specific key.
+// when the application only needs a unique record, not a specific key. This is
+// nil when the last key can't be read.
 func (l *levelDbHandle) NextSequence() []byte {
 	l.seqLock.Lock()
 	defer l.seqLock.Unlock()
@@ -256,6 +257,9 @@ func (l *levelDbHandle) NextSequence() []byte {
 	defer iter.Release()
 	var retKey uint64
 	if !iter.Last() {
+		if iter.Error() != nil {
+			return nil
+		}
 		retKey = 0
 	} else {
 		key := iter.Key()
-- 
2.43.0


From 816f5bbb8bb290525b5cefdc36aee8d960187ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 53/55] fix: a finished job which can't be retired stayed
 queued as running until it was run again

---
 src/ferryd/jobs/worker.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 944e80c..549f32e 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -145,17 +145,23 @@ func (w *Worker) Start() {
 			// Now we mark end time so we can calculate how long it took
 			job.Timing.End = time.Now().UTC()
 
-			// Mark the job as dealt with
-			err = w.reaper(job)
-
-			// Report failure in retiring the job
-			if err != nil {
+			// Mark the job as dealt with, it would be run again otherwise
+			for err = w.reaper(job); err != nil; err = w.reaper(job) {
+				// Report failure in retiring the job
 				log.WithFields(log.Fields{
 					"error": err,
 					"id":    job.GetID(),
 					"type":  job.Type,
 					"async": !w.sequential,
 				}).Error("Error in retiring job")
+
+				// Perhaps the store recovers
+				w.setTime()
+				select {
+				case <-w.exit:
+					return
+				case <-w.timer.C:
+				}
 			}
 
 			// We had a job, so we must reset the timeout period
-- 
2.43.0


From 1c3e6c5861ff394dcbd465ab26a08a79c7ea7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:31 +0000
Subject: [PATCH 54/55] fix: a daemon started without a handed over socket
 never told the service manager it is ready

---
 src/ferryd/server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 3455026..0637458 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -223,9 +223,8 @@ func (s *Server) Serve() error {
 	// Everything is up, so now it may be taken down
 	s.killHandler()
 
-	if systemdEnabled {
-		daemon.SdNotify(false, "READY=1")
-	}
+	// Nothing happens unless the service manager wants to know
+	daemon.SdNotify(false, "READY=1")
 
 	// Don't treat Shutdown/Close as an error, it's intended by us.
 	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
-- 
2.43.0


From f0c784bdd45fef2b528e5204ca8cf86440e1724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:31 +0000
Subject: [PATCH 55/55] fix: a datagram socket was accepted for activation, the
 daemon announced readiness and failed

---
 src/ferryd/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 0637458..7a1b948 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -155,7 +155,7 @@ func (s *Server) Bind() error {
 		// listener will be sockets[0], now we'll need to follow systemd activation path
 		listener = listeners[0]
 		// Mustn't delete!
-		if unix, ok := listener.(*net.UnixListener); ok {
+		if unix, ok := listener.(*net.UnixListener); ok && unix.Addr().Network() == "unix" {
 			unix.SetUnlinkOnClose(false)
 		} else {
 			return errors.New("expected unix socket")
-- 
2.43.0

