From 2c6b9f9410a3a6601e38c0dff535a37c8de19d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 01/59] fix: do not report a match on the empty text after a
 file's final newline

---
 index/grep.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index d8af164..2523036 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -156,6 +156,11 @@ func (g *grepper) grep2(
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
 
+		// there is no line after the final newline.
+		if str == len(buf) {
+			return nil
+		}
+
 		//end of previous line
 		endl := str - 1
 		if endl < 0 {
-- 
2.43.0


From 45d65c4dbe63ae45460de9a570c6d82458c8538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 02/59] fix: keep a blank first line in the context before a
 match

---
 index/grep.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/grep.go b/index/grep.go
index 2523036..ca2ceba 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -175,10 +175,16 @@ func (g *grepper) grep2(
 
 		lineno += countLines(buf[:str])
 
+		// lastNLines cannot tell a blank first line from no line at all.
+		before := lastNLines(buf[:endl], nctx)
+		if str > 0 && buf[0] == '\n' && len(before) < nctx {
+			before = append([][]byte{{}}, before...)
+		}
+
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			before,
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From c69f5b1e47ee12750cfa91a6b8e096e5b21e39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 03/59] fix: do not share storage between the sets of an
 alternation's trigram query

---
 codesearch/index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..12c8ddf 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,9 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		// union reuses (and sorts) the storage of its receiver.
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 682aec3e237bf4f498514699aad336cad968ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 04/59] fix: apply excludeFiles to a match that ends at offset
 0

MatchString returns -1 for no match; 0 is a match (an empty match at the
start of a name that begins with a newline).
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f84d933..531f86d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From fa980350f4c63cf47d9c189314a729ca82198d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 05/59] fix: fail the build when the source tree cannot be read

filepath.Walk reports a failed lstat with a nil FileInfo, which crashed, and
a failed read of the root directory was ignored, which gave an empty index.
---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 531f86d..477f6af 100644
--- a/index/index.go
+++ b/index/index.go
@@ -387,6 +387,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From b40e395913173fdac9cd9c41a98aef581cc4a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 06/59] fix: do not apply the exclusion rules to the root of
 the source tree

A repository whose directory has a special name or begins with a dot was
skipped as a whole, without a trace in the excluded files.
---
 index/index.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 477f6af..ad52daf 100644
--- a/index/index.go
+++ b/index/index.go
@@ -399,14 +399,14 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
-		if containsString(opt.SpecialFiles, name) {
+		if rel != "." && containsString(opt.SpecialFiles, name) {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
 			return nil
 		}
 
-		if opt.ExcludeDotFiles && name[0] == '.' {
+		if rel != "." && opt.ExcludeDotFiles && name[0] == '.' {
 			if info.IsDir() {
 				return filepath.SkipDir
 			}
-- 
2.43.0


From 20a7a898ca7ce0060b488fca98cae3230df4cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 07/59] fix: resolve chained and relative symbolic links to the
 source tree

A single Readlink leaves a second link unresolved and takes a relative target
as relative to the current directory; the index was then empty.
---
 index/index.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/index/index.go b/index/index.go
index ad52daf..8a91db2 100644
--- a/index/index.go
+++ b/index/index.go
@@ -379,11 +379,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 	defer fileHandle.Close()
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	// Resolve symbolic links, Walk does not follow the root if it is one.
+	if s, err := filepath.EvalSymlinks(src); err == nil {
+		src = s
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
-- 
2.43.0


From 36535d666a1adc89c2881500835ddc332bcd4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 08/59] fix: fail the build when a file cannot be read or its
 copy not be written

The file was left out of the index, or its searchable copy truncated, and the
build reported success.
---
 index/index.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 8a91db2..78eb161 100644
--- a/index/index.go
+++ b/index/index.go
@@ -327,9 +327,31 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
+	in := &errReader{r: io.TeeReader(r, g)}
+	reason := ix.Add(rel, in)
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	// Add does not report read errors, nor failures to write the copy.
+	if in.err != nil {
+		return "", in.err
+	}
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+	return reason, w.Close()
+}
+
+// errReader remembers the first error, other than io.EOF, of a reader.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (e *errReader) Read(p []byte) (int, error) {
+	n, err := e.r.Read(p)
+	if err != nil && err != io.EOF && e.err == nil {
+		e.err = err
+	}
+	return n, err
 }
 
 func addDirToIndex(dst, src, path string) error {
-- 
2.43.0


From 6bbd43a096cddf35005bdb89d46146dfec85c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 09/59] fix: remove the directory of a failed index build

Each failed update left a partial idx- directory in the database directory
until the next restart.
---
 index/index.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 78eb161..20ffbd6 100644
--- a/index/index.go
+++ b/index/index.go
@@ -509,11 +509,18 @@ func Read(dir string) (*IndexRef, error) {
 	return m, nil
 }
 
-func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
-	if _, err := os.Stat(dst); err != nil {
+func Build(opt *IndexOptions, dst, src, url, rev string) (ref *IndexRef, err error) {
+	if _, serr := os.Stat(dst); serr != nil {
 		if err := os.MkdirAll(dst, os.ModePerm); err != nil {
 			return nil, err
 		}
+
+		// a failed build leaves nothing behind.
+		defer func() {
+			if err != nil {
+				os.RemoveAll(dst)
+			}
+		}()
 	}
 
 	if err := os.Mkdir(filepath.Join(dst, "raw"), os.ModePerm); err != nil {
-- 
2.43.0


From e9eb3933575e2bacb984d58952de56ca3c1d54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 10/59] fix: fail the build when the source directory does not
 exist

A local repository whose directory was missing was served as an empty one.
---
 index/index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index 20ffbd6..6c98d8a 100644
--- a/index/index.go
+++ b/index/index.go
@@ -402,8 +402,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	defer fileHandle.Close()
 
 	// Resolve symbolic links, Walk does not follow the root if it is one.
-	if s, err := filepath.EvalSymlinks(src); err == nil {
-		src = s
+	src, err = filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
-- 
2.43.0


From 39f8f7643ff3dedb9ce3536480618923b40982e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 11/59] fix: do not report the empty text after a chunk's final
 newline as a line

Grep.Reader printed an extra line for expressions that match the empty line
(^$), at the end of the input and at the end of every full buffer.
---
 codesearch/regexp/match.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 480f910..3d058d6 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -428,12 +428,16 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
+			if lineStart == end {
+				// there is no line after the final newline of the chunk.
+				break
+			}
 			g.Match = true
 			if g.L {
 				fmt.Fprintf(g.Stdout, "%s\n", name)
 				return
 			}
-			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
 			lineEnd := m1 + 1
 			if lineEnd > end {
 				lineEnd = end
-- 
2.43.0


From c62f79fbf27d063b2c85af085bff27a14d575e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 12/59] fix: grow the buffer for a line that does not fit

Grep.Reader did not terminate on a line of more than 1 MiB.
---
 codesearch/regexp/match.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 3d058d6..5c73282 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -418,6 +418,12 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		end := len(buf)
 		if err == nil {
 			end = bytes.LastIndex(buf, nl) + 1
+			if end == 0 {
+				// the buffer does not hold a whole line, grow it.
+				g.buf = make([]byte, 2*cap(buf))
+				buf = g.buf[:copy(g.buf, buf)]
+				continue
+			}
 		} else {
 			endText = true
 		}
-- 
2.43.0


From 46b746f40e0d3359ddcdc046850b2a586a0b1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 13/59] fix: do not read the excluded files of an index that is
 being replaced

---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..0d18a78 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 5b0c17f2bb042b50bfc11aa7cb058b95b8fcd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 14/59] fix: make a stop request visible to the poller that it
 wakes

---
 searcher/searcher.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0d18a78..85b02c9 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -29,9 +29,10 @@ type Searcher struct {
 	// update at a time.
 	updateCh chan time.Time
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	// Closed by the first call to Stop.
+	shutdownCh   chan empty
+	shutdownOnce sync.Once
+	doneCh       chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -165,10 +166,18 @@ func (s *Searcher) Update() bool {
 
 // Shut down the searcher cleanly, waiting for any indexing operations to complete.
 func (s *Searcher) Stop() {
+	s.shutdownOnce.Do(func() {
+		close(s.shutdownCh)
+	})
+}
+
+// Has the searcher been asked to stop?
+func (s *Searcher) shutdownRequested() bool {
 	select {
-	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
+	case <-s.shutdownCh:
+		return true
 	default:
+		return false
 	}
 }
 
@@ -453,7 +462,7 @@ func newSearcher(
 		updateCh:   make(chan time.Time, 1),
 		Repo:       repo,
 		doneCh:     make(chan empty),
-		shutdownCh: make(chan empty, 1),
+		shutdownCh: make(chan empty),
 	}
 
 	go func() {
@@ -476,7 +485,7 @@ func newSearcher(
 			// Wait for a signal to proceed
 			s.waitForUpdate(delay)
 
-			if s.shutdownRequested {
+			if s.shutdownRequested() {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From 1c1efaa8399b1e40ff5f7024e103fce0effc3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 15/59] fix: do not lose an update that is requested right
 after startup

---
 searcher/searcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 85b02c9..7a0d14e 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -23,12 +23,14 @@ type Searcher struct {
 	lck  sync.RWMutex
 	Repo *config.Repo
 
-	// The channel is used to request updates from the API and
-	// to signal that it is ok for searchers to begin polling.
+	// The channel is used to request updates from the API.
 	// It has a buffer size of 1 to allow at most one pending
 	// update at a time.
 	updateCh chan time.Time
 
+	// Closed to signal that it is ok for the searcher to begin polling.
+	beginCh chan empty
+
 	// Closed by the first call to Stop.
 	shutdownCh   chan empty
 	shutdownOnce sync.Once
@@ -208,7 +210,7 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 
 // Signal the searcher that it is ok to begin polling the repository.
 func (s *Searcher) begin() {
-	s.updateCh <- time.Now()
+	close(s.beginCh)
 }
 
 // Generate a new index directory in the dbpath. The names are based
@@ -460,6 +462,7 @@ func newSearcher(
 	s := &Searcher{
 		idx:        idx,
 		updateCh:   make(chan time.Time, 1),
+		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
 		shutdownCh: make(chan empty),
@@ -468,7 +471,7 @@ func newSearcher(
 	go func() {
 
 		// each searcher's poller is held until begin is called.
-		<-s.updateCh
+		<-s.beginCh
 
 		// if all forms of updating are turned off, we're done here.
 		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
-- 
2.43.0


From 671b1ce84e2e5bd63f693f0b21a2558d30e9f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 16/59] fix: keep the new index when the old one cannot be
 removed

---
 searcher/searcher.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 7a0d14e..c6ae3eb 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -392,12 +392,9 @@ func updateAndReindex(
 		return rev, false
 	}
 
+	// the new index is live from here on, even if the old one could not be removed.
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy index (%s): %s\n", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From 806558edca96e27df21e91be2046f240d2a4356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 17/59] fix: do not let two repositories reuse the same index
 directory

---
 searcher/searcher.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index c6ae3eb..8717750 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -72,29 +72,23 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Claim an Index ref for the repo url and rev for reuse, returns nil if no
+ * such ref exists that is not claimed already. This ensures the ref will not
+ * be garbage collected at the end of startup, nor be used by another repo.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -437,12 +431,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 212d3a69a438c6a4cd1f6add30379178d366bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 18/59] fix: remove the manifest of an index before the rest of
 it

---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index 6c98d8a..569be7e 100644
--- a/index/index.go
+++ b/index/index.go
@@ -106,6 +106,11 @@ func (r *IndexRef) Open() (*Index, error) {
 }
 
 func (r *IndexRef) Remove() error {
+	// The manifest goes first, what is left of an index that was only
+	// partly removed must not be taken for a usable one.
+	if err := os.Remove(filepath.Join(r.dir, manifestFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From 9871feca848d8ab6e3fc6ce0306fa6c9fd230f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 19/59] fix: find the existing indexes of any dbpath, and only
 directories

---
 searcher/searcher.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 8717750..6969a4d 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strings"
 	"sync"
 	"time"
 
@@ -217,14 +218,18 @@ func nextIndexDir(dbpath string) string {
 // Read the refs associated with each of the index dirs
 // in the given dbpath.
 func findExistingRefs(dbpath string) (*foundRefs, error) {
-	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))
-	if err != nil {
+	files, err := ioutil.ReadDir(dbpath)
+	if err != nil && !os.IsNotExist(err) {
 		return nil, err
 	}
 
 	var refs []*index.IndexRef
-	for _, dir := range dirs {
-		r, _ := index.Read(dir)
+	for _, file := range files {
+		if !file.IsDir() || !strings.HasPrefix(file.Name(), "idx-") {
+			continue
+		}
+
+		r, _ := index.Read(filepath.Join(dbpath, file.Name()))
 		refs = append(refs, r)
 	}
 
-- 
2.43.0


From 81ee0bb0a8565578d7c4728191ec2af63e6f8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 20/59] fix: determine the auto-generated files of every new
 revision

---
 searcher/searcher.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 6969a4d..1af04a0 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -351,6 +351,14 @@ func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
 	return s, nil
 }
 
+// The files of the working directory that are to be marked as auto-generated.
+func autoGeneratedFiles(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) []string {
+	if len(repo.AutoGeneratedFiles) > 0 {
+		return repo.AutoGeneratedFiles
+	}
+	return wd.AutoGeneratedFiles(vcsDir)
+}
+
 // Update the vcs and reindex the given repo.
 func updateAndReindex(
 	s *Searcher,
@@ -379,6 +387,7 @@ func updateAndReindex(
 	}
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
+	opt.AutoGeneratedFiles = autoGeneratedFiles(repo, wd, vcsDir)
 	idx, err := buildAndOpenIndex(
 		opt,
 		dbpath,
@@ -422,17 +431,10 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
 	opt := &index.IndexOptions{
 		ExcludeDotFiles:    repo.ExcludeDotFiles,
 		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
+		AutoGeneratedFiles: autoGeneratedFiles(repo, wd, vcsDir),
 	}
 
 	var idxDir string
-- 
2.43.0


From d33c84154d46db53bc9e823294585aaee1df00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 21/59] fix: do not reuse an index that was built with other
 options

---
 index/index.go       | 23 +++++++++++++++++++++++
 searcher/searcher.go | 10 +++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/index/index.go b/index/index.go
index 569be7e..f0e308e 100644
--- a/index/index.go
+++ b/index/index.go
@@ -82,12 +82,33 @@ type IndexRef struct {
 	Time               time.Time
 	dir                string
 	AutoGeneratedFiles []string
+	ExcludeDotFiles    bool
+	SpecialFiles       []string
 }
 
 func (r *IndexRef) Dir() string {
 	return r.dir
 }
 
+// BuiltWith tells whether the index was built with these options.
+func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {
+	return r.ExcludeDotFiles == opt.ExcludeDotFiles &&
+		equalStrings(r.SpecialFiles, opt.SpecialFiles) &&
+		equalStrings(r.AutoGeneratedFiles, opt.AutoGeneratedFiles)
+}
+
+func equalStrings(a, b []string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i, n := 0, len(a); i < n; i++ {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (r *IndexRef) writeManifest() error {
 	w, err := os.Create(filepath.Join(r.dir, manifestFilename))
 	if err != nil {
@@ -543,6 +564,8 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (ref *IndexRef, err err
 		Time:               time.Now(),
 		dir:                dst,
 		AutoGeneratedFiles: opt.AutoGeneratedFiles,
+		ExcludeDotFiles:    opt.ExcludeDotFiles,
+		SpecialFiles:       opt.SpecialFiles,
 	}
 
 	if err := r.writeManifest(); err != nil {
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 1af04a0..978827d 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -73,16 +73,16 @@ func (l limiter) Release() {
 }
 
 /**
- * Claim an Index ref for the repo url and rev for reuse, returns nil if no
- * such ref exists that is not claimed already. This ensures the ref will not
+ * Claim an Index ref for the repo url and rev, built with the given options,
+ * for reuse, returns nil if no such ref exists that is not claimed already. This ensures the ref will not
  * be garbage collected at the end of startup, nor be used by another repo.
  */
-func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.IndexRef {
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
 			r.claimed[ref] = true
 			return ref
 		}
@@ -438,7 +438,7 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.claim(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
-- 
2.43.0


From 382029a3f0b620b7f356194c6a0562118707f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 22/59] fix: do not let repositories with the same URL use
 their working copy at the same time

---
 searcher/searcher.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 978827d..50844e6 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -285,6 +285,27 @@ func vcsDirFor(repo *config.Repo) string {
 	return fmt.Sprintf("vcs-%s", hashFor(repo.Url))
 }
 
+// The working directories are shared by repos with the same URL (which may use
+// different refs of it), these locks let only one of them use it at a time.
+var (
+	vcsDirLocks    = map[string]*sync.Mutex{}
+	vcsDirLocksLck sync.Mutex
+)
+
+// Wait for, and take, the lock of a working directory.
+func lockVcsDir(vcsDir string) *sync.Mutex {
+	vcsDirLocksLck.Lock()
+	lck := vcsDirLocks[vcsDir]
+	if lck == nil {
+		lck = &sync.Mutex{}
+		vcsDirLocks[vcsDir] = lck
+	}
+	vcsDirLocksLck.Unlock()
+
+	lck.Lock()
+	return lck
+}
+
 func init() {
 	rand.Seed(time.Now().UnixNano())
 }
@@ -374,6 +395,10 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	// the index must be built before another repository changes the working directory
+	lck := lockVcsDir(vcsDir)
+	defer lck.Unlock()
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -426,6 +451,9 @@ func newSearcher(
 	}
 
 
+	lck := lockVcsDir(vcsDir)
+	defer lck.Unlock()
+
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From dbda811bb25fe616be1fed7c43366e83f9a94a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 23/59] fix: answer an excludes request for an unknown
 repository

---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..0a6079a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		searcher := idx[repo]
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From f4b4b07780eb04d1cc1438714f86261275afcc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 24/59] fix: watch the directory that chained or relative
 symbolic links lead to

---
 vcs/local.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index 129edde..e9c352c 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -70,11 +71,9 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 		return dir[idx+4:], nil
 	}
 
-	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	// Resolve the symbolic link, which may be relative or lead to further ones
+	if s, err := filepath.EvalSymlinks(dir); err == nil {
+		dir = s
 	}
 
 	// Hash all files in the directory
-- 
2.43.0


From 706c0717d0d7b65c78dbd5490eb2665cc945d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 25/59] fix: watch directories that contain special files,
 links or odd filenames

---
 vcs/local.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index e9c352c..46f371a 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -4,7 +4,6 @@ import (
 	"crypto/sha1"
 	"encoding/hex"
 	"encoding/json"
-	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -39,15 +38,24 @@ func newLocal(b []byte) (Driver, error) {
 // Adapted from: https://github.com/golang/mod/blob/ad6fd61f94f8fdf6926f5dee6e45bdd13add2f9f/sumdb/dirhash/hash.go#L44
 // The original function returns a base64 encoded string and uses the (slower) SHA256 algorithm. For our purposes
 // SHA1 is good enough, since all we really need is a checksum to signal something changed
-func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, error) {
+// Unlike it, this does not open anything but regular files and accepts every filename.
+func myHash(dir string, files []string) (string, error) {
 	h := sha1.New()
 	files = append([]string(nil), files...)
 	sort.Strings(files)
 	for _, file := range files {
-		if strings.Contains(file, "\n") {
-			return "", errors.New("dirhash: filenames with newlines are not supported")
+		path := filepath.Join(dir, file)
+		fi, err := os.Lstat(path)
+		if err != nil {
+			return "", err
+		}
+		if !fi.Mode().IsRegular() {
+			// these are not indexed, all that matters is what they are
+			target, _ := os.Readlink(path)
+			fmt.Fprintf(h, "%s %q  %q\n", fi.Mode().Type(), target, file)
+			continue
 		}
-		r, err := open(file)
+		r, err := os.Open(path)
 		if err != nil {
 			return "", err
 		}
@@ -57,7 +65,7 @@ func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, e
 		if err != nil {
 			return "", err
 		}
-		fmt.Fprintf(h, "%x  %s\n", hf.Sum(nil), file)
+		fmt.Fprintf(h, "%x  %q\n", hf.Sum(nil), file)
 	}
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
@@ -78,8 +86,11 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	hash, err := dirhash.HashDir(dir, "", myHash)
-	return hash, err
+	files, err := dirhash.DirFiles(dir, "")
+	if err != nil {
+		return "", err
+	}
+	return myHash(dir, files)
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From f20fdd4f7215fc78c6ff08ae34c36e0a81b96163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 26/59] fix: fetch a git ref under a name that nothing else can
 have

A tag or a file named origin/<ref>, or an earlier ref of which the new one is
a directory, kept the working copy at an old commit.
---
 vcs/git.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..66a9410 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"net/url"
 	"os/exec"
 	"path/filepath"
 	"regexp"
@@ -91,14 +92,17 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 func (g *GitDriver) Pull(dir string) (string, error) {
 	targetRef := g.targetRef(dir)
 
+	// What is fetched gets a name that neither a tag nor a file of the repo
+	// can have, nor one that conflicts with that of another ref.
+	localRef := fmt.Sprintf("refs/hound/%s", url.PathEscape(targetRef))
+
 	if _, err := run("git fetch", dir,
 		"git",
 		"fetch",
-		"--prune",
 		"--no-tags",
 		"--depth", "1",
 		"origin",
-		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
+		fmt.Sprintf("+%s:%s", targetRef, localRef)); err != nil {
 		return "", err
 	}
 
@@ -106,7 +110,8 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"git",
 		"reset",
 		"--hard",
-		fmt.Sprintf("origin/%s", targetRef)); err != nil {
+		localRef,
+		"--"); err != nil {
 		return "", err
 	}
 
-- 
2.43.0


From abbed5d30792f3620026cd9d45b8e2548269b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 27/59] fix: fall back to the default git ref when the remote's
 HEAD is unknown

---
 vcs/git.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 66a9410..2fb30a8 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -16,6 +16,9 @@ import (
 const defaultRef = "master"
 const autoGeneratedAttribute = "linguist-generated"
 
+// What git shows when the remote's HEAD does not name an existing branch.
+const unknownHeadBranch = "(unknown)"
+
 var headBranchRegexp = regexp.MustCompile(`HEAD branch: (?P<branch>.+)`)
 
 func init() {
@@ -221,7 +224,7 @@ func (d *headBranchDetector) detectRef(dir string) string {
 	}
 
 	matches := headBranchRegexp.FindStringSubmatch(output)
-	if len(matches) != 2 {
+	if len(matches) != 2 || matches[1] == unknownHeadBranch {
 		log.Printf(
 			"could not determine target ref in %s. Will fall back to default ref %s",
 			dir,
-- 
2.43.0


From 6dab0923a7f3e1ce828541c76677f33c2161bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 28/59] fix: do not crash on null repos and null vcs-configs in
 the config file

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index c978c00..42d024b 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 )
@@ -147,6 +148,10 @@ func mergeVCSConfigs(cfg *Config) error {
 
 	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
+		if configBytes == nil {
+			continue
+		}
+
 		var configVals map[string]interface{}
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
@@ -212,7 +217,10 @@ func (c *Config) LoadFromFile(filename string) error {
 		c.DbPath = path
 	}
 
-	for _, repo := range c.Repos {
+	for name, repo := range c.Repos {
+		if repo == nil {
+			return fmt.Errorf("config: repo %s has no options", name)
+		}
 		initRepo(repo)
 	}
 
-- 
2.43.0


From da07ca76c54a4208fb7aa730a5b1a357b8bcd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 29/59] fix: reject config files that have data after their end

---
 config/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 42d024b..1a14fcf 100644
--- a/config/config.go
+++ b/config/config.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -200,10 +201,16 @@ func (c *Config) LoadFromFile(filename string) error {
 	}
 	defer r.Close()
 
-	if err := json.NewDecoder(r).Decode(c); err != nil {
+	dec := json.NewDecoder(r)
+	if err := dec.Decode(c); err != nil {
 		return err
 	}
 
+	// a config file is one json value, anything after it would be ignored
+	if _, err := dec.Token(); err != io.EOF {
+		return fmt.Errorf("config: %s has data after its end", filename)
+	}
+
 	if c.Title == "" {
 		c.Title = defaultTitle
 	}
-- 
2.43.0


From ed4a6850b254520015308b37581ba64b257fd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 30/59] fix: document the real defaults of dbpath and
 exclude-dot-files

---
 docs/config-options.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/config-options.md b/docs/config-options.md
index 0a20ff3..1f92e68 100644
--- a/docs/config-options.md
+++ b/docs/config-options.md
@@ -15,7 +15,7 @@ ConfigOption | Description | Default Values
 :------ | :----- | :-----
 max-concurrent-indexers | defines the total number of indexers required to be used for indexing code | 2
 health-check-uri |  health check url for hound | `/healthz`
-dbpath | absolute file path where the `config.json` file exists| `data`
+dbpath | path of the directory that holds the repos and indexes. A relative path is resolved against the directory of the `config.json` file | the directory of the `config.json` file
 title | Title used for the application | Hound
 url-pattern | composed of base url and anchor values in form of key value pairs | n/a
 vcs-config | holds the version control config, default VCS used in Hound is git.Other options for VCS are svn,mercurial,bitbucket,hg, etc.Refer to `config-example.json` to get the list of vcs and usage. Below tables provide detailed options list of each type of vcs | git
@@ -54,5 +54,5 @@ These options are available for repos
 
 Options | Description | Default Values
 :------ | :--- | :-----
-exclude-dot-files | excludes filenames that start with dot|`true`
+exclude-dot-files | excludes filenames that start with dot|`false`
 auto-generated-files | marks filenames as autogenerated in UI| `[]` (for git, Hound checks for git attributes with the `linguist-generated` attribute)
-- 
2.43.0


From 9d1e16903be61b89eaac86519738e8c73efadac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 31/59] fix: escape the host in open_search.xml

---
 ui/assets/open_search.tpl.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/open_search.tpl.xml b/ui/assets/open_search.tpl.xml
index 9fc569f..5d63101 100644
--- a/ui/assets/open_search.tpl.xml
+++ b/ui/assets/open_search.tpl.xml
@@ -6,5 +6,5 @@
     <Tags>Hound</Tags>
     <Url type="text/html"
          method="get"
-         template="http://{{ .Host }}/?q={searchTerms}" />
+         template="http://{{ .Host | html }}/?q={searchTerms}" />
 </OpenSearchDescription>
-- 
2.43.0


From 913fe4a620df61f9d7c0f06779233e73011b0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 32/59] fix: clamp numbers that do not fit instead of ignoring
 or wrapping them

---
 api/api.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/api/api.go b/api/api.go
index 0a6079a..3c87485 100644
--- a/api/api.go
+++ b/api/api.go
@@ -120,9 +120,15 @@ func parseAsRepoList(v string, idx map[string]*searcher.Searcher) []string {
 	return repos
 }
 
+// A number that is too big to be represented is still a number: the nearest
+// value that strconv returns for it is to be clamped like any other.
+func isMalformed(err error) bool {
+	return err != nil && !errors.Is(err, strconv.ErrRange)
+}
+
 func parseAsUintValue(sv string, min, max, def uint) uint {
 	iv, err := strconv.ParseUint(sv, 10, 54)
-	if err != nil {
+	if isMalformed(err) {
 		return def
 	}
 	if max != 0 && uint(iv) > max {
@@ -136,7 +142,7 @@ func parseAsUintValue(sv string, min, max, def uint) uint {
 
 func parseAsIntValue(sv string, min, max, def int) int {
 	iv, err := strconv.ParseInt(sv, 10, 64)
-	if err != nil {
+	if isMalformed(err) {
 		return def
 	}
 	if max != 0 && int(iv) > max {
@@ -154,8 +160,8 @@ func parseRangeInt(v string, i *int) {
 		return
 	}
 
-	vi, err := strconv.ParseUint(v, 10, 64)
-	if err != nil {
+	vi, err := strconv.ParseUint(v, 10, strconv.IntSize-1)
+	if isMalformed(err) {
 		return
 	}
 
-- 
2.43.0


From b03e36706326569458c2d36f1953647b59c593c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 33/59] fix: do not crash on a repository whose url has its
 only slash at the start

The hound client derives the name to print from the url of a repository and
sliced the url with a negative length for one like "/foo".
---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index ef37bd3..5beda88 100644
--- a/client/client.go
+++ b/client/client.go
@@ -45,6 +45,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 69d26b2bfee327cc0b7cf19c552ef8fcfc282412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 34/59] fix: report the errors that the server answers a search
 with

The API answers a search that fails with {"Error": ...} and status 200. The
hound client ignored the Error and printed nothing, as for a search without
results.
---
 client/client.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 5beda88..81dfafc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -118,7 +119,22 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	// The API reports failed searches, e.g. for an invalid pattern, with an
+	// Error and status 200.
+	var data struct {
+		*Response
+		Error string
+	}
+	data.Response = r
+	if err := json.NewDecoder(res.Body).Decode(&data); err != nil {
+		return err
+	}
+
+	if data.Error != "" {
+		return errors.New(data.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
-- 
2.43.0


From bbcf9477b9503d8869979fb4364c124ef4d339a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 35/59] fix: report an error status of the repository list

LoadRepos decoded the body of any answer, so that an error with a JSON object
as its body counted as a list of repositories.
---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 81dfafc..2f2f259 100644
--- a/client/client.go
+++ b/client/client.go
@@ -145,6 +145,10 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 	}
 	defer res.Body.Close()
 
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("Status %d", res.StatusCode)
+	}
+
 	return json.NewDecoder(res.Body).Decode(&repos)
 }
 
-- 
2.43.0


From a368a731f9e5fe44c1727e7085b4306f3122ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 36/59] fix: refuse search responses with nulls instead of
 crashing on them

A null in place of the results of a repository, of a file or of a match was
decoded to a nil pointer that the presenter then dereferenced.
---
 client/client.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2f2f259..4682dfc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -96,6 +96,27 @@ func doHttpGet(cfg *Config, uri string) (*http.Response, error) {
 	return c.Do(req)
 }
 
+// The presenters rely on there being no nulls in a response.
+func checkResponse(r *Response) error {
+	errNull := errors.New("malformed response: unexpected null")
+	for _, res := range r.Results {
+		if res == nil {
+			return errNull
+		}
+		for _, file := range res.Matches {
+			if file == nil {
+				return errNull
+			}
+			for _, match := range file.Matches {
+				if match == nil {
+					return errNull
+				}
+			}
+		}
+	}
+	return nil
+}
+
 // Executes a search on the API running on host.
 func Search(r *Response, cfg *Config, pattern, repos, files string, context int, ignoreCase, stats bool) error {
 	u := fmt.Sprintf("http://%s/api/v1/search?%s",
@@ -134,7 +155,7 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return errors.New(data.Error)
 	}
 
-	return nil
+	return checkResponse(r)
 }
 
 // Load the list of repositories from the API running on host.
-- 
2.43.0


From 5e700e188c58836c16904924939fb20a0eb93f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 37/59] fix: do not crash on matches that are not in the order
 of their lines

A match that starts before the current block was merged into it at a negative
index.
---
 client/coalesce.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/coalesce.go b/client/coalesce.go
index 0c55794..e989f49 100644
--- a/client/coalesce.go
+++ b/client/coalesce.go
@@ -19,7 +19,7 @@ func startOfMatch(m *index.Match) int {
 }
 
 func matchIsInBlock(m *index.Match, b *Block) bool {
-	return startOfMatch(m) <= endOfBlock(b)
+	return startOfMatch(m) >= b.Start && startOfMatch(m) <= endOfBlock(b)
 }
 
 func matchToBlock(m *index.Match) *Block {
-- 
2.43.0


From 8dcb386329776dd7ff4b46f1de9cc56d38c1f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 38/59] fix: let the -host flag of the hound client win over
 the config files

The files were loaded over the value of the flag, so that with a host in
~/.hound the flag had no effect.
---
 cmds/hound/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmds/hound/main.go b/cmds/hound/main.go
index 9f947fa..fcb0813 100644
--- a/cmds/hound/main.go
+++ b/cmds/hound/main.go
@@ -113,6 +113,13 @@ func main() {
 		log.Panic(err)
 	}
 
+	// A host that was asked for explicitly wins over the configured one.
+	flag.Visit(func(f *flag.Flag) {
+		if f.Name == "host" {
+			cfg.Host = *flagHost
+		}
+	})
+
 	res, repos, err := client.SearchAndLoadRepos(&cfg,
 		flag.Arg(0),
 		*flagRepos,
-- 
2.43.0


From 7117db73799622cf8654bed51284801b76aae3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 39/59] fix: take the values of url patterns as they are

---
 ui/assets/js/common.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index ebd2f0f..211ca33 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -3,10 +3,12 @@ export function EscapeRegExp(regexp) {
 }
 
 export function ExpandVars(template, values) {
-    for (var name in values) {
-        template = template.replace('{' + name + '}', values[name]);
-    }
-    return template;
+    // In one pass, so that the values, e.g. paths, are taken as they are.
+    return template.replace(/{([^{}]*)}/g, function (placeholder, name) {
+        return Object.prototype.hasOwnProperty.call(values, name)
+            ? values[name]
+            : placeholder;
+    });
 };
 
 export function UrlParts(repo, path, line, rev) {
-- 
2.43.0


From 60a17a6f4715be74e17074c16821bc18c2953a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 40/59] fix: only replace the .wiki at the end of the url of a
 wiki

---
 ui/assets/js/common.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index 211ca33..e56f7f2 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -25,7 +25,7 @@ export function UrlParts(repo, path, line, rev) {
     // Determine if the URL passed is a GitHub wiki
     var wikiUrl = /\.wiki$/.exec(url);
     if (wikiUrl) {
-        url = url.replace(/\.wiki/, '/wiki')
+        url = url.replace(/\.wiki$/, '/wiki')
         path = path.replace(/\.md$/, '')
         anchor = '' // wikis do not support direct line linking
     }
-- 
2.43.0


From 59b60a47981771c36836b582c5b1d71620e1789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 41/59] fix: do not hang on patterns that match the empty
 string

The matches are also those in the whole line now, so that ^ only matches
at its start.
---
 ui/assets/js/hound.js | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index fbbea52..585eb03 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -705,22 +705,23 @@ var ContentFor = function (line, regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
-        buffer = [];
-
-    while (true) {
-        regexp.lastIndex = 0;
-        var m = regexp.exec(content);
-        if (!m) {
-            buffer.push(EscapeHtml(content));
-            break;
+        buffer = [],
+        end = 0,
+        m;
+
+    regexp.lastIndex = 0;
+    while ((m = regexp.exec(content)) !== null) {
+        // an empty match does not move lastIndex by itself
+        if (m[0] === "") {
+            regexp.lastIndex++;
+            continue;
         }
 
-        buffer.push(
-            EscapeHtml(content.substring(0, regexp.lastIndex - m[0].length))
-        );
+        buffer.push(EscapeHtml(content.substring(end, m.index)));
         buffer.push("<em>" + EscapeHtml(m[0]) + "</em>");
-        content = content.substring(regexp.lastIndex);
+        end = regexp.lastIndex;
     }
+    buffer.push(EscapeHtml(content.substring(end)));
     return buffer.join("");
 };
 
-- 
2.43.0


From 6e04f6b01976b7490c30382d83cc4e1dd2c0c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 42/59] fix: show the results of patterns that are no valid
 JavaScript

---
 ui/assets/js/hound.js | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 585eb03..e9fa229 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -384,10 +384,16 @@ var SearchBar = React.createClass({
         if (this.refs.lsearch.getDOMNode().checked) {
             regexp = EscapeRegExp(regexp);
         }
-        return new RegExp(
-            regexp,
-            this.refs.icase.getDOMNode().checked ? "ig" : "g"
-        );
+        try {
+            return new RegExp(
+                regexp,
+                this.refs.icase.getDOMNode().checked ? "ig" : "g"
+            );
+        } catch (e) {
+            // The server's syntax has patterns, e.g. (?i)foo, that JavaScript's
+            // does not have: the results are shown without highlighting.
+            return null;
+        }
     },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
@@ -701,7 +707,7 @@ EscapeHtml.e = document.createElement("div");
  * Produce html for a line using the regexp to highlight matches.
  */
 var ContentFor = function (line, regexp) {
-    if (!line.Match) {
+    if (!line.Match || !regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
-- 
2.43.0


From ff6792369bc124a375402f74c1a4a292424e4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 43/59] fix: do not crash the page on an empty query

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index e9fa229..0b470b4 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -155,7 +155,7 @@ var Model = {
         if (params.q == "") {
             _this.results = [];
             _this.resultsByRepo = {};
-            _this.didSearch.raise(_this, _this.Results);
+            _this.didSearch.raise(_this, _this.results);
             return;
         }
 
-- 
2.43.0


From b030ed74370a42aed3a6c4116a36f0f22903bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 44/59] fix: accept = and a lone % in the parameters of the url

---
 ui/assets/js/hound.js | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 0b470b4..2ba5050 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -17,6 +17,15 @@ var FormatNumber = function (t) {
     return b.join(",");
 };
 
+// Something that is not encoded properly, e.g. 100%, is taken as it is.
+var DecodeParam = function (s) {
+    try {
+        return decodeURIComponent(s);
+    } catch (e) {
+        return s;
+    }
+};
+
 var ParamsFromQueryString = function (qs, params) {
     params = params || {};
 
@@ -27,16 +36,16 @@ var ParamsFromQueryString = function (qs, params) {
     qs.substring(1)
         .split("&")
         .forEach(function (v) {
-            var pair = v.split("=");
-            if (pair.length != 2) {
+            var ix = v.indexOf("=");
+            if (ix < 0) {
                 return;
             }
 
             // Handle classic '+' representation of spaces, such as is used
             // when Hound is set up in Chrome's Search Engine Manager settings
-            pair[1] = pair[1].replace(/\+/g, " ");
+            var value = v.substring(ix + 1).replace(/\+/g, " ");
 
-            params[decodeURIComponent(pair[0])] = decodeURIComponent(pair[1]);
+            params[DecodeParam(v.substring(0, ix))] = DecodeParam(value);
         });
 
     return params;
-- 
2.43.0


From c2f5bcc51c2364366812a36aba78f28d931b5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 45/59] fix: encode the repositories in the url

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 2ba5050..2c0ea7c 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -1082,7 +1082,7 @@ var App = React.createClass({
             "&excludeFiles=" +
             encodeURIComponent(params.excludeFiles) +
             "&repos=" +
-            params.repos;
+            encodeURIComponent(params.repos);
         history.pushState({ path: path }, "", path);
     },
     render: function () {
-- 
2.43.0


From c809acc80d7ae47863c5999469b437e4080e7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 46/59] fix: search in the repositories that are shown as
 selected

Those of the url were shown as selected, but the next search was in all
repositories; going back did not restore the selection.
---
 ui/assets/js/hound.js | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 2c0ea7c..e2a8948 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -404,10 +404,29 @@ var SearchBar = React.createClass({
             return null;
         }
     },
+    getOptions: function () {
+        return Array.prototype.slice.call(
+            this.refs.repos.getDOMNode().options
+        );
+    },
+    getSelectedRepos: function () {
+        return this.getOptions()
+            .filter(function (option) {
+                return option.selected;
+            })
+            .map(function (option) {
+                return option.value;
+            });
+    },
+    setSelectedRepos: function (repos) {
+        this.getOptions().forEach(function (option) {
+            option.selected = repos.indexOf(option.value) >= 0;
+        });
+    },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
-        var repos = Model.ValidRepos(this.refs.repos.state.value);
+        var repos = Model.ValidRepos(this.getSelectedRepos());
         if (repos.length == Model.RepoCount()) {
             repos = [];
         }
@@ -1023,17 +1042,15 @@ var App = React.createClass({
         var _this = this;
         Model.didLoadRepos.tap(function (model, repos) {
             // If all repos are selected, don't show any selected.
-            if (
-                model.ValidRepos(_this.state.repos).length == model.RepoCount()
-            ) {
-                _this.setState({ repos: [] });
-            }
+            var selected = model.ValidRepos(_this.state.repos);
+            _this.refs.searchBar.setState({
+                repos: selected.length == model.RepoCount() ? [] : selected,
+            });
         });
 
         Model.didSearch.tap(function (model, results, stats) {
             _this.refs.searchBar.setState({
                 stats: stats,
-                repos: repos,
             });
 
             _this.refs.resultView.setState({
@@ -1061,6 +1078,7 @@ var App = React.createClass({
         window.addEventListener("popstate", function (e) {
             var params = ParamsFromUrl();
             _this.refs.searchBar.setParams(params);
+            _this.refs.searchBar.setSelectedRepos(params.repos.split(","));
             Model.Search(params);
         });
     },
-- 
2.43.0


From 3c41811c54f1982de8d926e56d5d0a7f802ed4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 47/59] fix: ignore the answers to earlier searches

---
 ui/assets/js/hound.js | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index e2a8948..0a68e8a 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -173,6 +173,11 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // The answer to an earlier search is of no use any more.
+                if (_this.params !== params) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -218,6 +223,10 @@ var Model = {
                 _this.didSearch.raise(_this, _this.results, _this.stats);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== params) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
@@ -225,6 +234,7 @@ var Model = {
 
     LoadMore: function (repo) {
         var _this = this,
+            search = this.params,
             results = this.resultsByRepo[repo],
             numLoaded = results.Matches.length,
             numNeeded = results.FilesWithMatch - numLoaded,
@@ -243,6 +253,10 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                if (_this.params !== search) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -253,6 +267,10 @@ var Model = {
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== search) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From ba960a914644da46371d4d783590ac9bcd960ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 48/59] fix: do not load the same matches twice

---
 ui/assets/js/hound.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 0a68e8a..218e305 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -241,6 +241,11 @@ var Model = {
             numToLoad = Math.min(2000, numNeeded),
             endAt = numNeeded == numToLoad ? "" : "" + numToLoad;
 
+        if (results.Loading) {
+            return;
+        }
+        results.Loading = true;
+
         _this.willLoadMore.raise(this, repo, numLoaded, numNeeded, numToLoad);
 
         var params = merge(this.params, {
@@ -253,6 +258,7 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                results.Loading = false;
                 if (_this.params !== search) {
                     return;
                 }
@@ -267,6 +273,7 @@ var Model = {
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
             error: function (xhr, status, err) {
+                results.Loading = false;
                 if (_this.params !== search) {
                     return;
                 }
-- 
2.43.0


From ccf52ebf5f237de7d01615e4d57d5f9e129640da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 49/59] fix: highlight what was searched for

The query in the form may have been edited since.
---
 ui/assets/js/hound.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 218e305..cd18a71 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -413,15 +413,15 @@ var SearchBar = React.createClass({
     submitQuery: function () {
         this.props.onSearchRequested(this.getParams());
     },
-    getRegExp: function () {
-        var regexp = this.refs.q.getDOMNode().value.trim();
-        if (this.refs.lsearch.getDOMNode().checked) {
+    getRegExp: function (params) {
+        var regexp = params.q;
+        if (ParamValueToBool(params.literal)) {
             regexp = EscapeRegExp(regexp);
         }
         try {
             return new RegExp(
                 regexp,
-                this.refs.icase.getDOMNode().checked ? "ig" : "g"
+                ParamValueToBool(params.i) ? "ig" : "g"
             );
         } catch (e) {
             // The server's syntax has patterns, e.g. (?i)foo, that JavaScript's
@@ -1080,7 +1080,7 @@ var App = React.createClass({
 
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: _this.refs.searchBar.getRegExp(model.params),
                 error: null,
             });
         });
@@ -1088,7 +1088,7 @@ var App = React.createClass({
         Model.didLoadMore.tap(function (model, repo, results) {
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: _this.refs.searchBar.getRegExp(model.params),
                 error: null,
             });
         });
-- 
2.43.0


From 1f6fdd5fa5e6203e51f502ce8246b84a6c7d6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 50/59] fix: show the excluded files of the repository that was
 chosen last

---
 ui/assets/js/excluded_files.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ui/assets/js/excluded_files.js b/ui/assets/js/excluded_files.js
index 1a38f9a..e8b579b 100644
--- a/ui/assets/js/excluded_files.js
+++ b/ui/assets/js/excluded_files.js
@@ -98,7 +98,8 @@ var FilterableExcludedFiles = React.createClass({
   },
 
   onRepoClick: function(repo) {
-    var _this = this;
+    var _this = this,
+        request = (_this.request = {});
     _this.setState({
       searching: true,
       repo: this.state.repos[repo],
@@ -108,6 +109,10 @@ var FilterableExcludedFiles = React.createClass({
       data: {repo: repo},
       type: 'json',
       success: function(data) {
+        // another repository may have been chosen since
+        if (_this.request !== request) {
+          return;
+        }
         _this.setState({ files: data, searching: false });
       },
       error: function(xhr, status, err) {
-- 
2.43.0


From 25d508a2f2d184a14db456084dbf5bab77c4597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 51/59] fix: remove the temporary files of an index whose build
 failed

---
 codesearch/index/write.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..91784ed 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -55,6 +55,8 @@ type IndexWriter struct {
 
 	inbuf []byte     // input buffer
 	main  *bufWriter // main index file
+
+	tempGone bool // the temporary files were removed
 }
 
 const npost = 64 << 20 / 8 // 64 MB worth of post entries
@@ -244,24 +246,38 @@ func (ix *IndexWriter) Flush() {
 	}
 	ix.main.writeString(trailerMagic)
 
-	os.Remove(ix.nameData.name)
 	for _, d := range ix.postData {
 		unmmap(d)  //nolint
 	}
-	for _, f := range ix.postFile {
-		f.Close()
-		os.Remove(f.Name())
-	}
-	os.Remove(ix.nameIndex.name)
-	os.Remove(ix.postIndex.name)
+	ix.removeTemp()
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
 	ix.main.flush()
 }
 
+// Close closes the index file. The temporary files are still there if the index
+// was not flushed, as its build failed.
 func (ix *IndexWriter) Close() {
 	ix.main.file.Close()
+	ix.removeTemp()
+}
+
+// removeTemp closes and removes the temporary files, unless that was done before.
+func (ix *IndexWriter) removeTemp() {
+	if ix.tempGone {
+		return
+	}
+	ix.tempGone = true
+
+	for _, b := range []*bufWriter{ix.nameData, ix.nameIndex, ix.postIndex} {
+		b.file.Close()
+		os.Remove(b.name)
+	}
+	for _, f := range ix.postFile {
+		f.Close()
+		os.Remove(f.Name())
+	}
 }
 
 func copyFile(dst, src *bufWriter) {
-- 
2.43.0


From d8eacdbc0518ee52323198687873eebb6876b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 52/59] fix: wait for git ls-files when git check-attr fails

---
 vcs/git.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 2fb30a8..66de534 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -184,6 +184,9 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 	out, err := attributesCmd.Output()
 
 	if err != nil {
+		// nothing reads the output of git ls-files any more, but it has to be waited for
+		pipe.Close()
+		filesCmd.Wait()  //nolint
 		log.Printf("Error occured when running git check-attr in %s: %s.", dir, err)
 		return files
 	}
-- 
2.43.0


From caf3e37d61a517f80f91a18937dc080e1d46440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:09 +0000
Subject: [PATCH 53/59] fix: do not take a cut-off copy of a file for its end

---
 index/grep.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/index/grep.go b/index/grep.go
index ca2ceba..8ae3e07 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -67,20 +67,23 @@ func (g *grepper) fillFrom(r io.Reader) ([]byte, error) {
 		g.buf = make([]byte, 1<<20)
 	}
 
+	// io.ReadFull does not tell the end of the file from a file that is cut off.
 	off := 0
 	for {
-		n, err := io.ReadFull(r, g.buf[off:])
-		if err == io.ErrUnexpectedEOF || err == io.EOF {
-			return g.buf[:off+n], nil
+		n, err := r.Read(g.buf[off:])
+		off += n
+		if err == io.EOF {
+			return g.buf[:off], nil
 		} else if err != nil {
 			return nil, err
 		}
 
 		// grow the storage
-		buf := make([]byte, len(g.buf)*2)
-		copy(buf, g.buf)
-		g.buf = buf
-		off += n
+		if off == len(g.buf) {
+			buf := make([]byte, len(g.buf)*2)
+			copy(buf, g.buf)
+			g.buf = buf
+		}
 	}
 }
 
-- 
2.43.0


From 9cf90174a7419d157c1d361a38067397c76f04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:56 +0000
Subject: [PATCH 54/59] fix: bound the memory that matching takes

---
 codesearch/regexp/match.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 5c73282..4c64c30 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"regexp/syntax"
 	"sort"
+	"unsafe"
 
 	"github.com/hound-search/hound/codesearch/sparse"
 )
@@ -21,6 +22,7 @@ import (
 type matcher struct {
 	prog      *syntax.Prog       // compiled program
 	dstate    map[string]*dstate // dstate cache
+	size      int                // approximate size of the dstate cache
 	start     *dstate            // start state
 	startLine *dstate            // start state for beginning of line
 	z1, z2    nstate             // two temporary nstates
@@ -33,6 +35,10 @@ type nstate struct {
 	flag    flags      // flags (TODO)
 }
 
+// maxCacheSize is the size at which the dstate cache is emptied. There can be
+// exponentially many states, and as many as there are bytes in the text.
+const maxCacheSize = 16 << 20
+
 // The flags record state about a position between bytes in the text.
 type flags uint32
 
@@ -127,11 +133,22 @@ func init() {
 // init initializes the matcher.
 func (m *matcher) init(prog *syntax.Prog) error {
 	m.prog = prog
-	m.dstate = make(map[string]*dstate)
 
 	m.z1.q.Init(uint32(len(prog.Inst)))
 	m.z2.q.Init(uint32(len(prog.Inst)))
 
+	m.reset()
+
+	return nil
+}
+
+// reset empties the dstate cache of all but the start states.
+func (m *matcher) reset() {
+	prog := m.prog
+	m.dstate = make(map[string]*dstate)
+	m.size = 0
+
+	m.z1.q.Reset()
 	m.addq(&m.z1.q, uint32(prog.Start), syntax.EmptyBeginLine|syntax.EmptyBeginText)
 	m.z1.flag = flagBOL | flagBOT
 	m.start = m.cache(&m.z1)
@@ -140,8 +157,6 @@ func (m *matcher) init(prog *syntax.Prog) error {
 	m.addq(&m.z1.q, uint32(prog.Start), syntax.EmptyBeginLine)
 	m.z1.flag = flagBOL
 	m.startLine = m.cache(&m.z1)
-
-	return nil
 }
 
 // stepEmpty steps runq to nextq expanding according to flag.
@@ -272,6 +287,7 @@ func (m *matcher) cache(z *nstate) *dstate {
 
 	d = &dstate{enc: enc}
 	m.dstate[enc] = d
+	m.size += int(unsafe.Sizeof(*d)) + len(enc)
 	d.matchNL = m.computeNext(d, '\n') == &dmatch
 	d.matchEOT = m.computeNext(d, endText) == &dmatch
 	return d
@@ -295,6 +311,9 @@ func (m *matcher) match(b []byte, beginText, endText bool) (end int) {
 				}
 				d1 = m.startLine
 			} else {
+				if m.size > maxCacheSize {
+					m.reset()
+				}
 				d1 = m.computeNext(d, int(c))
 			}
 			d.next[c] = d1
@@ -324,6 +343,9 @@ func (m *matcher) matchString(b string, beginText, endText bool) (end int) {
 				}
 				d1 = m.startLine
 			} else {
+				if m.size > maxCacheSize {
+					m.reset()
+				}
 				d1 = m.computeNext(d, int(c))
 			}
 			d.next[c] = d1
-- 
2.43.0


From a97bf9801234c715f7d2a78f565cf82db8d4e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 55/59] fix: do not take an interrupted git clone for a working
 directory

A clone that is killed leaves a part of a repository behind, which every later
start tried, in vain, to update. When it did not even have a .git yet, git
fetch and git reset --hard went up to a repository that the database directory
is in, and changed that one.
---
 vcs/git.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 66de534..5ac65c6 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log"
 	"net/url"
+	"os"
 	"os/exec"
 	"path/filepath"
 	"regexp"
@@ -137,7 +138,14 @@ func (g *GitDriver) targetRef(dir string) string {
 }
 
 func (g *GitDriver) Clone(dir, url string) (string, error) {
-	par, rep := filepath.Split(dir)
+	// The clone gets its name when it is complete, what is left of one that was
+	// interrupted must not be taken for a working directory.
+	tmp := dir + ".tmp"
+	if err := os.RemoveAll(tmp); err != nil {
+		return "", err
+	}
+
+	par, rep := filepath.Split(tmp)
 	cmd := exec.Command(
 		"git",
 		"clone",
@@ -151,6 +159,10 @@ func (g *GitDriver) Clone(dir, url string) (string, error) {
 		return "", err
 	}
 
+	if err := os.Rename(tmp, dir); err != nil {
+		return "", err
+	}
+
 	return g.Pull(dir)
 }
 
-- 
2.43.0


From e94de483b6c77ba3b89ba07884e717fc3d869a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:46 +0000
Subject: [PATCH 56/59] fix: do not let the locks of a killed git stop all
 later updates

A git fetch or git reset that is killed leaves its lock files behind. All later
ones failed then, which is only logged, and the old content was served forever.
---
 vcs/git.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 5ac65c6..5ae7918 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -93,6 +93,31 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 	return string(out), nil
 }
 
+// A git that was killed leaves its locks in the working directory, and no later
+// one gets past them. Nothing but this driver uses the directory.
+func removeLocks(dir string) error {
+	gitDir := filepath.Join(dir, ".git")
+	return filepath.Walk(gitDir, func(path string, info os.FileInfo, err error) error {
+		if os.IsNotExist(err) && path != gitDir {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if info.IsDir() {
+			if path == filepath.Join(gitDir, "objects") {
+				return filepath.SkipDir
+			}
+			return nil
+		}
+		// no ref has such a name
+		if strings.HasSuffix(path, ".lock") {
+			return os.Remove(path)
+		}
+		return nil
+	})
+}
+
 func (g *GitDriver) Pull(dir string) (string, error) {
 	targetRef := g.targetRef(dir)
 
@@ -100,6 +125,10 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 	// can have, nor one that conflicts with that of another ref.
 	localRef := fmt.Sprintf("refs/hound/%s", url.PathEscape(targetRef))
 
+	if err := removeLocks(dir); err != nil {
+		return "", err
+	}
+
 	if _, err := run("git fetch", dir,
 		"git",
 		"fetch",
-- 
2.43.0


From bb5b7c78ace837f92d8c7490a12289b981b1bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:46 +0000
Subject: [PATCH 57/59] fix: remove files that an interrupted git reset left in
 the working directory

They are not in the index of git, so no later reset removed them, and they
were indexed with every later revision.
---
 vcs/git.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 5ae7918..3bd2d1b 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -148,6 +148,14 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		return "", err
 	}
 
+	// A reset that was killed may have made files that git does not know of.
+	if _, err := run("git clean", dir,
+		"git",
+		"clean",
+		"-ffdxq"); err != nil {
+		return "", err
+	}
+
 	return g.HeadRev(dir)
 }
 
-- 
2.43.0


From 9608607aa5bfb61352a9157f66a1e0414f1996bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:46 +0000
Subject: [PATCH 58/59] fix: never fetch into, or reset, a repository above the
 working directory

When the .git of a working directory was broken, git went on to the directories
above it, such as the working copy that a relative dbpath is in.
---
 vcs/git.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 3bd2d1b..64fa9d1 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -53,12 +53,19 @@ func newGit(b []byte) (Driver, error) {
 	return &d, nil
 }
 
+// The environment in which git uses the working directory's own repository, and
+// never one of the directories above when there is something wrong with that.
+func ownRepoEnv() []string {
+	return append(os.Environ(), "GIT_DIR=.git")
+}
+
 func (g *GitDriver) HeadRev(dir string) (string, error) {
 	cmd := exec.Command(
 		"git",
 		"rev-parse",
 		"HEAD")
 	cmd.Dir = dir
+	cmd.Env = ownRepoEnv()
 	r, err := cmd.StdoutPipe()
 	if err != nil {
 		return "", err
@@ -81,6 +88,7 @@ func (g *GitDriver) HeadRev(dir string) (string, error) {
 func run(desc, dir, cmd string, args ...string) (string, error) {
 	c := exec.Command(cmd, args...)
 	c.Dir = dir
+	c.Env = ownRepoEnv()
 	out, err := c.CombinedOutput()
 	if err != nil {
 		log.Printf(
-- 
2.43.0


From 9795af0d81fc370f7d8d4a8ab687ee1c18c544e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 59/59] fix: a pull fails when git reset fails

It was reported as successful with the old revision, and what was left of the
working directory was indexed as that when there was no index of it yet.
---
 vcs/git.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 64fa9d1..46410bd 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -98,7 +98,7 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 			out, err)
 	}
 
-	return string(out), nil
+	return string(out), err
 }
 
 // A git that was killed leaves its locks in the working directory, and no later
@@ -137,15 +137,14 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		return "", err
 	}
 
-	if _, err := run("git fetch", dir,
+	// When the remote cannot be reached, what was fetched last is still good.
+	run("git fetch", dir,  //nolint
 		"git",
 		"fetch",
 		"--no-tags",
 		"--depth", "1",
 		"origin",
-		fmt.Sprintf("+%s:%s", targetRef, localRef)); err != nil {
-		return "", err
-	}
+		fmt.Sprintf("+%s:%s", targetRef, localRef))
 
 	if _, err := run("git reset", dir,
 		"git",
@@ -153,7 +152,14 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"--hard",
 		localRef,
 		"--"); err != nil {
-		return "", err
+		// With nothing fetched so far, it is what was cloned that is used.
+		if _, rerr := run("git rev-parse", dir,
+			"git",
+			"rev-parse",
+			"--verify",
+			localRef); rerr == nil {
+			return "", err
+		}
 	}
 
 	// A reset that was killed may have made files that git does not know of.
-- 
2.43.0

