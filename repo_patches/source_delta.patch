From 07e1193c6d0bbc55d7fe47cc684d33b1d932e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 01/18] fix: hold the snapshot files lock while appending a new
 snapshot

---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..64bda10 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// serialise with updateSnapshot, which rewrites the whole file from what it read
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From 3e9e16777f6b27e6b0cdf85544a47b9ac604222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 02/18] fix: matchers no longer modify the caller's JSON bytes

---
 snaps/matchJSON.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snaps/matchJSON.go b/snaps/matchJSON.go
index 3a40860..08a3c95 100644
--- a/snaps/matchJSON.go
+++ b/snaps/matchJSON.go
@@ -1,6 +1,7 @@
 package snaps
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -153,7 +154,8 @@ func validateJSON(input any) ([]byte, error) {
 			return nil, errInvalidJSON
 		}
 
-		return j, nil
+		// matchers edit the document in place, the caller's bytes must stay untouched
+		return bytes.Clone(j), nil
 	default:
 		return json.Marshal(input)
 	}
-- 
2.43.0


From c3f5973910f5a50809b3a51733d0b538e325e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 03/18] fix: report differences between texts that are not
 valid UTF-8

---
 snaps/diff.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..824a66a 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/gkampitakis/go-diff/diffmatchpatch"
 	"github.com/gkampitakis/go-snaps/internal/colors"
@@ -40,8 +41,11 @@ func hasNewLine(b []byte) bool {
 
 // shouldPrintHighlights checks if the two strings are going to be presented with
 // inline highlights
+//
+// inline highlights work on runes, so different invalid UTF-8 sequences would look the same
 func shouldPrintHighlights(a, b string) bool {
-	return !colors.NOCOLOR && a != "" && b != "" && isSingleline(a) && isSingleline(b)
+	return !colors.NOCOLOR && a != "" && b != "" && isSingleline(a) && isSingleline(b) &&
+		utf8.ValidString(a) && utf8.ValidString(b)
 }
 
 // Compare two sequences of lines; generate the delta as a unified diff.
-- 
2.43.0


From f34e69df445ef60794785b53e94325fdee2964c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 04/18] fix: MatchStandaloneJSON no longer changes the Config
 it is called on

---
 snaps/matchStandaloneJSON.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..d6dc1ff 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,12 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	cfg := *c
+	if cfg.extension == "" {
+		cfg.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&cfg, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From e37ec5db4be055c4b16686542b9268ba3aa0fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 05/18] fix: sorting without cleaning keeps obsolete snapshots

---
 snaps/clean.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..f68195d 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -251,8 +251,11 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				// when only sorting the obsolete snapshots stay in the file
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From 3b450b874b25c288f6e0193b4f05f9e68e1ee66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 06/18] fix: Clean recognises the snapshots of tests whose name
 does not start with Test

---
 snaps/clean.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index f68195d..6ef7db0 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,14 +117,16 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test-name> - number]
+//
+// the name can belong to any kind of test e.g. TestXxx, FuzzXxx or BenchmarkXxx
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ]
+	if b[0] != '[' || b[len(b)-1] != ']' {
 		return "", false
 	}
 
-- 
2.43.0


From 3e33ca3aef7a5e2e9bdbe5e18811d28839fd309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 07/18] fix: lines of a snapshot that look like an id no longer
 address another snapshot

---
 snaps/snapshot.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 64bda10..3ad9f51 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			// lines inside another snapshot are never ids, even if they look like one
+			if _, isID := getTestID(l); isID {
+				lineNumber += removeSnapshot(s)
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -287,6 +291,10 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			// lines inside another snapshot are never ids, even if they look like one
+			if _, isID := getTestID(b); isID {
+				copySnapshot(s, &updatedSnapFile)
+			}
 			continue
 		}
 
@@ -313,13 +321,28 @@ func overwriteFile(f *os.File, b []byte) error {
 	return err
 }
 
-func removeSnapshot(s *bufio.Scanner) {
+// removeSnapshot skips the rest of a snapshot and returns the number of skipped lines
+func removeSnapshot(s *bufio.Scanner) (lines int) {
 	for s.Scan() {
+		lines++
 		// skip until ---
 		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
 			break
 		}
 	}
+
+	return lines
+}
+
+// copySnapshot copies the rest of a snapshot
+func copySnapshot(s *bufio.Scanner, dst *bytes.Buffer) {
+	for s.Scan() {
+		dst.Write(s.Bytes())
+		dst.WriteByte('\n')
+		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+			break
+		}
+	}
 }
 
 func upsertStandaloneSnapshot(snapshot, snapPath string) error {
-- 
2.43.0


From c55cd8d38459976805866a4ac4e57e288a0c4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 08/18] fix: percent signs in test names and options no longer
 break the paths of standalone snapshots

---
 snaps/snapshot.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 3ad9f51..59a46e4 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -383,15 +383,26 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
 	}
 
+	callerDir := filepath.Dir(callerFilename)
+	if isStandalone {
+		dir, callerDir = escapeFormat(dir), escapeFormat(callerDir)
+	}
+
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
 	}
 
 	return snapPath, snapPathRel
 }
 
+// escapeFormat escapes s for the paths of standalone snapshots, they are the format of the
+// paths where the integer gets filled in
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
+}
+
 func constructFilename(c *Config, callerFilename, tName string, isStandalone bool) string {
 	filename := c.filename
 	if filename == "" {
@@ -404,11 +415,10 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 	}
 
 	if isStandalone {
-		filename += "_%d"
+		return escapeFormat(filename) + "_%d" + snapsExt + escapeFormat(c.extension)
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return filename + snapsExt + c.extension
 }
 
 func unescapeEndChars(s string) string {
-- 
2.43.0


From e501781b9e78fc08056f713c9c19c17b1be845f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 09/18] fix: Clean keeps snapshots that only some runs of a
 test matched with -count

---
 snaps/clean.go    | 10 +++++-----
 snaps/snapshot.go | 10 ++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 6ef7db0..8ed4a9d 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,21 +79,22 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// highest is already per test run, it doesn't need to be divided by -count
+	count := 1
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
+		standaloneTestsRegistry.highest,
 		count,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		usedFiles,
 		runOnly,
 		count,
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 59a46e4..385e1f7 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -131,9 +131,13 @@ func handleError(t testingT, err any) {
 // We track occurrence as in the same test we can run multiple snapshots
 // This also helps with keeping track with obsolete snaps
 // map[snap path]: map[testname]: <number of snapshots>
+//
+// running gets reset when a test ends, cleanup never does and highest is the highest number
+// running got to, so the snapshots of a test that ran more than once e.g. with -count.
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	highest map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +149,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.highest[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.highest[snapPath][testName] = max(c, s.highest[snapPath][testName])
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +172,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		highest: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +180,7 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	highest map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +188,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		highest: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +199,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.highest[snapPath] = max(c, s.highest[snapPath])
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 8c2d52a71a52087f919da4e4a812e98f38400c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 10/18] fix: match snapshot ids against -run the way go test
 does

---
 snaps/skip.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..b929846 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -76,8 +76,56 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !matchesRun(testName, runOnly)
+}
+
+// matchesRun checks if a test is selected by the -run flag the way `go test` does. The flag is a
+// list of alternatives separated by '|', where each '/' separated element is a regexp for
+// the element of the test name at the same level.
+func matchesRun(testName, runOnly string) bool {
+	names := strings.Split(testName, "/")
+
+alternatives:
+	for _, alternative := range splitRun(runOnly, '|') {
+		for i, pattern := range splitRun(alternative, '/') {
+			if i >= len(names) {
+				break
+			}
+			if matched, _ := regexp.MatchString(pattern, names[i]); !matched {
+				continue alternatives
+			}
+		}
+
+		return true
+	}
+
+	return false
+}
+
+// splitRun splits the -run flag by sep when it's not inside brackets or parentheses
+func splitRun(s string, sep byte) []string {
+	parts := []string{}
+	brackets, parens, start := 0, 0, 0
+
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\\':
+			i++
+		case c == '[':
+			brackets++
+		case c == ']':
+			brackets = max(brackets-1, 0)
+		case c == '(' && brackets == 0:
+			parens++
+		case c == ')' && brackets == 0:
+			parens--
+		case c == sep && brackets == 0 && parens == 0:
+			parts = append(parts, s[start:i])
+			start = i + 1
+		}
+	}
+
+	return append(parts, s[start:])
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From abe2b77e18dbed3d2c5507b477656fa448406b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 11/18] fix: Clean keeps unused files of tests that were
 skipped or not selected by -run

---
 snaps/clean.go |  2 +-
 snaps/skip.go  | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 8ed4a9d..bc8329a 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -197,7 +197,7 @@ func examineFiles(
 				continue
 			}
 
-			if isFileSkipped(dir, content.Name(), runOnly) {
+			if isFileSkipped(dir, content.Name(), runOnly) || hasSkippedTests(snapPath, runOnly) {
 				continue
 			}
 
diff --git a/snaps/skip.go b/snaps/skip.go
index b929846..d9c990f 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -4,7 +4,9 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -139,7 +141,8 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 	fset := token.NewFileSet()
 	file, err := parser.ParseFile(fset, testFilePath, nil, parser.ParseComments)
 	if err != nil {
-		return false
+		// not named after a test file, there is no way to tell which tests it belongs to
+		return true
 	}
 
 	for _, decls := range file.Decls {
@@ -157,3 +160,34 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 
 	return true
 }
+
+// hasSkippedTests checks if a file that wasn't used belongs to tests that didn't run, either because
+// its name is the one of a standalone snapshot of a skipped test or because it contains their snapshots.
+func hasSkippedTests(snapPath, runOnly string) bool {
+	for _, name := range skippedTests.values {
+		if strings.HasPrefix(filepath.Base(snapPath), strings.ReplaceAll(name, "/", "_")+"_") {
+			return true
+		}
+	}
+
+	f, err := os.Open(snapPath)
+	if err != nil {
+		return false
+	}
+	defer f.Close()
+
+	s := snapshotScanner(f)
+	for s.Scan() {
+		testID, match := getTestID(s.Bytes())
+		if !match {
+			continue
+		}
+		if testSkipped(testID, runOnly) {
+			return true
+		}
+
+		removeSnapshot(s)
+	}
+
+	return false
+}
-- 
2.43.0


From 4362b136f27f0059e3fb5ffd9b9c934c9cdec5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 12/18] fix: with -trimpath the location of snapshots does not
 depend on the working directory

---
 snaps/snapshot.go | 16 +++++++++-------
 snaps/utils.go    |  3 +++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 385e1f7..dc3c8f5 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -388,21 +388,23 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 
+	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		// the path of the caller says nothing about where the tests are
+		callerDir = startDir
+	}
+
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
-	callerDir := filepath.Dir(callerFilename)
 	if isStandalone {
 		dir, callerDir = escapeFormat(dir), escapeFormat(callerDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..9bcf8d9 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,9 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// startDir is where the tests started running, go test starts them in the directory of the
+	// package. A test can change the working directory later on.
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From d0c6352bcf284a8b9e0bb68c0824f06266525d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 13/18] fix: YAML paths through missing indexes or scalars
 count as missing paths

---
 match/internal/yaml/yaml.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..c219372 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -34,7 +34,9 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 
 	node, err := path.FilterFile(f)
 	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
+		// a path through a missing index or through a value that isn't a map
+		// or a sequence doesn't exist either
+		if errors.Is(err, yaml.ErrNotFoundNode) || errors.Is(err, yaml.ErrInvalidQuery) {
 			return path, nil, false, nil
 		}
 
-- 
2.43.0


From 9762e5bb94430156f88f1868093002e1de9ef929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 14/18] fix: matchers on YAML streams with empty or
 comment-only documents

---
 match/internal/yaml/yaml.go | 49 +++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index c219372..0d911b5 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -32,18 +32,22 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
-	if err != nil {
+	for _, doc := range f.Docs {
+		node, err := path.FilterNode(doc.Body)
 		// a path through a missing index or through a value that isn't a map
 		// or a sequence doesn't exist either
 		if errors.Is(err, yaml.ErrNotFoundNode) || errors.Is(err, yaml.ErrInvalidQuery) {
-			return path, nil, false, nil
+			continue
+		}
+		if err != nil {
+			return path, nil, false, err
+		}
+		if node != nil {
+			return path, node, true, nil
 		}
-
-		return path, nil, false, err
 	}
 
-	return path, node, true, nil
+	return path, nil, false, nil
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
@@ -53,7 +57,19 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	for _, doc := range f.Docs {
+		// documents without the path stay as they are, e.g. empty ones
+		if node, err := path.FilterNode(doc.Body); err != nil || node == nil {
+			continue
+		}
+
+		d := &ast.File{Docs: []*ast.DocumentNode{doc}}
+		if err := path.ReplaceWithReader(d, bytes.NewReader(b)); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
@@ -61,7 +77,7 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
-		docs = append(docs, doc.String())
+		docs = append(docs, documentString(doc))
 	}
 
 	if addNewLine {
@@ -70,3 +86,20 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+func documentString(doc *ast.DocumentNode) string {
+	if doc.Body != nil {
+		return doc.String()
+	}
+
+	// an empty document has nothing but its markers
+	markers := []string{}
+	if doc.Start != nil {
+		markers = append(markers, doc.Start.Value)
+	}
+	if doc.End != nil {
+		markers = append(markers, doc.End.Value)
+	}
+
+	return strings.Join(markers, "\n")
+}
-- 
2.43.0


From d5856626a043368497ee6b8da8860cbfa794ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 15/18] fix: placeholders placed in YAML documents are read
 back as the same string

---
 match/internal/yaml/yaml.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 0d911b5..b63b1c2 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,6 +3,7 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/goccy/go-yaml"
@@ -52,7 +53,7 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 
 // Update marshals the value and replaces the file at the path provided with the new value.
 func Update(f *ast.File, path *yaml.Path, value interface{}) error {
-	b, err := yaml.Marshal(value)
+	b, err := marshal(value)
 	if err != nil {
 		return err
 	}
@@ -103,3 +104,25 @@ func documentString(doc *ast.DocumentNode) string {
 
 	return strings.Join(markers, "\n")
 }
+
+func marshal(value interface{}) ([]byte, error) {
+	b, err := yaml.Marshal(value)
+	if err != nil {
+		return nil, err
+	}
+
+	s, ok := value.(string)
+	if !ok {
+		return b, nil
+	}
+
+	// the encoder leaves some strings unquoted that are not read back as the same
+	// string, and block scalars lose their indentation when placed in a document
+	var decoded interface{}
+	err = yaml.Unmarshal(b, &decoded)
+	if err != nil || decoded != s || bytes.Count(b, []byte("\n")) > 1 {
+		return []byte(strconv.Quote(s)), nil
+	}
+
+	return b, nil
+}
-- 
2.43.0


From 2bf94ee11982418c1a81649ccb0a0f23a30fb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 16/18] fix: JSON matchers do not edit the bytes they are given
 in place

---
 match/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..32582c1 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -9,8 +9,7 @@ import (
 var (
 	errPathNotFound = errors.New("path does not exist")
 	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 38c106ea7322b6458797787c2e2dbbd1ec6904b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 17/18] fix: the placeholder of Type depends on the type only,
 not on the value

---
 match/type.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/match/type.go b/match/type.go
index 5f532e7..df21d61 100644
--- a/match/type.go
+++ b/match/type.go
@@ -3,6 +3,7 @@ package match
 import (
 	"bytes"
 	"fmt"
+	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
@@ -87,7 +88,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder[ExpectedType]()); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -121,7 +122,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 		j, err := sjson.SetBytesOptions(
 			json,
 			path,
-			typePlaceholder(r.Value()),
+			typePlaceholder[ExpectedType](),
 			setJSONOptions,
 		)
 		if err != nil {
@@ -144,6 +145,8 @@ func typeCheck[ExpectedType any](value interface{}) error {
 	return nil
 }
 
-func typePlaceholder(value interface{}) string {
-	return fmt.Sprintf("<Type:%T>", value)
+// typePlaceholder depends on the type only, a value can have any type that
+// implements an interface
+func typePlaceholder[ExpectedType any]() string {
+	return fmt.Sprintf("<Type:%v>", reflect.TypeOf((*ExpectedType)(nil)).Elem())
 }
-- 
2.43.0


From dad82db7a39a303b6ced50d3dfffd674595ae017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 18/18] fix: lines that look like an escaped end sequence are
 not taken for one

---
 snaps/snapshot.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index dc3c8f5..8ee9fd2 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -438,6 +438,8 @@ func unescapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == "/-/-/-/" {
 			ss[idx] = endSequence
+		} else if strings.HasPrefix(s, "/-/-/-/") {
+			ss[idx] = strings.TrimSuffix(s, "/")
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -448,6 +450,9 @@ func escapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == endSequence {
 			ss[idx] = "/-/-/-/"
+		} else if strings.HasPrefix(s, "/-/-/-/") {
+			// keep the line apart from an escaped end sequence
+			ss[idx] = s + "/"
 		}
 	}
 	return strings.Join(ss, "\n")
-- 
2.43.0

