From 00089aea6aaeb2ba1a869a4a122dfa824d8c6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 01/37] fix: report file that changes type in a merge as
 created, not at random as removed

---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..f83aa6d 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -557,6 +557,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// type change, git shows it as removal and creation of the same path, the file still exists
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From 2227ffcc9662cc9bb23c545f3d232040b45c53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 02/37] fix: keep binary file binary when only its mode changes

---
 ripsrc/history3/process/process.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index f83aa6d..b348ce6 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -441,6 +441,12 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 			blame = incblame.Apply(incblame.Blame{}, diff, commit.Hash, diff.PathOrPrev())
 		} else {
 			if parentBlame.IsBinary {
+				if len(diff.Hunks) == 0 {
+					// content is the same, for example only the mode was changed, file is still binary
+					s.repo[commit.Hash][diff.Path] = parentBlame
+					res.Files[diff.Path] = parentBlame
+					continue
+				}
 				bl, err := s.slowGitBlame(commit.Hash, diff.Path)
 				if err != nil {
 					return res, err
-- 
2.43.0


From 61397285624069ba3d71b66e432e30c93ba202cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 03/37] fix: git blame failure returns an error instead of a
 panic

---
 ripsrc/gitblame2/gitblame.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..c01bd2f 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -1,6 +1,7 @@
 package gitblame2
 
 import (
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -41,7 +42,7 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
-		panic(err)
+		return res, fmt.Errorf("git blame failed for file %v commit %v: %v", file, commitHash, err)
 	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
-- 
2.43.0


From faf18461aa398d887a8f7972d633b41c375c017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 04/37] fix: failed git command or unparsable log returns an
 error instead of a panic in a goroutine

---
 ripsrc/gitexec/gitexec.go          |  9 ++-------
 ripsrc/history3/process/process.go | 30 +++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..5ec0910 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -126,13 +126,8 @@ func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []st
 	r, wr := io.Pipe()
 	go func() {
 		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
-		if err != nil {
-			panic(err)
-		}
-		err = wr.Close()
-		if err != nil {
-			panic(err)
-		}
+		// reader gets the error after all of the output, or io.EOF if err is nil
+		wr.CloseWithError(err)
 	}()
 	return r, nil
 }
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index b348ce6..acd4639 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -159,15 +159,13 @@ func (s *Process) Run(resChan chan Result) error {
 	p := parser.New(r)
 
 	done := make(chan bool)
+	var parserErr error
 
 	go func() {
 		defer func() {
 			done <- true
 		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parserErr = p.Run(commits)
 	}()
 
 	drainAndExit := func() {
@@ -194,27 +192,33 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	<-done
+	if parserErr != nil {
+		// git output is not complete
+		return parserErr
+	}
+
 	if len(s.mergeParts) > 0 {
-		s.processGotMergeParts(resChan)
+		err := s.processGotMergeParts(resChan)
+		if err != nil {
+			return err
+		}
 	}
 
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
@@ -244,7 +248,10 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 			return nil
 		} else {
 			// finished
-			s.processGotMergeParts(resChan)
+			err := s.processGotMergeParts(resChan)
+			if err != nil {
+				return err
+			}
 			// new commit
 			// continue below
 		}
@@ -266,14 +273,15 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 	return nil
 }
 
-func (s *Process) processGotMergeParts(resChan chan Result) {
+func (s *Process) processGotMergeParts(resChan chan Result) error {
 	res, err := s.processMergeCommit(s.mergePartsCommit, s.mergeParts)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
 	s.mergeParts = nil
 	resChan <- res
+	return nil
 }
 
 type Timing struct {
-- 
2.43.0


From be03f13f374485144173fe3b99adb190afbb74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 05/37] fix: unexpected line in git log output is an error, not
 a crash

---
 ripsrc/history3/process/parser/parser.go | 41 +++++++++++++++---------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/ripsrc/history3/process/parser/parser.go b/ripsrc/history3/process/parser/parser.go
index aabb637..d31df1c 100644
--- a/ripsrc/history3/process/parser/parser.go
+++ b/ripsrc/history3/process/parser/parser.go
@@ -75,7 +75,16 @@ func (s *Parser) Run(res chan Commit) error {
 	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		line := scanner.Bytes()
-		s.line(line)
+		err := s.line(line)
+		if err != nil {
+			// when git failed in the middle of the output that is the actual reason
+			for scanner.Scan() {
+			}
+			if err := scanner.Err(); err != nil {
+				return err
+			}
+			return err
+		}
 	}
 	if err := scanner.Err(); err != nil {
 		return err
@@ -88,35 +97,35 @@ func (s *Parser) Run(res chan Commit) error {
 	return nil
 }
 
-func (s *Parser) line(b []byte) {
+func (s *Parser) line(b []byte) error {
 	switch s.state {
 	case stNotStarted:
-		s.parseCommitLine(b)
+		return s.parseCommitLine(b)
 	case stParentsNext:
 		if startsWith(b, mergePrefix) {
 		} else {
 			s.state = stSkipAuthor
-			s.line(b)
+			return s.line(b)
 		}
 	case stSkipAuthor:
 		s.state = stSkippingMessageDiffOrCommitNext
 	case stSkippingMessageDiffOrCommitNext:
 		if len(b) == 0 {
 			// commit message
-			return
+			return nil
 		}
 		if b[0] == ' ' {
 			// commit message
-			return
+			return nil
 		}
 		if s.isDiffStart(b) {
 			s.startDiff(b)
 		} else if startsWith(b, "commit ") {
 			s.endCommit()
 			s.state = stCommitNext
-			s.line(b)
+			return s.line(b)
 		} else {
-			panic(fmt.Errorf("stSkippingMessageDiffOrCommitNext unexpected line, got %s %s", hex.EncodeToString(b), b))
+			return fmt.Errorf("stSkippingMessageDiffOrCommitNext unexpected line, got %s %s", hex.EncodeToString(b), b)
 		}
 	case stInDiff:
 		if len(b) == 0 {
@@ -129,10 +138,11 @@ func (s *Parser) line(b []byte) {
 			s.diff = append(s.diff, '\n')
 		}
 	case stCommitNext:
-		s.parseCommitLine(b)
+		return s.parseCommitLine(b)
 	default:
-		panic(fmt.Errorf("unknown state %v", s.state))
+		return fmt.Errorf("unknown state %v", s.state)
 	}
+	return nil
 }
 
 func (s *Parser) startDiff(b []byte) {
@@ -160,10 +170,10 @@ func (s *Parser) isDiffStart(b []byte) bool {
 	return len(b) > 4 && string(b[0:4]) == "diff"
 }
 
-func (s *Parser) parseCommitLine(b []byte) {
+func (s *Parser) parseCommitLine(b []byte) error {
 	prefix := "commit "
 	if !startsWith(b, prefix) {
-		panic(fmt.Errorf("no '%v' prefix, line %s", prefix, b))
+		return fmt.Errorf("no '%v' prefix, line %s", prefix, b)
 	}
 	data := string(b[len(prefix):])
 	c := Commit{}
@@ -171,15 +181,16 @@ func (s *Parser) parseCommitLine(b []byte) {
 		c.Hash = data
 	} else {
 		parts := strings.SplitN(data, " ", 2)
-		if len(parts) != 2 {
-			panic(fmt.Errorf("invalid format for commit line %s got len parts %v", b, len(parts)))
+		fromPrefix := "(from "
+		if len(parts) != 2 || !strings.HasPrefix(parts[1], fromPrefix) || !strings.HasSuffix(parts[1], ")") {
+			return fmt.Errorf("invalid format for commit line %s got len parts %v", b, len(parts))
 		}
 		c.Hash = parts[0]
-		fromPrefix := "(from "
 		c.MergeDiffFrom = parts[1][len(fromPrefix) : len(parts[1])-1]
 	}
 	s.commit = c
 	s.state = stParentsNext
+	return nil
 }
 
 const mergePrefix = "Merge: "
-- 
2.43.0


From b92b3f830ccf2ce31aec5aeacf0fbc6d0a184212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 06/37] fix: resuming from a commit missing in checkpoint is an
 error, not a panic

---
 ripsrc/history3/process/process.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index acd4639..06fea0c 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -356,6 +356,10 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	if len(commit.Parents) > 1 {
 		panic("not a regular commit")
 	}
+	rerr = s.checkParentsLoaded(commit.Hash, commit.Parents)
+	if rerr != nil {
+		return
+	}
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commit.Hash)
 
@@ -493,6 +497,16 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	return
 }
 
+// checkParentsLoaded returns an error if data of any parent is not available, which happens when resuming from a commit that checkpoint does not have.
+func (s *Process) checkParentsLoaded(commitHash string, parents []string) error {
+	for _, p := range parents {
+		if _, ok := s.repo[p]; !ok {
+			return fmt.Errorf("data for parent commit is not available, commit: %v parent: %v", commitHash, p)
+		}
+	}
+	return nil
+}
+
 const deletedPrefix = "@@@del@@@"
 
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
@@ -506,12 +520,17 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 		s.timing.MergesCount++
 	}()
 
+	parentHashes := s.graph.Parents[commitHash]
+	rerr = s.checkParentsLoaded(commitHash, parentHashes)
+	if rerr != nil {
+		return
+	}
+
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commitHash)
 
 	//fmt.Println("processing merge commit", commitHash)
 
-	parentHashes := s.graph.Parents[commitHash]
 	parentCount := len(parentHashes)
 
 	res.Commit = commitHash
-- 
2.43.0


From c4aaa1e73daa297bad27f736ac86f608fdaf5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 07/37] fix: decode quoted paths in diffs

---
 ripsrc/history3/incblame/parse.go       | 15 ++++-
 ripsrc/history3/incblame/parse_utils.go | 89 ++++++++++++++++++++++++-
 2 files changed, 99 insertions(+), 5 deletions(-)

diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..7901594 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -122,11 +122,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = parseRenamePath(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = parseRenamePath(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
@@ -183,6 +183,17 @@ func (p *parser) line(b []byte) {
 	}
 }
 
+func parseRenamePath(name string) string {
+	if name[0] != '"' {
+		return name
+	}
+	res, rest, err := unquotePath([]byte(name))
+	if err != nil || len(rest) != 0 {
+		panic(fmt.Errorf("invalid path in rename, line %s", name))
+	}
+	return string(res)
+}
+
 func extractName(b []byte) string {
 	if len(b) <= 4 {
 		panic(fmt.Errorf("expected path name, line %s", string(b)))
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..40b81f2 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -108,14 +108,46 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	}
 	remPrefix := func(data []byte, pr string) (string, error) {
 		d2 := data
-		if len(d2) >= 2 && d2[0] == '"' && d2[len(d2)-1] == '"' {
-			d2 = d2[1 : len(d2)-1]
-		}
 		if len(d2) <= len(pr) || string(d2[0:len(pr)]) != pr {
 			return "", fmt.Errorf("invalid format for diff decl %s, removing prefix %s", diff, data)
 		}
 		return string(d2[len(pr):]), nil
 	}
+	// at least one of the names is quoted, a name containing a quote is always quoted itself, so first quote is always the start of the name
+	if q := bytes.IndexByte(data, '"'); q != -1 {
+		var from, to, rest []byte
+		var err error
+		if q == 0 {
+			from, rest, err = unquotePath(data)
+			if err != nil {
+				return "", "", fmt.Errorf("invalid format for diff decl %s %v", diff, err)
+			}
+			if len(rest) == 0 || rest[0] != ' ' {
+				return "", "", fmt.Errorf("invalid format for diff decl %s", diff)
+			}
+			to, rest = rest[1:], nil
+		} else {
+			if data[q-1] != ' ' {
+				return "", "", fmt.Errorf("invalid format for diff decl %s", diff)
+			}
+			from, to = data[0:q-1], data[q:]
+		}
+		if len(to) != 0 && to[0] == '"' {
+			to, rest, err = unquotePath(to)
+			if err != nil || len(rest) != 0 {
+				return "", "", fmt.Errorf("invalid format for diff decl %s %v", diff, err)
+			}
+		}
+		fromPath, err = remPrefix(from, "a/")
+		if err != nil {
+			return "", "", err
+		}
+		toPath, err = remPrefix(to, "b/")
+		if err != nil {
+			return "", "", err
+		}
+		return
+	}
 	// simple case with no spaces in name
 	if spaceCount == 1 {
 		i := bytes.IndexByte(data, ' ')
@@ -149,6 +181,57 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	return
 }
 
+// unquotePath decodes the path git quoted as C string at the start of data, returns the data after closing quote as rest.
+func unquotePath(data []byte) (path []byte, rest []byte, _ error) {
+	rerr := fmt.Errorf("invalid quoted path %s", data)
+	if len(data) == 0 || data[0] != '"' {
+		return nil, nil, rerr
+	}
+	for i := 1; i < len(data); i++ {
+		b := data[i]
+		if b == '"' {
+			return path, data[i+1:], nil
+		}
+		if b != '\\' {
+			path = append(path, b)
+			continue
+		}
+		i++
+		if i >= len(data) {
+			break
+		}
+		switch b := data[i]; b {
+		case 'a':
+			path = append(path, '\a')
+		case 'b':
+			path = append(path, '\b')
+		case 'f':
+			path = append(path, '\f')
+		case 'n':
+			path = append(path, '\n')
+		case 'r':
+			path = append(path, '\r')
+		case 't':
+			path = append(path, '\t')
+		case 'v':
+			path = append(path, '\v')
+		case '"', '\\':
+			path = append(path, b)
+		default:
+			if i+3 > len(data) {
+				return nil, nil, rerr
+			}
+			v, err := strconv.ParseUint(string(data[i:i+3]), 8, 8)
+			if err != nil {
+				return nil, nil, rerr
+			}
+			path = append(path, byte(v))
+			i += 2
+		}
+	}
+	return nil, nil, rerr
+}
+
 func countByte(data []byte, b byte) (res int) {
 	for _, v := range data {
 		if v == b {
-- 
2.43.0


From 0da52770048d87f78dd152c3adb758d3cade981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 08/37] fix: do not leave temporary files behind

---
 ripsrc/commitmeta/commitmeta.go    | 15 +++------------
 ripsrc/history3/process/process.go | 14 ++------------
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..71787a5 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,7 +6,7 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
+	"os"
 	"os/exec"
 	"path"
 	"regexp"
@@ -172,18 +172,9 @@ func (s *Processor) Run(res chan Commit) error {
 }
 
 func (s *Processor) gitLog() (io.ReadCloser, error) {
-	// empty file at tem location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
 	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+		// set an empty attributesFile
+		"-c", "core.attributesFile=" + os.DevNull,
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-c",
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 06fea0c..9501675 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -831,18 +830,9 @@ func (s *Process) RunGetAll() (_ []Result, err error) {
 }
 
 func (s *Process) gitLogPatches() (io.ReadCloser, error) {
-	// empty file at temp location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
 	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+		// set an empty attributesFile
+		"-c", "core.attributesFile=" + os.DevNull,
 		"-c", "diff.renameLimit=10000",
 		"log",
 		"-p",
-- 
2.43.0


From a5fb4218e8ac4567309bcf216203bd74e915d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 09/37] fix: results do not depend on git configuration of the
 user or repo

---
 ripsrc/commitmeta/commitmeta.go    |  9 ++----
 ripsrc/gitblame2/gitblame.go       |  7 +++--
 ripsrc/gitexec/config.go           | 49 ++++++++++++++++++++++++++++++
 ripsrc/history3/process/process.go |  8 ++---
 ripsrc/parentsgraph/parents.go     |  4 +--
 5 files changed, 62 insertions(+), 15 deletions(-)
 create mode 100644 ripsrc/gitexec/config.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 71787a5..c9e8662 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,7 +6,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"os"
 	"os/exec"
 	"path"
 	"regexp"
@@ -172,17 +171,15 @@ func (s *Processor) Run(res chan Commit) error {
 }
 
 func (s *Processor) gitLog() (io.ReadCloser, error) {
-	args := []string{
-		// set an empty attributesFile
-		"-c", "core.attributesFile=" + os.DevNull,
-		"-c", "diff.renameLimit=10000",
+	args := append(gitexec.ConfigArgs(),
 		"log",
 		"-c",
 		"--raw",
 		"--reverse",
 		"--numstat",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
-	}
+	)
+	args = append(args, gitexec.DiffArgs()...)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index c01bd2f..567df39 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -6,6 +6,8 @@ import (
 	"os/exec"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 type Line struct {
@@ -30,13 +32,14 @@ func (r Result) String() string {
 }
 
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
-	args := []string{
+	args := append(gitexec.ConfigArgs(),
 		"blame",
 		commitHash,
 		"--porcelain",
+		"--no-textconv",
 		"--",
 		file,
-	}
+	)
 	cmd := exec.Command("git", args...)
 	cmd.Dir = repoDir
 	cmd.Stderr = os.Stderr
diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
new file mode 100644
index 0000000..aaba912
--- /dev/null
+++ b/ripsrc/gitexec/config.go
@@ -0,0 +1,49 @@
+package gitexec
+
+import "os"
+
+// ConfigArgs returns arguments to pass before the name of the git command, so that the output does not depend on configuration of the user or repo.
+func ConfigArgs() []string {
+	config := []string{
+		// set an empty attributesFile
+		"core.attributesFile=" + os.DevNull,
+		"blame.ignoreRevsFile=",
+		"core.bigFileThreshold=512m",
+		"core.quotePath=true",
+		"i18n.logOutputEncoding=UTF-8",
+		"color.ui=false",
+		"color.diff=false",
+		"log.decorate=false",
+		"log.diffMerges=separate",
+		"log.showRoot=true",
+		"log.showSignature=false",
+		"diff.algorithm=default",
+		"diff.context=3",
+		"diff.indentHeuristic=true",
+		"diff.interHunkContext=0",
+		"diff.mnemonicPrefix=false",
+		"diff.noprefix=false",
+		"diff.relative=false",
+		"diff.renameLimit=10000",
+		"diff.renames=true",
+		"diff.submodule=short",
+		"diff.suppressBlankEmpty=false",
+	}
+	res := []string{}
+	for _, c := range config {
+		res = append(res, "-c", c)
+	}
+	return res
+}
+
+// DiffArgs returns arguments for git commands that show diffs, for options that are not possible to set using ConfigArgs.
+func DiffArgs() []string {
+	return []string{
+		"-O" + os.DevNull,
+		"--src-prefix=a/",
+		"--dst-prefix=b/",
+		"--ignore-submodules=none",
+		"--no-ext-diff",
+		"--no-textconv",
+	}
+}
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 9501675..6b080fb 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -830,10 +830,7 @@ func (s *Process) RunGetAll() (_ []Result, err error) {
 }
 
 func (s *Process) gitLogPatches() (io.ReadCloser, error) {
-	args := []string{
-		// set an empty attributesFile
-		"-c", "core.attributesFile=" + os.DevNull,
-		"-c", "diff.renameLimit=10000",
+	args := append(gitexec.ConfigArgs(),
 		"log",
 		"-p",
 		"-m",
@@ -841,7 +838,8 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=short",
-	}
+	)
+	args = append(args, gitexec.DiffArgs()...)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/parentsgraph/parents.go b/ripsrc/parentsgraph/parents.go
index 2040872..2c61d13 100644
--- a/ripsrc/parentsgraph/parents.go
+++ b/ripsrc/parentsgraph/parents.go
@@ -84,13 +84,13 @@ func (s *Graph) retrieveParents() error {
 }
 
 func (s *Graph) gitLogParents() (io.ReadCloser, error) {
-	args := []string{
+	args := append(gitexec.ConfigArgs(),
 		"log",
 		"-m",
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=format:%H@%P",
-	}
+	)
 
 	if s.opts.AllBranches {
 		args = append(args, "--all")
-- 
2.43.0


From 0aaada195045ff5fefd7aad2f8a5dee56f7fc400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 10/37] fix: read commit metadata and file names exactly,
 report errors of git log

---
 ripsrc/commitmeta/commitmeta.go | 324 +++++++++++++++++---------------
 1 file changed, 173 insertions(+), 151 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index c9e8662..5327c1a 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,8 +6,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"os/exec"
-	"path"
 	"regexp"
 	"strconv"
 	"strings"
@@ -154,6 +152,8 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxToken)
+	scanner.Split(scanNulTerminated)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -163,6 +163,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading commits from %v. %v", s.repoDir, err)
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
@@ -177,7 +180,8 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--raw",
 		"--reverse",
 		"--numstat",
-		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
+		"-z",
+		"--pretty=format:!SHA: %H%x00!Parents: %P%x00!Committer: %ce%x00!CName: %cn%x00!Author: %ae%x00!AName: %an%x00!Date: %aI%x00!Message: %s%x00",
 	)
 	args = append(args, gitexec.DiffArgs()...)
 
@@ -214,25 +218,25 @@ var (
 	emailRegex          = regexp.MustCompile("<(.*)>")
 	emailBracketsRegex  = regexp.MustCompile("^\\[(.*)\\]$")
 	datePrefix          = []byte("!Date: ")
+	newline             = []byte("\n")
 	space               = []byte(" ")
 	tab                 = []byte("\t")
 	removePrefix        = []byte("R")
 	copyPrefix          = []byte("C")
 	filenameMask        = regexp.MustCompile("^(100644|100755)$")
 	deletedMask         = []byte("000000")
-	renameRe            = regexp.MustCompile("(.*)\\{(.*) => (.*)\\}(.*)")
 )
 
-func toCommitStatus(name []byte) CommitStatus {
+func toCommitStatus(name []byte) (CommitStatus, error) {
 	switch string(name) {
 	case "A":
-		return GitFileCommitStatusAdded
+		return GitFileCommitStatusAdded, nil
 	case "D":
-		return GitFileCommitStatusRemoved
+		return GitFileCommitStatusRemoved, nil
 	case "M", "R", "C", "MM", "T":
-		return GitFileCommitStatusModified
+		return GitFileCommitStatusModified, nil
 	}
-	panic("unknown commit status: " + string(name))
+	return "", fmt.Errorf("unknown commit status: %s", name)
 }
 
 func parseDate(d string) (time.Time, error) {
@@ -258,43 +262,18 @@ func parseEmail(email string) string {
 	return ""
 }
 
-func getFilename(fn string) (string, string, bool) {
-	if renameRe.MatchString(fn) {
-		match := renameRe.FindStringSubmatch(fn)
-		// use path.Join to remove empty directories and to correct join paths
-		// must be path not filepath since it's always unix style in git and on windows
-		// filepath will use \
-		oldfn := path.Join(match[1], match[2], match[4])
-		newfn := path.Join(match[1], match[3], match[4])
-		return newfn, oldfn, true
-	}
-	// straight rename without parts
-	s := strings.Split(fn, " => ")
-	if len(s) > 1 {
-		return s[1], s[0], true
-	}
-	return fn, fn, false
-}
-
-var (
-	tabSplitter        = regexp.MustCompile("\\t")
-	spaceSplitter      = regexp.MustCompile("[ ]")
-	whitespaceSplitter = regexp.MustCompile("\\s+")
-
-	// allow our test case to change the executable
-	gitCommand, _ = exec.LookPath("git")
-)
+const mb = 1000 * 1000
+const maxToken = 100 * mb
 
-func regSplit(text string, splitter *regexp.Regexp) []string {
-	indexes := splitter.FindAllStringIndex(text, -1)
-	laststart := 0
-	result := make([]string, len(indexes)+1)
-	for i, element := range indexes {
-		result[i] = text[laststart:element[0]]
-		laststart = element[1]
+// scanNulTerminated is a split function for bufio.Scanner, used for output of git commands with -z option.
+func scanNulTerminated(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if i := bytes.IndexByte(data, 0); i >= 0 {
+		return i + 1, data[0:i], nil
+	}
+	if atEOF && len(data) != 0 {
+		return len(data), data, nil
 	}
-	result[len(indexes)] = text[laststart:len(text)]
-	return result
+	return 0, nil, nil
 }
 
 type parserState int
@@ -302,8 +281,7 @@ type parserState int
 const (
 	parserStateHeader parserState = iota
 	parserStateFiles
-	parserStateNumStats
-	parserStateDiff
+	parserStatePaths
 )
 
 type parser struct {
@@ -315,13 +293,16 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+
+	// entry is the raw or numstat entry for which paths follow as separate tokens
+	entry      string
+	entryPaths []string
+	wantPaths  int
 }
 
-func (p *parser) parse(line string) (bool, error) {
-	if line == "" {
-		return true, nil
-	}
-	buf := []byte(line)
+// parse processes the next NUL terminated token
+func (p *parser) parse(token string) (bool, error) {
+	buf := []byte(token)
 	for {
 		switch p.state {
 		case parserStateHeader:
@@ -364,6 +345,7 @@ func (p *parser) parse(line string) (bool, error) {
 				if len(parents) != 0 {
 					p.commit.Parents = strings.Split(parents, " ")
 				}
+				return true, nil
 			}
 			if bytes.HasPrefix(buf, datePrefix) {
 				d := bytes.TrimSpace(buf[len(datePrefix):])
@@ -395,113 +377,153 @@ func (p *parser) parse(line string) (bool, error) {
 				p.state = parserStateFiles
 				return true, nil
 			}
+			return false, fmt.Errorf("unexpected token in commit header %q", token)
 		case parserStateFiles:
-			if buf[0] == ':' {
-				// :100644␠100644␠d1a02ae0...␠a452aaac...␠M␉·pandora/pom.xml
-				tok1 := bytes.Split(buf, space)
-				mask := tok1[1]
-				// fmt.Println(p.commit.SHA, line, string(mask))
-				// if the mask isn't a regular file or deleted file, skip it
-				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
-					return true, nil
-				}
-				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
-				action := tok2[0]
-				paths := tok2[1:]
-				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
-					cf := &CommitFile{
-						Filename: fn,
-						Status:   toCommitStatus(action),
-					}
-					p.commit.Files[fn] = cf
-					p.filejobs <- cf
-				} else if bytes.HasPrefix(action, removePrefix) {
-					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
-					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
-					p.commit.Files[fromFn] = &CommitFile{
-						Status:      GitFileCommitStatusRemoved,
-						Filename:    fromFn,
-						Renamed:     true,
-						RenamedFrom: fromFn,
-						RenamedTo:   toFn,
-					}
-					cf := &CommitFile{
-						Status:      GitFileCommitStatusAdded,
-						Filename:    toFn,
-						Renamed:     true,
-						RenamedFrom: fromFn,
-						RenamedTo:   toFn,
-					}
-					p.commit.Files[toFn] = cf
-					p.filejobs <- cf
-				} else if bytes.HasPrefix(action, copyPrefix) {
-					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
-					cf := &CommitFile{
-						Status:     GitFileCommitStatusAdded,
-						Filename:   toFn,
-						Copied:     true,
-						CopiedFrom: fromFn,
-					}
-					p.commit.Files[toFn] = cf
-					p.filejobs <- cf
-				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
-					cf := &CommitFile{
-						Status:   toCommitStatus(action),
-						Filename: fn,
+			// git separates message from files with a newline
+			buf = bytes.TrimPrefix(buf, newline)
+			if len(buf) == 0 {
+				return true, nil
+			}
+			p.entry = string(buf)
+			p.entryPaths = nil
+			switch buf[0] {
+			case '!':
+				p.state = parserStateHeader
+				continue
+			case ':':
+				// :100644␠100644␠d1a02ae0...␠a452aaac...␠M␀pandora/pom.xml␀
+				p.wantPaths = 1
+				if buf[1] != ':' {
+					action := buf[bytes.LastIndexByte(buf, ' ')+1:]
+					if bytes.HasPrefix(action, removePrefix) || bytes.HasPrefix(action, copyPrefix) {
+						p.wantPaths = 2
 					}
-					p.commit.Files[fn] = cf
-					p.filejobs <- cf
 				}
+				p.state = parserStatePaths
 				return true, nil
 			}
-			p.state = parserStateNumStats
-			continue
-		case parserStateNumStats:
-			tok := bytes.Split(buf, tab)
-			// handle the file stats output
-			if len(tok) == 3 {
-				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
-				file := p.commit.Files[fn]
-				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
-				if file == nil {
-					// BUG: this needs fixing, next 4 lines is a quick workaround
-					// Special case for merge
-					// TODO: parse lines like this properly:
-					// ::100644 100644 100644 1dbddb0... 4cd4b38... 904d55b... MM      main.go
-					file = &CommitFile{}
-					file.Filename = fn
-					file.Status = GitFileCommitStatusModified
-					p.commit.Files[fn] = file
-
-					// this is OK, just means it was a special entry such as directory only, skip this one
-					// return true, nil
-				}
-				if tok[0] == "-" {
-					file.Binary = true
-				} else {
-					adds, _ := strconv.ParseInt(tok[0], 10, 32)
-					dels, _ := strconv.ParseInt(tok[1], 10, 32)
-					file.Additions = int(adds)
-					file.Deletions = int(dels)
-				}
-			} else {
-				p.state = parserStateDiff
-				continue
+			tok := bytes.SplitN(buf, tab, 3)
+			if len(tok) != 3 {
+				return false, fmt.Errorf("unexpected token in commit files %q", token)
 			}
-		case parserStateDiff:
-			if line[0:1] == "!" {
-				p.state = parserStateHeader
-				continue
+			if len(tok[2]) == 0 {
+				// rename or copy
+				// 1␉2␉␀from␀to␀
+				p.wantPaths = 2
+				p.state = parserStatePaths
+				return true, nil
 			}
+			return true, p.numStat(string(tok[0]), string(tok[1]), string(tok[2]))
+		case parserStatePaths:
+			p.entryPaths = append(p.entryPaths, token)
+			if len(p.entryPaths) != p.wantPaths {
+				return true, nil
+			}
+			p.state = parserStateFiles
+			if p.entry[0] == ':' {
+				return true, p.raw([]byte(p.entry), p.entryPaths)
+			}
+			tok := strings.SplitN(p.entry, "\t", 3)
+			return true, p.numStat(tok[0], tok[1], p.entryPaths[1])
+		}
+	}
+}
+
+// raw processes entry generated using --raw option
+func (p *parser) raw(buf []byte, paths []string) error {
+	if bytes.HasPrefix(buf, []byte("::")) {
+		// Special case for merge
+		// TODO: parse lines like this properly:
+		// ::100644 100644 100644 1dbddb0... 4cd4b38... 904d55b... MM      main.go
+		return nil
+	}
+	tok := bytes.Split(buf, space)
+	if len(tok) != 5 {
+		return fmt.Errorf("unexpected raw entry %q", buf)
+	}
+	mask := tok[1]
+	// if the mask isn't a regular file or deleted file, skip it
+	if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
+		return nil
+	}
+	action := tok[4]
+	if bytes.HasPrefix(action, removePrefix) && len(paths) == 2 {
+		// rename
+		fromFn := paths[0]
+		toFn := paths[1]
+		p.commit.Files[fromFn] = &CommitFile{
+			Status:      GitFileCommitStatusRemoved,
+			Filename:    fromFn,
+			Renamed:     true,
+			RenamedFrom: fromFn,
+			RenamedTo:   toFn,
+		}
+		cf := &CommitFile{
+			Status:      GitFileCommitStatusAdded,
+			Filename:    toFn,
+			Renamed:     true,
+			RenamedFrom: fromFn,
+			RenamedTo:   toFn,
 		}
-		break
+		p.commit.Files[toFn] = cf
+		p.filejobs <- cf
+		return nil
 	}
-	return true, nil
+	if bytes.HasPrefix(action, copyPrefix) && len(paths) == 2 {
+		// copy a file into a new file ... it's basically a new file
+		fromFn := paths[0]
+		toFn := paths[1]
+		cf := &CommitFile{
+			Status:     GitFileCommitStatusAdded,
+			Filename:   toFn,
+			Copied:     true,
+			CopiedFrom: fromFn,
+		}
+		p.commit.Files[toFn] = cf
+		p.filejobs <- cf
+		return nil
+	}
+	fn := paths[0]
+	status, err := toCommitStatus(action)
+	if err != nil {
+		return err
+	}
+	cf := &CommitFile{
+		Filename: fn,
+		Status:   status,
+	}
+	p.commit.Files[fn] = cf
+	p.filejobs <- cf
+	return nil
+}
+
+// numStat processes entry generated using --numstat option
+func (p *parser) numStat(adds, dels string, fn string) error {
+	file := p.commit.Files[fn]
+	if file == nil {
+		// BUG: this needs fixing, next 4 lines is a quick workaround
+		// Special case for merge
+		file = &CommitFile{}
+		file.Filename = fn
+		file.Status = GitFileCommitStatusModified
+		p.commit.Files[fn] = file
+
+		// this is OK, just means it was a special entry such as directory only, skip this one
+		// return true, nil
+	}
+	if adds == "-" {
+		file.Binary = true
+		return nil
+	}
+	a, err := strconv.ParseInt(adds, 10, 32)
+	if err != nil {
+		return fmt.Errorf("unexpected numstat for file %v %v", fn, err)
+	}
+	d, err := strconv.ParseInt(dels, 10, 32)
+	if err != nil {
+		return fmt.Errorf("unexpected numstat for file %v %v", fn, err)
+	}
+	file.Additions = int(a)
+	file.Deletions = int(d)
+	return nil
 }
-- 
2.43.0


From bc275a005c8276de8639bf80abb4186e606706c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 11/37] fix: report exact branch names whatever other refs
 exist

---
 ripsrc/branchmeta/branchmeta.go | 56 +++++++++++----------------------
 ripsrc/branchmeta/default.go    |  9 ++----
 2 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..8e49d20 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -3,7 +3,7 @@ package branchmeta
 import (
 	"bytes"
 	"context"
-	"errors"
+	"fmt"
 	"os/exec"
 	"sort"
 	"strings"
@@ -27,20 +27,24 @@ type BranchWithCommitTime struct {
 	CommitCommitterTime time.Time
 }
 
+const headsPrefix = "refs/heads/"
+const originPrefix = "refs/remotes/origin/"
+
 func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	defaultBranch, err := getDefaultBranch(opts)
 	if err != nil {
 		return nil, err
 	}
+	refPrefix := headsPrefix
+	if opts.UseOrigin {
+		refPrefix = originPrefix
+	}
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
-	}
-	if opts.UseOrigin {
-		args = append(args, "refs/remotes/origin")
-	} else {
-		args = append(args, "refs/heads")
+		// using full name, because the short one depends on other refs in the repo, name is last since it can contain the separator
+		"%(objectname)@@@%(committerdate)@@@%(refname)",
+		refPrefix,
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
@@ -49,34 +53,25 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	lines := bytes.Split(data, []byte("\n"))
 	for _, line := range lines {
 		line := string(line)
-		line = strings.TrimSpace(line)
 		if len(line) == 0 {
 			continue
 		}
-		if line[0] == '(' {
-			// not a branch, but a entry for detached head
-			// (HEAD detached at faeab7d)
-			continue
-		}
 		parts := strings.SplitN(line, "@@@", 3)
 		if len(parts) != 3 {
-			panic("unexpected format")
+			return nil, fmt.Errorf("unexpected format of git for-each-ref line %q", line)
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
+		date, err := gittime.Parse(parts[1])
 		if err != nil {
-			panic("invalid date format")
+			return nil, fmt.Errorf("invalid date format in git for-each-ref line %q", line)
 		}
 		b.CommitCommitterTime = date
-		if opts.UseOrigin {
-			if !strings.HasPrefix(b.Name, "origin/") {
-				panic("branch name does not have origin/ prefix")
-			}
-			b.Name = strings.TrimPrefix(b.Name, "origin/")
+		if !strings.HasPrefix(parts[2], refPrefix) {
+			return nil, fmt.Errorf("branch name does not have %v prefix, line %q", refPrefix, line)
 		}
-		if b.Name == "HEAD" {
+		b.Name = strings.TrimPrefix(parts[2], refPrefix)
+		if opts.UseOrigin && b.Name == "HEAD" {
 			continue
 		}
 		if !opts.IncludeDefault && b.Name == defaultBranch {
@@ -93,20 +88,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 }
 
 func getDefaultBranch(opts Opts) (string, error) {
-	args := []string{
-		"symbolic-ref",
-		"--short",
-		"HEAD",
-	}
-	data, err := execCommand("git", opts.RepoDir, args)
-	if err != nil {
-		return "", err
-	}
-	res := strings.TrimSpace(string(data))
-	if len(res) == 0 {
-		return "", errors.New("could not get the default branch name")
-	}
-	return res, nil
+	return headBranch(context.Background(), "git", opts.RepoDir)
 }
 
 func execCommand(command string, dir string, args []string) ([]byte, error) {
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..f6fd04b 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,15 +27,12 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	// using full name, because the short one depends on other refs in the repo
+	data, err := execCommand(gitCommand, repoDir, []string{"symbolic-ref", "HEAD"})
 	if err != nil {
-		return "", err
-	}
-	res := strings.TrimSpace(string(data))
-	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	return strings.TrimPrefix(strings.TrimSuffix(string(data), "\n"), headsPrefix), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From 4907f9a2e1e4f55268998f011cac8b2215fed6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 12/37] fix: FirstCommit of default branch is one commit when
 repo has many roots

---
 ripsrc/branches2/process.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..c39b251 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"runtime"
 	"strings"
 	"sync"
@@ -103,11 +104,16 @@ func New(opts Opts) *Process {
 }
 
 func (s *Process) getFirstCommit() (string, error) {
-	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD"})
+	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD", "--"})
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	// there could be multiple root commits, newest is first
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", errors.New("unexpected output from git rev-list")
+	}
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
-- 
2.43.0


From 84874ef24a46c9eb0124bd2b406c46ac02eb11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 13/37] fix: do not count commits already in the branch as
 behind

---
 ripsrc/branches2/behind_branch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..fadcc56 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,14 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// everything reachable from branch, including commits older than branch points
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 509fb3a95d2f463c667581209b79238064baaa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 14/37] fix: mismatch between history and commit metadata is an
 error, not a crash

---
 ripsrc/code.go      | 14 ++++++++++++--
 ripsrc/code_info.go |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ripsrc/code.go b/ripsrc/code.go
index 606e110..f1c28f3 100644
--- a/ripsrc/code.go
+++ b/ripsrc/code.go
@@ -142,21 +142,28 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 
 	gitRes := make(chan process.Result)
 	done := make(chan bool)
+	var codeErr error
 	go func() {
 		for r1 := range gitRes {
+			if codeErr != nil {
+				// drain remaining
+				continue
+			}
 			sha := r1.Commit
 
 			rc := CommitCode{}
 			rc.Blames = make(chan BlameResult)
 			commit, ok := s.commitMeta[sha]
 			if !ok {
-				panic(fmt.Errorf("commit not found in commit meta: %v", r1.Commit))
+				codeErr = fmt.Errorf("commit not found in commit meta: %v", r1.Commit)
+				continue
 			}
 			rc.Commit = commit
 
 			rs, err := s.codeInfoFiles(r1)
 			if err != nil {
-				panic(err)
+				codeErr = err
+				continue
 			}
 			res <- rc
 			for _, r := range rs {
@@ -185,6 +192,9 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 	if err != nil {
 		return err
 	}
+	if codeErr != nil {
+		return codeErr
+	}
 
 	s.GitProcessTimings = gitProcessor.Timing()
 
diff --git a/ripsrc/code_info.go b/ripsrc/code_info.go
index 064e4bb..c9027c9 100644
--- a/ripsrc/code_info.go
+++ b/ripsrc/code_info.go
@@ -33,7 +33,7 @@ func (s *Ripsrc) codeInfoFiles(blame process.Result) (res []BlameResult, _ error
 		//	panic(fmt.Errorf("File was in blame, but not stats output commit:%v path:%v", commit.SHA, p))
 		//}
 		if _, ok := blame.Files[p]; !ok {
-			panic(fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, p))
+			return nil, fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, p)
 		}
 	}
 
-- 
2.43.0


From e7bcb568421c9fd9a8c1483afa9c6cbcc80f75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 15/37] fix: set author and date in incrementals for lines of
 commits before the start

---
 ripsrc/code_info.go             |  2 +-
 ripsrc/commit_info.go           | 14 ++++++++++++++
 ripsrc/commitmeta/commitmeta.go | 11 +++++++----
 ripsrc/ripsrc.go                |  2 ++
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ripsrc/code_info.go b/ripsrc/code_info.go
index c9027c9..9db1a6d 100644
--- a/ripsrc/code_info.go
+++ b/ripsrc/code_info.go
@@ -119,7 +119,7 @@ func (s *Ripsrc) codeInfoFile(filePath string, bl *incblame.Blame, fileBytes []b
 
 	// assign lines to result
 	for _, line := range bl.Lines {
-		meta := s.commitMeta[line.Commit]
+		meta := s.lineCommitMeta[line.Commit]
 		line2 := &statsLine{}
 		line2.BlameLine = &BlameLine{}
 		line2.Name = meta.AuthorName
diff --git a/ripsrc/commit_info.go b/ripsrc/commit_info.go
index 6ab5bac..9eed2a1 100644
--- a/ripsrc/commit_info.go
+++ b/ripsrc/commit_info.go
@@ -18,5 +18,19 @@ func (s *Ripsrc) getCommitInfo(ctx context.Context, wantedBranchRefs []string) e
 		return err
 	}
 	s.commitMeta = res
+	s.lineCommitMeta = res
+
+	if s.opts.CommitFromIncl != "" {
+		// lines could be from the commits before the start
+		copts := commitmeta.Opts{}
+		copts.AllBranches = s.opts.AllBranches
+		copts.NoFiles = true
+		cm := commitmeta.New(s.opts.RepoDir, copts)
+		res, err := cm.RunMap()
+		if err != nil {
+			return err
+		}
+		s.lineCommitMeta = res
+	}
 	return nil
 }
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 5327c1a..0026993 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -26,6 +26,9 @@ type Opts struct {
 
 	// AllBranches set to true to process all branches. If false, processes commits reachable from HEAD only.
 	AllBranches bool
+
+	// NoFiles set to true to skip retrieving changed files.
+	NoFiles bool
 }
 
 type Processor struct {
@@ -176,14 +179,14 @@ func (s *Processor) Run(res chan Commit) error {
 func (s *Processor) gitLog() (io.ReadCloser, error) {
 	args := append(gitexec.ConfigArgs(),
 		"log",
-		"-c",
-		"--raw",
 		"--reverse",
-		"--numstat",
 		"-z",
 		"--pretty=format:!SHA: %H%x00!Parents: %P%x00!Committer: %ce%x00!CName: %cn%x00!Author: %ae%x00!AName: %an%x00!Date: %aI%x00!Message: %s%x00",
 	)
-	args = append(args, gitexec.DiffArgs()...)
+	if !s.opts.NoFiles {
+		args = append(args, "-c", "--raw", "--numstat")
+		args = append(args, gitexec.DiffArgs()...)
+	}
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index 9da0c47..0941269 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -61,6 +61,8 @@ type Ripsrc struct {
 	gitExecPrepared bool
 
 	commitMeta map[string]commitmeta.Commit
+	// lineCommitMeta has metadata of all commits that lines could be attributed to, without files
+	lineCommitMeta map[string]commitmeta.Commit
 
 	fileInfo *fileinfo.Process
 
-- 
2.43.0


From 48ba4346c04b6035397b18f6d45a444d9a0720a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 16/37] fix: damaged or truncated checkpoint is an error, not a
 crash or partial data

---
 ripsrc/history3/process/repo/msgp.go   | 19 +++++++++++++++++--
 ripsrc/history3/process/repo/reader.go | 14 +++++++-------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/ripsrc/history3/process/repo/msgp.go b/ripsrc/history3/process/repo/msgp.go
index f34b944..7da1f6f 100644
--- a/ripsrc/history3/process/repo/msgp.go
+++ b/ripsrc/history3/process/repo/msgp.go
@@ -2,6 +2,9 @@ package repo
 
 import (
 	"compress/gzip"
+	"fmt"
+	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 
@@ -41,7 +44,8 @@ func (s *msgWriter) Finish() error {
 	if err != nil {
 		return err
 	}
-	err = s.gw.Flush()
+	// writes gzip footer, reader needs it to detect truncated file
+	err = s.gw.Close()
 	if err != nil {
 		return err
 	}
@@ -67,9 +71,20 @@ func newMsgReader(dir string, kind string) (*msgReader, error) {
 		return nil, err
 	}
 	s.f = f
+	// check length and checksum before using the data
 	s.gr, err = gzip.NewReader(f)
+	if err == nil {
+		_, err = io.Copy(ioutil.Discard, s.gr)
+	}
+	if err == nil {
+		_, err = f.Seek(0, io.SeekStart)
+	}
+	if err == nil {
+		err = s.gr.Reset(f)
+	}
 	if err != nil {
-		return nil, err
+		f.Close()
+		return nil, fmt.Errorf("failed reading checkpoint file %v, err: %v", s.loc, err)
 	}
 	s.r = msgp.NewReader(s.gr)
 	return s, nil
diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..c38bca5 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -2,10 +2,13 @@ package repo
 
 import (
 	"fmt"
+	"io"
 	"io/ioutil"
 	"path/filepath"
 	"time"
 
+	"github.com/tinylib/msgp/msgp"
+
 	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
 	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo/disk"
 	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
@@ -100,7 +103,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			line.Commit = obj.Commit
 			v, ok := lineData[obj.LineDataPointer]
 			if !ok {
-				panic("line data")
+				return nil, fmt.Errorf("failed reading checkpoint, reference to missing line data in dir %v", dir)
 			}
 			line.Line = v
 			lines[obj.Pointer] = line
@@ -124,7 +127,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			for _, lp := range obj.LinePointers {
 				line, ok := lines[lp]
 				if !ok {
-					panic("line")
+					return nil, fmt.Errorf("failed reading checkpoint, reference to missing line in dir %v", dir)
 				}
 				bl.Lines = append(bl.Lines, line)
 			}
@@ -145,7 +148,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
-				panic("blame")
+				return nil, fmt.Errorf("failed reading checkpoint, reference to missing blame in dir %v", dir)
 			}
 			if _, ok := repo[obj.Commit]; !ok {
 				repo[obj.Commit] = map[string]*incblame.Blame{}
@@ -177,8 +180,5 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 }
 
 func msgIsEOF(err error) bool {
-	if err.Error() == "unexpected EOF" {
-		return true
-	}
-	return false
+	return msgp.Cause(err) == io.EOF
 }
-- 
2.43.0


From 491d3024131ee961b00119a6c1a1615d3727b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 17/37] fix: failed write of checkpoint is an error, not a
 crash

---
 ripsrc/history3/process/repo/writer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..847c3d3 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -71,22 +71,22 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	lineData := map[uint64]bool{}
 
-	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
+	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
 		r.Commit = commit
 		r.Path = filePath
 		r.BlamePointer = blamePointer
-		err := repoWr.Write(r)
-		if err != nil {
-			panic(err)
-		}
+		return repoWr.Write(r)
 	}
 
 	for ch, commit := range repo {
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-				writeRepoRow(ch, fp, blp)
+				err := writeRepoRow(ch, fp, blp)
+				if err != nil {
+					return err
+				}
 				continue
 			}
 			blamePointerC++
@@ -139,7 +139,10 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 				return err
 			}
 
-			writeRepoRow(ch, fp, blp)
+			err = writeRepoRow(ch, fp, blp)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From b525a323911178e38ca4fbbb0554ef0a0c638038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 18/37] fix: keep commits without files in checkpoint

---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go | 11 +++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index c38bca5..9742d2f 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -146,13 +146,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo.AddCommit(obj.Commit)
+			}
+			if obj.Path == "" && obj.BlamePointer == noBlamePointer {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				return nil, fmt.Errorf("failed reading checkpoint, reference to missing blame in dir %v", dir)
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 847c3d3..b325f47 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -17,6 +17,9 @@ const checkpointDirName = "checkpoint"
 
 const checkpointVersionFile = "checkpoint-version"
 
+// noBlamePointer is used for the rows of commits without files
+const noBlamePointer = 0
+
 type CheckpointWriter struct {
 	logger logger.Logger
 }
@@ -80,6 +83,14 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	}
 
 	for ch, commit := range repo {
+		if len(commit) == 0 {
+			// note that commit exists, it does not have any files
+			err := writeRepoRow(ch, "", noBlamePointer)
+			if err != nil {
+				return err
+			}
+			continue
+		}
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-- 
2.43.0


From 11dabcba93e4e8813a06e759d53b3d68c4829bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 19/37] fix: do not mix up lines with the same hash in
 checkpoint

---
 ripsrc/history3/process/repo/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index b325f47..4f2ca9a 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -72,7 +73,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
@@ -121,7 +122,13 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
+				written, ok := lineData[dp]
+				for ok && !bytes.Equal(written, l.Line) {
+					// different line has the same hash
+					dp++
+					written, ok = lineData[dp]
+				}
+				if !ok {
 					ld := &sLineData{
 						Pointer: dp,
 						Data:    l.Line}
@@ -129,7 +136,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 					if err != nil {
 						return err
 					}
-					lineData[dp] = true
+					lineData[dp] = l.Line
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From 9356ef6dc352d83c1e5b4b4f29d826187e168d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 20/37] fix: different git commands do not share the cache
 entry, do not cache incomplete output

---
 ripsrc/gitexec/gitexec.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 5ec0910..dde4182 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -15,14 +16,14 @@ import (
 )
 
 const cacheDir = "pp-git-cache"
-const casheVersion = "1"
+const casheVersion = "2"
 
 func ExecWithCache(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	//return ExecPiped(ctx, gitCommand, repoDir, args)
 
 	//start := time.Now()
 	headCommit := headCommit(ctx, gitCommand, repoDir)
-	cacheKey := hashString(casheVersion + "@" + strings.Join(args, "@") + headCommit)[0:32]
+	cacheKey := hashString(fmt.Sprintf("%v@%q@%v", casheVersion, args, headCommit))[0:32]
 
 	loc := filepath.Join(repoDir, cacheDir, cacheKey+".txt.gz")
 
@@ -32,7 +33,7 @@ func ExecWithCache(ctx context.Context, gitCommand string, repoDir string, args
 		return newGzipFileCloser(f)
 	} else {
 		if !os.IsNotExist(err) {
-			panic(fmt.Errorf("could not open file at location %v, err %v", loc, err))
+			return nil, fmt.Errorf("could not open file at location %v, err %v", loc, err)
 		}
 	}
 
@@ -41,13 +42,21 @@ func ExecWithCache(ctx context.Context, gitCommand string, repoDir string, args
 		return nil, fmt.Errorf("can't create the cache dir for repoDir: '%v' err: %v", repoDir, err)
 	}
 
-	err = execToFile(ctx, loc+".tmp", gitCommand, repoDir, args)
+	// unique name, the same command could be running concurrently
+	tmp, err := ioutil.TempFile(filepath.Dir(loc), cacheKey+".tmp")
 	if err != nil {
+		return nil, err
+	}
+
+	err = execToFile(ctx, tmp, gitCommand, repoDir, args)
+	if err != nil {
+		os.Remove(tmp.Name())
 		return nil, fmt.Errorf("can't write git command output to file repoDir: '%v' err: %v", repoDir, err)
 	}
 
-	err = os.Rename(loc+".tmp", loc)
+	err = os.Rename(tmp.Name(), loc)
 	if err != nil {
+		os.Remove(tmp.Name())
 		return nil, err
 	}
 
@@ -86,22 +95,21 @@ func newGzipFileCloser(f *os.File) (io.ReadCloser, error) {
 	return res, nil
 }
 
-func execToFile(ctx context.Context, loc string, gitCommand string, repoDir string, args []string) error {
-	f, err := os.Create(loc)
+func execToFile(ctx context.Context, f *os.File, gitCommand string, repoDir string, args []string) error {
 	defer f.Close()
-	if err != nil {
-		return err
-	}
 
 	gw := gzip.NewWriter(f)
-	defer gw.Close()
 
-	err = ExecIntoWriter(ctx, gw, gitCommand, repoDir, args)
+	err := ExecIntoWriter(ctx, gw, gitCommand, repoDir, args)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	err = gw.Close()
+	if err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func hashString(str string) string {
-- 
2.43.0


From ff5a84fa797bc915275cca9ed616a9d7cabe9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 21/37] fix: license with the same confidence is not selected
 at random

---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..0469e07 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// to have consistent result
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From b5aaf29b005a9c99f8e99234d18d4075d8ba7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 22/37] fix: do not search for repos inside of a bare repo

---
 ripsrc/pkg/gitrepos/gitrepos.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/pkg/gitrepos/gitrepos.go b/ripsrc/pkg/gitrepos/gitrepos.go
index ce2e7db..3600147 100644
--- a/ripsrc/pkg/gitrepos/gitrepos.go
+++ b/ripsrc/pkg/gitrepos/gitrepos.go
@@ -45,6 +45,7 @@ func IterDir(dir string, maxRecursion int, cb func(repo string) error) error {
 			if err != nil {
 				return err
 			}
+			return nil
 		}
 	}
 
-- 
2.43.0


From 65b9cf84256cc369de95972e6da5d94498a2cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 23/37] fix: exit with non-zero status on error

---
 ripsrc/cmd/cmdutils/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..3ea98b3 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
@@ -17,7 +18,6 @@ func ExitWithErrs(errs []error) {
 	}
 	if len(errs) == 1 {
 		ExitWithErr(errs[0])
-		return
 	}
 	for _, err := range errs {
 		fmt.Fprintln(color.Output, color.RedString("%v\n", err))
-- 
2.43.0


From b0426b7ed09d8449bb80b5d19226b3c863470448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 24/37] fix: unexpected line in parents log is an error, not a
 crash

---
 ripsrc/parentsgraph/parentsp/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ripsrc/parentsgraph/parentsp/parser.go b/ripsrc/parentsgraph/parentsp/parser.go
index 98347a3..425e9d8 100644
--- a/ripsrc/parentsgraph/parentsp/parser.go
+++ b/ripsrc/parentsgraph/parentsp/parser.go
@@ -3,6 +3,7 @@ package parentsp
 import (
 	"bufio"
 	"bytes"
+	"fmt"
 	"io"
 	"strings"
 )
@@ -30,6 +31,15 @@ func (s *Parser) Run() (Parents, error) {
 	for scanner.Scan() {
 		line := scanner.Bytes()
 		parts := bytes.Split(line, []byte("@"))
+		if len(parts) != 2 {
+			// when git failed in the middle of the output that is the actual reason
+			for scanner.Scan() {
+			}
+			if err := scanner.Err(); err != nil {
+				return nil, err
+			}
+			return nil, fmt.Errorf("invalid line in git log output %q", line)
+		}
 
 		commit := string(parts[0])
 		var parents []string
-- 
2.43.0


From 59933e134df7ccd1cdb210524cf6b7c086112f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 25/37] fix: file with the name of the removed files prefix was
 mixed up with a file removed in a merge

---
 ripsrc/history3/process/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 6b080fb..a3703ea 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -506,7 +506,8 @@ func (s *Process) checkParentsLoaded(commitHash string, parents []string) error
 	return nil
 }
 
-const deletedPrefix = "@@@del@@@"
+// deletedPrefix marks removed files, paths in git can not have NUL, so there are no files with the same prefix.
+const deletedPrefix = "\x00"
 
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
 	s.lastProcessedCommitHash = commitHash
-- 
2.43.0


From 04d2814e39de779e3306807225abb6610fd65da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 26/37] fix: last pattern of custom_patterns.txt was missing in
 exclusion list

---
 genignore.go                 | 9 ++++++---
 ripsrc/fileinfo/gitignore.go | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/genignore.go b/genignore.go
index 86d8937..109d8ad 100644
--- a/genignore.go
+++ b/genignore.go
@@ -50,12 +50,15 @@ func parseFile(filename string) ([]string, error) {
 	for {
 		line, err := b.ReadString('\n')
 		if err != nil {
-			if err == io.EOF {
+			if err != io.EOF {
+				return nil, err
+			}
+			if line == "" {
 				break
 			}
-			return nil, err
+			// last line without newline
 		}
-		line = strings.TrimSpace(line[0 : len(line)-1])
+		line = strings.TrimSpace(line)
 		if line == "" || line == "\n" || line[0] == '#' || line[0] == '!' || line[0] == '\t' {
 			continue
 		}
diff --git a/ripsrc/fileinfo/gitignore.go b/ripsrc/fileinfo/gitignore.go
index 8121c0b..814cdb2 100644
--- a/ripsrc/fileinfo/gitignore.go
+++ b/ripsrc/fileinfo/gitignore.go
@@ -4,4 +4,4 @@ package fileinfo
 
 import "regexp"
 
-var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$)`)
+var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$|\.parquet$)`)
-- 
2.43.0


From f295b80d3308118759bf30d76e4ffd02183726f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 27/37] fix: settings of the default diff driver changed
 results

---
 ripsrc/gitexec/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
index aaba912..d0bffb0 100644
--- a/ripsrc/gitexec/config.go
+++ b/ripsrc/gitexec/config.go
@@ -19,6 +19,8 @@ func ConfigArgs() []string {
 		"log.showSignature=false",
 		"diff.algorithm=default",
 		"diff.context=3",
+		"diff.default.algorithm=default",
+		"diff.default.binary=auto",
 		"diff.indentHeuristic=true",
 		"diff.interHunkContext=0",
 		"diff.mnemonicPrefix=false",
-- 
2.43.0


From cefac04d18c5dfbba17af52d4fdbdde339fef020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 28/37] fix: blame.ignoreRevsFile setting changed blame results

---
 ripsrc/gitblame2/gitblame.go | 2 ++
 ripsrc/gitexec/config.go     | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 567df39..d89b3bc 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -37,6 +37,8 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 		commitHash,
 		"--porcelain",
 		"--no-textconv",
+		// clears the list from configuration, setting blame.ignoreRevsFile does not, because git sorts these
+		"--ignore-revs-file=",
 		"--",
 		file,
 	)
diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
index d0bffb0..d39fb38 100644
--- a/ripsrc/gitexec/config.go
+++ b/ripsrc/gitexec/config.go
@@ -7,7 +7,6 @@ func ConfigArgs() []string {
 	config := []string{
 		// set an empty attributesFile
 		"core.attributesFile=" + os.DevNull,
-		"blame.ignoreRevsFile=",
 		"core.bigFileThreshold=512m",
 		"core.quotePath=true",
 		"i18n.logOutputEncoding=UTF-8",
-- 
2.43.0


From 7348f95a0414cd148d665f0102a3416356fa94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 29/37] fix: temporary files of a failed checkpoint write
 stayed behind

---
 ripsrc/history3/process/repo/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 4f2ca9a..416ae5e 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -43,6 +43,15 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	s.logger.Info("preparing to write", "len(commits)", len(repo))
 
 	tmpDir := filepath.Join(dir, "tmp")
+	err := s.write(repo, dir, tmpDir, lastCommit)
+	if err != nil {
+		os.RemoveAll(tmpDir)
+		return err
+	}
+	return nil
+}
+
+func (s *CheckpointWriter) write(repo Repo, dir string, tmpDir string, lastCommit string) error {
 	err := os.RemoveAll(tmpDir)
 	if err != nil {
 		return err
-- 
2.43.0


From 9a431eed547ac847c0b3468d9a5b29119310391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 30/37] fix: after a failed read of the commit graph the next
 call used an incomplete graph

---
 ripsrc/ripsrc.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index 0941269..ab71a6e 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -96,11 +96,16 @@ func (s *Ripsrc) buildCommitGraph(ctx context.Context) error {
 		return nil
 	}
 
-	s.commitGraph = parentsgraph.New(parentsgraph.Opts{
+	graph := parentsgraph.New(parentsgraph.Opts{
 		RepoDir:     s.opts.RepoDir,
 		AllBranches: s.opts.AllBranches,
 		Logger:      s.opts.Logger,
 	})
-
-	return s.commitGraph.Read()
+	err := graph.Read()
+	if err != nil {
+		// do not keep incomplete graph for the next call
+		return err
+	}
+	s.commitGraph = graph
+	return nil
 }
-- 
2.43.0


From ef1fcae17b0dfc612df1c63267c56b1c9a98d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:26 +0000
Subject: [PATCH 31/37] fix: blanks printed by the code command were the number
 of comments

---
 ripsrc/cmd/cmdcode/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripsrc/cmd/cmdcode/cmd.go b/ripsrc/cmd/cmdcode/cmd.go
index 04f3b43..0d07b30 100644
--- a/ripsrc/cmd/cmdcode/cmd.go
+++ b/ripsrc/cmd/cmdcode/cmd.go
@@ -116,7 +116,7 @@ func runOnRepo(ctx context.Context, wr io.Writer, opts Opts, repoDir string, glo
 						license = fmt.Sprintf("%v (%.0f%%)", color.RedString(blame.License.Name), 100*blame.License.Confidence)
 					}
 					timeSinceStartMin := int(time.Since(globalStart).Minutes())
-					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Comments, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
+					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Blanks, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
 
 				}
 			}
-- 
2.43.0


From 7864fa1e53e5466b7f5473531479241ace2ac2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 32/37] fix: log lines are written at once, not mixed with
 other output

---
 ripsrc/pkg/logger/logger.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ripsrc/pkg/logger/logger.go b/ripsrc/pkg/logger/logger.go
index f717566..6b12abe 100644
--- a/ripsrc/pkg/logger/logger.go
+++ b/ripsrc/pkg/logger/logger.go
@@ -35,15 +35,12 @@ func (s *DefaultLogger) log(kind string, msg string, args ...interface{}) {
 	write := func(format string, args ...interface{}) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		p := fmt.Sprintf(format, args...)
+		// one write per line, so that it stays whole when others write to the same place
+		p := fmt.Sprintf(format, args...) + "\n"
 		_, err := s.wr.Write([]byte(p))
 		if err != nil {
 			panic(err)
 		}
-		_, err = s.wr.Write([]byte("\n"))
-		if err != nil {
-			panic(err)
-		}
 	}
 	kvs, err := formatArgs(args)
 	if err != nil {
-- 
2.43.0


From 8f77c27f84157ab408579afc6fb9bdad27e78462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 33/37] fix: algorithm setting of a diff driver changed history
 results

Attributes of the repository can name a diff driver. The diff.<driver>.algorithm
setting of the user then took precedence over diff.algorithm.
---
 ripsrc/gitexec/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
index d39fb38..395e624 100644
--- a/ripsrc/gitexec/config.go
+++ b/ripsrc/gitexec/config.go
@@ -44,6 +44,7 @@ func DiffArgs() []string {
 		"--src-prefix=a/",
 		"--dst-prefix=b/",
 		"--ignore-submodules=none",
+		"--diff-algorithm=default",
 		"--no-ext-diff",
 		"--no-textconv",
 	}
-- 
2.43.0


From 07a868fc5583d33b0cc59e70c8efddba7496a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 34/37] fix: blame of a repository with a missing commit
 succeeded with wrong attribution

git blame prints an error, continues without the parent commit it was not
able to read and exits with 0, which attributes the lines of the lost history
to the wrong commit.
---
 ripsrc/gitblame2/gitblame.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index d89b3bc..21486df 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -1,9 +1,12 @@
 package gitblame2
 
 import (
+	"bytes"
 	"fmt"
+	"io"
 	"os"
 	"os/exec"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -31,6 +34,8 @@ func (r Result) String() string {
 	return strings.Join(out, "\n")
 }
 
+var unreadableCommit = regexp.MustCompile("(?m)Could not read [0-9a-f]{40,}$")
+
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	args := append(gitexec.ConfigArgs(),
 		"blame",
@@ -44,11 +49,16 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	)
 	cmd := exec.Command("git", args...)
 	cmd.Dir = repoDir
-	cmd.Stderr = os.Stderr
+	var stderr bytes.Buffer
+	cmd.Stderr = io.MultiWriter(os.Stderr, &stderr)
 	b, err := cmd.Output()
 	if err != nil {
 		return res, fmt.Errorf("git blame failed for file %v commit %v: %v", file, commitHash, err)
 	}
+	// git blame continues without the parent if it is not able to read it, and exits with 0
+	if m := unreadableCommit.Find(stderr.Bytes()); m != nil {
+		return res, fmt.Errorf("git blame failed for file %v commit %v: %s", file, commitHash, m)
+	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
 		l := Line{Content: l0.Content, CommitHash: l0.CommitHash}
-- 
2.43.0


From 91a403e64cc19f3e9ed2ae3b55ddf6d0f24f8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:30 +0000
Subject: [PATCH 35/37] fix: lines were reported without author when their
 commit was missing in commit meta

The repo can change between the git commands of an incremental run, report it
as an error.
---
 ripsrc/code_info.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ripsrc/code_info.go b/ripsrc/code_info.go
index 9db1a6d..65c963f 100644
--- a/ripsrc/code_info.go
+++ b/ripsrc/code_info.go
@@ -119,7 +119,10 @@ func (s *Ripsrc) codeInfoFile(filePath string, bl *incblame.Blame, fileBytes []b
 
 	// assign lines to result
 	for _, line := range bl.Lines {
-		meta := s.lineCommitMeta[line.Commit]
+		meta, ok := s.lineCommitMeta[line.Commit]
+		if !ok {
+			return res, fmt.Errorf("commit of the line was not found in commit meta: %v", line.Commit)
+		}
 		line2 := &statsLine{}
 		line2.BlameLine = &BlameLine{}
 		line2.Name = meta.AuthorName
-- 
2.43.0


From 92b9157fd1e9613c858aa76d142b0112953a935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:42 +0000
Subject: [PATCH 36/37] fix: commits and branches pushed after the commit graph
 was read caused a panic or wrong results

Commits of the log and heads of branches that the graph does not have are
reported as an error.
---
 ripsrc/branches2/process.go        | 18 ++++++++++++++++++
 ripsrc/history3/process/process.go |  8 +++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index c39b251..a09837c 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"runtime"
 	"strings"
 	"sync"
@@ -124,6 +125,10 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 		return err
 	}
 	s.defaultBranch = nameAndHash{Name: defaultBranch.Name, Commit: defaultBranch.Commit}
+	err = s.checkInGraph(s.defaultBranch)
+	if err != nil {
+		return err
+	}
 
 	if !s.opts.PullRequestsOnly && s.opts.IncludeDefaultBranch {
 		firstCommit, err := s.getFirstCommit()
@@ -183,6 +188,14 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 	return lastErr
 }
 
+// checkInGraph returns an error if the head of the branch is not in the graph, which happens when the branch is updated after the graph was read.
+func (s *Process) checkInGraph(b nameAndHash) error {
+	if _, ok := s.opts.CommitGraph.Parents[b.Commit]; !ok {
+		return fmt.Errorf("head of the branch is not in the commit graph, branch: %v commit: %v", b.Name, b.Commit)
+	}
+	return nil
+}
+
 func uniqueStrings(arr1 []string) (res []string) {
 	m := map[string]bool{}
 	for _, s := range arr1 {
@@ -248,6 +261,11 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {
 			return nil
 		}
+	} else {
+		err := s.checkInGraph(nameAndHash)
+		if err != nil {
+			return err
+		}
 	}
 	res.HeadSHA = nameAndHash.Commit
 	res.Name = name
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index a3703ea..a5753e1 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -183,7 +183,13 @@ func (s *Process) Run(resChan chan Result) error {
 			}
 		}
 		i++
-		commit.Parents = s.graph.Parents[commit.Hash]
+		parents, ok := s.graph.Parents[commit.Hash]
+		if !ok {
+			// added to the repo after the graph was read
+			drainAndExit()
+			return fmt.Errorf("commit is not in the commit graph: %v", commit.Hash)
+		}
+		commit.Parents = parents
 		err := s.processCommit(resChan, commit)
 		if err != nil {
 			drainAndExit()
-- 
2.43.0


From 8672d58b2f2fcc9062c1320ccf80b233b5ce98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:42 +0000
Subject: [PATCH 37/37] fix: default branch was mixed up when HEAD was switched
 while branches were retrieved

HEAD is resolved to a branch once, its commit, first commit and exclusion from
the other branches use the same name and hash.
---
 ripsrc/branches2/name_hash.go |  4 ++++
 ripsrc/branches2/process.go   |  2 +-
 ripsrc/branchmeta/default.go  | 23 ++++++++++++++++-------
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/ripsrc/branches2/name_hash.go b/ripsrc/branches2/name_hash.go
index eb95c13..1702500 100644
--- a/ripsrc/branches2/name_hash.go
+++ b/ripsrc/branches2/name_hash.go
@@ -31,11 +31,15 @@ func (s *Process) getNamesAndHashes() (res namesAndHashes, _ error) {
 	opts.Logger = s.opts.Logger
 	opts.RepoDir = s.opts.RepoDir
 	opts.UseOrigin = s.opts.UseOrigin
+	opts.IncludeDefault = true
 	res0, err := branchmeta.Get(context.Background(), opts)
 	if err != nil {
 		return res, err
 	}
 	for _, item := range res0 {
+		if item.Name == s.defaultBranch.Name {
+			continue
+		}
 		res = append(res, nameAndHash{Name: item.Name, Commit: item.Commit})
 	}
 	return res, nil
diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index a09837c..9f4a4eb 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -105,7 +105,7 @@ func New(opts Opts) *Process {
 }
 
 func (s *Process) getFirstCommit() (string, error) {
-	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD", "--"})
+	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", s.defaultBranch.Commit, "--"})
 	if err != nil {
 		return "", err
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index f6fd04b..3172477 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -13,36 +13,45 @@ type Branch struct {
 
 func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 
-	name, err := headBranch(ctx, "git", repoDir)
+	ref, err := headRef(ctx, "git", repoDir)
 	if err != nil {
 		return res, err
 	}
-	commit, err := headCommit(ctx, "git", repoDir)
+	// not using HEAD, because it could be switched to another branch in the meantime
+	commit, err := refCommit(ctx, "git", repoDir, ref)
 	if err != nil {
 		return res, err
 	}
-	res.Name = name
+	res.Name = strings.TrimPrefix(ref, headsPrefix)
 	res.Commit = commit
 	return res, nil
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
+	ref, err := headRef(ctx, gitCommand, repoDir)
+	if err != nil {
+		return "", err
+	}
+	return strings.TrimPrefix(ref, headsPrefix), nil
+}
+
+func headRef(ctx context.Context, gitCommand string, repoDir string) (string, error) {
 	// using full name, because the short one depends on other refs in the repo
 	data, err := execCommand(gitCommand, repoDir, []string{"symbolic-ref", "HEAD"})
 	if err != nil {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return strings.TrimPrefix(strings.TrimSuffix(string(data), "\n"), headsPrefix), nil
+	return strings.TrimSuffix(string(data), "\n"), nil
 }
 
-func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "HEAD"})
+func refCommit(ctx context.Context, gitCommand string, repoDir string, ref string) (string, error) {
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", ref})
 	if err != nil {
 		return "", err
 	}
 	res := strings.TrimSpace(string(data))
 	if len(res) != 40 {
-		return "", errors.New("unexpected output from git rev-parse HEAD")
+		return "", errors.New("unexpected output from git rev-parse")
 	}
 	return res, nil
 }
-- 
2.43.0

