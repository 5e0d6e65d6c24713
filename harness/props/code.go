package props

import (
	"context"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// CodeRun is what one run of the code analysis gave.
type CodeRun struct {
	What string
	Rp   *gm.Repo
	Want map[int]bool
	// Commits in the order reported; not set for the flat interface.
	Order []string
	Meta  map[string]*commitmeta.Commit
	Recs  map[string][]ripsrc.BlameResult
	// Obj made the run.
	Obj *ripsrc.Ripsrc
}

func newRun(what string, rp *gm.Repo, want map[int]bool) *CodeRun {
	return &CodeRun{What: what, Rp: rp, Want: want, Meta: map[string]*commitmeta.Commit{}, Recs: map[string][]ripsrc.BlameResult{}}
}

func codeByCommit(o ripsrc.Opts, run *CodeRun) error {
	o.Logger = noLog{}
	run.Obj = ripsrc.New(o)
	return codeByCommitOn(context.Background(), run.Obj, run)
}

func codeByCommitOn(ctx context.Context, rs *ripsrc.Ripsrc, run *CodeRun) error {
	ch := make(chan ripsrc.CommitCode)
	done := make(chan bool)
	go func() {
		for c := range ch {
			m := c.Commit
			run.Order = append(run.Order, m.SHA)
			run.Meta[m.SHA] = &m
			for r := range c.Blames {
				run.Recs[m.SHA] = append(run.Recs[m.SHA], r)
			}
		}
		close(done)
	}()
	err := rs.CodeByCommit(ctx, ch)
	<-done
	return err
}

func codeFlat(o ripsrc.Opts, run *CodeRun) error {
	o.Logger = noLog{}
	run.Obj = ripsrc.New(o)
	return codeFlatOn(context.Background(), run.Obj, run)
}

func codeFlatOn(ctx context.Context, rs *ripsrc.Ripsrc, run *CodeRun) error {
	res, err := rs.CodeSlice(ctx)
	for _, r := range res {
		run.Recs[r.Commit.SHA] = append(run.Recs[r.Commit.SHA], r)
	}
	return err
}

// canonRec is a comparable form of a record.
func canonRec(r *ripsrc.BlameResult) string {
	var s strings.Builder
	lic := "-"
	if r.License != nil {
		lic = fmt.Sprint(*r.License)
	}
	fmt.Fprintf(&s, "%q lang %q size %d loc %d sloc %d comments %d blanks %d complexity %d %v skipped %q license %v status %v lines %d\n", r.Filename, r.Language, r.Size, r.Loc, r.Sloc, r.Comments, r.Blanks, r.Complexity, r.WeightedComplexity, r.Skipped, lic, r.Status, len(r.Lines))
	for _, l := range r.Lines {
		fmt.Fprintf(&s, "%v %q %q %v %v%v%v\n", l.SHA, l.Name, l.Email, l.Date.Unix(), l.Code, l.Comment, l.Blank)
	}
	return s.String()
}

func canonRecs(rs []ripsrc.BlameResult) string {
	var res []string
	for i := range rs {
		res = append(res, canonRec(&rs[i]))
	}
	sort.Strings(res)
	return strings.Join(res, "")
}

const generatedSkip = "file was a generated file"

// generatedWords are the announcements of generated code.
var generatedWords = regexp.MustCompile("GENERATED|DO NOT EDIT|DO NOT MODIFY|machine generated")

// checkCode compares a run with the model.
func checkCode(v *fw.Verdict, b *gm.Built, m *gm.Model, run *CodeRun) {
	if run.Order != nil {
		d := &Diffs{}
		CompareOrder(b, run.Want, run.Order, d)
		if len(d.Set) > 0 {
			v.Failf("%v: %v", run.What, first(d.Set))
			return
		}
	}
	for h := range run.Recs {
		if i, ok := b.Index[h]; !ok || !run.Want[i] {
			v.Failf("%v: records for commit %v, which is not part of the requested history", run.What, cname(b, h))
			return
		}
	}
	for i := range b.Repo.Commits {
		if !run.Want[i] || v.Fail != "" {
			continue
		}
		checkCommitCode(v, b, m, i, run)
	}
}

func checkCommitCode(v *fw.Verdict, b *gm.Built, m *gm.Model, i int, run *CodeRun) {
	h := b.Hash[i]
	c := run.What + ": " + cname(b, h)
	cm := m.Commits[i]
	merge := len(b.Repo.Commits[i].Parents) > 1
	if run.Meta[h] != nil {
		checkHeader(v, b, i, run.Meta[h])
	}
	seen := map[string]bool{}
	for k := range run.Recs[h] {
		r := &run.Recs[h][k]
		p := r.Filename
		if seen[p] {
			v.Failf("%v: two records for %q", c, p)
			return
		}
		seen[p] = true
		if r.Commit.SHA != h {
			v.Failf("%v: the record of %q carries commit %v", c, p, r.Commit.SHA)
			return
		}
		if k == 0 {
			checkHeader(v, b, i, &r.Commit)
		}
		if _, maybe := cm.Reported["?"+p]; maybe {
			continue
		}
		ex := cm.Reported[p]
		if ex == nil {
			v.Failf("%v: a record for %q, which did not change", c, p)
			return
		}
		checkRecord(v, b, i, merge, c, r, ex)
	}
	status := map[string]string{}
	if !merge {
		for _, en := range cm.Raw[0] {
			switch en.Status {
			case 'A', 'R':
				if regular(en.NewMode) {
					status[en.New] = "added"
				}
			case 'M', 'T':
				if regular(en.NewMode) {
					status[en.New] = "modified"
				}
			case 'D':
				if regular(en.OldMode) {
					status[en.Old] = "removed"
				}
			}
		}
	} else {
		for p, en := range b.Trees[i] {
			if !regular(en.Mode) {
				continue
			}
			differs := true
			for _, q := range b.Repo.Commits[i].Parents {
				if old, ok := b.Trees[q][p]; ok && old == en {
					differs = false
				}
			}
			if differs {
				status[p] = "?"
			}
		}
	}
	var ps []string
	for p := range status {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if !seen[p] {
			v.Failf("%v: no record for %q (%v)", c, p, status[p])
			return
		}
	}
	for k := range run.Recs[h] {
		r := &run.Recs[h][k]
		if s := status[r.Filename]; s != "" && s != "?" && s != string(r.Status) {
			v.Failf("%v: %q has status %v, want %v", c, r.Filename, r.Status, s)
		}
	}
	v.ClassN("records", len(ps))
	if merge {
		v.ClassN("merge-records", len(ps))
	}
}

func checkRecord(v *fw.Verdict, b *gm.Built, i int, merge bool, c string, r *ripsrc.BlameResult, ex *gm.Expect) {
	p := r.Filename
	if ex.Removed {
		if len(r.Lines) != 0 {
			v.Failf("%v: removed file %q has %d lines", c, p, len(r.Lines))
		}
		if !merge && r.Status != ripsrc.GitFileCommitStatusRemoved {
			v.Failf("%v: removed file %q has status %v", c, p, r.Status)
		}
		v.Class("removed")
		return
	}
	if r.Status == ripsrc.GitFileCommitStatusRemoved {
		v.Failf("%v: %q has status removed, it is in the commit", c, p)
		return
	}
	if ex.Flag == gm.Maybe {
		return
	}
	var raw []string
	if ex.Flag == gm.Text {
		raw = ex.Raw
	} else {
		v.Class("binary")
	}
	var content []byte
	var lines [][]byte
	cr := false
	for _, l := range raw {
		n := gm.Norm(l)
		if strings.HasSuffix(strings.TrimSuffix(l, "\n"), "\r") {
			cr = true
		}
		lines = append(lines, []byte(n))
		content = append(append(content, n...), '\n')
	}
	if !cr {
		info, skip := fileinfo.New().GetInfo(fileinfo.InfoArgs{FilePath: p, Content: content, Lines: lines})
		switch {
		case skip != "":
			if r.Skipped != skip || r.Language != info.Language {
				v.Failf("%v: %q is skipped %q language %q, want skipped %q language %q", c, p, r.Skipped, r.Language, skip, info.Language)
			}
		case r.Skipped == generatedSkip && r.Language == "" && generatedWords.Match(content):
		case r.Skipped != "" || r.Language != info.Language:
			v.Failf("%v: %q is skipped %q language %q, want language %q", c, p, r.Skipped, r.Language, info.Language)
		}
	}
	if r.Skipped != "" && r.Skipped != generatedSkip {
		if len(r.Lines) != 0 {
			v.Failf("%v: %q is skipped (%v) and has %d lines", c, p, r.Skipped, len(r.Lines))
		}
		v.Class("skipped")
		return
	}
	v.ClassIf(r.Skipped != "", "generated")
	if len(r.Lines) != len(raw) {
		v.Failf("%v: %q has %d lines, want %d", c, p, len(r.Lines), len(raw))
		return
	}
	for k, l := range r.Lines {
		if !ex.Wild {
			ok := false
			for _, a := range ex.Attr[k] {
				ok = ok || a == l.SHA
			}
			if !ok {
				v.Failf("%v: %q line %d is attributed to %v, want %v", c, p, k+1, cname(b, l.SHA), ex.Attr[k])
				return
			}
		}
		o, ok := b.Index[l.SHA]
		if !ok {
			v.Failf("%v: %q line %d has commit %q", c, p, k+1, l.SHA)
			return
		}
		a, _ := metaIdents(&b.Repo.Commits[o], o)
		name, email := trimRightGit(string(a.Name)), string(a.Email)
		if enc := b.Repo.Commits[o].Encoding; enc != "" {
			name, email = latin1(name), latin1(email)
		}
		if l.Name != name || l.Email != email || l.Date.Unix() != a.When {
			v.Failf("%v: %q line %d of %v has author %q <%v> %v, want %q <%v> %v", c, p, k+1, cname(b, l.SHA), l.Name, l.Email, l.Date, name, email, a.When)
			return
		}
		v.Class("lines")
		if o != i {
			v.Class("old-lines")
		}
	}
}

// addIdents gives the commits different authors.
func addIdents(r gm.R, rp *gm.Repo, hostile bool) {
	for i := range rp.Commits {
		c := &rp.Commits[i]
		if !r.P(3, 4) {
			continue
		}
		if hostile && r.P(1, 2) {
			c.Author = genIdent(r)
			continue
		}
		c.Author = &gm.Ident{Name: gm.B(fmt.Sprintf("author %d", r.Int(1, 4))), Email: gm.B(fmt.Sprintf("a%d@x", r.Int(1, 4))), When: 1500000000 + int64(r.Int(0, 1000000)), TZ: gm.Pick(r, zones)}
		if r.P(1, 2) {
			c.Committer = &gm.Ident{Name: "committer", Email: "co@x", When: 1500000000 + int64(i)*60, TZ: "+0200"}
		}
	}
}

func genCode(t *rapid.T) *IncrCase {
	c := genIncr(t)
	r := gm.R{T: t}
	if r.P(1, 2) {
		c.Stages = nil
		if r.P(2, 3) {
			c.First = Stage{N: len(c.Repo.Commits), HeadAt: c.First.HeadAt, From: -1}
		}
	}
	addIdents(r, c.Repo, true)
	refs := false
	for k := range c.Stages {
		// no way to give the refs here
		s := &c.Stages[k]
		refs = refs || len(s.Wanted) > 0
		s.Wanted = nil
		if refs {
			s.From = -1
		}
	}
	if len(c.Stages) > 0 {
		for i := range c.Repo.Commits {
			if co := c.Repo.Commits[i].Committer; co != nil {
				co.When = 1500000000 + int64(i)*60
			} else if a := c.Repo.Commits[i].Author; a != nil {
				d := *a
				d.When = 1500000000 + int64(i)*60
				c.Repo.Commits[i].Committer = &d
			}
		}
	}
	return c
}

// doCode runs all stages of a case.
func doCode(e *fw.Env, c *IncrCase, v *fw.Verdict) (b *gm.Built, runs []*CodeRun) {
	b = c.at(c.First).Build(e, e.Sub("repo"), c.Bare)
	cp := ""
	if !c.Inside {
		cp = e.Sub("checkpoints")
	}
	rp := c.at(c.First)
	want := rp.Wanted(c.All)
	o := ripsrc.Opts{RepoDir: b.Dir, AllBranches: c.All, CheckpointsDir: cp}
	flat := newRun("full run (flat)", rp, want)
	if err := codeFlat(o, flat); err != nil {
		v.Failf("full run (flat): %v", err)
		return
	}
	full := newRun("full run", rp, want)
	if err := codeByCommit(o, full); err != nil {
		v.Failf("full run: %v", err)
		return
	}
	runs = append(runs, full, flat)
	for i := range b.Repo.Commits {
		if x, y := canonRecs(full.Recs[b.Hash[i]]), canonRecs(flat.Recs[b.Hash[i]]); x != y {
			v.Failf("%v: the two interfaces differ: %v", cname(b, b.Hash[i]), firstDiff(x, y))
			return
		}
	}
	if len(full.Order) == 0 {
		v.Failf("full run reports nothing")
		return
	}
	last := b.Index[full.Order[len(full.Order)-1]]
	for k, s := range c.Stages {
		rp := c.at(s)
		b.Grow(e, rp)
		from := s.From
		if from < 0 {
			from = last
		}
		if len(rp.Commits[from].Parents) == 0 {
			s.Excl = true
		}
		run := newRun(fmt.Sprintf("run %d (from %v exclusive %v strict %v HEAD %v)", k+2, cname(b, b.Hash[from]), s.Excl, !s.NoStrict, cname(b, b.Hash[s.HeadAt])), rp, rangeWanted(rp, from, s.Excl))
		o := ripsrc.Opts{RepoDir: b.Dir, CheckpointsDir: cp, CommitFromIncl: b.Hash[from], CommitFromMakeNonIncl: s.Excl, NoStrictResume: s.NoStrict, AllBranches: s.All}
		if err := codeByCommit(o, run); err != nil {
			v.Failf("%v failed: %v", run.What, err)
			return
		}
		runs = append(runs, run)
		if n := len(run.Order); n > 0 {
			last = b.Index[run.Order[n-1]]
			v.Class("incremental-runs")
		}
	}
	return
}

func runCode(e *fw.Env, c *IncrCase) *fw.Verdict {
	v := &fw.Verdict{}
	b, runs := doCode(e, c, v)
	if v.Fail != "" {
		return v
	}
	checkRuns(e, v, b, runs)
	return v
}

func checkRuns(e *fw.Env, v *fw.Verdict, b *gm.Built, runs []*CodeRun) *gm.Model {
	m := gm.BuildModel(e, b)
	for k, run := range runs {
		w := &fw.Verdict{}
		checkCode(w, b, m, run)
		if w.Fail != "" {
			v.Failf("%v", w.Fail)
			return m
		}
		if k != 1 {
			for n, x := range w.Classes {
				v.ClassN(n, x)
			}
		}
	}
	v.ClassIf(b.Repo.Shallow(), "shallow")
	v.Nontrivial = v.Classes["old-lines"] > 0
	return m
}

// ---- C25

func genNames(t *rapid.T) *IncrCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 2))
	o.MinCommits = 3
	o.MaxCommits = 12
	o.Skew = false
	o.LongLines = false
	o.RemoveAll = false
	o.Paths = gm.DrawPaths(r, gm.HostilePaths, r.Int(3, 8))
	if r.P(1, 4) {
		o.Paths = append(o.Paths, gm.DrawPaths(r, movePaths, 3)...)
	}
	if r.P(1, 6) {
		// any bytes
		for k := r.Int(1, 3); k > 0; k-- {
			s := ""
			for j := r.Int(1, 6); j > 0; j-- {
				s += string([]byte{byte(r.Int(1, 255))})
			}
			if gm.ValidPath(s) {
				o.Paths = append(o.Paths, s)
			}
		}
	}
	c := &IncrCase{Repo: gm.History(t, o), Bare: r.P(2, 3), Inside: r.P(1, 3)}
	n := len(c.Repo.Commits)
	c.First = Stage{N: n, HeadAt: c.Repo.HeadAt, From: -1}
	if r.P(1, 2) {
		k := r.Int(2, n)
		c.First = Stage{N: k, HeadAt: k - 1, From: -1}
		c.Stages = []Stage{{N: n, HeadAt: n - 1, From: -1, Excl: r.P(1, 2)}}
	}
	return c
}

func plainName(p string) bool {
	for i := 0; i < len(p); i++ {
		if c := p[i]; !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '/' || c == '_') {
			return false
		}
	}
	return true
}

func runNames(e *fw.Env, c *IncrCase) *fw.Verdict {
	v := &fw.Verdict{}
	b, runs := doCode(e, c, v)
	if v.Fail != "" {
		return v
	}
	m := checkRuns(e, v, b, runs)
	if v.Fail != "" {
		return v
	}
	res, err := runHistory(b, process.Opts{CheckpointsDir: filepath.Join(e.Sub("history"), "c")})
	if err != nil {
		v.Failf("history: %v", err)
		return v
	}
	want := b.Repo.Wanted(false)
	d := CompareRun(b, m, want, res)
	for _, f := range [][]string{d.Set, d.Content, d.Attr} {
		if len(f) > 0 {
			v.Failf("history: %v", first(f))
			return v
		}
	}
	cs, err := commitmeta.New(b.Dir, commitmeta.Opts{}).RunSlice()
	if err != nil {
		v.Failf("change records: %v", err)
		return v
	}
	ns := numstats(e, b)
	n := 0
	for _, x := range cs {
		i, ok := b.Index[x.SHA]
		if !ok || len(b.Repo.Commits[i].Parents) > 1 {
			continue
		}
		w := &fw.Verdict{}
		checkFiles(w, b, x.SHA, m.Commits[i].Raw[0], ns[i], x.Files)
		if w.Fail != "" {
			v.Failf("change records: %v", w.Fail)
			return v
		}
		for _, en := range m.Commits[i].Raw[0] {
			if !plainName(en.New) || !plainName(en.Old) {
				v.Class("special-" + string(en.Status))
				n++
			}
		}
	}
	v.Nontrivial = n >= 2
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C16", Rule: "a history in which a record has a line introduced by an earlier commit"})
	fw.AddSub(p, "code", 3000, 40000, genCode, runCode)
	p = fw.Register(&fw.Prop{ID: "C25", Rule: "a history whose non-merge commits have at least two changes of files with other characters than letters, digits, dots, slashes and underscores in their names"})
	fw.AddSub(p, "names", 3000, 40000, genNames, runNames)
}
