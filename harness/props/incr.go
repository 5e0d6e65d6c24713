package props

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// Stage is one run over the first N commits.
type Stage struct {
	N        int  `json:"n"`
	HeadAt   int  `json:"head"`
	From     int  `json:"from"` // -1: the commit the checkpoint was written for
	Excl     bool `json:"excl,omitempty"`
	NoStrict bool `json:"nostrict,omitempty"`
	// All gives the run all branches, of which it covers Wanted and HEAD.
	All    bool   `json:"all,omitempty"`
	Wanted []Want `json:"wanted,omitempty"`
}

type IncrCase struct {
	Repo   *gm.Repo `json:"repo"`
	All    bool     `json:"all,omitempty"` // first run
	Bare   bool     `json:"bare,omitempty"`
	Inside bool     `json:"inside,omitempty"` // checkpoint inside the repository
	First  Stage    `json:"first"`
	Stages []Stage  `json:"stages"`
}

func genIncr(t *rapid.T) *IncrCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 2))
	o.MinCommits = 3
	o.Skew = false // see noSkew
	o.RemoveAll = r.P(1, 2)
	o.LongLines = r.P(1, 10)
	o.Blow = 100
	c := &IncrCase{Repo: gm.History(t, o), All: r.P(1, 3), Bare: r.P(1, 2), Inside: r.P(1, 3)}
	n := len(c.Repo.Commits)
	cur := r.Int(2, n)
	c.First = Stage{N: cur, HeadAt: cur - 1, From: -1}
	if r.P(1, 5) {
		c.First.HeadAt = r.Int(0, cur-1)
	}
	heads := []int{c.First.HeadAt}
	for k := r.Int(1, 3); k > 0; k-- {
		cur = r.Int(cur, n)
		s := Stage{N: cur, HeadAt: cur - 1, From: -1, Excl: r.P(1, 2), NoStrict: r.P(1, 3)}
		if r.P(1, 5) {
			s.HeadAt = r.Int(0, cur-1)
		}
		if s.NoStrict && r.P(3, 4) {
			// some commit processed before
			var cand []int
			rp := &gm.Repo{Commits: c.Repo.Commits[:cur]}
			for x := range rp.Reachable(heads...) {
				cand = append(cand, x)
			}
			sort.Ints(cand)
			s.From = gm.Pick(r, cand)
			if len(c.Repo.Commits[s.From].Parents) == 0 {
				s.Excl = true
			}
		}
		heads = append(heads, s.HeadAt)
		if r.P(1, 3) {
			s.All = true
			s.Wanted = genWants(r, c.at(s).Refs)
			for _, w := range s.Wanted {
				heads = append(heads, c.at(s).Refs[w.Ref].Commit)
			}
		}
		c.Stages = append(c.Stages, s)
	}
	return c
}

func (c *IncrCase) at(s Stage) *gm.Repo {
	r := &gm.Repo{Commits: c.Repo.Commits[:s.N], Head: "main", HeadAt: s.HeadAt}
	for _, f := range c.Repo.Refs {
		if f.Commit < s.N {
			r.Refs = append(r.Refs, f)
		}
	}
	return r
}

// canonBlame is a comparable form of a file.
func canonBlame(b *gm.Built, bl *incblame.Blame) string {
	var s strings.Builder
	fmt.Fprintf(&s, "binary=%v lines=%d\n", bl.IsBinary, len(bl.Lines))
	for _, l := range bl.Lines {
		fmt.Fprintf(&s, "%s %q\n", cname(b, l.Commit), l.Line)
	}
	return s.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%.200s | %.200s", p, q)
		}
	}
	return ""
}

// compareResults compares the files of commits reported by two runs.
func compareResults(b *gm.Built, what string, got, want process.Result) string {
	var ps []string
	for p := range got.Files {
		if want.Files[p] == nil {
			return fmt.Sprintf("%v %v: file %q reported, not in the other run", what, cname(b, got.Commit), p)
		}
		ps = append(ps, p)
	}
	for p := range want.Files {
		if got.Files[p] == nil {
			return fmt.Sprintf("%v %v: file %q missing, the other run has it", what, cname(b, got.Commit), p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		x, y := canonBlame(b, got.Files[p]), canonBlame(b, want.Files[p])
		if x != y {
			return fmt.Sprintf("%v %v: file %q differs from the other run: %v", what, cname(b, got.Commit), p, firstDiff(x, y))
		}
	}
	return ""
}

func runIncr(e *fw.Env, c *IncrCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.at(c.First).Build(e, e.Sub("repo"), c.Bare)
	cp := ""
	if !c.Inside {
		cp = e.Sub("checkpoints")
	}
	res, err := runHistory(b, process.Opts{AllBranches: c.All, CheckpointsDir: cp})
	if err != nil {
		v.Failf("full run: %v", err)
		return v
	}
	if len(res) == 0 {
		v.Failf("full run reports nothing")
		return v
	}
	last := b.Index[res[len(res)-1].Commit]
	processed := 0
	for k, s := range c.Stages {
		rp := c.at(s)
		b.Grow(e, rp)
		from := s.From
		if from < 0 {
			from = last
			if len(rp.Commits[from].Parents) == 0 {
				s.Excl = true
			}
		}
		args, more := wantedArgs(b, rp.Refs, s.Wanted)
		if !s.All {
			args, more = nil, nil
		}
		want := rangeWanted(rp, from, s.Excl, more...)
		what := fmt.Sprintf("run %d (from %v exclusive %v strict %v HEAD %v all %v refs %q)", k+2, cname(b, b.Hash[from]), s.Excl, !s.NoStrict, cname(b, b.Hash[s.HeadAt]), s.All, args)
		res, err := runHistory(b, process.Opts{CheckpointsDir: cp, CommitFromIncl: b.Hash[from], CommitFromMakeNonIncl: s.Excl, NoStrictResume: s.NoStrict, AllBranches: s.All, WantedBranchRefs: args})
		if err != nil {
			v.Failf("%v failed: %v", what, err)
			return v
		}
		d := &Diffs{}
		var order []string
		for _, r := range res {
			order = append(order, r.Commit)
		}
		CompareOrder(b, want, order, d)
		if len(d.Set) > 0 {
			v.Failf("%v: %v", what, first(d.Set))
			return v
		}
		full, err := runHistory(b, process.Opts{AllBranches: s.All, CheckpointsDir: filepath.Join(e.Sub("full"), fmt.Sprint(k))})
		if err != nil {
			v.Failf("full run after stage %d: %v", k, err)
			return v
		}
		at := map[string]process.Result{}
		for _, r := range full {
			at[r.Commit] = r
		}
		for _, r := range res {
			if s := compareResults(b, what, r, at[r.Commit]); s != "" {
				v.Failf("%v", s)
				return v
			}
			if i := b.Index[r.Commit]; len(rp.Commits[i].Parents) > 1 {
				v.Class("merges")
			}
		}
		v.ClassIf(len(res) == 0, "empty-ranges")
		v.ClassIf(s.NoStrict, "non-strict")
		v.ClassIf(c.Repo.Shallow(), "shallow")
		v.ClassIf(s.All, "all-branches")
		v.ClassIf(len(more) > 0, "wanted-refs")
		v.ClassIf(!s.NoStrict, "strict")
		v.ClassIf(s.Excl, "exclusive")
		if anc := rp.Reachable(s.HeadAt); !anc[from] {
			v.Class("rewritten-head")
		}
		processed += len(res)
		if len(res) > 0 {
			last = b.Index[res[len(res)-1].Commit]
			v.Class("runs")
		}
	}
	v.ClassN("commits", processed)
	v.Nontrivial = processed >= 2
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C04", Rule: "successive incremental runs that together report at least two commits"})
	fw.AddSub(p, "incremental", 3500, 40000, genIncr, runIncr)
}
