package props

import (
	"fmt"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// keptCommits is the documented number of finished commits that are kept.
const keptCommits = 1000

// LongCase is a script for a history of more than a thousand commits. The
// contents of the commits are drawn from Seed.
type LongCase struct {
	Seed   int        `json:"seed"`
	Skew   bool       `json:"skew,omitempty"`
	Steps  []LongStep `json:"steps"`
	All    bool       `json:"all,omitempty"`
	Stages []LongRun  `json:"stages,omitempty"` // runs from the checkpoint
}

type LongStep struct {
	Op string `json:"op"` // run, fork, merge, octopus, root
	B  int    `json:"b,omitempty"`
	N  int    `json:"n,omitempty"`
	// At is a commit to fork from, counted from the start or, negative, from
	// the newest.
	At    int  `json:"at,omitempty"`
	Quiet bool `json:"q,omitempty"` // mostly empty commits
	// Cut is the end of the history for the next run.
	Cut bool `json:"cut,omitempty"`
}

type LongRun struct {
	From     int  `json:"from"` // -1: where the checkpoint ends, otherwise so many commits before
	Excl     bool `json:"excl,omitempty"`
	NoStrict bool `json:"nostrict,omitempty"`
}

func genLong(t *rapid.T) *LongCase {
	r := gm.R{T: t}
	c := &LongCase{Seed: r.Int(1, 1<<30), All: r.P(1, 3)}
	total := 0
	run := func(b, n int, quiet bool) {
		c.Steps = append(c.Steps, LongStep{Op: "run", B: b, N: n, Quiet: quiet})
		total += n
	}
	// old part with points to fork from
	run(0, r.Int(2, 30), false)
	for k := r.Int(0, 2); k > 0; k-- {
		b := r.Int(1, 3)
		c.Steps = append(c.Steps, LongStep{Op: "fork", B: b, At: r.Int(0, total-1)})
		run(b, r.Int(1, 5), false)
		if r.P(1, 2) {
			c.Steps = append(c.Steps, LongStep{Op: "merge", B: b})
			run(0, r.Int(1, 4), false)
		}
	}
	old := total
	// a commit with many children, of which some come late
	star := -1
	if r.P(1, 3) {
		star = r.Int(0, old-1)
		for k := r.Int(2, 5); k > 0; k-- {
			b := r.Int(1, 3)
			c.Steps = append(c.Steps, LongStep{Op: "fork", B: b, At: star})
			run(b, 1, r.P(1, 2))
		}
	}
	// long part, with some work on what was forked before
	size := gm.Pick(r, []int{980, 1000, 1010, 1100, 1300, 1600})
	for k := r.Int(1, 3); k > 0; k-- {
		run(0, size/k+r.Int(0, 30), r.P(1, 2))
		size -= size / k
		if k > 1 {
			if r.P(1, 3) {
				c.Steps = append(c.Steps, LongStep{Op: "fork", B: r.Int(1, 3), At: r.Int(0, old-1)})
			}
			run(r.Int(1, 3), r.Int(1, 20), false)
			if r.P(1, 3) {
				c.Steps = append(c.Steps, LongStep{Op: gm.Pick(r, []string{"merge", "merge", "octopus"}), B: r.Int(1, 3)})
			}
		}
	}
	// forks from the old part and old ends, merged late
	tail := func() {
		for k := r.Int(1, 5); k > 0; k-- {
			switch r.Int(0, 5) {
			case 0, 1:
				at := r.Int(0, old-1)
				if r.P(1, 3) {
					at = -r.Int(1, 1100)
				} else if star >= 0 {
					at = star
				}
				b := r.Int(1, 4)
				c.Steps = append(c.Steps, LongStep{Op: "fork", B: b, At: at})
				run(b, r.Int(1, 4), false)
			case 2:
				run(r.Int(1, 4), r.Int(1, 6), false)
			case 3:
				run(0, r.Int(1, 30), r.P(1, 3))
			case 4:
				c.Steps = append(c.Steps, LongStep{Op: gm.Pick(r, []string{"merge", "merge", "octopus", "root"}), B: r.Int(1, 4)})
			default:
				c.Steps = append(c.Steps, LongStep{Op: "merge", B: r.Int(1, 4)})
				run(0, r.Int(1, 3), false)
			}
		}
	}
	tail()
	c.Steps = append(c.Steps, LongStep{Op: "merge", B: r.Int(1, 4)})
	for k := r.Int(0, 2); k > 0; k-- {
		c.Steps = append(c.Steps, LongStep{Op: "run", N: 1, Cut: true})
		if r.P(1, 6) {
			run(0, gm.Pick(r, []int{200, 1010}), true)
		}
		if r.P(1, 2) {
			at := -r.Int(1, 900)
			if r.P(1, 3) {
				at = -r.Int(985, 1003)
			}
			c.Steps = append(c.Steps, LongStep{Op: "fork", B: 5, At: at})
			run(5, r.Int(1, 4), false)
			c.Steps = append(c.Steps, LongStep{Op: "merge", B: 5})
		} else if r.P(1, 2) {
			tail()
		}
		s := LongRun{From: -1, Excl: r.P(1, 2), NoStrict: r.P(1, 2)}
		if s.NoStrict && r.P(1, 2) {
			s.From = r.Int(0, 990)
		}
		c.Stages = append(c.Stages, s)
		run(0, r.Int(1, 5), false)
	}
	return c
}

// expand returns the history and the length at each cut.
func (c *LongCase) expand() (*gm.Repo, []int) {
	o := gm.Opts{Paths: gm.PlainPaths[:6], MaxOps: 2, Unique: true, Binary: true, Modes: true, Symlinks: true, CR: true, Hostile: true, EmptyCommits: true}
	g := gm.NewSeededHG(c.Seed, o)
	g.Step()
	tips := map[int]int{}
	tip := func(b int) int {
		if x, ok := tips[b]; ok {
			return x
		}
		return tips[0]
	}
	var cuts []int
	for _, s := range c.Steps {
		n := len(g.Repo.Commits)
		if s.Cut {
			cuts = append(cuts, n)
		}
		switch s.Op {
		case "run":
			for k := 0; k < s.N; k++ {
				g.O.Idle = s.Quiet && g.R.Int(0, 9) > 0
				tips[s.B] = g.StepOn([]int{tip(s.B)})
			}
			g.O.Idle = false
		case "fork":
			at := s.At
			if at < 0 {
				at += n
			}
			if at < 0 || at >= n {
				at = n - 1
			}
			tips[s.B] = at
		case "root":
			tips[s.B] = g.StepOn([]int{})
		case "merge", "octopus":
			par := []int{tip(0)}
			if x := tip(s.B); x != par[0] {
				par = append(par, x)
			}
			for b := 1; b < 5 && s.Op == "octopus"; b++ {
				x := tip(b)
				dup := false
				for _, y := range par {
					dup = dup || x == y
				}
				if !dup {
					par = append(par, x)
				}
			}
			tips[0] = g.StepOn(par)
		}
	}
	rp := g.Repo
	rp.Head = "main"
	rp.HeadAt = tips[0]
	for b := 1; b < 6; b++ {
		if x, ok := tips[b]; ok {
			rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/b%d", b), Commit: x})
		}
	}
	return rp, cuts
}

// at is the repository with the first n commits.
func longAt(rp *gm.Repo, n int, main []int) *gm.Repo {
	r := &gm.Repo{Commits: rp.Commits[:n], Head: "main", HeadAt: main[n-1]}
	for _, f := range rp.Refs {
		if f.Commit < n {
			r.Refs = append(r.Refs, f)
		}
	}
	return r
}

func runLong(e *fw.Env, c *LongCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp, cuts := c.expand()
	// the newest commit of the main line for each length
	line := map[int]bool{}
	for x := rp.HeadAt; ; x = rp.Commits[x].Parents[0] {
		line[x] = true
		if len(rp.Commits[x].Parents) == 0 {
			break
		}
	}
	main := make([]int, len(rp.Commits))
	for i := range main {
		if line[i] || i == 0 {
			main[i] = i
		} else {
			main[i] = main[i-1]
		}
	}
	ends := append(append([]int(nil), cuts[:min(len(cuts), len(c.Stages))]...), len(rp.Commits))
	cur := longAt(rp, ends[0], main)
	b := cur.Build(e, e.Sub("repo"), true)
	cp := e.Sub("checkpoints")
	what := "full run"
	want := cur.Wanted(c.All)
	o := process.Opts{AllBranches: c.All, CheckpointsDir: cp}
	fin := &finished{rank: map[int]int{}, seen: map[int]bool{}}
	last := -1
	var seq []int
	for k := 0; k < len(ends); k++ {
		beyond := false
		if k > 0 {
			s := c.Stages[k-1]
			cur = longAt(rp, ends[k], main)
			b.Grow(e, cur)
			from := last
			if s.From >= 0 {
				from = seq[max(0, len(seq)-1-s.From)]
			}
			if len(cur.Commits[from].Parents) == 0 {
				s.Excl = true
			}
			want = rangeWanted(cur, from, s.Excl)
			what = fmt.Sprintf("run %d (from %v exclusive %v strict %v)", k+1, cname(b, b.Hash[from]), s.Excl, !s.NoStrict)
			if from != last {
				s.NoStrict = true
			}
			o = process.Opts{CheckpointsDir: cp, CommitFromIncl: b.Hash[from], CommitFromMakeNonIncl: s.Excl, NoStrictResume: s.NoStrict}
			for x := range want {
				for _, p := range cur.Commits[x].Parents {
					if !want[p] && !fin.kept(p) {
						beyond = true
					}
				}
			}
		}
		m := gm.BuildModel(e, b)
		res, err := runHistory(b, o)
		if err != nil && beyond {
			// nothing is promised for those, apart from not reporting wrong data
			v.Class("errors-beyond-kept-commits")
		} else if err != nil {
			v.Failf("%v of %d commits: %v", what, len(cur.Commits), err)
			return v
		}
		d := CompareRun(b, m, want, res)
		if err != nil {
			d.Set = nil
		}
		for _, l := range [][]string{d.Set, d.Content, d.Attr} {
			if len(l) > 0 {
				v.Failf("%v of %d commits: %v", what, len(cur.Commits), first(l))
				return v
			}
		}
		if err != nil {
			// the checkpoint is the previous one
			break
		}
		var order []int
		for _, r := range res {
			order = append(order, b.Index[r.Commit])
		}
		fin.run(cur, order)
		for _, x := range order {
			seq = append(seq, x)
			for _, p := range cur.Commits[x].Parents {
				if x-p > keptCommits {
					v.Class("forks-over-a-thousand-commits")
				}
			}
			v.ClassIf(len(cur.Commits[x].Parents) > 1, "merges")
		}
		if len(order) > 0 {
			last = order[len(order)-1]
		}
		v.ClassN("commits", len(order))
		v.ClassIf(k == 0, "full-runs")
		v.ClassIf(k > 0, "resumed-runs")
		v.ClassIf(beyond, "resumed-beyond")
		if k == 0 && c.All {
			v.Class("all-branches")
		}
		if k == 0 && fin.n <= keptCommits {
			v.Class("short")
		}
		if fin.n > keptCommits {
			v.Nontrivial = true
		}
	}
	return v
}

// finished counts commits of which all children were reported.
type finished struct {
	n    int
	rank map[int]int  // commit to number when it was finished, from 1
	seen map[int]bool // reported
}

func (f *finished) run(rp *gm.Repo, order []int) {
	left := map[int]int{}
	for _, x := range order {
		for _, p := range rp.Commits[x].Parents {
			left[p]++
		}
	}
	for _, x := range order {
		for _, p := range rp.Commits[x].Parents {
			if left[p]--; left[p] == 0 {
				f.n++
				f.rank[p] = f.n
			}
		}
		f.seen[x] = true
	}
}

func (f *finished) kept(x int) bool {
	if !f.seen[x] {
		return false
	}
	r, ok := f.rank[x]
	return !ok || f.n-r < keptCommits
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C27", Rule: "a history in which more than a thousand commits were finished (all their children reported)"})
	fw.AddSub(p, "long", 260, 6000, genLong, runLong)
}
