package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// WideCase is a script for a graph with very many paths. The contents of the
// commits are drawn from Seed.
type WideCase struct {
	Seed   int         `json:"seed"`
	Shapes []WideShape `json:"shapes"`
	Refs   []int       `json:"refs"`           // commits, modulo the length of the history
	Many   int         `json:"many,omitempty"` // refs more
	PRs    []int       `json:"prs,omitempty"`
	Head   int         `json:"head"` // counted from the newest commit
	Conc   int         `json:"conc,omitempty"`
	All    bool        `json:"all,omitempty"`
}

type WideShape struct {
	Kind string `json:"k"`
	N    int    `json:"n"`
	// From is the commit it starts at, counted from the newest.
	From int `json:"from,omitempty"`
}

var wideKinds = []string{"ladder", "weave", "upstream", "back", "both", "diamonds", "nested", "stairs", "line", "fan", "random"}

func genWide(t *rapid.T) *WideCase {
	r := gm.R{T: t}
	c := &WideCase{Seed: r.Int(1, 1<<30), All: r.P(1, 2), Conc: r.Int(0, 3)}
	for k := r.Int(1, 3); k > 0; k-- {
		s := WideShape{Kind: gm.Pick(r, wideKinds), N: r.Int(8, 36)}
		if r.P(1, 3) {
			s.From = r.Int(0, 60)
		}
		c.Shapes = append(c.Shapes, s)
	}
	for k := r.Int(1, 12); k > 0; k-- {
		c.Refs = append(c.Refs, r.Int(0, 200))
	}
	for k := r.Int(0, 3); k > 0; k-- {
		c.PRs = append(c.PRs, r.Int(0, 200))
	}
	if r.P(1, 2) {
		c.Head = r.Int(0, 120)
	}
	if r.P(1, 12) {
		c.Many = r.Int(100, 400)
	}
	return c
}

func (c *WideCase) expand() *gm.Repo {
	o := gm.Opts{Paths: gm.PlainPaths[:4], MaxOps: 1, Unique: true, Binary: true, EmptyCommits: true}
	g := gm.NewSeededHG(c.Seed, o)
	g.Step()
	ends := map[int]bool{}
	add := func(par ...int) int {
		seen := map[int]bool{}
		var ps []int
		for _, p := range par {
			if !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
		g.O.Idle = g.R.Int(0, 3) > 0
		return g.StepOn(ps)
	}
	for _, s := range c.Shapes {
		n := len(g.Repo.Commits)
		x := n - 1 - s.From
		if x < 0 {
			x = 0
		}
		y, z := x, x
		switch s.Kind {
		case "ladder":
			y = add(x)
			for k := 0; k < s.N; k++ {
				a := add(x, y)
				b := add(y, x)
				x, y = a, b
			}
		case "weave":
			y, z = add(x), add(x)
			for k := 0; k < s.N; k++ {
				a := add(x, y)
				b := add(y, z)
				d := add(z, a)
				x, y, z = a, b, d
			}
		case "upstream":
			for k := 0; k < s.N; k++ {
				x = add(x)
				y = add(y, x)
			}
		case "back":
			y = add(x)
			for k := 0; k < s.N; k++ {
				y = add(y)
				x = add(x, y)
			}
		case "both":
			y = add(x)
			for k := 0; k < s.N; k++ {
				x = add(x, y)
				y = add(y)
				y = add(y, x)
			}
		case "diamonds":
			for k := 0; k < s.N; k++ {
				a, b := add(x), add(x)
				x = add(a, b)
				y = a
			}
		case "nested":
			var st []int
			for k := 0; k < s.N; k++ {
				st = append(st, x)
				x = add(x)
			}
			for k := len(st) - 1; k >= 0; k-- {
				x = add(x, add(st[k]))
			}
			y = x
		case "stairs":
			last := []int{x}
			for k := 0; k < s.N; k++ {
				x = add(last...)
				last = append([]int{x}, last...)
				if len(last) > 4 {
					last = last[:4]
				}
			}
			y = last[len(last)-1]
		case "line":
			for k := 0; k < s.N; k++ {
				x = add(x)
			}
			y = x
		case "fan":
			all := []int{x}
			for k := 0; k < s.N; k++ {
				y = add(x)
				if k%2 == 0 {
					ends[y] = true
				}
				all = append(all, y)
			}
			m := len(all)
			if g.R.Int(0, 1) == 0 {
				m = min(m, 12)
			}
			x = add(all[:m]...)
		default:
			for k := 0; k < s.N; k++ {
				m := len(g.Repo.Commits)
				w := min(m, 6)
				if g.R.Int(0, 2) > 0 {
					x = add(m-1-g.R.Int(0, w-1), m-1-g.R.Int(0, w-1))
				} else {
					x = add(m - 1 - g.R.Int(0, w-1))
				}
			}
			y = x
		}
		ends[x], ends[y], ends[z] = true, true, true
		// what follows goes on from x
		if x != len(g.Repo.Commits)-1 {
			add(x)
		}
	}
	rp := g.Repo
	n := len(rp.Commits)
	rp.Head = "main"
	rp.HeadAt = max(0, n-1-c.Head)
	at := map[int]bool{}
	for _, f := range c.Refs {
		at[f%n] = true
	}
	for x, k := n-1, 0; x >= 0 && k < 12; x-- {
		if ends[x] {
			at[x] = true
			k++
		}
	}
	var xs []int
	for x := range at {
		xs = append(xs, x)
	}
	sort.Ints(xs)
	for _, x := range xs {
		rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/b%d", x), Commit: x})
	}
	for k := 0; k < c.Many; k++ {
		rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/many/%d", k), Commit: k * 7 % n})
	}
	return rp
}

// paths counts the ways to a root, up to a bound.
func countPaths(rp *gm.Repo) float64 {
	n := make([]float64, len(rp.Commits))
	most := 0.0
	for i, c := range rp.Commits {
		if len(c.Parents) == 0 {
			n[i] = 1
		}
		for _, p := range c.Parents {
			n[i] += n[p]
		}
		if n[i] > most {
			most = n[i]
		}
	}
	return most
}

func runWide(e *fw.Env, c *WideCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := c.expand()
	b := rp.Build(e, e.Sub("repo"), true)
	// the commit graph
	gr := parentsgraph.New(parentsgraph.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: true})
	if err := gr.Read(); err != nil {
		v.Failf("reading the graph failed: %v", err)
		return v
	}
	judgeGraph(v, b, gr, rp.Wanted(true))
	if v.Fail != "" {
		return v
	}
	// branches
	bc := &BrCase{Repo: rp, Conc: c.Conc}
	inGraph := rp.Wanted(true)
	for _, p := range c.PRs {
		if p %= len(rp.Commits); inGraph[p] {
			bc.PRs = append(bc.PRs, gm.B(fmt.Sprintf("c%d", p)))
		}
	}
	brs, err := bc.branches(b)
	if err != nil {
		v.Failf("listing branches failed: %v", err)
		return v
	}
	for i := range brs {
		br := &brs[i]
		h, ok := b.Index[br.HeadSHA]
		if !ok {
			v.Failf("branch %q has unknown head %q", br.Name, br.HeadSHA)
			return v
		}
		var m *brModel
		if !br.IsDefault {
			m = modelBranch(rp, rp.HeadAt, h)
		}
		w := &fw.Verdict{}
		judgeC09(w, b, br, m)
		if w.Fail == "" {
			judgeC10(w, b, br, m)
		}
		if w.Fail != "" {
			v.Failf("%v", clipText(w.Fail))
			return v
		}
		v.Class("branches")
	}
	named := 0
	for _, br := range brs {
		if !br.IsPullRequest {
			named++
		}
	}
	if named != len(rp.Refs)+1 {
		v.Failf("%d branches listed, the repository has %d", named, len(rp.Refs)+1)
		return v
	}
	// metadata
	want := rp.Wanted(c.All)
	ms, err := commitmeta.New(b.Dir, commitmeta.Opts{AllBranches: c.All}).RunSlice()
	if err != nil {
		v.Failf("metadata: %v", err)
		return v
	}
	d := &Diffs{}
	var order []string
	for _, x := range ms {
		order = append(order, x.SHA)
	}
	CompareOrder(b, want, order, d)
	var onlySet []string
	for _, s := range d.Set {
		// the order is not promised here
		if !strings.Contains(s, "before its parent") {
			onlySet = append(onlySet, s)
		}
	}
	if len(onlySet) > 0 {
		v.Failf("metadata: %v", clipText(first(onlySet)))
		return v
	}
	// code
	m := gm.BuildModel(e, b)
	run := newRun("code", rp, want)
	if err := codeByCommit(ripsrc.Opts{RepoDir: b.Dir, AllBranches: c.All, CheckpointsDir: e.Sub("checkpoints")}, run); err != nil {
		v.Failf("code: %v", err)
		return v
	}
	w := &fw.Verdict{}
	checkCode(w, b, m, run)
	if w.Fail != "" {
		v.Failf("%v", clipText(w.Fail))
		return v
	}
	v.ClassN("commits", len(rp.Commits))
	v.ClassIf(c.Many > 0, "over-100-branches")
	for _, s := range c.Shapes {
		v.Class(s.Kind)
	}
	if countPaths(rp) > 1e6 {
		v.Class("over-a-million-paths")
		v.Nontrivial = true
	}
	return v
}

func clipText(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// BulkCase is a script for large files and many files.
type BulkCase struct {
	Lines int      `json:"lines"` // of the first version
	Files int      `json:"files"`
	Steps []BulkOp `json:"steps"`
}

type BulkOp struct {
	// Op on every K-th line, from Off: change, insert, drop, dup; or reverse,
	// double, rotate, binary, clear; or on files: add, remove, rename, edit;
	// long adds a line of 2K MB; merge joins the last two commits.
	Op  string `json:"op"`
	K   int    `json:"k,omitempty"`
	Off int    `json:"off,omitempty"`
	// Side starts from the commit before the newest.
	Side bool `json:"side,omitempty"`
}

func genBulk(t *rapid.T) *BulkCase {
	r := gm.R{T: t}
	c := &BulkCase{Lines: r.Int(1, 12000), Files: r.Int(1, 1200)}
	if r.P(1, 14) {
		c.Lines = r.Int(32000, 70000)
	}
	for k := r.Int(1, 5); k > 0; k-- {
		op := BulkOp{Op: gm.Pick(r, []string{"long", "change", "change", "insert", "insert", "drop", "dup", "reverse", "rotate", "double", "binary", "clear", "add", "remove", "rename", "edit", "merge", "merge"}), K: r.Int(2, 9), Off: r.Int(0, 8), Side: r.P(1, 4)}
		c.Steps = append(c.Steps, op)
	}
	if c.Lines >= 32000 && r.P(1, 2) {
		c.Lines = r.Int(66000, 140000)
		c.Steps[len(c.Steps)-1] = BulkOp{Op: "clear"}
	}
	return c
}

func (c *BulkCase) expand() *gm.Repo {
	rp := &gm.Repo{Head: "main"}
	type state struct {
		lines []string
		bin   bool
		files map[string]string
	}
	write := func(par []int, base, s state) state {
		cm := gm.Commit{Parents: par}
		data := func(s state) string {
			if s.bin {
				return "\x00" + fmt.Sprint(len(s.lines))
			}
			if len(s.lines) == 0 {
				return ""
			}
			return strings.Join(s.lines, "\n") + "\n"
		}
		if data(s) != data(base) || len(par) == 0 {
			cm.Changes = append(cm.Changes, gm.Change{Path: "big.go", Data: gm.B(data(s))})
		}
		var ps []string
		for p := range s.files {
			ps = append(ps, p)
		}
		for p := range base.files {
			if _, ok := s.files[p]; !ok {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		for _, p := range ps {
			d, ok := s.files[p]
			if !ok {
				cm.Changes = append(cm.Changes, gm.Change{Path: gm.B(p), Del: true})
			} else if old, had := base.files[p]; !had || old != d {
				cm.Changes = append(cm.Changes, gm.Change{Path: gm.B(p), Data: gm.B(d)})
			}
		}
		rp.Commits = append(rp.Commits, cm)
		return s
	}
	cp := func(s state) state {
		n := state{lines: append([]string(nil), s.lines...), bin: s.bin, files: map[string]string{}}
		for k, d := range s.files {
			n.files[k] = d
		}
		return n
	}
	s := state{files: map[string]string{}}
	for i := 0; i < c.Lines; i++ {
		s.lines = append(s.lines, fmt.Sprintf("a%d", i))
	}
	var sts []state
	sts = append(sts, write(nil, state{}, s))
	for k, op := range c.Steps {
		n := len(sts)
		par := []int{n - 1}
		if op.Side && n > 1 {
			par = []int{n - 2}
		}
		if op.Op == "merge" && n > 1 {
			par = []int{n - 1, n - 2}
		}
		base := sts[par[0]]
		s := cp(base)
		every := func(f func(i int, l string) []string) {
			var out []string
			for i, l := range s.lines {
				if op.K > 0 && (i+op.Off)%op.K == 0 {
					out = append(out, f(i, l)...)
				} else {
					out = append(out, l)
				}
			}
			s.lines = out
		}
		switch op.Op {
		case "change":
			every(func(i int, l string) []string { return []string{fmt.Sprintf("c%d.%d", k, i)} })
		case "insert":
			every(func(i int, l string) []string { return []string{l, fmt.Sprintf("i%d.%d", k, i)} })
		case "drop":
			every(func(i int, l string) []string { return nil })
		case "dup":
			every(func(i int, l string) []string { return []string{l, l} })
		case "double":
			if len(s.lines) < 20000 {
				s.lines = append(s.lines, s.lines...)
			}
		case "reverse":
			for i, j := 0, len(s.lines)-1; i < j; i, j = i+1, j-1 {
				s.lines[i], s.lines[j] = s.lines[j], s.lines[i]
			}
		case "rotate":
			if m := len(s.lines); m > 0 {
				q := m / max(op.K, 1)
				s.lines = append(append([]string(nil), s.lines[q:]...), s.lines[:q]...)
			}
		case "long":
			at := min(op.Off, len(s.lines))
			s.lines = append(append(append([]string(nil), s.lines[:at]...), fmt.Sprintf("%d ", k)+strings.Repeat("long ", op.K*400000)), s.lines[at:]...)
		case "binary":
			s.bin = !s.bin
		case "clear":
			s.lines = nil
		case "add":
			for i := 0; i < c.Files; i++ {
				s.files[fmt.Sprintf("d%d/f%d.go", i%7, i)] = fmt.Sprintf("f %d %d\n", k, i)
			}
		case "remove":
			s.files = map[string]string{}
		case "rename":
			f := map[string]string{}
			for p, d := range s.files {
				f["r"+p] = d
			}
			s.files = f
		case "edit":
			for p := range s.files {
				s.files[p] += fmt.Sprintf("e%d\n", k)
			}
		case "merge":
			if len(par) == 2 {
				o := sts[par[1]]
				var out []string
				seen := map[string]bool{}
				for i := 0; i < len(s.lines) || i < len(o.lines); i++ {
					for _, x := range [][]string{s.lines, o.lines} {
						if i < len(x) && !seen[x[i]] {
							seen[x[i]] = true
							out = append(out, x[i])
						}
					}
				}
				s.lines = out
				for p, d := range o.files {
					if _, ok := s.files[p]; !ok {
						s.files[p] = d
					}
				}
			}
		}
		sts = append(sts, write(par, base, s))
	}
	rp.HeadAt = len(rp.Commits) - 1
	return rp
}

func runBulk(e *fw.Env, c *BulkCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := c.expand()
	b := rp.Build(e, e.Sub("repo"), true)
	run := newRun("code", rp, rp.Wanted(false))
	if err := codeByCommit(ripsrc.Opts{RepoDir: b.Dir, CheckpointsDir: e.Sub("checkpoints")}, run); err != nil {
		v.Failf("code: %v", err)
		return v
	}
	m := gm.BuildModel(e, b)
	w := &fw.Verdict{}
	checkCode(w, b, m, run)
	if w.Fail != "" {
		v.Failf("%v", clipText(w.Fail))
		return v
	}
	for _, op := range c.Steps {
		v.Class(op.Op)
	}
	v.ClassN("lines", w.Classes["lines"])
	v.ClassN("records", w.Classes["records"])
	v.Nontrivial = w.Classes["lines"] > 10000 || w.Classes["records"] > 500
	return v
}

// DeepCase is a script for a long history, most of its commits are empty.
type DeepCase struct {
	N int `json:"n"`
	// Side is the distance between side branches, Len and Lag their length
	// and how much later they are merged; every Open-th is not merged.
	Side int `json:"side"`
	Len  int `json:"len"`
	Lag  int `json:"lag"`
	Open int `json:"open"`
	// Edit is the distance between commits that add a line to the file.
	Edit int  `json:"edit"`
	All  bool `json:"all,omitempty"`
	Head int  `json:"head,omitempty"`
	Conc int  `json:"conc,omitempty"`
}

func genDeep(t *rapid.T) *DeepCase {
	r := gm.R{T: t}
	c := &DeepCase{N: r.Int(2500, 12000), Side: gm.Pick(r, []int{0, 7, 40, 300, 2000}), Len: r.Int(1, 12), Lag: gm.Pick(r, []int{0, 3, 200, 900}), Open: r.Int(1, 9), Edit: gm.Pick(r, []int{20, 60, 400}), All: r.P(1, 2), Conc: r.Int(0, 3)}
	if r.P(1, 3) {
		c.Head = r.Int(0, c.N/2)
	}
	return c
}

func (c *DeepCase) expand() *gm.Repo {
	rp := &gm.Repo{Head: "main"}
	when := int64(1500000000)
	add := func(par ...int) int {
		when += 60
		i := len(rp.Commits)
		rp.Commits = append(rp.Commits, gm.Commit{Parents: par, When: when, Msg: "m"})
		return i
	}
	type side struct{ at, tip int }
	var open []side
	var main []int
	text, x, sides := "", -1, 0
	for k := 0; len(rp.Commits) < c.N; k++ {
		if x < 0 {
			x = add()
		} else {
			x = add(x)
		}
		main = append(main, x)
		if k%c.Edit == 0 {
			text += fmt.Sprintf("c%d\n", x)
			rp.Commits[x].Changes = []gm.Change{{Path: "f.txt", Data: gm.B(text)}}
		}
		if c.Side > 0 && k%c.Side == c.Side-1 {
			y := x
			for j := 0; j < c.Len; j++ {
				y = add(y)
			}
			sides++
			if sides%c.Open == 0 {
				rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/o%d", k), Commit: y})
			} else {
				open = append(open, side{k + c.Lag, y})
				if sides%17 == 0 {
					rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/m%d", k), Commit: y})
				}
			}
		}
		for len(open) > 0 && open[0].at <= k {
			x = add(x, open[0].tip)
			main = append(main, x)
			open = open[1:]
		}
	}
	for i := len(rp.Refs) - 1; i >= 0 && len(rp.Refs) > 12; i-- {
		if i%3 == 0 || len(rp.Refs) > 100 {
			rp.Refs = append(rp.Refs[:i], rp.Refs[i+1:]...)
		}
	}
	rp.HeadAt = main[max(0, len(main)-1-c.Head)]
	rp.Refs = append(rp.Refs, gm.Ref{Name: "refs/heads/tip", Commit: x})
	return rp
}

func runDeep(e *fw.Env, c *DeepCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := c.expand()
	b := rp.Build(e, e.Sub("repo"), true)
	gr := parentsgraph.New(parentsgraph.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: true})
	if err := gr.Read(); err != nil {
		v.Failf("reading the graph failed: %v", err)
		return v
	}
	judgeGraph(v, b, gr, rp.Wanted(true))
	if v.Fail != "" {
		v.Fail = clipText(v.Fail)
		return v
	}
	brs, err := (&BrCase{Repo: rp, Conc: c.Conc}).branches(b)
	if err != nil {
		v.Failf("listing branches failed: %v", err)
		return v
	}
	for i := range brs {
		br := &brs[i]
		var m *brModel
		if !br.IsDefault {
			m = modelBranch(rp, rp.HeadAt, b.Index[br.HeadSHA])
		}
		w := &fw.Verdict{}
		judgeC09(w, b, br, m)
		if w.Fail == "" {
			judgeC10(w, b, br, m)
		}
		if w.Fail != "" {
			v.Failf("%v", clipText(w.Fail))
			return v
		}
	}
	want := rp.Wanted(c.All)
	ms, err := commitmeta.New(b.Dir, commitmeta.Opts{AllBranches: c.All}).RunSlice()
	if err != nil {
		v.Failf("metadata: %v", err)
		return v
	}
	var order []string
	for _, x := range ms {
		order = append(order, x.SHA)
	}
	d := &Diffs{}
	CompareOrder(b, want, order, d)
	if len(d.Set) > 0 {
		v.Failf("metadata: %v", clipText(first(d.Set)))
		return v
	}
	hist, err := process.New(process.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: c.All, CheckpointsDir: e.Sub("checkpoints")}).RunGetAll()
	if err != nil {
		v.Failf("history: %v", err)
		return v
	}
	order = nil
	lines := 0
	for _, r := range hist {
		order = append(order, r.Commit)
		x := b.Index[r.Commit]
		if n := len(rp.Commits[x].Changes); len(r.Files) != n {
			v.Failf("history: %v reports %d files, expected %d", cname(b, r.Commit), len(r.Files), n)
			return v
		}
		for _, f := range r.Files {
			lines += len(f.Lines)
			text := string(rp.Commits[x].Changes[0].Data)
			k := 0
			for _, l := range f.Lines {
				var y int
				if _, err := fmt.Sscanf(string(l.Line), "c%d", &y); err != nil || y >= len(b.Hash) || l.Commit != b.Hash[y] {
					v.Failf("history: %v line %q is attributed to %v", cname(b, r.Commit), l.Line, cname(b, l.Commit))
					return v
				}
				if k+len(l.Line) >= len(text) || text[k:k+len(l.Line)+1] != string(l.Line)+"\n" {
					v.Failf("history: %v has line %q at %d", cname(b, r.Commit), l.Line, k)
					return v
				}
				k += len(l.Line) + 1
			}
			if k != len(text) {
				v.Failf("history: %v has %d bytes of %d", cname(b, r.Commit), k, len(text))
				return v
			}
		}
	}
	d = &Diffs{}
	CompareOrder(b, want, order, d)
	if len(d.Set) > 0 {
		v.Failf("history: %v", clipText(first(d.Set)))
		return v
	}
	v.ClassN("commits", len(rp.Commits))
	v.ClassN("branches", len(brs))
	v.ClassN("lines", lines)
	v.ClassIf(c.Side > 0, "merges")
	v.Nontrivial = len(want) > 4000
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C28", Rule: "a commit graph with more than a million paths, or a history with more than 10000 attributed lines, 500 records or 4000 commits"})
	p.CPU, p.Memory = 60, 2<<30
	fw.AddSub(p, "graphs", 700, 6000, genWide, runWide)
	fw.AddSub(p, "bulk", 350, 3000, genBulk, runBulk)
	fw.AddSub(p, "deep", 40, 600, genDeep, runDeep)
	fw.AddSub(p, "held", 6, 80, genHeld, runHeld)
}
