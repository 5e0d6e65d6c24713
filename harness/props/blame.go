package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/fw"
	"verif/harness/gm"

	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"pgregory.net/rapid"
)

// C20: direct blame.

type BlameCase struct {
	Repo *gm.Repo `json:"repo"`
	Bare bool     `json:"bare,omitempty"`
	// Picks choose commits and files.
	Picks []int `json:"picks"`
}

func genBlame(t *rapid.T) *BlameCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 2))
	o.MaxCommits = 12
	if r.P(1, 2) {
		o.Paths = gm.DrawPaths(r, gm.HostilePaths, 5)
	}
	c := &BlameCase{Repo: gm.History(t, o), Bare: r.P(1, 2)}
	for i := range c.Repo.Commits {
		cm := &c.Repo.Commits[i]
		if r.P(1, 3) {
			cm.Author = genIdent(r)
		}
		if r.P(1, 4) {
			cm.Msg = genMsg(r)
		}
	}
	for k := 0; k < 6; k++ {
		c.Picks = append(c.Picks, r.Int(0, 9999))
	}
	return c
}

func runBlame(e *fw.Env, c *BlameCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	m := &gm.Model{B: b, E: e}
	for _, pk := range c.Picks {
		i := pk % len(b.Hash)
		if pk/100%3 > 0 {
			i = len(b.Hash) - 1 - i/2
		}
		ps := b.Trees[i].Paths()
		if len(ps) == 0 {
			continue
		}
		checkBlame(v, m, i, ps[pk/300%len(ps)])
		if v.Fail != "" {
			return v
		}
	}
	v.ClassIf(c.Repo.Shallow(), "shallow")
	return v
}

// checkBlame compares the blame of one file with that of git.
func checkBlame(v *fw.Verdict, m *gm.Model, i int, p string) {
	b := m.B
	if b.Trees[i][p].Mode == "160000" {
		// git blame has no lines for a submodule
		if _, err := gitblame2.Run(b.Dir, b.Hash[i], p); err == nil {
			v.Failf("%v %q: blaming a submodule succeeds", cname(b, b.Hash[i]), p)
			return
		}
		v.Class("submodule")
		return
	}
	raw := gm.SplitRaw(b.Trees[i][p].Data)
	want := m.Blame(i, p)
	if len(want) != len(raw) {
		// git's own view differs for content it converts
		fw.Infraf("git blame has %d lines for %d", len(want), len(raw))
	}
	got, err := gitblame2.Run(b.Dir, b.Hash[i], p)
	where := fmt.Sprintf("%v %q", cname(b, b.Hash[i]), p)
	if err != nil {
		v.Failf("%v: %v", where, err)
		return
	}
	if len(got.Lines) != len(raw) {
		v.Failf("%v: %d entries for a file of %d lines", where, len(got.Lines), len(raw))
		return
	}
	set := map[string]bool{}
	for k, l := range got.Lines {
		if w := strings.TrimSuffix(raw[k], "\n"); l.Content != w {
			v.Failf("%v line %d: content %.100q, the file has %.100q", where, k+1, l.Content, w)
			return
		}
		if l.CommitHash != want[k] {
			v.Failf("%v line %d %.60q: commit %v, git blame says %v", where, k+1, raw[k], cname(b, l.CommitHash), cname(b, want[k]))
			return
		}
		set[l.CommitHash] = true
		v.ClassIf(l.Content == "", "empty-line")
	}
	v.Class("files")
	v.ClassIf(len(raw) == 0, "empty-file")
	v.ClassIf(len(raw) > 0 && !strings.HasSuffix(raw[len(raw)-1], "\n"), "no-final-newline")
	v.ClassIf(gm.IsBin(b.Trees[i][p].Data), "binary")
	if len(set) > 1 {
		v.Class("several-commits")
		v.Nontrivial = true
	}
}

// runBlameBulk blames files of thousands of lines.
func runBlameBulk(e *fw.Env, c *BulkCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := c.expand()
	b := rp.Build(e, e.Sub("repo"), true)
	m := &gm.Model{B: b, E: e}
	for i := len(b.Hash) - 1; i >= 0 && i >= len(b.Hash)-2; i-- {
		ps := b.Trees[i].Paths()
		for k := 0; k < len(ps) && k < 2; k++ {
			checkBlame(v, m, i, ps[k])
			if v.Fail != "" {
				v.Fail = clipText(v.Fail)
				return v
			}
			v.ClassN("lines", len(gm.SplitRaw(b.Trees[i][ps[k]].Data)))
		}
	}
	return v
}

// C21: parsing and applying one diff per parent.

type DiffCase struct {
	// Versions of the file in the parents and, last, in the result; nil means no file.
	Versions []*DiffVersion `json:"versions"`
	Opts     []string       `json:"opts,omitempty"`
}

type DiffVersion struct {
	Path gm.B   `json:"p"`
	Mode string `json:"m,omitempty"`
	Data gm.B   `json:"d"`
}

func genDiff(t *rapid.T) *DiffCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 3))
	o.Paths = []string{"f"}
	o.MaxOps = 1
	g := gm.NewHG(t, o)
	c := &DiffCase{}
	n := 1
	if r.P(1, 3) {
		n = r.Int(2, 4)
	}
	path := "f.go"
	hostile := r.P(1, 2)
	if hostile {
		path = gm.Pick(r, gm.HostilePaths)
	}
	vs := g.Versions(n + 1)
	for i, d := range vs {
		v := &DiffVersion{Path: gm.B(path), Data: gm.B(d)}
		if r.P(1, 10) {
			v.Data = ""
		}
		if r.P(1, 12) {
			v.Data += "\x00"
		}
		if r.P(1, 12) {
			v.Mode = "100755"
		}
		if i < n && r.P(1, 5) {
			if hostile {
				v.Path = gm.B(gm.Pick(r, gm.HostilePaths))
			} else {
				v.Path = "dir/old name.go"
			}
		}
		if r.P(1, 10) {
			v = nil
		}
		c.Versions = append(c.Versions, v)
	}
	if r.P(1, 4) {
		c.Opts = append(c.Opts, gm.Pick(r, []string{"--histogram", "--patience", "--minimal", "--no-indent-heuristic"}))
	}
	if r.P(1, 4) {
		c.Opts = append(c.Opts, fmt.Sprintf("-U%d", r.Int(3, 12)))
	}
	if r.P(1, 6) {
		c.Opts = append(c.Opts, fmt.Sprintf("--inter-hunk-context=%d", r.Int(1, 9)))
	}
	return c
}

// parentBlame gives each line of a version its own commit.
func parentBlame(k int, data string) incblame.Blame {
	b := incblame.Blame{Commit: fmt.Sprintf("p%d", k)}
	for i, l := range gm.SplitRaw(data) {
		b.Lines = append(b.Lines, &incblame.Line{Line: []byte(gm.Norm(l)), Commit: fmt.Sprintf("p%d-%d", k, i)})
	}
	return b
}

func dumpBlame(b incblame.Blame) string {
	s := fmt.Sprintf("%v %v", b.Commit, b.IsBinary)
	for _, l := range b.Lines {
		s += fmt.Sprintf("\n%v %q", l.Commit, l.Line)
	}
	return s
}

func runDiff(e *fw.Env, c *DiffCase) *fw.Verdict {
	v := &fw.Verdict{}
	n := len(c.Versions) - 1
	rp := &gm.Repo{Head: "main"}
	for _, ver := range c.Versions {
		cm := gm.Commit{Changes: []gm.Change{{Path: "zz keep", Data: "keep\n"}}}
		if ver != nil {
			if !gm.ValidPath(string(ver.Path)) || strings.HasPrefix(string(ver.Path), "zz") {
				fw.Infraf("path %q", ver.Path)
			}
			cm.Changes = append(cm.Changes, gm.Change{Path: ver.Path, Mode: ver.Mode, Data: ver.Data})
		}
		rp.Commits = append(rp.Commits, cm)
	}
	rp.HeadAt = n
	b := rp.Build(e, e.Sub("repo"), true)
	res := c.Versions[n]
	var newLines []string
	if res != nil {
		newLines = gm.SplitRaw(string(res.Data))
	}
	var blames []incblame.Blame
	var diffs []incblame.Diff
	var maps [][]int
	mergeable := res != nil && !gm.IsBin(string(res.Data))
	for k := 0; k < n; k++ {
		old := c.Versions[k]
		args := []string{"-c", "diff.renameLimit=10000", "diff-tree", "-p", "-M", "-r", "--no-color"}
		args = append(append(args, c.Opts...), b.Hash[k], b.Hash[n])
		out := e.Git(b.GitDir, append([]string{"--git-dir=."}, args...)...)
		// one change per file; a line that starts with "diff" is not content
		var parts [][]byte
		for _, l := range bytes.SplitAfter(out, []byte("\n")) {
			if bytes.HasPrefix(l, []byte("diff --git ")) {
				parts = append(parts, nil)
			}
			if len(parts) > 0 {
				parts[len(parts)-1] = append(parts[len(parts)-1], l...)
			}
		}
		raw := b.RawPair(e, k, n)
		if len(parts) != len(raw) {
			fw.Infraf("%d diffs for %d changes", len(parts), len(raw))
		}
		seen := false
		for j, en := range raw {
			keep := append([]byte(nil), parts[j]...)
			d := incblame.Parse(parts[j])
			if !bytes.Equal(keep, parts[j]) {
				v.Failf("Parse modified its input")
			}
			wantPrev, wantPath := en.Old, en.New
			bin := false
			var od, nd string
			switch en.Status {
			case 'A':
				wantPrev = ""
				nd = string(res.Data)
				bin = gm.IsBin(nd)
			case 'D':
				wantPath = ""
				od = string(old.Data)
				bin = gm.IsBin(od)
			default:
				od, nd = string(old.Data), string(res.Data)
				bin = od != nd && (gm.IsBin(od) || gm.IsBin(nd))
			}
			v.Class("status-" + string(en.Status))
			where := fmt.Sprintf("diff from parent %d of %q:", k, en.New)
			if d.PathPrev != wantPrev || d.Path != wantPath {
				v.Failf("%v paths are %q and %q, want %q and %q", where, d.PathPrev, d.Path, wantPrev, wantPath)
				return v
			}
			if d.IsBinary != bin {
				v.Failf("%v binary is %v, want %v", where, d.IsBinary, bin)
				return v
			}
			if bin {
				v.Class("binary")
				if en.New == string(pathOf(res)) {
					mergeable = false
				}
				continue
			}
			if en.Status == 'D' {
				if len(d.Hunks) != 0 {
					v.Failf("%v removal has hunks", where)
				}
				continue
			}
			pb := incblame.Blame{}
			var mp []int
			if en.Status != 'A' {
				pb = parentBlame(k, od)
				var mo []string
				for _, o := range c.Opts {
					if !strings.HasPrefix(o, "-U") && !strings.HasPrefix(o, "--inter") {
						mo = append(mo, o)
					}
				}
				mp = gm.GitMatch(e, b.GitDir, od, nd, mo...)
			}
			v.ClassN("hunks", len(d.Hunks))
			if len(d.Hunks) > 1 {
				v.Nontrivial = true
			}
			before := dumpBlame(pb)
			got := incblame.Apply(pb, d, "new", "file")
			if dumpBlame(pb) != before {
				v.Failf("%v Apply modified the blame of the old version", where)
				return v
			}
			if got.IsBinary || len(got.Lines) != len(newLines) {
				v.Failf("%v %d lines, want %d\n%s", where, len(got.Lines), len(newLines), parts[j])
				return v
			}
			for i, l := range got.Lines {
				want := "new"
				if mp != nil && mp[i] >= 0 {
					want = fmt.Sprintf("p%d-%d", k, mp[i])
					v.Class("kept-lines")
				} else {
					v.Class("added-lines")
				}
				if g, w := strings.TrimRight(string(l.Line), "\r"), gm.Norm(newLines[i]); g != w {
					v.Failf("%v line %d is %.100q, want %.100q", where, i+1, g, w)
					return v
				}
				if l.Commit != want {
					v.Failf("%v line %d %.60q has %v, want %v", where, i+1, newLines[i], l.Commit, want)
					return v
				}
			}
			seen = true
			blames = append(blames, pb)
			diffs = append(diffs, incblame.Parse(keep))
			maps = append(maps, mp)
		}
		if !seen {
			mergeable = false
		}
	}
	if n < 2 || !mergeable || len(diffs) != n {
		return v
	}
	v.Class("merges")
	v.Nontrivial = true
	var before []string
	for _, pb := range blames {
		before = append(before, dumpBlame(pb))
	}
	got := incblame.ApplyMerge(blames, diffs, "new", "file")
	for k, pb := range blames {
		if dumpBlame(pb) != before[k] {
			v.Failf("ApplyMerge modified the blame of parent %d", k)
			return v
		}
	}
	if len(got.Lines) != len(newLines) {
		v.Failf("merge: %d lines, want %d", len(got.Lines), len(newLines))
		return v
	}
	for i, l := range got.Lines {
		want := "new"
		for k := range maps {
			if maps[k] != nil && maps[k][i] >= 0 {
				want = fmt.Sprintf("p%d-%d", k, maps[k][i])
				break
			}
		}
		if g, w := strings.TrimRight(string(l.Line), "\r"), gm.Norm(newLines[i]); g != w || l.Commit != want {
			v.Failf("merge: line %d is %.100q of %v, want %.100q of %v", i+1, g, l.Commit, w, want)
			return v
		}
	}
	return v
}

func pathOf(v *DiffVersion) gm.B {
	if v == nil {
		return ""
	}
	return v.Path
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C20", Rule: "a blamed file whose lines come from at least two commits"})
	fw.AddSub(p, "history", 6000, 60000, genBlame, runBlame)
	fw.AddSub(p, "bulk", 120, 1200, genBulk, runBlameBulk)
	p = fw.Register(&fw.Prop{ID: "C21", Rule: "a diff with at least two hunks, or a merge with a usable diff to every parent"})
	fw.AddSub(p, "versions", 12000, 120000, genDiff, runDiff)
}
