package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"

	"verif/harness/fw"
	"verif/harness/gm"
)

type noLog struct{}

func (noLog) Info(string, ...interface{})  {}
func (noLog) Debug(string, ...interface{}) {}

// Diffs are the differences between what was reported and the model.
type Diffs struct {
	Set, Content, Attr []string
}

func (d *Diffs) set(f string, a ...interface{}) { d.Set = append(d.Set, fmt.Sprintf(f, a...)) }
func (d *Diffs) content(f string, a ...interface{}) {
	d.Content = append(d.Content, fmt.Sprintf(f, a...))
}
func (d *Diffs) attr(f string, a ...interface{}) { d.Attr = append(d.Attr, fmt.Sprintf(f, a...)) }

func short(h string) string {
	if len(h) > 10 {
		return h[:10]
	}
	return h
}

// Name is a readable name of a commit.
func cname(b *gm.Built, h string) string {
	if i, ok := b.Index[h]; ok {
		return fmt.Sprintf("c%d(%s)", i, short(h))
	}
	return short(h)
}

// CompareOrder checks that got has exactly the wanted commits, parents first.
func CompareOrder(b *gm.Built, want map[int]bool, got []string, d *Diffs) {
	pos := map[int]int{}
	for k, h := range got {
		i, ok := b.Index[h]
		if !ok || !want[i] {
			d.set("commit %v reported but not part of the requested history", cname(b, h))
			continue
		}
		if _, dup := pos[i]; dup {
			d.set("commit %v reported twice", cname(b, h))
			continue
		}
		pos[i] = k
	}
	for i := range b.Repo.Commits {
		if !want[i] {
			continue
		}
		if _, ok := pos[i]; !ok {
			d.set("commit %v is not reported", cname(b, b.Hash[i]))
			continue
		}
		for _, p := range b.Repo.Commits[i].Parents {
			if pp, ok := pos[p]; ok && pp > pos[i] {
				d.set("commit %v reported before its parent %v", cname(b, b.Hash[i]), cname(b, b.Hash[p]))
			}
		}
	}
}

// CompareFiles checks one commit's files against the model.
func CompareFiles(b *gm.Built, cm *gm.CommitModel, got map[string]*incblame.Blame, d *Diffs) {
	c := cname(b, cm.Hash)
	var ps []string
	for p := range got {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if _, maybe := cm.Reported["?"+p]; maybe {
			continue
		}
		if cm.Reported[p] == nil {
			d.set("%v: file %q reported but not changed there", c, p)
			continue
		}
		compareBlame(c, p, cm.Reported[p], got[p], d)
	}
	ps = nil
	for p := range cm.Reported {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if cm.Reported[p] == nil {
			continue
		}
		if got[p] == nil {
			d.set("%v: changed file %q is not reported", c, p)
		}
	}
}

func compareBlame(c, p string, ex *gm.Expect, bl *incblame.Blame, d *Diffs) {
	if ex.Removed {
		if len(bl.Lines) != 0 {
			d.content("%v %q: removed file reported with %d lines", c, p, len(bl.Lines))
		}
		return
	}
	if bl.IsBinary {
		if ex.Flag == gm.Text {
			d.content("%v %q: text file reported as binary", c, p)
		}
		if len(bl.Lines) != 0 {
			d.content("%v %q: binary file reported with lines", c, p)
		}
		return
	}
	if ex.Flag == gm.Binary {
		d.content("%v %q: binary file reported as text (%d lines)", c, p, len(bl.Lines))
		return
	}
	if len(bl.Lines) != len(ex.Raw) {
		d.content("%v %q: %d lines reported, the file has %d", c, p, len(bl.Lines), len(ex.Raw))
		return
	}
	for i, l := range bl.Lines {
		if g, w := strings.TrimRight(string(l.Line), "\r"), gm.Norm(ex.Raw[i]); g != w {
			d.content("%v %q line %d: reported %.100q, the file has %.100q", c, p, i+1, g, w)
			return
		}
	}
	if ex.Wild {
		return
	}
	for i, l := range bl.Lines {
		ok := false
		for _, h := range ex.Attr[i] {
			if h == l.Commit {
				ok = true
			}
		}
		if !ok {
			d.attr("%v %q line %d %.60q: attributed to %v, want %v", c, p, i+1, string(l.Line), l.Commit, ex.Attr[i])
			return
		}
	}
}

// CompareRun checks a whole run.
func CompareRun(b *gm.Built, m *gm.Model, want map[int]bool, res []process.Result) *Diffs {
	d := &Diffs{}
	var order []string
	for _, r := range res {
		order = append(order, r.Commit)
	}
	CompareOrder(b, want, order, d)
	for _, r := range res {
		if i, ok := b.Index[r.Commit]; ok {
			CompareFiles(b, m.Commits[i], r.Files, d)
		}
	}
	return d
}

func first(s []string) string {
	if len(s) > 4 {
		s = append(append([]string(nil), s[:4]...), fmt.Sprintf("... %d more", len(s)-4))
	}
	return strings.Join(s, "\n")
}

type HistCase struct {
	Repo *gm.Repo `json:"repo"`
	All  bool     `json:"all,omitempty"`
	Bare bool     `json:"bare,omitempty"`
}

// historyClasses counts what a history exercises and decides if it counts.
func historyClasses(v *fw.Verdict, b *gm.Built, m *gm.Model, want map[int]bool) {
	for i := range b.Repo.Commits {
		if !want[i] {
			continue
		}
		c := &b.Repo.Commits[i]
		v.Class("commits")
		v.ClassIf(len(c.Cut) > 0, "shallow")
		if c.Blow != nil {
			v.ClassIf(c.Blow.Big > 0, "big-file")
			v.ClassIf(c.Blow.Many > 0, "many-files")
		}
		switch {
		case len(c.Parents) > 2:
			v.Class("octopus")
		case len(c.Parents) == 2:
			v.Class("merges")
		case len(c.Parents) == 0 && i > 0:
			v.Class("extra-roots")
		}
		cm := m.Commits[i]
		if len(cm.Reported) == 0 {
			v.Class("no-files-reported")
		}
		if len(b.Trees[i]) == 0 {
			v.Class("empty-trees")
		}
		for k := range cm.Raw {
			for _, en := range cm.Raw[k] {
				v.Class("status-" + string(en.Status))
				if en.Status == 'M' && en.OldID == en.NewID {
					v.Class("mode-only")
				}
			}
		}
		for _, ex := range cm.Reported {
			if ex != nil && ex.State != nil && ex.Flag == gm.Binary {
				v.Class("binary")
			}
		}
	}
	for k, n := range m.Stats {
		v.ClassN("model-"+k, n)
	}
}

func runHistory(b *gm.Built, o process.Opts) ([]process.Result, error) {
	o.Logger = noLog{}
	o.RepoDir = b.Dir
	return process.New(o).RunGetAll()
}

func histGen(r gm.R) *gm.Repo {
	o := gm.StdOpts(r, r.P(1, 2))
	o.Blow = 80
	return gm.History(r.T, o)
}
