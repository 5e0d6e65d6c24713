package props

import (
	"verif/harness/fw"
	"verif/harness/gm"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"
)

func genHist(t *rapid.T) *HistCase {
	r := gm.R{T: t}
	return &HistCase{Repo: histGen(r), All: r.P(1, 2), Bare: r.P(2, 3)}
}

// runHist runs a full history and hands the differences to judge.
func runHist(e *fw.Env, c *HistCase, judge func(v *fw.Verdict, b *gm.Built, m *gm.Model, d *Diffs, want map[int]bool)) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	m := gm.BuildModel(e, b)
	want := c.Repo.Wanted(c.All)
	res, err := runHistory(b, process.Opts{AllBranches: c.All})
	if err != nil {
		v.Failf("processing a valid repository failed: %v", err)
		return v
	}
	d := CompareRun(b, m, want, res)
	historyClasses(v, b, m, want)
	judge(v, b, m, d, want)
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C01", Rule: "a history with at least two commits in which at least one file is reported changed (not merely added) with non-empty text content"})
	fw.AddSub(p, "history", 7000, 60000, genHist, func(e *fw.Env, c *HistCase) *fw.Verdict {
		return runHist(e, c, func(v *fw.Verdict, b *gm.Built, m *gm.Model, d *Diffs, want map[int]bool) {
			if len(d.Content) > 0 {
				v.Failf("%s", first(d.Content))
			}
			v.Nontrivial = changedText(b, m, want) > 0
		})
	})

	p = fw.Register(&fw.Prop{ID: "C02", Rule: "a history with at least one line carried over from a parent and at least one commit changing an existing text file"})
	fw.AddSub(p, "history", 7000, 60000, genHist, func(e *fw.Env, c *HistCase) *fw.Verdict {
		return runHist(e, c, func(v *fw.Verdict, b *gm.Built, m *gm.Model, d *Diffs, want map[int]bool) {
			if len(d.Attr) > 0 {
				v.Failf("%s", first(d.Attr))
			}
			v.Nontrivial = m.Stats["kept"] > 0
		})
	})

	p = fw.Register(&fw.Prop{ID: "C03", Rule: "a history with at least three commits that are part of the requested range, one of them not changing only by additions"})
	fw.AddSub(p, "history", 7000, 60000, genHist, func(e *fw.Env, c *HistCase) *fw.Verdict {
		return runHist(e, c, func(v *fw.Verdict, b *gm.Built, m *gm.Model, d *Diffs, want map[int]bool) {
			if len(d.Set) > 0 {
				v.Failf("%s", first(d.Set))
			}
			v.ClassIf(len(want) < len(b.Repo.Commits), "unreachable-commits")
			v.Nontrivial = len(want) >= 3 && changedText(b, m, want) > 0
		})
	})
}

func changedText(b *gm.Built, m *gm.Model, want map[int]bool) int {
	n := 0
	for i := range b.Repo.Commits {
		if !want[i] {
			continue
		}
		cm := m.Commits[i]
		for k := range cm.Raw {
			for _, en := range cm.Raw[k] {
				if en.Status != 'A' && en.Status != 'D' {
					if ex := cm.Reported[en.New]; ex != nil && ex.State != nil && ex.Flag == gm.Text && len(ex.Raw) > 0 {
						n++
					}
				}
			}
		}
	}
	return n
}
