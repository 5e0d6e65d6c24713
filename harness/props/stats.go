package props

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// C30: what a run says about itself.

const slowest = 10

// counted is what the statistics have to be.
type counted struct {
	regular, merges, files int
	commits                map[string]bool
}

func checkTiming(v *fw.Verdict, what string, ti process.Timing, w counted) {
	if ti.RegularCommitsCount != w.regular || ti.MergesCount != w.merges {
		v.Failf("%v: counts %d regular commits and %d merges, reported %d and %d", what, ti.RegularCommitsCount, ti.MergesCount, w.regular, w.merges)
		return
	}
	n := w.regular + w.merges
	exp := n
	if exp > slowest {
		exp = slowest
	}
	if len(ti.SlowestCommits) != exp {
		v.Failf("%v: %d slowest commits of %d", what, len(ti.SlowestCommits), n)
		return
	}
	seen := map[string]bool{}
	var sum time.Duration
	for i, c := range ti.SlowestCommits {
		sum += c.Duration
		if !w.commits[c.Commit] || seen[c.Commit] {
			v.Failf("%v: slowest commit %v repeated or not one of those reported", what, c.Commit)
			return
		}
		seen[c.Commit] = true
		if c.Duration < 0 || i > 0 && c.Duration > ti.SlowestCommits[i-1].Duration {
			v.Failf("%v: slowest commits in wrong order: %v", what, ti.SlowestCommits)
			return
		}
	}
	if ti.SlowestCommitsDur() != sum {
		v.Failf("%v: time in slowest commits %v, their sum is %v", what, ti.SlowestCommitsDur(), sum)
	}
	total := ti.RegularCommitsTime + ti.MergesTime
	if w.regular == 0 && ti.RegularCommitsTime != 0 || w.merges == 0 && ti.MergesTime != 0 {
		v.Failf("%v: time in commits of a kind without any: %+v", what, ti)
	}
	// the others are not slower
	rest := total - sum
	if n <= slowest && rest != 0 || rest < 0 || n > slowest && rest > time.Duration(n-slowest)*ti.SlowestCommits[slowest-1].Duration {
		v.Failf("%v: total time %v with %d commits does not fit the slowest %v", what, total, n, ti.SlowestCommits)
	}
	var b bytes.Buffer
	ti.OutputStats(&b)
	for _, l := range []string{fmt.Sprintf("regular commits %d\n", w.regular), fmt.Sprintf("merges %d\n", w.merges), fmt.Sprintf("time in regular commits %v\n", ti.RegularCommitsTime), fmt.Sprintf("time in merges commits %v\n", ti.MergesTime), fmt.Sprintf("time in %d slowest commits %v\n", exp, sum)} {
		if !strings.Contains("\n"+b.String(), "\n"+l) {
			v.Failf("%v: the printed statistics do not have %q: %v", what, l, b.String())
			return
		}
	}
	at := 0
	for _, c := range ti.SlowestCommits {
		i := strings.Index(b.String()[at:], fmt.Sprintf("%v %v\n", c.Commit, c.Duration))
		if i < 0 {
			v.Failf("%v: the printed statistics do not list %v: %v", what, c, b.String())
			return
		}
		at += i
	}
}

func (c *counted) add(b *gm.Built, run *CodeRun, order []string) {
	c.regular, c.merges = 0, 0
	c.commits = map[string]bool{}
	for _, h := range order {
		c.commits[h] = true
		if len(b.Repo.Commits[b.Index[h]].Parents) > 1 {
			c.merges++
		} else {
			c.regular++
		}
	}
	for _, rs := range run.Recs {
		for i := range rs {
			if rs[i].Skipped == "" || rs[i].Skipped == generatedSkip {
				c.files++
			}
		}
	}
}

func checkStats(v *fw.Verdict, b *gm.Built, run *CodeRun, order []string, w *counted) {
	w.add(b, run, order)
	checkTiming(v, run.What, run.Obj.GitProcessTimings, *w)
	if n := run.Obj.CodeInfoTimings.Count; n != w.files {
		v.Failf("%v: counts %d files processed, %d have code information", run.What, n, w.files)
	}
	if d := run.Obj.CodeInfoTimings.Time; d < 0 || w.files == 0 && d != 0 {
		v.Failf("%v: %v for %d files", run.What, d, w.files)
	}
	var o bytes.Buffer
	run.Obj.CodeInfoTimings.OutputStats(&o)
	if !strings.Contains(o.String(), fmt.Sprintf("files processed %d\n", w.files)) || !strings.Contains(o.String(), fmt.Sprintf("total time %v\n", run.Obj.CodeInfoTimings.Time)) {
		v.Failf("%v: printed %q for %d files", run.What, o.String(), w.files)
	}
	v.ClassIf(len(order) > slowest, "more-than-ten")
	v.ClassIf(w.merges > 0, "merges")
	v.ClassIf(w.files > 0, "files")
}

func runStats(e *fw.Env, c *IncrCase) *fw.Verdict {
	v := &fw.Verdict{}
	b, runs := doCode(e, c, v)
	if v.Fail != "" {
		return v
	}
	for k, run := range runs {
		order := run.Order
		if k == 1 {
			// the flat interface, of the same commits
			order = runs[0].Order
		}
		w := &counted{}
		checkStats(v, b, run, order, w)
		if v.Fail != "" {
			return v
		}
		if k == len(runs)-1 && len(c.Stages) == 0 {
			// once more with the same object: files add up, commits are of the last run
			again := newRun("second "+run.What+" of one object", run.Rp, run.Want)
			again.Obj = run.Obj
			if err := codeByCommitOn(context.Background(), again.Obj, again); err != nil {
				v.Failf("%v: %v", again.What, err)
				return v
			}
			checkStats(v, b, again, again.Order, w)
			v.Class("again")
		}
	}
	v.Nontrivial = len(runs[0].Order) >= 3
	return v
}

// SlowCase is a sequence of commits and the time they took.
type SlowCase struct {
	Dur []int `json:"dur"`
}

func genSlow(t *rapid.T) *SlowCase {
	r := gm.R{T: t}
	c := &SlowCase{}
	top := gm.Pick(r, []int{2, 10, 1000, 1000000000})
	for k := r.Int(0, 40); k > 0; k-- {
		c.Dur = append(c.Dur, r.Int(0, top))
	}
	return c
}

func runSlow(e *fw.Env, c *SlowCase) *fw.Verdict {
	v := &fw.Verdict{}
	ti := process.Timing{}
	at := map[string]int{}
	for i, d := range c.Dur {
		h := strconv.Itoa(i)
		at[h] = d
		ti.UpdateSlowestCommitsWith(h, time.Duration(d))
		exp := append([]int(nil), c.Dur[:i+1]...)
		sort.Sort(sort.Reverse(sort.IntSlice(exp)))
		if len(exp) > slowest {
			exp = exp[:slowest]
		}
		if len(ti.SlowestCommits) != len(exp) {
			v.Failf("after %v: %d slowest commits", c.Dur[:i+1], len(ti.SlowestCommits))
			return v
		}
		seen := map[string]bool{}
		var sum time.Duration
		for j, x := range ti.SlowestCommits {
			sum += x.Duration
			if int(x.Duration) != exp[j] || at[x.Commit] != exp[j] || seen[x.Commit] {
				v.Failf("after %v: slowest commits are %v", c.Dur[:i+1], ti.SlowestCommits)
				return v
			}
			seen[x.Commit] = true
		}
		if ti.SlowestCommitsDur() != sum {
			v.Failf("after %v: sum %v, expected %v", c.Dur[:i+1], ti.SlowestCommitsDur(), sum)
			return v
		}
	}
	v.Nontrivial = len(c.Dur) > slowest
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C30", Rule: "a first run of at least three commits, or more than ten times"})
	fw.AddSub(p, "run", 2400, 40000, genCode, runStats)
	fw.AddSub(p, "slowest", 3000, 60000, genSlow, runSlow)
}
