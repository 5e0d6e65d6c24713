package props

import (
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// C31: the repository changes between the git commands of a run.

// LiveEvent is one change of the repository.
type LiveEvent struct {
	// Kind is move (of a ref, to Commit), delete, checkout (of branch Name),
	// repack, gc.
	Kind   string `json:"k"`
	Name   string `json:"name,omitempty"`
	Commit int    `json:"c"`
}

type LiveCase struct {
	Repo   *gm.Repo `json:"repo"`
	Bare   bool     `json:"bare,omitempty"`
	Loose  bool     `json:"loose,omitempty"`
	PRs    []int    `json:"prs,omitempty"`
	Origin bool     `json:"origin,omitempty"`
	Head   bool     `json:"head,omitempty"`
	Kinds  []string `json:"kinds"`
	Reuse  bool     `json:"reuse,omitempty"`
	// Incr are runs that continue from a checkpoint, of the state before or
	// after the event.
	Incr  bool      `json:"incr,omitempty"`
	Later bool      `json:"later,omitempty"`
	Excl  bool      `json:"excl,omitempty"`
	Event LiveEvent `json:"event"`
	// Back exchanges the state before and after the event.
	Back bool `json:"back,omitempty"`
	// At is the git command that the event precedes, modulo their number.
	At int `json:"at"`
	// Undo is how many git commands later the event is undone, if not 0.
	Undo int `json:"undo,omitempty"`
}

func genLive(t *rapid.T) *LiveCase {
	r := gm.R{T: t}
	c := &LiveCase{Bare: r.P(1, 2), Loose: r.P(1, 4), Head: r.P(1, 3), Reuse: r.P(1, 4), Incr: r.P(1, 4), Excl: r.P(1, 2), Back: r.P(1, 2), At: r.Int(0, 59)}
	c.Repo, c.PRs, c.Origin = genStable(t)
	if r.P(1, 4) {
		c.Undo = r.Int(1, 3)
	}
	n := len(c.Repo.Commits)
	var own, heads []string
	names := map[string]int{}
	for _, f := range c.Repo.Refs {
		names[f.Name]++
	}
	for _, f := range c.Repo.Refs {
		if f.Sym == "" && !f.Tag && names[f.Name] == 1 {
			own = append(own, f.Name)
			if strings.HasPrefix(f.Name, "refs/heads/") {
				heads = append(heads, strings.TrimPrefix(f.Name, "refs/heads/"))
			}
		}
	}
	main := "refs/heads/" + c.Repo.Head
	ev := &c.Event
	ev.Commit = r.Int(0, n-1)
	ev.Kind = gm.Pick(r, []string{"move", "move", "move", "move", "move", "create", "delete", "checkout", "repack", "gc"})
	switch {
	case ev.Kind == "checkout" && len(heads) > 0:
		ev.Name = gm.Pick(r, heads)
	case ev.Kind == "delete" && len(own) > 0:
		ev.Name = gm.Pick(r, own)
	case ev.Kind == "create":
		ev.Kind = "move"
		ev.Name = gm.Pick(r, []string{"refs/heads/new", "refs/heads/new/one", "refs/tags/new", "refs/remotes/origin/new", "refs/pull/9/head"})
	case ev.Kind != "repack" && ev.Kind != "gc":
		ev.Kind = "move"
		ev.Name = main
		if r.P(1, 2) && len(own) > 0 {
			ev.Name = gm.Pick(r, own)
		}
	}
	if c.Incr {
		c.Head, c.Reuse = true, false
		c.Later = r.P(1, 3)
		if r.P(3, 4) {
			// the usual case, commits are added
			ev.Kind, ev.Name, c.Back = "move", main, !c.Later
			if c.Later && r.P(1, 2) {
				c.Undo = r.Int(1, 2)
				if r.P(1, 2) {
					// only the second reading of the metadata
					c.At = 3
				}
			}
		}
	}
	ks := []string{"code", "code", "flat", "history", "branches", "branches", "branches", "meta", "graph"}
	if c.Head {
		ks = []string{"code", "code", "flat", "history", "history", "meta", "graph"}
	}
	if c.Reuse {
		ks = []string{"code", "flat"}
		if !c.Head {
			ks = append(ks, "branches")
		}
	}
	if c.Incr {
		ks = []string{"code", "code", "flat", "history", "history"}
	}
	k := 1
	if c.Reuse {
		k = r.Int(2, 3)
	}
	for ; k > 0; k-- {
		c.Kinds = append(c.Kinds, gm.Pick(r, ks))
	}
	return c
}

// after is the state after the event.
func (c *LiveCase) after() *gm.Repo {
	rp := c.Repo
	res := &gm.Repo{Commits: rp.Commits, Head: rp.Head, HeadAt: rp.HeadAt}
	ev := c.Event
	main := "refs/heads/" + rp.Head
	switch ev.Kind {
	case "move":
		if ev.Name == main {
			res.HeadAt = ev.Commit
		}
	case "checkout":
		for _, f := range rp.Refs {
			if f.Name == "refs/heads/"+ev.Name {
				res.Head, res.HeadAt = ev.Name, f.Commit
			}
		}
		res.Refs = append(res.Refs, gm.Ref{Name: main, Commit: rp.HeadAt})
	}
	found := false
	for _, f := range rp.Refs {
		if f.Name == ev.Name && f.Sym == "" {
			if ev.Kind == "delete" {
				continue
			}
			f.Commit, found = ev.Commit, true
		}
		res.Refs = append(res.Refs, f)
	}
	if ev.Kind == "move" && !found && ev.Name != main {
		res.Refs = append(res.Refs, gm.Ref{Name: ev.Name, Commit: ev.Commit})
	}
	return res
}

// script are the commands that do the event.
func (c *LiveCase) script(git, gd string, from, to *gm.Repo, hash []string) string {
	git = fmt.Sprintf("%v --git-dir='%v'", git, gd)
	switch c.Event.Kind {
	case "repack":
		return git + " repack -a -d -q\n" + git + " pack-refs --all\n"
	case "gc":
		return git + " gc -q --prune=now\n"
	case "checkout":
		return fmt.Sprintf("%v symbolic-ref HEAD 'refs/heads/%v'\n", git, to.Head)
	}
	name := c.Event.Name
	at := func(r *gm.Repo) int {
		if name == "refs/heads/"+r.Head {
			return r.HeadAt
		}
		for _, f := range r.Refs {
			if f.Name == name && f.Sym == "" {
				return f.Commit
			}
		}
		return -1
	}
	if x := at(to); x >= 0 {
		return fmt.Sprintf("%v update-ref '%v' %v\n", git, name, hash[x])
	}
	return fmt.Sprintf("%v update-ref -d '%v'\n", git, name)
}

func runLive(e *fw.Env, c *LiveCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	if c.Loose {
		unpackAll(e, b.GitDir)
	}
	real, err := exec.LookPath("git")
	must(err)
	from, to := c.Repo, c.after()
	run := func(script string) {
		if out, err := exec.Command("/bin/sh", "-e", "-c", script).CombinedOutput(); err != nil {
			fw.Infraf("%v: %v %s", script, err, out)
		}
	}
	forth, back := c.script(real, b.GitDir, from, to, b.Hash), c.script(real, b.GitDir, to, from, b.Hash)
	if c.Back {
		run(forth)
		from, to, forth, back = to, from, back, forth
	}
	// the results are the same for pull requests that are there all the time
	both := []map[int]bool{from.Wanted(true), to.Wanted(true)}
	var prs []int
	for _, i := range c.PRs {
		if both[0][i] && both[1][i] {
			prs = append(prs, i)
		}
	}
	o := stableRuns(b, prs, c.Origin)
	o.Dir, o.Head = b.Dir, c.Head
	o.NoOrdinal = true
	// what came first is processed again by all runs from a checkpoint
	good := ""
	if c.Incr {
		good = e.Sub("good")
		if c.Later {
			run(forth)
		}
		if _, err := o.one("history", good); err != nil {
			v.Failf("full run: %v", err)
			return v
		}
		h, err := ioutil.ReadFile(filepath.Join(good, "pp-git-cache/checkpoint/checkpoint-version"))
		must(err)
		if c.Later {
			run(back)
		}
		o.From, o.Excl = string(h), c.Excl
		if len(c.Repo.Commits[b.Index[string(h)]].Parents) == 0 {
			o.Excl = true
		}
	}
	cps := 0
	cp := func() string {
		cps++
		d := e.Sub(fmt.Sprintf("cp%d", cps))
		if good != "" {
			copyTree(good, d)
		}
		return d
	}
	type result struct {
		canon Canon
		err   error
	}
	state := func(dir string) map[string]result {
		res := map[string]result{}
		p := o
		p.Dir = dir
		for _, k := range c.Kinds {
			if _, ok := res[k]; !ok {
				d, err := p.one(k, cp())
				res[k] = result{d, err}
			}
		}
		return res
	}
	ra := state(b.Dir)
	// elsewhere, so that nothing kept from one state is used for the other
	other := e.Sub("other")
	copyTree(b.Dir, other)
	gd, err := filepath.Rel(b.Dir, b.GitDir)
	must(err)
	s2, s1 := c.script(real, filepath.Join(other, gd), c.Repo, c.after(), b.Hash), c.script(real, filepath.Join(other, gd), c.after(), c.Repo, b.Hash)
	if c.Back {
		s2 = s1
	}
	run(s2)
	rb := state(other)

	bin, ctl := filepath.Join(e.Dir, "live-bin"), e.Sub("live-ctl")
	must(os.MkdirAll(bin, 0777))
	install := func(n int) {
		must(os.RemoveAll(filepath.Join(ctl, "n")))
		put(filepath.Join(ctl, "event"), []byte(forth))
		put(filepath.Join(ctl, "undo"), []byte(back))
		m := 0
		if c.Undo > 0 && n > 0 {
			m = n + c.Undo
		}
		put(filepath.Join(bin, "git"), []byte(fmt.Sprintf(`#!/bin/sh
count=$(echo >> '%v/n'; wc -l < '%v/n')
if [ "$count" -eq %d ]; then
	if /bin/sh -e '%v/undo' > '%v/out' 2>&1; then echo > '%v/undone'; else echo > '%v/bad'; fi
fi
if [ "$count" -eq %d ]; then
	if /bin/sh -e '%v/event' > '%v/out' 2>&1; then echo > '%v/hit'; else echo > '%v/bad'; fi
fi
exec %v "$@"
`, ctl, ctl, m, ctl, ctl, ctl, ctl, n, ctl, ctl, ctl, ctl, real)))
		must(os.Chmod(filepath.Join(bin, "git"), 0777))
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", bin+":"+old)
	defer os.Setenv("PATH", old)
	sequence := func() (res []result) {
		p := o
		d := cp()
		if c.Reuse {
			p.Obj = ripsrc.New(p.opts(d))
		}
		for i, k := range c.Kinds {
			if i > 0 {
				d = cp()
			}
			x, err := p.one(k, d)
			res = append(res, result{x, err})
		}
		return
	}
	count := func() int {
		d, _ := ioutil.ReadFile(filepath.Join(ctl, "n"))
		return strings.Count(string(d), "\n")
	}
	install(0)
	for i, r := range sequence() {
		k := c.Kinds[i]
		if (r.err != nil) != (ra[k].err != nil) {
			v.Failf("%v before the event: %v, and then again: %v", k, ra[k].err, r.err)
			return v
		}
		if s := ra[k].canon.diff(r.canon); s != "" {
			v.Failf("%v before the event, second run: %v", k, s)
			return v
		}
	}
	n := count()
	if n == 0 {
		fw.Infraf("no git commands")
	}
	at := 1 + c.At%n
	if at == 1 && n > 1 && c.At%5 > 0 {
		at = 2 + c.At%(n-1)
	}
	install(at)
	when := fmt.Sprintf("while %+v precedes git command %d of %d", c.Event, at, n)
	if c.Undo > 0 {
		when += fmt.Sprintf(" and is undone %d later", c.Undo)
	}
	if c.Back {
		when += " (backwards)"
	}
	res := sequence()
	if _, err := os.Stat(filepath.Join(ctl, "bad")); err == nil {
		d, _ := ioutil.ReadFile(filepath.Join(ctl, "out"))
		fw.Infraf("event: %s", d)
	}
	if left := noChildren(); left != "" {
		v.Failf("%v %v: %v processes are left", c.Kinds, when, left)
		return v
	}
	_, err = os.Stat(filepath.Join(ctl, "hit"))
	hit := err == nil
	if !hit {
		v.Failf("%v %v: there was no such command", c.Kinds, when)
		return v
	}
	differs := false
	for i, r := range res {
		k := c.Kinds[i]
		x, y := ra[k], rb[k]
		if (x.err != nil) != (y.err != nil) || x.canon.diff(y.canon) != "" {
			differs = true
		}
		if r.err != nil {
			v.Class("error")
			if c.Event.Kind == "repack" || c.Event.Kind == "gc" {
				if x.err == nil {
					v.Failf("%v %v: %v", k, when, r.err)
					return v
				}
			}
			continue
		}
		s, t := "fails", "fails"
		if x.err == nil {
			s = x.canon.diff(r.canon)
		}
		if y.err == nil {
			t = y.canon.diff(r.canon)
		}
		if s != "" && t != "" {
			v.Failf("%v %v has the result of neither state. Before: %v. After: %v", k, when, s, t)
			return v
		}
		if s == "" && t != "" {
			v.Class("before")
		} else if t == "" && s != "" {
			v.Class("after")
		}
	}
	unknown := false
	for i := range both[1] {
		if !both[0][i] {
			unknown = true
		}
	}
	v.Class(c.Event.Kind)
	v.Class("run-" + c.Kinds[0])
	v.ClassIf(unknown, "new-commits")
	now, final := rb, "the state after the event"
	if _, err = os.Stat(filepath.Join(ctl, "undone")); err == nil {
		v.Class("undone")
		now, final = ra, "the state before the event"
	}
	// and everything is as always when no more changes are made
	install(0)
	for k, w := range now {
		d, err := o.one(k, cp())
		if (w.err != nil) != (err != nil) {
			v.Failf("%v %v, and then once more in %v: %v, expected %v", k, when, final, err, w.err)
			return v
		}
		if s := w.canon.diff(d); s != "" {
			v.Failf("%v %v, and then once more in %v: %v", k, when, final, s)
			return v
		}
	}
	v.ClassIf(c.Reuse, "reused")
	v.ClassIf(c.Incr, "incremental")
	v.Nontrivial = at > 1 && (differs || c.Event.Kind == "repack" || c.Event.Kind == "gc")
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C31", Rule: "a change of the repository after the first git command of a run, which changes what the run reports or moves all objects"})
	fw.AddSub(p, "live", 1600, 24000, genLive, runLive)
}
