package props

import (
	"bytes"
	"context"
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/ripsrc/gitexec"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// C29: analyses side by side and one after the other in one process. The
// harness of this property is built with the race detector.

// ParaThread does runs one after the other.
type ParaThread struct {
	Repo  int      `json:"repo"`
	Kinds []string `json:"kinds"`
	// Reuse makes all runs with one object.
	Reuse bool `json:"reuse,omitempty"`
}

type ParaRepo struct {
	Repo   *gm.Repo `json:"repo"`
	Bare   bool     `json:"bare,omitempty"`
	PRs    []int    `json:"prs,omitempty"`
	Origin bool     `json:"origin,omitempty"`
}

type ParaFile struct {
	Path string `json:"path"`
	Text string `json:"text"`
}

type ParaCase struct {
	Repos   []ParaRepo   `json:"repos"`
	Threads []ParaThread `json:"threads"`
	Files   []ParaFile   `json:"files,omitempty"`
	Procs   int          `json:"procs"`
	Conc    int          `json:"conc"`
}

var paraKinds = []string{"code", "code", "flat", "history", "stream", "meta", "graph", "branches", "branches", "shared-branches", "shared-branches", "shared-stream", "blame", "resume", "info", "cached"}
var reuseKinds = []string{"code", "flat", "branches"}

func genPara(t *rapid.T) *ParaCase {
	r := gm.R{T: t}
	c := &ParaCase{Procs: r.Int(2, 8), Conc: r.Int(1, 6)}
	for k := r.Int(1, 2); k > 0; k-- {
		x := ParaRepo{Bare: r.P(1, 2)}
		x.Repo, x.PRs, x.Origin = genStable(t)
		n := len(x.Repo.Commits)
		for j := r.Int(0, 4); j > 0; j-- {
			x.Repo.Refs = append(x.Repo.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/w%d", j), Commit: r.Int(0, n-1)})
		}
		c.Repos = append(c.Repos, x)
	}
	for k := r.Int(1, 4); k > 0; k-- {
		th := ParaThread{Repo: r.Int(0, len(c.Repos)-1), Reuse: r.P(1, 3)}
		ks := paraKinds
		if th.Reuse {
			ks = reuseKinds
		}
		for j := r.Int(1, 3); j > 0; j-- {
			th.Kinds = append(th.Kinds, gm.Pick(r, ks))
		}
		c.Threads = append(c.Threads, th)
		if r.P(1, 2) {
			// the same once more next to it
			c.Threads = append(c.Threads, th)
		}
	}
	for k := r.Int(1, 5); k > 0; k-- {
		f := ParaFile{Path: gm.Pick(r, []string{"", "src/", "vendor/", "x/vendor/", "src/vendor/", ".hidden/"}) + gm.Pick(r, []string{"a.go", "b.h", "c.m", "d.pl", "e.py", "f.sql", "g", "LICENSE", "package.json", "h.md", "i.min.js", "j.cs", "k.inc"})}
		for j := r.Int(0, 6); j > 0; j-- {
			f.Text += gm.Pick(r, []string{"#!/bin/sh", "package x", "#include <vector>", "@interface X", "use strict;", "class X {", "}", "-- x", "# DO NOT EDIT", "select 1", "<?php", "int main()"}) + "\n"
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func canonHist(r *process.Result) string {
	var ps []string
	for p := range r.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	s := ""
	for _, p := range ps {
		f := r.Files[p]
		s += fmt.Sprintf("%q %v %v\n", p, f.IsBinary, f.Commit)
		for _, l := range f.Lines {
			s += fmt.Sprintf("%v %q\n", l.Commit, l.Line)
		}
	}
	return s
}

// lineLog is what threads log to. It is not made for parallel use: the logger
// has to write one line at a time.
type lineLog struct{ bytes.Buffer }

func (l *lineLog) check(v *fw.Verdict) {
	s := l.String()
	if s == "" {
		return
	}
	v.Class("logged")
	for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if !strings.HasPrefix(x, "INFO ") && !strings.HasPrefix(x, "DEBUG ") {
			v.Failf("the log has the line %q, which is not a whole message", x)
			return
		}
	}
	if !strings.HasSuffix(s, "\n") {
		v.Failf("the log ends within a line: %q", s[strings.LastIndexByte(s, '\n')+1:])
	}
}

// paraEnv is a repository and what is known about it.
type paraEnv struct {
	o     Runs
	graph *parentsgraph.Graph
	cp    string // of a complete run over HEAD
	head  string
	c     *ParaCase
}

// one does a run. cp is a directory of its own.
func (x *paraEnv) one(kind, cp string, obj *ripsrc.Ripsrc) (Canon, error) {
	o := x.o
	o.Obj = obj
	switch kind {
	case "stream", "shared-stream":
		// what was given is read by another goroutine while the run goes on
		po := process.Opts{Logger: o.log(), RepoDir: o.Dir, CheckpointsDir: cp, AllBranches: true}
		if kind == "shared-stream" {
			po.ParentsGraph = x.graph
		}
		ch := make(chan process.Result)
		c := Canon{}
		var late []process.Result
		var mu sync.Mutex
		var wg sync.WaitGroup
		done := make(chan bool)
		go func() {
			defer close(done)
			for r := range ch {
				r := r
				late = append(late, r)
				wg.Add(1)
				go func() {
					defer wg.Done()
					runtime.Gosched()
					s := canonHist(&r)
					mu.Lock()
					c["history "+r.Commit] = s
					mu.Unlock()
				}()
			}
		}()
		err := process.New(po).Run(ch)
		<-done
		wg.Wait()
		if err != nil {
			return nil, err
		}
		order := ""
		for i := range late {
			order += late[i].Commit + "\n"
			if s := canonHist(&late[i]); s != c["history "+late[i].Commit] {
				return nil, fmt.Errorf("the result for %v was changed after it was given: %v", late[i].Commit, firstDiff(c["history "+late[i].Commit], s))
			}
		}
		c["history order"] = order
		return c, nil
	case "shared-branches":
		bs, err := branches2.New(branches2.Opts{Logger: o.log(), RepoDir: o.Dir, CommitGraph: x.graph, IncludeDefaultBranch: true, Concurrency: x.c.Conc, UseOrigin: o.Origin, PullRequestSHAs: o.PRs}).RunSlice(context.Background())
		if err != nil {
			return nil, err
		}
		c := Canon{}
		for i := range bs {
			k, s := canonBranch(&bs[i])
			c[k] += s + "\n"
		}
		return c, nil
	case "resume":
		if x.head == "" {
			return Canon{}, nil
		}
		copyTree(x.cp, cp)
		o.Head = true
		o.From = x.head
		o.NoStrict = true
		o.Obj = nil
		return o.one("code", cp)
	case "info":
		c := Canon{}
		p := fileinfo.New()
		for i := range x.c.Files {
			f := &x.c.Files[i]
			info, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: f.Path, Lines: bytes.Split([]byte(f.Text), []byte("\n")), Content: []byte(f.Text)})
			l := "no licence"
			if info.License != nil {
				l = fmt.Sprintf("%+v", *info.License)
			}
			c[fmt.Sprintf("file %d", i)] = fmt.Sprintf("language %q %v skip %q", info.Language, l, skip)
		}
		return c, nil
	case "cached":
		c := Canon{}
		for _, args := range [][]string{{"rev-list", "--all"}, {"for-each-ref"}, {"log", "-p", "--all"}} {
			r, err := gitexec.ExecWithCache(context.Background(), "git", o.Dir, args)
			out := readOutcome(r, err)
			if out.err != nil {
				return nil, out.err
			}
			c[strings.Join(args, " ")] = string(out.out)
		}
		return c, nil
	}
	return o.one(kind, cp)
}

func runPara(e *fw.Env, c *ParaCase) *fw.Verdict {
	v := &fw.Verdict{}
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	type res struct {
		c   Canon
		err error
	}
	var log lineLog
	lg := logger.NewDefaultLogger(&log)
	var envs []*paraEnv
	base := make([]map[string]res, len(c.Repos))
	for i, x := range c.Repos {
		b := x.Repo.Build(e, e.Sub(fmt.Sprintf("repo%d", i)), x.Bare)
		p := &paraEnv{o: stableRuns(b, x.PRs, x.Origin), c: c}
		p.o.Dir = b.Dir
		p.o.Log = lg
		if x.Repo.HeadAt >= 0 {
			p.head = b.Hash[x.Repo.HeadAt]
		}
		p.cp = filepath.Join(e.Dir, fmt.Sprintf("cp%d", i))
		if _, err := p.o.one("history", p.cp); err != nil {
			v.Failf("history: %v", err)
			return v
		}
		p.graph = parentsgraph.New(parentsgraph.Opts{RepoDir: b.Dir, AllBranches: true, Logger: p.o.log()})
		if err := p.graph.Read(); err != nil {
			v.Failf("graph: %v", err)
			return v
		}
		envs = append(envs, p)
		base[i] = map[string]res{}
	}
	// every kind alone
	for j, th := range c.Threads {
		for _, k := range th.Kinds {
			if _, ok := base[th.Repo][k]; ok {
				continue
			}
			d, err := envs[th.Repo].one(k, filepath.Join(e.Dir, "alone", fmt.Sprint(j), k), nil)
			base[th.Repo][k] = res{d, err}
		}
	}
	// side by side
	out := make([][]res, len(c.Threads))
	var wg sync.WaitGroup
	start := make(chan bool)
	for j, th := range c.Threads {
		out[j] = make([]res, len(th.Kinds))
		wg.Add(1)
		go func(j int, th ParaThread) {
			defer wg.Done()
			x := envs[th.Repo]
			dir := filepath.Join(e.Dir, fmt.Sprintf("thread%d", j))
			var obj *ripsrc.Ripsrc
			if th.Reuse {
				obj = ripsrc.New(x.o.opts(filepath.Join(dir, "obj")))
			}
			<-start
			for i, k := range th.Kinds {
				d, err := x.one(k, filepath.Join(dir, fmt.Sprint(i)), obj)
				out[j][i] = res{d, err}
			}
		}(j, th)
	}
	close(start)
	wg.Wait()
	log.check(v)
	if v.Fail != "" {
		return v
	}
	kinds := map[string]bool{}
	for j, th := range c.Threads {
		for i, k := range th.Kinds {
			kinds[k] = true
			v.Class(k)
			what := fmt.Sprintf("%v of thread %d (number %d of %v, one object: %v), next to %d threads", k, j, i, th.Kinds, th.Reuse, len(c.Threads)-1)
			w, g := base[th.Repo][k], out[j][i]
			if (w.err != nil) != (g.err != nil) {
				v.Failf("%v: error %v, alone %v", what, g.err, w.err)
				return v
			}
			if w.err != nil {
				v.Class("error")
				continue
			}
			if d := w.c.diff(g.c); d != "" {
				v.Failf("%v: %v", what, d)
				return v
			}
		}
		v.ClassIf(th.Reuse && len(th.Kinds) > 1, "reused")
	}
	v.ClassIf(len(c.Threads) > 1, "parallel")
	v.Nontrivial = len(c.Threads) > 1 && len(c.Repos[0].Repo.Commits) >= 3
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C29", Rule: "at least two threads and a first repository of at least three commits"})
	p.CPU, p.Memory = 200, 4<<30
	fw.AddSub(p, "threads", 700, 14000, genPara, runPara)
}
