// Package cpdb describes blame databases for checkpoint checks.
package cpdb

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"

	"verif/harness/fw"
)

type NoLog struct{}

func (NoLog) Info(string, ...interface{})  {}
func (NoLog) Debug(string, ...interface{}) {}

type Line struct {
	Data   fw.B `json:"d"`
	Commit fw.B `json:"c"`
}

type File struct {
	Commit fw.B  `json:"c"`
	Binary bool  `json:"bin,omitempty"`
	Lines  []int `json:"l,omitempty"`
	// Times repeats the lines; 0 is once.
	Times int `json:"n,omitempty"`
}

type Entry struct {
	Path fw.B `json:"p"`
	File int  `json:"f"`
}

type Commit struct {
	Hash    fw.B    `json:"h"`
	Entries []Entry `json:"e,omitempty"`
}

// DB is a database; equal indexes are shared objects.
type DB struct {
	Lines   []Line   `json:"lines,omitempty"`
	Files   []File   `json:"files,omitempty"`
	Commits []Commit `json:"commits,omitempty"`
	Last    fw.B     `json:"last"`
	Bulk    *Bulk    `json:"bulk,omitempty"`
}

// Bulk adds many commits, files and lines.
type Bulk struct {
	Seed    int `json:"seed"`
	Commits int `json:"commits"`
	Files   int `json:"files"` // of each commit
	Lines   int `json:"lines"` // of each file
	Kinds   int `json:"kinds"` // of lines
}

func (k *Bulk) add(r repo.Repo) {
	x := uint32(k.Seed)
	next := func(n int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % n
	}
	hash := func(i int) string { return fmt.Sprintf("%032x%08x", k.Seed, i) }
	pool := map[[2]int]*incblame.Line{}
	for c := 0; c < k.Commits; c++ {
		h := hash(c)
		r.AddCommit(h)
		for f := 0; f < k.Files; f++ {
			p := fmt.Sprintf("bulk/%d/f%d.go", f%7, f)
			if c > 0 && next(4) > 0 {
				// not changed
				r[h][p] = r[hash(c-1)][p]
				continue
			}
			b := &incblame.Blame{Commit: h, IsBinary: next(20) == 0}
			for l := 0; l < k.Lines && !b.IsBinary; l++ {
				id := [2]int{next(k.Kinds), next(c + 1)}
				if pool[id] == nil {
					pool[id] = &incblame.Line{Line: []byte(fmt.Sprintf("line %d", id[0])), Commit: hash(id[1])}
				}
				b.Lines = append(b.Lines, pool[id])
			}
			r[h][p] = b
		}
	}
}

func (d *DB) Repo() repo.Repo {
	var ls []*incblame.Line
	for _, l := range d.Lines {
		ls = append(ls, &incblame.Line{Line: []byte(l.Data), Commit: string(l.Commit)})
	}
	var fs []*incblame.Blame
	for _, f := range d.Files {
		b := &incblame.Blame{Commit: string(f.Commit), IsBinary: f.Binary}
		for n := max(f.Times, 1); n > 0; n-- {
			for _, i := range f.Lines {
				b.Lines = append(b.Lines, ls[i])
			}
		}
		fs = append(fs, b)
	}
	r := repo.New()
	for _, c := range d.Commits {
		r.AddCommit(string(c.Hash))
		for _, e := range c.Entries {
			r[string(c.Hash)][string(e.Path)] = fs[e.File]
		}
	}
	if d.Bulk != nil {
		d.Bulk.add(r)
	}
	return r
}

func (d *DB) Write(dir string) error {
	return repo.NewCheckpointWriter(NoLog{}).Write(d.Repo(), dir, string(d.Last))
}

// Read reads whatever the directory has.
func Read(dir, expected string) (repo.Repo, error) {
	return repo.NewCheckpointReader(NoLog{}).Read(dir, expected)
}

// Diff compares got with the database; it is empty if they are equal.
func (d *DB) Diff(got repo.Repo) string {
	want := d.Repo()
	var hs []string
	for h := range want {
		hs = append(hs, h)
	}
	for h := range got {
		if _, ok := want[h]; !ok {
			return fmt.Sprintf("commit %.80q was not written", h)
		}
	}
	sort.Strings(hs)
	for _, h := range hs {
		g, ok := got[h]
		if !ok {
			return fmt.Sprintf("commit %.80q is missing", h)
		}
		w := want[h]
		for p := range g {
			if w[p] == nil {
				return fmt.Sprintf("commit %.80q has path %.80q, which was not written", h, p)
			}
		}
		for p, wf := range w {
			gf := g[p]
			if gf == nil {
				return fmt.Sprintf("commit %.80q: path %.80q is missing", h, p)
			}
			if gf.Commit != wf.Commit || gf.IsBinary != wf.IsBinary || len(gf.Lines) != len(wf.Lines) {
				return fmt.Sprintf("commit %.80q path %.80q: commit %q binary %v %d lines, want %q %v %d", h, p, gf.Commit, gf.IsBinary, len(gf.Lines), wf.Commit, wf.IsBinary, len(wf.Lines))
			}
			for i := range wf.Lines {
				if !bytes.Equal(gf.Lines[i].Line, wf.Lines[i].Line) || gf.Lines[i].Commit != wf.Lines[i].Commit {
					return fmt.Sprintf("commit %.80q path %.80q line %d: %.80q of %q, want %.80q of %q", h, p, i+1, gf.Lines[i].Line, gf.Lines[i].Commit, wf.Lines[i].Line, wf.Lines[i].Commit)
				}
			}
		}
	}
	return ""
}
