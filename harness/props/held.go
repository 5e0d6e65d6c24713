package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// HeldCase is a long history of a tree with many files.
type HeldCase struct {
	N     int `json:"n"`
	Files int `json:"files"`
	// Side is the distance between side branches (0: none), which are merged
	// Lag commits later; Empty is the distance between empty commits.
	Side  int `json:"side,omitempty"`
	Lag   int `json:"lag,omitempty"`
	Empty int `json:"empty,omitempty"`
}

func genHeld(t *rapid.T) *HeldCase {
	r := gm.R{T: t}
	n := r.Int(24000, 30000)
	return &HeldCase{N: n, Files: 13000000/n - r.Int(0, 100), Side: gm.Pick(r, []int{0, 1, 1, 2, 5, 50}), Lag: r.Int(1, 4), Empty: gm.Pick(r, []int{0, 2, 3, 10})}
}

type heldCommit struct {
	parents []int
	file    int // -1: none
}

func (c *HeldCase) expand() (res []heldCommit) {
	x := 0
	res = append(res, heldCommit{file: -1})
	add := func(file int, par ...int) int {
		res = append(res, heldCommit{par, file})
		return len(res) - 1
	}
	type side struct{ at, tip int }
	var open []side
	for k := 1; len(res) < c.N; k++ {
		f := k % (c.Files - 1)
		if c.Empty > 0 && k%c.Empty == 0 {
			f = -1
		}
		x = add(f, x)
		if c.Side > 0 && k%c.Side == 0 {
			// the last file belongs to the side branches
			open = append(open, side{k + c.Lag, add(-1, x)})
		}
		for len(open) > 0 && open[0].at <= k {
			x = add(-1, x, open[0].tip)
			open = open[1:]
		}
	}
	for _, o := range open {
		x = add(-1, x, o.tip)
	}
	return
}

func runHeld(e *fw.Env, c *HeldCase) *fw.Verdict {
	v := &fw.Verdict{}
	if c.Files < 2 || c.N < 1 {
		return v
	}
	commits := c.expand()
	dir := e.Sub("repo")
	gitDir := gm.Skeleton(dir, true, "main")
	var in bytes.Buffer
	in.WriteString("feature done\n")
	for i, cm := range commits {
		fmt.Fprintf(&in, "commit refs/heads/main\nmark :%d\ncommitter c <c@x> %d +0000\ndata 1\nm\n", i+1, 1500000000+i*60)
		for k, p := range cm.parents {
			fmt.Fprintf(&in, "%s :%d\n", []string{"from", "merge"}[min(k, 1)], p+1)
		}
		put := func(f int) {
			data := fmt.Sprintf("base %d\n", f)
			if i > 0 {
				data += fmt.Sprintf("v %d\n", i)
			}
			fmt.Fprintf(&in, "M 100644 inline d%d/f%d.go\ndata %d\n%s\n", f%20, f, len(data), data)
		}
		if i == 0 {
			for f := 0; f < c.Files; f++ {
				put(f)
			}
		} else if cm.file >= 0 {
			put(cm.file)
		}
		in.WriteByte('\n')
	}
	in.WriteString("done\n")
	marks := filepath.Join(e.Dir, "marks")
	e.GitIn(gitDir, in.Bytes(), "--git-dir=.", "-c", "fastimport.unpackLimit=1", "fast-import", "--quiet", "--done", "--date-format=raw-permissive", "--export-marks="+marks)
	in = bytes.Buffer{}
	data, err := os.ReadFile(marks)
	if err != nil {
		fw.Infraf("%v", err)
	}
	hash := make([]string, len(commits))
	index := map[string]int{}
	for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
		var n int
		var h string
		if _, err := fmt.Sscanf(l, ":%d %s", &n, &h); err != nil || n < 1 || n > len(hash) {
			fw.Infraf("marks: %q", l)
		}
		hash[n-1] = h
		index[h] = n - 1
	}
	data = nil

	// what is in use is looked at while the analysis runs
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(50))
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	before, most := ms.HeapAlloc, uint64(0)
	var stop int32
	watched := make(chan bool)
	go func() {
		defer close(watched)
		for atomic.LoadInt32(&stop) == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > before && ms.HeapAlloc-before > most {
				most = ms.HeapAlloc - before
			}
			time.Sleep(50 * time.Millisecond)
		}
	}()
	ch := make(chan process.Result)
	bad := ""
	seen := 0
	done := make(chan bool)
	go func() {
		defer close(done)
		for r := range ch {
			x, ok := index[r.Commit]
			seen++
			if bad != "" {
				continue
			}
			if !ok {
				bad = "unknown commit " + r.Commit
				continue
			}
			want := 1
			if x == 0 {
				want = c.Files
			} else if commits[x].file < 0 {
				want = 0
			}
			if len(r.Files) != want {
				bad = fmt.Sprintf("commit %d: %d files, want %d", x, len(r.Files), want)
			}
			for p, f := range r.Files {
				var d, n int
				if _, err := fmt.Sscanf(p, "d%d/f%d.go", &d, &n); err != nil || x > 0 && n != commits[x].file {
					bad = fmt.Sprintf("commit %d: file %q", x, p)
					break
				}
				s := ""
				for _, l := range f.Lines {
					s += fmt.Sprintf("%d %s|", index[l.Commit], l.Line)
				}
				w := fmt.Sprintf("0 base %d|", n)
				if x > 0 {
					w += fmt.Sprintf("%d v %d|", x, x)
				}
				if s != w {
					bad = fmt.Sprintf("commit %d: file %q has %q, want %q", x, p, s, w)
					break
				}
			}
		}
	}()
	err = process.New(process.Opts{Logger: noLog{}, RepoDir: dir, CheckpointsDir: e.Sub("checkpoints")}).Run(ch)
	<-done
	atomic.StoreInt32(&stop, 1)
	<-watched
	runtime.KeepAlive(index)
	switch {
	case err != nil:
		v.Failf("history: %v", err)
	case bad != "":
		v.Failf("history: %v", bad)
	case seen != len(commits):
		v.Failf("history: %d commits of %d", seen, len(commits))
	case most > 200<<20:
		v.Failf("the history of %d commits with %d files needs %d MB of heap", len(commits), c.Files, most>>20)
	}
	v.ClassN("commits", len(commits))
	v.ClassN("peak-mb", int(most>>20))
	v.ClassIf(c.Side > 0, "merges")
	v.Nontrivial = len(commits) > 4000
	return v
}
