package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/harness/fw"
	"verif/harness/gm"

	"github.com/pinpt/ripsrc/ripsrc/gitexec"
	"github.com/pinpt/ripsrc/ripsrc/pkg/gitrepos"
	"pgregory.net/rapid"
)

// C23: cached git output.

type CacheCase struct {
	Repo  *gm.Repo    `json:"repo"`
	Bare  bool        `json:"bare,omitempty"`
	Steps []CacheStep `json:"steps"`
}

type CacheStep struct {
	// Kind is run, move, detach or branch.
	Kind string   `json:"k"`
	Args []string `json:"a,omitempty"`
	// Times the command is run, at the same time if Parallel.
	Times    int  `json:"n,omitempty"`
	Parallel bool `json:"par,omitempty"`
	Commit   int  `json:"c,omitempty"`
	// Fail makes git print the first Cut bytes of its output and fail.
	Fail bool `json:"fail,omitempty"`
	Cut  int  `json:"cut,omitempty"`
	// Kill ends a caller of the command while git runs.
	API int `json:"api,omitempty"`
}

// groups of argument lists that are easily taken for each other
var cacheArgs = [][]string{
	{"log", "--format=%H", "HEAD"}, {"log", "--format=%H HEAD"}, {"log --format=%H", "HEAD"}, {"log", "--format=%H", "HEAD", "HEAD"},
	{"log", "--format=x", "--all-match", "--grep=a"}, {"log", "--format=x --all-match", "--grep=a"},
	{"log", "--format=a,b"}, {"log", "--format=a", "b"}, {"log", "--format=a\x01b"}, {"log", "--format=a\nb"}, {"log", "--format=a", "--format=b"}, {"log", "--format=b", "--format=a"},
	{"log", "--format=\" \""}, {"log", "--format=%s"}, {"log", "--format=%s", "--"}, {"log", "--format=%s", "--", ""}, {"log", "--format=%s", "--", " "}, {"log", "--format=@"}, {"log", "--format=2@@"},
	{"log", "--format=%s", "-n1"}, {"log", "--format=%s", "-n", "1"}, {"log", "--format=%s", "-n2"},
	{"log", "-p", "--format=%H"}, {"log", "-p", "-m", "--format=%H"}, {"log", "--raw", "-z"},
	{"ls-tree", "-r", "HEAD"}, {"ls-tree", "HEAD"}, {"ls-tree", "-r", "-z", "HEAD"},
	{"rev-list", "HEAD"}, {"rev-list", "--count", "HEAD"}, {"rev-parse", "HEAD"}, {"rev-parse", "HEAD^{tree}"}, {"show", "--format=", "HEAD"},
	{"cat-file", "-p", "HEAD"}, {"cat-file", "-t", "HEAD"}, {"show", "HEAD:Case"}, {"show", "HEAD:case"}, {"log", "--format=%an"}, {"log", "--format=%aN"}, {"log", "-L1,1:Case"}, {"archive", "HEAD"},
	// fail for some or all commits
	{"cat-file", "-p", "HEAD:none"}, {"rev-parse", "--verify", "none"}, {"diff", "--exit-code", "HEAD^", "HEAD"}, {"diff-tree", "--exit-code", "-p", "HEAD^", "HEAD"}, {"log", "--no-such-option"}, {"no-such-command"}, {}, {""}, {"log", "HEAD^^^"},
}

func genCache(t *rapid.T) *CacheCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, true)
	o.MaxCommits = 6
	o.Skew = false
	c := &CacheCase{Repo: gm.History(t, o), Bare: r.P(1, 2)}
	c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: "refs/heads/other", Commit: r.Int(0, len(c.Repo.Commits)-1)})
	c.Repo.Commits[0].Changes = append(c.Repo.Commits[0].Changes, gm.Change{Path: "Case", Data: "upper\n"}, gm.Change{Path: "case", Data: "lower\n"})
	if r.P(1, 4) {
		// more output than a pipe holds
		ch := gm.Change{Path: "big", Data: gm.B(strings.Repeat(fmt.Sprintf("big %d\n", r.Int(0, 999)), r.Int(9000, 40000)))}
		c.Repo.Commits[0].Changes = append(c.Repo.Commits[0].Changes, ch)
	}
	// few commands, so that they repeat
	var cmds [][]string
	at := r.Int(0, len(cacheArgs)-1)
	for k := r.Int(2, 4); k > 0; k-- {
		if r.P(1, 2) {
			at += r.Int(-3, 3)
		} else {
			at = r.Int(0, len(cacheArgs)-1)
		}
		if at < 0 || at >= len(cacheArgs) {
			at = 0
		}
		cmds = append(cmds, cacheArgs[at])
		if r.P(1, 3) {
			cmds = append(cmds, likeArgs(r, cacheArgs[at]))
		}
	}
	for k := r.Int(3, 10); k > 0; k-- {
		s := CacheStep{Kind: "run", Args: gm.Pick(r, cmds), Times: r.Int(1, 2)}
		switch r.Int(0, 9) {
		case 0, 1:
			s = CacheStep{Kind: gm.Pick(r, []string{"move", "detach", "branch"}), Commit: r.Int(0, len(c.Repo.Commits)-1)}
		case 2:
			s.Parallel = true
			s.Times = r.Int(2, 5)
		case 3, 4:
			s.Fail = true
			s.Cut = r.Int(0, 3)
			if r.P(1, 2) {
				s.Cut = r.Int(0, 3000)
			}
		}
		s.API = r.Int(0, 2)
		c.Steps = append(c.Steps, s)
	}
	return c
}

// likeArgs returns arguments that are easily taken for args.
func likeArgs(r gm.R, args []string) []string {
	res := append([]string(nil), args...)
	if len(res) < 2 {
		return res
	}
	i := r.Int(1, len(res)-1)
	switch r.Int(0, 7) {
	case 0, 1:
		// case of one letter
		b := []byte(res[i])
		for k := r.Int(0, 20); len(b) > 0 && k < 20+len(b); k++ {
			if x := &b[k%len(b)]; *x|32 >= 'a' && *x|32 <= 'z' {
				*x ^= 32
				break
			}
		}
		res[i] = string(b)
	case 2:
		j := r.Int(1, len(res)-1)
		res[i], res[j] = res[j], res[i]
	case 3:
		res = append(res, res[i])
	case 4:
		res = append(res[:i:i], res[i+1:]...)
	case 5:
		j := gm.Pick(r, []string{" ", "", "\n", ",", "@", "@@"})
		res = append(res[:i-1:i-1], append([]string{res[i-1] + j + res[i]}, res[i+1:]...)...)
	case 6:
		res[i] += gm.Pick(r, []string{" ", "x", "@", "1", "^0", "~0"})
	default:
		if l := len(res[i]); l > 1 {
			k := r.Int(1, l-1)
			res = append(res[:i:i], append([]string{res[i][:k], res[i][k:]}, res[i+1:]...)...)
		}
	}
	return res
}

type outcome struct {
	out []byte
	err error
}

func readOutcome(r io.ReadCloser, err error) outcome {
	if err != nil {
		return outcome{nil, err}
	}
	b, err := ioutil.ReadAll(r)
	cerr := r.Close()
	if err == nil {
		err = cerr
	}
	if err != nil {
		return outcome{nil, err}
	}
	return outcome{b, nil}
}

func (o outcome) String() string {
	if o.err != nil {
		return fmt.Sprintf("error %.200v", o.err)
	}
	return fmt.Sprintf("%d bytes %.100q", len(o.out), o.out)
}

func runCache(e *fw.Env, c *CacheCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	real, err := exec.LookPath("git")
	if err != nil {
		fw.Infraf("%v", err)
	}
	ctl := e.Sub("ctl")
	// fails, after part of the output, while the file cut exists
	wrap := filepath.Join(ctl, "git")
	script := "#!/bin/sh\nif [ -e " + ctl + "/cut ] && [ \"$1\" != rev-parse ]; then\n" + real + " \"$@\" 2>/dev/null | head -c $(cat " + ctl + "/cut)\nexit 3\nfi\nexec " + real + " \"$@\"\n"
	if err := ioutil.WriteFile(wrap, []byte(script), 0777); err != nil {
		fw.Infraf("%v", err)
	}
	ctx := context.Background()
	cached := map[string]bool{}
	head := c.Repo.HeadAt
	for k, s := range c.Steps {
		switch s.Kind {
		case "move":
			e.Git(b.GitDir, "--git-dir=.", "update-ref", "HEAD", b.Hash[s.Commit])
			head = s.Commit
			continue
		case "detach":
			e.Git(b.GitDir, "--git-dir=.", "update-ref", "--no-deref", "HEAD", b.Hash[s.Commit])
			head = s.Commit
			continue
		case "branch":
			e.Git(b.GitDir, "--git-dir=.", "symbolic-ref", "HEAD", "refs/heads/other")
			head = -1
			continue
		}
		_ = head
		where := fmt.Sprintf("step %d, git %q:", k, s.Args)
		cut := filepath.Join(ctl, "cut")
		if s.Fail && (len(s.Args) == 0 || s.Args[0] != "rev-parse") {
			key := strings.Join(s.Args, "\x00") + "\x00\x00" + string(e.Git(b.GitDir, "--git-dir=.", "rev-parse", "HEAD"))
			if err := ioutil.WriteFile(cut, []byte(strconv.Itoa(s.Cut)), 0666); err != nil {
				fw.Infraf("%v", err)
			}
			o := readOutcome(gitexec.ExecWithCache(ctx, wrap, b.Dir, s.Args))
			if err := os.Remove(cut); err != nil {
				fw.Infraf("%v", err)
			}
			if o.err == nil && !cached[key] {
				v.Failf("%v git failed, the cached call gave %v", where, o)
				return v
			}
			v.ClassIf(o.err != nil, "cut-short")
			// checked below: what it gives from now on
		}
		var direct outcome
		switch s.API {
		case 0:
			direct = readOutcome(gitexec.Exec(ctx, wrap, b.Dir, s.Args))
		default:
			direct = readOutcome(gitexec.ExecPiped(ctx, wrap, b.Dir, s.Args))
		}
		// the harness's own run
		cmd := exec.Command(real, s.Args...)
		cmd.Dir = b.Dir
		own, oerr := cmd.Output()
		if (oerr != nil) != (direct.err != nil) || oerr == nil && !bytes.Equal(own, direct.out) {
			v.Failf("%v direct call gives %v, git itself %v %d bytes", where, direct, oerr, len(own))
			return v
		}
		res := make([]outcome, s.Times)
		if s.Parallel {
			var wg sync.WaitGroup
			for j := range res {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					res[j] = readOutcome(gitexec.ExecWithCache(ctx, wrap, b.Dir, s.Args))
				}(j)
			}
			wg.Wait()
			v.Class("parallel")
		} else {
			for j := range res {
				res[j] = readOutcome(gitexec.ExecWithCache(ctx, wrap, b.Dir, s.Args))
			}
		}
		for _, o := range res {
			if (o.err != nil) != (direct.err != nil) || o.err == nil && !bytes.Equal(o.out, direct.out) {
				v.Failf("%v the cached call gives %v, the direct one %v", where, o, direct)
				return v
			}
		}
		key := strings.Join(s.Args, "\x00") + "\x00\x00" + string(e.Git(b.GitDir, "--git-dir=.", "rev-parse", "HEAD"))
		v.Class("calls")
		v.ClassIf(direct.err != nil, "failing")
		v.ClassIf(len(direct.out) > 65536, "big-output")
		if cached[key] {
			v.Class("repeated")
		}
		if direct.err == nil {
			cached[key] = true
		}
	}
	v.Nontrivial = len(cached) > 1
	return v
}

// C24: discovery.

type Node struct {
	Name string  `json:"n"`
	File bool    `json:"f,omitempty"`
	Size int     `json:"z,omitempty"`
	Link string  `json:"l,omitempty"`
	Subs []*Node `json:"s,omitempty"`
}

type FindCase struct {
	Root  *Node  `json:"root"`
	Depth int    `json:"depth"`
	Start string `json:"start,omitempty"` // path below the root that is searched
	Form  int    `json:"form,omitempty"`  // how the path is written
	Stop  int    `json:"stop,omitempty"`  // callback that fails, from 1
}

var nodeNames = []string{"a", "b", "c d", "repo.git", "x.git", ".git", "objects", "refs", "y.git.bak", ".hidden", "git", ".GIT", "..git", "z.git.git", "HEAD", "-n", "new\nline"}

func genNode(r gm.R, name string, depth int) *Node {
	n := &Node{Name: name}
	if depth == 0 {
		return n
	}
	used := map[string]bool{}
	for k := r.Int(0, 4); k > 0; k-- {
		sub := gm.Pick(r, nodeNames)
		if strings.HasSuffix(name, ".git") && r.P(1, 2) {
			sub = "objects"
		} else if r.P(1, 6) {
			sub = ".git"
		}
		if used[sub] {
			continue
		}
		used[sub] = true
		switch {
		case r.P(1, 6):
			n.Subs = append(n.Subs, &Node{Name: sub, File: true, Size: gm.Pick(r, []int{0, 0, 0, 1, 90, 300, 5000})})
		case r.P(1, 14) && sub != ".git" && sub != "objects":
			n.Subs = append(n.Subs, &Node{Name: sub, Link: gm.Pick(r, []string{".", "..", "a", "none", "../b"})})
		default:
			n.Subs = append(n.Subs, genNode(r, sub, depth-1))
		}
	}
	return n
}

func genFind(t *rapid.T) *FindCase {
	r := gm.R{T: t}
	c := &FindCase{Root: genNode(r, gm.Pick(r, []string{"top", "top", "top.git", ".git"}), r.Int(1, 5)), Depth: r.Int(0, 5), Form: r.Int(0, 4)}
	if r.P(1, 4) {
		c.Stop = r.Int(1, 3)
	}
	if r.P(1, 5) {
		// somewhere else in the tree, or nowhere
		n := c.Root
		for k := r.Int(1, 3); k > 0 && len(n.Subs) > 0; k-- {
			n = gm.Pick(r, n.Subs)
			c.Start = filepath.Join(c.Start, n.Name)
			if n.Link != "" {
				break
			}
		}
		if r.P(1, 5) {
			c.Start = filepath.Join(c.Start, "nowhere")
		}
	}
	return c
}

func (n *Node) write(dir string) {
	p := filepath.Join(dir, n.Name)
	var err error
	switch {
	case n.File:
		err = ioutil.WriteFile(p, []byte("gitdir: else"+strings.Repeat("w", n.Size)+"here\n"), 0666)
	case n.Link != "":
		err = os.Symlink(n.Link, p)
	default:
		err = os.Mkdir(p, 0777)
		for _, s := range n.Subs {
			s.write(p)
		}
	}
	if err != nil {
		fw.Infraf("%v", err)
	}
}

func (n *Node) isDir() bool { return !n.File && n.Link == "" }

func (n *Node) dir(name string) bool {
	for _, s := range n.Subs {
		if s.Name == name {
			return s.isDir()
		}
	}
	return false
}

// found lists the repositories at or below n.
func (n *Node) found(path string, depth int) (res []string) {
	if n.dir(".git") || strings.HasSuffix(n.Name, ".git") && n.dir("objects") {
		return []string{path}
	}
	if depth == 0 {
		return nil
	}
	for _, s := range n.Subs {
		if s.isDir() {
			res = append(res, s.found(filepath.Join(path, s.Name), depth-1)...)
		}
	}
	return
}

func (n *Node) at(path string) *Node {
	if path == "" {
		return n
	}
	parts := strings.SplitN(path, "/", 2)
	for _, s := range n.Subs {
		if s.Name == parts[0] {
			if len(parts) == 1 {
				return s.at("")
			}
			return s.at(parts[1])
		}
	}
	return nil
}

func runFind(e *fw.Env, c *FindCase) *fw.Verdict {
	v := &fw.Verdict{}
	base := e.Sub("tree")
	c.Root.write(base)
	path := filepath.Join(base, c.Root.Name, c.Start)
	n := c.Root.at(c.Start)
	if n != nil && n.Link != "" {
		return v
	}
	arg := path
	switch c.Form {
	case 1:
		arg += "/"
	case 2:
		arg = filepath.Dir(path) + "/./" + filepath.Base(path)
	case 3, 4:
		// relative; the worker runs one case at a time
		old, err := os.Getwd()
		if err != nil {
			fw.Infraf("%v", err)
		}
		at := filepath.Dir(path)
		arg = filepath.Base(path)
		if strings.HasPrefix(arg, "-") {
			arg = "./" + arg
		}
		if c.Form == 4 && n != nil && n.isDir() {
			at, arg = path, "."
		}
		if os.Chdir(at) == nil {
			defer os.Chdir(old)
		} else {
			arg = path
		}
	}
	var want []string
	bad := n == nil || !n.isDir()
	if !bad {
		want = n.found(path, c.Depth)
	}
	stop := fmt.Errorf("stop")
	var got []string
	err := iterDir(arg, c.Depth, func(repo string) error {
		abs, err := filepath.Abs(repo)
		if err != nil {
			fw.Infraf("%v", err)
		}
		got = append(got, abs)
		if c.Stop == len(got) {
			return stop
		}
		return nil
	})
	v.ClassIf(bad, "bad-path")
	v.ClassN("repos", len(want))
	v.ClassIf(c.Stop > 0 && len(want) >= c.Stop, "stopped")
	v.Nontrivial = len(want) > 0
	rel := func(l []string) string {
		var s []string
		for _, x := range l {
			s = append(s, strings.TrimPrefix(x, base+"/"))
		}
		return fmt.Sprintf("%q", s)
	}
	switch {
	case bad:
		if err == nil {
			v.Failf("%q is no directory, no error was returned", c.Start)
		}
		if len(got) > 0 {
			v.Failf("%q is no directory, called back for %v", c.Start, rel(got))
		}
		return v
	case c.Stop > 0 && len(want) >= c.Stop:
		if err == nil || !strings.Contains(err.Error(), "stop") {
			v.Failf("callback %d failed, the search returned %v", c.Stop, err)
			return v
		}
		if len(got) != c.Stop {
			v.Failf("callback %d failed, there were %d calls", c.Stop, len(got))
			return v
		}
		in := map[string]bool{}
		for _, w := range want {
			in[w] = true
		}
		for _, g := range got {
			if !in[g] {
				v.Failf("called back for %v", rel([]string{g}))
			}
			delete(in, g)
		}
		return v
	}
	if err != nil {
		v.Failf("search failed: %v", err)
		return v
	}
	if a, b := sorted(got), sorted(want); strings.Join(a, "\n\n") != strings.Join(b, "\n\n") {
		v.Failf("depth %d below %q: called back for %v, want %v", c.Depth, c.Root.Name+"/"+c.Start, rel(a), rel(b))
	}
	return v
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

var iterDir = gitrepos.IterDir

func init() {
	p := fw.Register(&fw.Prop{ID: "C23", Rule: "a sequence in which at least two different commands or HEAD positions have output in the cache"})
	fw.AddSub(p, "sequence", 2500, 25000, genCache, runCache)
	p = fw.Register(&fw.Prop{ID: "C24", Rule: "a tree that contains at least one repository within the depth"})
	fw.AddSub(p, "tree", 20000, 300000, genFind, runFind)
}
