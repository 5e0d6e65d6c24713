package main

// Helpers of the demonstrations. demo is defined in demo.go.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
)

type nolog struct{}

func (nolog) Info(string, ...interface{})  {}
func (nolog) Debug(string, ...interface{}) {}

func main() {
	for _, k := range []string{"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"} {
		os.Unsetenv(k)
	}
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	for k, v := range map[string]string{"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1",
		"GIT_AUTHOR_NAME": "A", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "C", "GIT_COMMITTER_EMAIL": "c@d", "GIT_PAGER": "cat"} {
		os.Setenv(k, v)
	}
	err = demo(dir)
	os.RemoveAll(dir)
	if err != nil {
		fmt.Println("FAIL:", err)
		os.Exit(1)
	}
	fmt.Println("ok")
}

func sh(dir, name string, args ...string) string {
	c := exec.Command(name, args...)
	c.Dir = dir
	var b, e bytes.Buffer
	c.Stdout, c.Stderr = &b, &e
	if err := c.Run(); err != nil {
		panic(fmt.Sprint(name, args, err, e.String()))
	}
	return strings.TrimRight(b.String(), "\n")
}

type repo struct {
	dir string
	t   int64
}

func newRepo(dir string) *repo {
	if err := os.MkdirAll(dir, 0777); err != nil {
		panic(err)
	}
	sh(dir, "git", "init", "-q", "-b", "master")
	return &repo{dir, 1600000000}
}

func (r *repo) git(args ...string) string { return sh(r.dir, "git", args...) }

func (r *repo) write(path, content string) {
	p := filepath.Join(r.dir, path)
	os.MkdirAll(filepath.Dir(p), 0777)
	if err := os.WriteFile(p, []byte(content), 0666); err != nil {
		panic(err)
	}
}

func (r *repo) rm(path string) { os.Remove(filepath.Join(r.dir, path)) }

func (r *repo) dates(d int64) {
	os.Setenv("GIT_AUTHOR_DATE", fmt.Sprint(d, " +0000"))
	os.Setenv("GIT_COMMITTER_DATE", fmt.Sprint(d, " +0000"))
}

// commit records the working tree
func (r *repo) commit(msg string) string {
	r.t += 60
	return r.commitAt(msg, r.t)
}

func (r *repo) commitAt(msg string, t int64) string {
	r.dates(t)
	r.git("add", "-A")
	r.git("commit", "-q", "--allow-empty", "--allow-empty-message", "-m", msg)
	return r.git("rev-parse", "HEAD")
}

// merge records the working tree as a commit with these parents and moves the current branch there
func (r *repo) merge(msg string, parents ...string) string {
	r.t += 60
	r.dates(r.t)
	r.git("add", "-A")
	a := []string{"commit-tree", r.git("write-tree"), "-m", msg}
	for _, p := range parents {
		a = append(a, "-p", p)
	}
	h := r.git(a...)
	r.git("reset", "-q", "--hard", h)
	return h
}

// on makes the branch at the commit and checks it out
func (r *repo) on(branch, commit string) {
	r.git("checkout", "-q", "-f", "-B", branch, commit)
}

func history(o process.Opts) (map[string]map[string]*incblame.Blame, []string, error) {
	if o.Logger == nil {
		o.Logger = nolog{}
	}
	res, err := process.New(o).RunGetAll()
	m := map[string]map[string]*incblame.Blame{}
	var order []string
	for _, r := range res {
		m[r.Commit] = r.Files
		order = append(order, r.Commit)
	}
	return m, order, err
}

// text is the file as lines
func text(b *incblame.Blame) string {
	if b == nil {
		return "<not reported>"
	}
	if b.IsBinary {
		return "<binary>"
	}
	var s []string
	for _, l := range b.Lines {
		s = append(s, string(l.Line)+"\n")
	}
	return strings.Join(s, "")
}

// attr is the commit of each line
func attr(b *incblame.Blame) string {
	if b == nil {
		return "<not reported>"
	}
	var s []string
	for _, l := range b.Lines {
		s = append(s, l.Commit)
	}
	return strings.Join(s, " ")
}
