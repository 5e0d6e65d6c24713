package props

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// Fault is one defect of the environment.
type Fault struct {
	Kind string `json:"k"`
	Mode string `json:"m,omitempty"`
	N    int    `json:"n,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Sub  string `json:"sub,omitempty"`
}

var faultModes = map[string][]string{
	"none":   {""},
	"dir":    {"missing", "empty", "file", "other", "no-objects", "no-refs"},
	"head":   {"unborn", "garbage", "empty", "missing", "missing-object", "detached", "loop"},
	"object": {"delete", "truncate", "zero", "flip", "garbage"},
	"pack":   {"truncate", "no-index", "no-pack", "zero-index"},
	"ref":    {"missing-object", "blob"},
	"git":    {"cut", "cut", "none", "late", "kill", "noise", "flood", "absent"},
	"fsize":  {""},
	"cp":     {"file", "under-file"},
	"from":   {"unknown", "zeros", "blob", "tree", "garbage", "empty-name", "not-in-checkpoint"},
	"cancel": {"before", "later"},
}

var gitSubs = []string{"log", "log", "log", "rev-parse", "branch", "symbolic-ref", "for-each-ref", "show-ref", "blame", ""}

func genFault(r gm.R, kinds []string) Fault {
	f := Fault{Kind: gm.Pick(r, kinds)}
	f.Mode = gm.Pick(r, faultModes[f.Kind])
	switch f.Kind {
	case "object", "pack":
		f.N = r.Int(0, 60)
		f.Cut = r.Int(0, 200)
		if f.Kind == "pack" {
			f.Cut = r.Int(0, 3000)
		}
	case "git":
		f.N = r.Int(1, 4)
		f.Sub = gm.Pick(r, gitSubs)
		if f.Sub == "" {
			f.N = r.Int(1, 12)
		}
		f.Cut = r.Int(0, 60)
		if r.P(2, 3) {
			f.Cut = r.Int(0, 4000)
		}
	case "fsize":
		f.Cut = r.Int(0, 300)
	case "cancel":
		f.N = r.Int(0, 30)
	}
	return f
}

// faultEnv is the state of a fault that is in effect.
type faultEnv struct {
	undo   func()
	ctx    context.Context
	cancel func()
	from   string
	cp     string
	// loose says that the fault does not have to be noticed
	mayDiffer map[string]bool
	// hit says if the fault took place, for those for which it is known.
	hit func() bool
}

func unpackAll(e *fw.Env, gitDir string) {
	packs, _ := filepath.Glob(filepath.Join(gitDir, "objects/pack/*.pack"))
	for i, p := range packs {
		q := filepath.Join(e.Dir, fmt.Sprintf("unpack-%d", i))
		os.Rename(p, q)
		os.Remove(strings.TrimSuffix(p, ".pack") + ".idx")
		d, err := ioutil.ReadFile(q)
		if err != nil {
			fw.Infraf("%v", err)
		}
		e.GitIn(gitDir, d, "--git-dir=.", "unpack-objects", "-q")
		os.Remove(q)
	}
}

func must(err error) {
	if err != nil {
		fw.Infraf("%v", err)
	}
}

// put replaces a file that git may have made read only.
func put(p string, b []byte) {
	os.Remove(p)
	must(os.MkdirAll(filepath.Dir(p), 0777))
	must(ioutil.WriteFile(p, b, 0666))
}

func damage(b []byte, mode string, cut int) []byte {
	switch mode {
	case "truncate":
		return b[:cut%(len(b)+1)]
	case "zero":
		return make([]byte, len(b))
	case "flip":
		if len(b) == 0 {
			return []byte("x")
		}
		c := append([]byte{}, b...)
		c[cut%len(c)] ^= 1 << uint(cut%8)
		return c
	}
	return []byte("garbage\n")
}

func objectOf(e *fw.Env, b *gm.Built, kind string) string {
	out := strings.Fields(string(e.Git(b.GitDir, "--git-dir=.", "cat-file", "--batch-all-objects", "--batch-check=%(objecttype):%(objectname)")))
	for _, l := range out {
		if strings.HasPrefix(l, kind+":") {
			return strings.TrimPrefix(l, kind+":")
		}
	}
	return strings.Repeat("1", 40)
}

// apply brings the fault into effect.
func (f Fault) apply(e *fw.Env, b *gm.Built, cp string, o *Runs) *faultEnv {
	x := &faultEnv{undo: func() {}, ctx: context.Background(), cancel: func() {}, cp: cp, mayDiffer: map[string]bool{}}
	gd := b.GitDir
	save := func(p string) {
		// keeps what is at p and puts it back
		q := filepath.Join(e.Dir, "saved")
		if _, err := os.Lstat(p); err == nil {
			must(os.Rename(p, q))
		}
		old := x.undo
		x.undo = func() {
			must(os.RemoveAll(p))
			if _, err := os.Lstat(q); err == nil {
				must(os.Rename(q, p))
			}
			old()
		}
	}
	switch f.Kind {
	case "none":
	case "dir":
		switch f.Mode {
		case "missing":
			save(b.Dir)
		case "empty":
			save(b.Dir)
			must(os.MkdirAll(b.Dir, 0777))
		case "file":
			save(b.Dir)
			put(b.Dir, []byte("x"))
		case "other":
			save(b.Dir)
			put(filepath.Join(b.Dir, "x"), []byte("x"))
			put(filepath.Join(b.Dir, ".git", "x"), []byte("x"))
		case "no-objects":
			save(filepath.Join(gd, "objects"))
		case "no-refs":
			save(filepath.Join(gd, "refs"))
		}
	case "head":
		p := filepath.Join(gd, "HEAD")
		save(p)
		switch f.Mode {
		case "unborn":
			put(p, []byte("ref: refs/heads/not/there\n"))
		case "garbage":
			put(p, []byte("garbage\n"))
		case "empty":
			put(p, nil)
		case "missing-object":
			put(p, []byte(strings.Repeat("1", 40)+"\n"))
		case "detached":
			if b.Repo.HeadAt >= 0 {
				put(p, []byte(b.Hash[b.Repo.HeadAt]+"\n"))
			}
			// the name of the branch is not known
			x.mayDiffer["branches"] = true
		case "loop":
			put(p, []byte("ref: refs/heads/loop\n"))
			l := filepath.Join(gd, "refs/heads/loop")
			put(l, []byte("ref: refs/heads/loop\n"))
			old := x.undo
			x.undo = func() { os.Remove(l); old() }
		}
	case "object":
		var objs []string
		ds, _ := filepath.Glob(filepath.Join(gd, "objects/??/*"))
		objs = append(objs, ds...)
		if len(objs) == 0 {
			fw.Infraf("no loose objects")
		}
		p := objs[f.N%len(objs)]
		d, err := ioutil.ReadFile(p)
		must(err)
		save(p)
		if f.Mode != "delete" {
			put(p, damage(d, f.Mode, f.Cut))
		}
	case "pack":
		ps, _ := filepath.Glob(filepath.Join(gd, "objects/pack/*.pack"))
		if len(ps) == 0 {
			fw.Infraf("no packs")
		}
		p := ps[f.N%len(ps)]
		switch f.Mode {
		case "no-index":
			save(strings.TrimSuffix(p, ".pack") + ".idx")
		case "zero-index":
			p = strings.TrimSuffix(p, ".pack") + ".idx"
			fallthrough
		case "truncate":
			d, err := ioutil.ReadFile(p)
			must(err)
			save(p)
			put(p, damage(d, "truncate", f.Cut))
		case "no-pack":
			save(p)
		}
	case "ref":
		p := filepath.Join(gd, "refs/heads/zz")
		save(p)
		if f.Mode == "blob" {
			put(p, []byte(objectOf(e, b, "blob")+"\n"))
			// git log takes no notice of it
			x.mayDiffer["branches"] = true
		} else {
			put(p, []byte(strings.Repeat("1", 40)+"\n"))
		}
	case "git":
		real, err := exec.LookPath("git")
		must(err)
		bin := filepath.Join(e.Dir, "fault-bin")
		must(os.MkdirAll(bin, 0777))
		ctl := e.Sub("fault-ctl")
		if f.Mode != "absent" {
			act := ""
			switch f.Mode {
			case "cut":
				act = fmt.Sprintf("%v \"$@\" 2>/dev/null | head -c %d\nexit 3", real, f.Cut)
			case "none":
				act = "exit 128"
			case "late":
				act = fmt.Sprintf("%v \"$@\"\nexit 1", real)
			case "kill":
				act = fmt.Sprintf("%v \"$@\" 2>/dev/null | head -c %d\nkill -9 $$", real, f.Cut)
			case "noise":
				act = fmt.Sprintf("%v \"$@\" 2>/dev/null | head -c %d\necho fatal: unable to read tree\nexit 128", real, f.Cut)
			case "flood":
				// much more than is read at a time, it must not wait for a reader that has given up
				act = fmt.Sprintf("%v \"$@\" 2>/dev/null | head -c %d\necho\nyes \"fatal: unable to read tree\" 2>/dev/null | tr b '\\0' 2>/dev/null | head -c 2000000 2>/dev/null\nexit 128", real, f.Cut)
			}
			script := fmt.Sprintf(`#!/bin/sh
skip=
sub=
for a in "$@"; do
	if [ -n "$skip" ]; then skip=; continue; fi
	case "$a" in
	-c|-C) skip=1;;
	-*) ;;
	*) sub="$a"; break;;
	esac
done
if [ -z "%v" ] || [ "$sub" = "%v" ]; then
	echo >> %v/n
	n=$(wc -l < %v/n)
	if [ "$n" -eq %d ]; then
		echo > %v/hit
		%v
	fi
fi
exec %v "$@"
`, f.Sub, f.Sub, ctl, ctl, f.N, ctl, act, real)
			must(ioutil.WriteFile(filepath.Join(bin, "git"), []byte(script), 0777))
		}
		old := os.Getenv("PATH")
		if f.Mode == "absent" {
			os.Setenv("PATH", bin)
		} else {
			os.Setenv("PATH", bin+":"+old)
		}
		x.undo = func() { os.Setenv("PATH", old) }
		x.hit = func() bool {
			_, err := os.Stat(filepath.Join(ctl, "hit"))
			return err == nil || f.Mode == "absent"
		}
	case "fsize":
		ch := make(chan os.Signal, 100)
		signal.Notify(ch, syscall.SIGXFSZ)
		var old syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(f.Cut), Max: old.Max}))
		x.undo = func() {
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
			signal.Reset(syscall.SIGXFSZ)
		}
	case "cp":
		must(os.RemoveAll(filepath.Join(e.Dir, "blocked")))
		x.cp = filepath.Join(e.Sub("blocked"), "cp")
		if f.Mode == "file" {
			put(filepath.Join(x.cp, "pp-git-cache"), []byte("x"))
		} else {
			put(x.cp, []byte("x"))
		}
	case "from":
		switch f.Mode {
		case "unknown":
			x.from = "12345678901234567890123456789012345678aa"
		case "zeros":
			x.from = strings.Repeat("0", 40)
		case "blob", "tree":
			x.from = objectOf(e, b, f.Mode)
		case "garbage":
			x.from = "not a commit"
		case "empty-name":
			x.from = "^"
		case "not-in-checkpoint":
			// there is no checkpoint
			x.from = b.Hash[len(b.Hash)-1]
			x.cp = e.Sub("no-checkpoint")
		}
	case "cancel":
		x.ctx, x.cancel = context.WithCancel(context.Background())
		if f.Mode == "before" {
			x.cancel()
		} else {
			t := time.AfterFunc(time.Duration(f.N)*time.Millisecond, x.cancel)
			x.undo = func() { t.Stop(); x.cancel() }
		}
	default:
		fw.Infraf("fault %v", f)
	}
	return x
}

// noChildren waits for the end of all processes that a run started.
func noChildren() string {
	for i := 0; ; i++ {
		c := fw.Children()
		if len(c) == 0 {
			return ""
		}
		if i > 1000 {
			return fmt.Sprint(len(c))
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// snapshot lists everything below dir.
func snapshot(dir string) map[string]string {
	res := map[string]string{}
	err := filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		s := st.Mode().String()
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			s += " " + l
		case st.Mode().IsRegular():
			b, err := ioutil.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
		}
		res[rel] = s
		return nil
	})
	must(err)
	return res
}

// changes gives the paths that differ.
func changes(a, b map[string]string) (res []string) {
	for p, s := range a {
		t, ok := b[p]
		if !ok {
			res = append(res, p+" (removed)")
		} else if s != t {
			res = append(res, p+" (changed)")
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			res = append(res, p+" (new)")
		}
	}
	sort.Strings(res)
	return
}

// ---- C18

type FootCase struct {
	Repo   *gm.Repo `json:"repo"`
	Bare   bool     `json:"bare,omitempty"`
	PRs    []int    `json:"prs,omitempty"`
	Origin bool     `json:"origin,omitempty"`
	// Checkout is how the working tree is: "" none, full, dirty.
	Checkout string     `json:"checkout,omitempty"`
	Loose    bool       `json:"loose,omitempty"`
	Steps    []FootStep `json:"steps"`
}

type FootStep struct {
	Kind string `json:"k"`
	// Cp is the checkpoint directory: "" inside, or a name.
	Cp    string `json:"cp,omitempty"`
	Junk  string `json:"junk,omitempty"`
	Head  bool   `json:"head,omitempty"`
	Incr  bool   `json:"incr,omitempty"` // from the last commit of this checkpoint
	Excl  bool   `json:"excl,omitempty"`
	Fault Fault  `json:"fault"`
}

var footFaults = []string{"none", "none", "none", "none", "none", "none", "object", "git", "fsize", "cp", "from", "cancel", "head"}

func genFoot(t *rapid.T) *FootCase {
	r := gm.R{T: t}
	c := &FootCase{Bare: r.P(1, 2), Loose: r.P(1, 2)}
	c.Repo, c.PRs, c.Origin = genStable(t)
	if !c.Bare {
		c.Checkout = gm.Pick(r, []string{"", "full", "dirty"})
	}
	for k := r.Int(1, 5); k > 0; k-- {
		s := FootStep{Kind: gm.Pick(r, []string{"history", "code", "flat", "history", "code", "meta", "graph", "branches", "blame"}), Head: r.P(1, 2), Fault: genFault(r, footFaults)}
		s.Cp = gm.Pick(r, []string{"", "", "cp", "cp", "deep/er/cp", "repo-cp"})
		s.Junk = gm.Pick(r, []string{"", "", "", "tmp/repo.tmp", "tmp/lines", "checkpoint/old", "checkpoint/sub/old", "tmp"})
		s.Incr = r.P(1, 3)
		if s.Incr {
			s.Head = true
			s.Excl = r.P(1, 2)
		}
		if s.Kind == "branches" {
			s.Head = false
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runFoot(e *fw.Env, c *FootCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	if c.Loose {
		unpackAll(e, b.GitDir)
	}
	if c.Checkout != "" && c.Repo.HeadAt >= 0 && !c.Bare {
		e.GitErr(b.Dir, nil, "reset", "-q", "--hard")
		if c.Checkout == "dirty" {
			for p, en := range b.Trees[c.Repo.HeadAt] {
				if regular(en.Mode) && !strings.Contains(p, ".git") {
					ioutil.WriteFile(filepath.Join(b.Dir, p), []byte("changed\n"), 0666)
					break
				}
			}
			put(filepath.Join(b.Dir, "untracked.go"), []byte("x"))
		}
	}
	last := map[string]string{}
	for k, s := range c.Steps {
		o := stableRuns(b, c.PRs, c.Origin)
		o.Dir = b.Dir
		o.Head = s.Head
		cp := ""
		switch s.Cp {
		case "":
		case "repo-cp":
			// in a directory of the repository
			cp = filepath.Join(b.GitDir, "x", "cp")
		default:
			cp = filepath.Join(e.Dir, s.Cp)
		}
		writes := s.Kind == "history" || s.Kind == "code" || s.Kind == "flat"
		if s.Junk != "" && writes {
			d := cp
			if d == "" {
				d = b.Dir
			}
			p := filepath.Join(d, "pp-git-cache", s.Junk)
			if st, err := os.Stat(p); err != nil || !st.IsDir() {
				if st, err := os.Stat(filepath.Dir(p)); err != nil || st.IsDir() {
					put(p, []byte("junk"))
					if strings.HasPrefix(s.Junk, "checkpoint/") {
						last[cp] = ""
					}
				}
			}
		}
		if s.Fault.Kind == "object" && !c.Loose {
			s.Fault = Fault{Kind: "none"}
		}
		x := s.Fault.apply(e, b, cp, &o)
		o.Ctx = x.ctx
		o.From = x.from
		if s.Incr && x.from == "" && last[cp] != "" && writes {
			o.From = last[cp]
			o.Excl = s.Excl
			v.Class("incremental")
		}
		if o.From != "" {
			o.Head = s.Kind != "branches"
		}
		where := fmt.Sprintf("step %d %v, checkpoint directory %q, fault %v:", k, s.Kind, s.Cp, s.Fault)
		before := snapshot(e.Dir)
		env := strings.Join(os.Environ(), "\n")
		wd, _ := os.Getwd()
		res, err := o.one(s.Kind, x.cp)
		left := noChildren()
		wd2, _ := os.Getwd()
		env2 := strings.Join(os.Environ(), "\n")
		if s.Fault.Kind == "git" {
			os.RemoveAll(filepath.Join(e.Dir, "fault-ctl"))
			if l, err := ioutil.ReadDir(filepath.Join(e.Dir, "fault-ctl")); err == nil && len(l) > 0 {
				fw.Infraf("fault-ctl")
			}
			must(os.MkdirAll(filepath.Join(e.Dir, "fault-ctl"), 0777))
		}
		after := snapshot(e.Dir)
		x.undo()
		x.cancel()
		what := "succeeds"
		if err != nil {
			what = fmt.Sprintf("fails (%.100v)", err)
			v.Class("failed")
		} else {
			v.Class("succeeded")
		}
		if left != "" {
			v.Failf("%v %v, %v processes are left", where, what, left)
			return v
		}
		if wd != wd2 || env != env2 {
			v.Failf("%v %v, working directory %q or environment changed", where, what, wd2)
			return v
		}
		if s.Fault.Kind == "none" && err != nil && !(s.Incr && o.From != "") {
			v.Failf("%v %v", where, what)
			return v
		}
		// what may be written
		dir := x.cp
		if dir == "" {
			dir = b.Dir
		}
		dir = filepath.Join(dir, "pp-git-cache")
		rel, _ := filepath.Rel(e.Dir, dir)
		for _, p := range changes(before, after) {
			name := p[:strings.LastIndex(p, " (")]
			ok := false
			if writes {
				if name == rel || strings.HasPrefix(name, rel+"/") {
					ok = true
				}
				// directories above it are created
				if strings.HasPrefix(rel, name+"/") && strings.HasSuffix(p, " (new)") {
					ok = true
				}
			}
			if !ok {
				v.Failf("%v %v and leaves %q", where, what, p)
				return v
			}
		}
		if !writes {
			continue
		}
		if err == nil && len(res) > 1 || err == nil && s.Kind == "history" && res["history order"] != "" {
			// a checkpoint was written
			ents, err := ioutil.ReadDir(dir)
			if err != nil {
				v.Failf("%v succeeds, no checkpoint: %v", where, err)
				return v
			}
			var names []string
			for _, en := range ents {
				names = append(names, en.Name())
			}
			if len(names) != 1 || names[0] != "checkpoint" {
				v.Failf("%v succeeds, the checkpoint directory has %q", where, names)
				return v
			}
			var fs []string
			for p := range snapshot(filepath.Join(dir, "checkpoint")) {
				fs = append(fs, p)
			}
			sort.Strings(fs)
			if want := []string{".", "blames", "checkpoint-version", "line-data", "lines", "repo"}; strings.Join(fs, " ") != strings.Join(want, " ") {
				v.Failf("%v succeeds, the checkpoint has %q", where, fs)
				return v
			}
			h, _ := ioutil.ReadFile(filepath.Join(dir, "checkpoint", "checkpoint-version"))
			last[x.cp] = string(h)
			v.Class("checkpoints")
		} else if err != nil {
			for p := range after {
				if strings.HasPrefix(p, rel+"/") && before[p] == "" {
					v.Failf("%v %v and leaves %q", where, what, p)
					return v
				}
			}
		}
	}
	v.Nontrivial = v.Classes["checkpoints"] > 0
	return v
}

// ---- C19

type FaultCase struct {
	Repo   *gm.Repo `json:"repo"`
	Bare   bool     `json:"bare,omitempty"`
	PRs    []int    `json:"prs,omitempty"`
	Origin bool     `json:"origin,omitempty"`
	Head   bool     `json:"head,omitempty"`
	Kinds  []string `json:"kinds"`
	// Reuse makes all runs with one object, and again after the fault.
	Reuse bool  `json:"reuse,omitempty"`
	Fault Fault `json:"fault"`
}

func genFaults(t *rapid.T) *FaultCase {
	r := gm.R{T: t}
	c := &FaultCase{Bare: r.P(1, 2), Head: r.P(1, 3), Reuse: r.P(1, 4)}
	c.Repo, c.PRs, c.Origin = genStable(t)
	c.Fault = genFault(r, []string{"dir", "head", "object", "object", "object", "pack", "ref", "git", "git", "git", "git", "fsize", "cp", "from", "cancel"})
	n := r.Int(2, 4)
	ks := runKinds
	if c.Fault.Kind == "cancel" || c.Reuse {
		ks = []string{"code", "flat", "branches"}
	}
	if c.Fault.Kind == "fsize" || c.Fault.Kind == "cp" || c.Fault.Kind == "from" {
		ks = []string{"code", "flat", "history"}
	}
	for ; n > 0; n-- {
		c.Kinds = append(c.Kinds, gm.Pick(r, ks))
	}
	return c
}

func runFaults(e *fw.Env, c *FaultCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	if c.Fault.Kind == "object" {
		unpackAll(e, b.GitDir)
	}
	o := stableRuns(b, c.PRs, c.Origin)
	o.Dir = b.Dir
	o.Head = c.Head
	base := map[string]Canon{}
	baseErr := map[string]error{}
	kinds := append([]string{"history"}, c.Kinds...)
	for _, k := range kinds {
		if base[k] == nil {
			base[k], baseErr[k] = o.one(k, filepath.Join(e.Dir, "cp-base", k))
			if baseErr[k] != nil && !(k == "branches" && c.Head) {
				v.Failf("%v without fault: %v", k, baseErr[k])
				return v
			}
		}
	}
	// a good checkpoint
	cp := filepath.Join(e.Dir, "cp")
	if d, err := o.one("history", cp); err != nil {
		v.Failf("%v", err)
		return v
	} else if s := base["history"].diff(d); s != "" {
		v.Failf("second run: %v", s)
		return v
	}
	x := c.Fault.apply(e, b, cp, &o)
	o.Ctx = x.ctx
	o.From = x.from
	if c.Reuse {
		o.Obj = ripsrc.New(o.opts(x.cp))
	}
	if o.From != "" {
		o.Head = true
	}
	failed := false
	check := func(k, when string, d Canon, err error) bool {
		if err != nil {
			v.Class("error")
			v.Class("error-" + c.Fault.Kind)
			failed = true
			return true
		}
		if baseErr[k] != nil {
			v.Failf("%v %v succeeds, without fault it gives %v", k, when, baseErr[k])
			return false
		}
		v.Class("unaffected")
		if x.mayDiffer[k] {
			return true
		}
		if c.Fault.Kind == "from" {
			if c.Fault.Mode == "not-in-checkpoint" && (len(d) == 0 || k == "history" && d["history order"] == "" || k == "code" && d["code order"] == "") {
				// HEAD has no commits after it
				return true
			}
			v.Failf("%v %v succeeds from commit %q", k, when, o.From)
			return false
		}
		if s := base[k].diff(d); s != "" {
			v.Failf("%v %v succeeds with a different result: %v", k, when, s)
			return false
		}
		return true
	}
	when := fmt.Sprintf("under %+v", c.Fault)
	for _, k := range c.Kinds {
		before := snapshot(filepath.Join(e.Dir, "cp"))
		d, err := o.one(k, x.cp)
		if left := noChildren(); left != "" {
			v.Failf("%v %v: %v processes are left", k, when, left)
			x.undo()
			return v
		}
		if !check(k, when, d, err) {
			x.undo()
			return v
		}
		if err != nil {
			if ch := changes(before, snapshot(filepath.Join(e.Dir, "cp"))); len(ch) > 0 {
				v.Failf("%v %v fails and changes the checkpoint: %q", k, when, ch)
				x.undo()
				return v
			}
		}
	}
	if x.hit != nil {
		v.ClassIf(x.hit(), "git-failed")
	}
	x.undo()
	x.cancel()
	// and without the fault
	when += " and then without"
	if c.Reuse && c.Fault.Kind != "from" && c.Fault.Kind != "cp" {
		o.Ctx = nil
		for _, k := range c.Kinds {
			d, err := o.one(k, x.cp)
			delete(x.mayDiffer, k)
			was := failed
			if !check(k, when+" with the same object", d, err) {
				return v
			}
			failed = was
		}
		v.Class("reused")
	}
	o.Obj, o.Ctx, o.From, o.Head = nil, nil, "", c.Head
	d, err := o.one("history", cp)
	if err != nil {
		v.Failf("history %v: %v", when, err)
		return v
	}
	if s := base["history"].diff(d); s != "" {
		v.Failf("history %v: %v", when, s)
		return v
	}
	v.Class(c.Fault.Kind + "-" + c.Fault.Mode)
	v.Nontrivial = failed
	return v
}

// ResumeCase is an incremental run that something is wrong with.
type ResumeCase struct {
	Incr  *IncrCase `json:"incr"`
	Kind  string    `json:"kind"`
	Fault Fault     `json:"fault"`
	// Other is the repository of a foreign checkpoint.
	Other *gm.Repo `json:"other,omitempty"`
}

var cpFiles = []string{"repo", "blames", "lines", "line-data", "checkpoint-version"}

func genResume(t *rapid.T) *ResumeCase {
	r := gm.R{T: t}
	c := &ResumeCase{Incr: genIncr(t), Kind: gm.Pick(r, []string{"code", "flat", "history"})}
	c.Incr.Stages = c.Incr.Stages[:1]
	c.Incr.All = false
	switch r.Int(0, 3) {
	case 0:
		// another kind of object is no start commit, git log takes it for a start that excludes nothing
		c.Incr.Stages[0].NoStrict = false
		c.Incr.Stages[0].From = -1
		c.Fault = genFault(r, []string{"object", "git", "git", "fsize", "from", "cancel"})
		if c.Fault.Kind == "cancel" && c.Kind == "history" {
			c.Kind = "code"
		}
	default:
		c.Fault = Fault{Kind: "checkpoint", Mode: gm.Pick(r, []string{"missing", "empty", "foreign", "foreign-version", "delete", "truncate", "zero", "flip", "flip", "garbage", "append", "other-commit", "no-newline", "dir", "swap"}), N: r.Int(0, len(cpFiles)-1), Cut: r.Int(0, 500)}
		if strings.HasPrefix(c.Fault.Mode, "foreign") {
			o := gm.StdOpts(r, true)
			o.Shallow = false
			o.MaxCommits = 5
			c.Other = gm.History(t, o)
		}
	}
	return c
}

func runResume(e *fw.Env, c *ResumeCase) *fw.Verdict {
	v := &fw.Verdict{}
	ic := c.Incr
	b := ic.at(ic.First).Build(e, e.Sub("repo"), ic.Bare)
	good := e.Sub("good")
	o := Runs{Dir: b.Dir, Head: true}
	if _, err := o.one("history", good); err != nil {
		v.Failf("full run: %v", err)
		return v
	}
	h, err := ioutil.ReadFile(filepath.Join(good, "pp-git-cache/checkpoint/checkpoint-version"))
	must(err)
	s := ic.Stages[0]
	b.Grow(e, ic.at(s))
	from := s.From
	if from < 0 {
		from = b.Index[string(h)]
	}
	if len(ic.Repo.Commits[from].Parents) == 0 {
		s.Excl = true
	}
	if c.Fault.Kind == "object" {
		unpackAll(e, b.GitDir)
	}
	o.From, o.Excl, o.NoStrict = b.Hash[from], s.Excl, s.NoStrict
	copied := func(name string) string {
		d := e.Sub(name)
		copyTree(good, d)
		return d
	}
	base, err := o.one(c.Kind, copied("base"))
	if err != nil {
		v.Failf("resumed run: %v", err)
		return v
	}
	empty := len(base) == 0 || len(base) == 1 && (base["history order"] == "" && base["code order"] == "")
	cp := copied("cp")
	var x *faultEnv
	mustFail := false
	if c.Fault.Kind == "checkpoint" {
		x = &faultEnv{undo: func() {}, cancel: func() {}, cp: cp}
		dir := filepath.Join(cp, "pp-git-cache", "checkpoint")
		p := filepath.Join(dir, cpFiles[c.Fault.N])
		d, err := ioutil.ReadFile(p)
		must(err)
		switch c.Fault.Mode {
		case "missing":
			must(os.RemoveAll(filepath.Join(cp, "pp-git-cache")))
			mustFail = true
		case "empty":
			must(os.RemoveAll(dir))
			must(os.MkdirAll(dir, 0777))
			mustFail = true
		case "foreign", "foreign-version":
			ob := c.Other.Build(e, e.Sub("other"), true)
			must(os.RemoveAll(filepath.Join(cp, "pp-git-cache")))
			if _, err := (Runs{Dir: ob.Dir, Head: true}).one("history", cp); err != nil {
				v.Failf("other repository: %v", err)
				return v
			}
			if c.Fault.Mode == "foreign-version" {
				put(filepath.Join(dir, "checkpoint-version"), h)
			}
		case "delete":
			must(os.Remove(p))
			mustFail = cpFiles[c.Fault.N] != "checkpoint-version" || !s.NoStrict
		case "dir":
			must(os.Remove(p))
			must(os.MkdirAll(p, 0777))
			mustFail = cpFiles[c.Fault.N] != "checkpoint-version" || !s.NoStrict
		case "append":
			put(p, append(append([]byte{}, d...), "x"...))
		case "other-commit":
			put(filepath.Join(dir, "checkpoint-version"), []byte("12345678901234567890123456789012345678aa"))
			mustFail = !s.NoStrict
		case "no-newline":
			put(filepath.Join(dir, "checkpoint-version"), append(append([]byte{}, h...), '\n'))
		case "swap":
			q := filepath.Join(dir, cpFiles[(c.Fault.N+1)%len(cpFiles)])
			d2, err := ioutil.ReadFile(q)
			must(err)
			if bytes.Equal(d, d2) {
				break
			}
			put(p, d2)
			put(q, d)
		default:
			put(p, damage(d, c.Fault.Mode, c.Fault.Cut))
		}
	} else {
		x = c.Fault.apply(e, b, cp, &o)
		o.Ctx = x.ctx
		if x.from != "" {
			o.From = x.from
			mustFail = true
		}
	}
	when := fmt.Sprintf("%v from %v (exclusive %v strict %v) under %+v", c.Kind, cname(b, o.From), o.Excl, !o.NoStrict, c.Fault)
	before := snapshot(x.cp)
	d, err := o.one(c.Kind, x.cp)
	left := noChildren()
	after := snapshot(x.cp)
	x.undo()
	x.cancel()
	if left != "" {
		v.Failf("%v: %v processes are left", when, left)
		return v
	}
	if err != nil {
		v.Class("error")
		if ch := changes(before, after); len(ch) > 0 {
			v.Failf("%v fails and changes the checkpoint: %q", when, ch)
			return v
		}
	} else {
		v.Class("unaffected")
		if x.from != "" && c.Fault.Mode == "not-in-checkpoint" && (len(d) == 0 || len(d) == 1 && d["history order"] == "" && d["code order"] == "") {
			// HEAD has no commits after it
			return v
		}
		if mustFail && (!empty || x.from != "") {
			v.Failf("%v succeeds", when)
			return v
		}
		if s := base.diff(d); s != "" && !(empty && len(d) == 0) {
			v.Failf("%v succeeds with a different result: %v", when, s)
			return v
		}
	}
	v.Class(c.Fault.Kind + "-" + c.Fault.Mode)
	// still good
	if c.Fault.Kind != "checkpoint" && err != nil {
		o.From, o.Ctx = b.Hash[from], nil
		d, err := o.one(c.Kind, cp)
		if err != nil {
			v.Failf("%v and then without: %v", when, err)
			return v
		}
		if s := base.diff(d); s != "" {
			v.Failf("%v and then without: %v", when, s)
			return v
		}
	}
	v.Nontrivial = !empty
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C18", Rule: "a sequence of runs of which at least one wrote a checkpoint"})
	fw.AddSub(p, "footprint", 1600, 20000, genFoot, runFoot)
	p = fw.Register(&fw.Prop{ID: "C19", Rule: "a fault that made at least one run fail, or a fault of an incremental run that has commits to report"})
	fw.AddSub(p, "faults", 1500, 20000, genFaults, runFaults)
	fw.AddSub(p, "resume", 1500, 20000, genResume, runResume)
}
