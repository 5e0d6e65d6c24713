package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// CliCase is a directory with repositories and runs of the command line on it.
type CliCase struct {
	Repos []*gm.Repo `json:"repos"`
	Ents  []CliEnt   `json:"ents"`
	Runs  []CliRun   `json:"runs"`
	// Wrong is an invocation that can't be carried out; D is the directory.
	Wrong []string `json:"wrong,omitempty"`
	// Licences uses the program that recognises licences, as it is released.
	Licences bool `json:"licences,omitempty"`
}

var cliWrong = []string{"code", "branches", "code D D", "branches D D", "code D nosuch", "code --nosuch D", "branches --nosuch=1 D", "branches --sha x D", "code -x D", "cod D", "D", "branch D", "code D --sha", "branches D --profile", "code -- D --sha x", "code nosuch-dir", "branches nosuch-dir"}

// CliEnt is an entry of the directory. With Name "." the directory itself is
// the repository.
type CliEnt struct {
	Name string `json:"n"`
	// Kind is a repository (valid, empty, unborn, broken, blocked) or dir, file or link.
	Kind  string `json:"k"`
	Repo  int    `json:"r,omitempty"`
	Bare  bool   `json:"bare,omitempty"`
	Break int    `json:"b,omitempty"`
	Deep  bool   `json:"deep,omitempty"` // one directory further down
}

type CliRun struct {
	Cmd  string `json:"cmd"`
	Sha  string `json:"sha,omitempty"` // none, known, unknown
	Form int    `json:"form,omitempty"`
	// Profile is a kind of profile to make during the run.
	Profile string `json:"profile,omitempty"`
	// Sub runs it on an entry.
	Sub int `json:"sub,omitempty"` // from 1
}

func genCli(t *rapid.T) *CliCase {
	r := gm.R{T: t}
	c := &CliCase{}
	for k := r.Int(1, 2); k > 0; k-- {
		o := gm.StdOpts(r, r.P(1, 2))
		o.MaxCommits = 6
		o.Skew = false
		o.LongLines = false
		o.Paths = append(gm.DrawPaths(r, []string{"a.go", "b.py", "c.js", "x/d.rb", "notes.md", "noext", "dir/e.c", ".dot", "f.json", "vendor/x.go", "sp ace.go", "%s.go", "[x].go"}, 5), "plain.go")
		rp := gm.History(t, o)
		n := len(rp.Commits)
		for k := r.Int(0, 3); k > 0; k-- {
			rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/remotes/origin/z%d", k), Commit: r.Int(0, n-1)})
		}
		c.Repos = append(c.Repos, rp)
	}
	ent := func(name string) CliEnt {
		e := CliEnt{Name: name, Repo: r.Int(0, len(c.Repos)-1), Bare: r.P(1, 3)}
		e.Kind = gm.Pick(r, []string{"valid", "valid", "valid", "valid", "valid", "valid", "empty", "unborn", "broken", "blocked", "dir", "file", "link"})
		e.Break = r.Int(0, 40)
		if e.Bare && strings.HasPrefix(e.Kind, "v") || e.Bare && e.Kind != "dir" && e.Kind != "file" {
			e.Name += ".git"
		}
		e.Deep = r.P(1, 12)
		return e
	}
	if r.P(1, 6) {
		e := ent(".")
		e.Name, e.Bare, e.Deep = ".", false, false
		c.Ents = append(c.Ents, e)
	} else {
		for k := r.Int(0, 4); k > 0; k-- {
			c.Ents = append(c.Ents, ent(fmt.Sprintf("%v%d", gm.Pick(r, []string{"r", "b c", "-x", "\u00e9", "pp-git-cache", ".h"}), k)))
		}
	}
	for k := r.Int(1, 3); k > 0; k-- {
		run := CliRun{Cmd: gm.Pick(r, []string{"code", "code", "branches"}), Form: r.Int(0, 4)}
		if run.Cmd == "code" && len(c.Runs) > 0 && r.P(1, 2) {
			run.Sha = gm.Pick(r, []string{"known", "known", "unknown"})
		}
		if r.P(1, 8) {
			run.Profile = gm.Pick(r, []string{"mem", "mutex", "cpu", "block", "trace"})
		}
		if len(c.Ents) > 0 && r.P(1, 5) {
			run.Sub = r.Int(1, len(c.Ents))
		}
		c.Runs = append(c.Runs, run)
	}
	if r.P(1, 3) {
		c.Wrong = strings.Fields(gm.Pick(r, cliWrong))
	}
	return c
}

var cliEntry = regexp.MustCompile(`^\[(.*)\]\[([0-9a-f]{8})\]\[\d+m\] (.* language=.*)$`)

func isDir(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.IsDir()
}

// cliRepos lists the repositories that are found below dir.
func cliRepos(dir string, depth int) (res []string) {
	if isDir(filepath.Join(dir, ".git")) {
		return []string{dir}
	}
	abs, _ := filepath.Abs(dir)
	if strings.HasSuffix(abs, ".git") && isDir(filepath.Join(dir, "objects")) {
		return []string{dir}
	}
	if depth == 0 {
		return nil
	}
	es, err := os.ReadDir(dir)
	must(err)
	for _, en := range es {
		if en.IsDir() {
			res = append(res, cliRepos(filepath.Join(dir, en.Name()), depth-1)...)
		}
	}
	return
}

func runCli(e *fw.Env, c *CliCase) *fw.Verdict {
	v := &fw.Verdict{}
	exe, err := os.Executable()
	must(err)
	bin := filepath.Join(filepath.Dir(exe), "ripsrc")
	if c.Licences {
		bin += "-licences"
	}
	top := e.Sub("top")
	var hashes []string
	for k, en := range c.Ents {
		dir := filepath.Join(top, en.Name)
		if en.Deep {
			dir = filepath.Join(top, fmt.Sprintf("deep%d", k), en.Name)
		}
		must(os.MkdirAll(filepath.Dir(dir), 0777))
		switch en.Kind {
		case "dir":
			must(os.MkdirAll(filepath.Join(dir, "x"), 0777))
			put(filepath.Join(dir, "objects.txt"), []byte("x"))
		case "file":
			if en.Name != "." {
				put(dir, []byte("x"))
			}
		case "link":
			if en.Name != "." {
				os.Symlink(e.Sub("elsewhere"), dir)
			}
		case "empty":
			gm.Skeleton(dir, en.Bare, "main")
		default:
			b := c.Repos[en.Repo].Build(e, dir, en.Bare)
			hashes = append(hashes, b.Hash...)
			if en.Kind == "unborn" {
				put(filepath.Join(b.GitDir, "HEAD"), []byte("ref: refs/heads/none/yet\n"))
			}
			if en.Kind == "blocked" {
				// fails after everything is reported
				put(filepath.Join(dir, "pp-git-cache"), []byte("x"))
			}
			if en.Kind == "broken" {
				unpackAll(e, b.GitDir)
				// any object but the commit of HEAD, which could be taken for an empty repository
				objs, _ := filepath.Glob(filepath.Join(b.GitDir, "objects/??/*"))
				head := ""
				if c.Repos[en.Repo].HeadAt >= 0 {
					head = b.Hash[c.Repos[en.Repo].HeadAt]
				}
				for j := range objs {
					p := objs[(en.Break+j)%len(objs)]
					if filepath.Base(filepath.Dir(p))+filepath.Base(p) != head {
						put(p, []byte("garbage"))
						break
					}
				}
			}
		}
	}
	for k, run := range c.Runs {
		// the argument
		dir := top
		if run.Sub > 0 {
			en := c.Ents[run.Sub-1]
			dir = filepath.Join(top, en.Name)
			if en.Deep {
				dir = filepath.Join(top, fmt.Sprintf("deep%d", run.Sub-1), en.Name)
			}
		}
		arg, cwd := dir, e.Dir
		switch run.Form {
		case 1:
			arg = dir + "/"
		case 2:
			arg, _ = filepath.Rel(e.Dir, dir)
		case 3:
			if isDir(dir) {
				cwd, arg = dir, "."
			}
		}
		where := fmt.Sprintf("run %d, %v %q", k, run.Cmd, arg)
		sha := ""
		if run.Sha == "unknown" || run.Sha == "known" && len(hashes) == 0 {
			sha = "12345678901234567890123456789012345678aa"
		} else if run.Sha == "known" {
			sha = hashes[(k*7+run.Form)%len(hashes)]
		}
		if sha != "" {
			where += " from " + sha
		}
		// what is to be expected
		var repos []string
		if isDir(dir) {
			repos = cliRepos(dir, 1)
		}
		fails := len(repos) == 0
		var failing, empty []string
		var lines []string
		recs := 0
		for j, rp := range repos {
			if out, err := e.GitErr(rp, nil, "rev-parse", "HEAD"); err != nil || len(strings.TrimSpace(string(out))) != 40 {
				empty = append(empty, rp)
				v.Class("empty-repositories")
				continue
			}
			at := filepath.Join(e.Dir, fmt.Sprintf("copy%d-%d", k, j), filepath.Base(rp))
			copyTree(rp, at)
			var got []string
			var err error
			if run.Cmd == "code" {
				cr := newRun("", nil, nil)
				err = codeByCommitOn(context.Background(), ripsrc.New(ripsrc.Opts{RepoDir: at, Logger: noLog{}, CommitFromIncl: sha, NoStrictResume: true}), cr)
				for h, rs := range cr.Recs {
					for _, x := range rs {
						lic := ""
						if x.License != nil {
							v.Class("licences")
							lic = fmt.Sprintf("%v (%.0f%%)", x.License.Name, 100*x.License.Confidence)
						}
						got = append(got, fmt.Sprintf("%s %s %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s", filepath.Base(rp), h[:8], x.Filename, x.Language, lic, x.Loc, x.Sloc, x.Comments, x.Blanks, x.Complexity, x.Skipped, x.Status, x.Commit.Author()))
					}
				}
			} else {
				var bs []ripsrc.Branch
				bs, err = ripsrc.New(ripsrc.Opts{RepoDir: at, Logger: noLog{}, AllBranches: true, BranchesUseOrigin: true}).BranchesSlice(context.Background())
				for _, b := range bs {
					args := []interface{}{"[BR]", b.Name, "commits", len(b.Commits), "first_commit", b.FirstCommit}
					if len(b.Commits) != 0 {
						args = append(args, "commits[0]", b.Commits[0])
					}
					got = append(got, strings.TrimSpace(fmt.Sprintln(args...)))
				}
			}
			if err != nil {
				failing = append(failing, rp)
				fails = true
				v.Class("failing-repositories")
				continue
			}
			v.Class("processed-repositories")
			recs += len(got)
			lines = append(lines, got...)
		}
		sort.Strings(lines)
		args := []string{run.Cmd}
		if sha != "" {
			args = append(args, "--sha", sha)
		}
		if run.Profile != "" {
			args = append(args, "--profile", run.Profile)
			where += " with profile " + run.Profile
			v.Class("profile")
		}
		args = append(args, "--", arg)
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = cwd
		cmd.Env = e.GitEnv()
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		err = cmd.Run()
		timeout := ctx.Err() != nil
		cancel()
		if st := cmd.ProcessState; timeout && st != nil && st.UserTime()+st.SystemTime() > 25*time.Second {
			v.Failf("%v does not end, it used %.0f s of CPU time", where, (st.UserTime() + st.SystemTime()).Seconds())
			return v
		}
		if timeout {
			fw.Infraf("ripsrc does not end: %v", args)
		}
		all := out.String() + errOut.String()
		if strings.Contains(all, "goroutine ") || strings.Contains(all, "panic:") {
			if fw.InfraText(all) {
				fw.Infraf("%.300s", all)
			}
			v.Failf("%v crashes: %.500s", where, all[strings.Index(all, "panic"):])
			return v
		}
		what := fmt.Sprintf("%v (%d repositories, %d without commit, %d failing)", where, len(repos), len(empty), len(failing))
		if fails {
			v.Class("expected-failures")
			if err == nil {
				v.Failf("%v exits with status 0", what)
			} else if !strings.Contains(strings.ToLower(all), "fail") {
				v.Failf("%v fails without a message: %.300q", what, all)
			} else {
				for _, f := range failing {
					if arg != "." && !strings.Contains(all, filepath.Base(f)) {
						v.Failf("%v does not name %q: %.300q", what, f, all)
					}
				}
			}
			if v.Fail != "" {
				return v
			}
			continue
		}
		v.Class("expected-successes")
		if err != nil {
			v.Failf("%v: %v, output %.500q", what, err, all)
			return v
		}
		var got []string
		for _, l := range strings.Split(out.String(), "\n") {
			if run.Cmd == "code" {
				if m := cliEntry.FindStringSubmatch(l); m != nil {
					at, _ := filepath.Abs(filepath.Join(cwd, m[1]))
					if filepath.IsAbs(m[1]) {
						at = filepath.Clean(m[1])
					}
					got = append(got, filepath.Base(at)+" "+m[2]+" "+m[3])
				}
			} else if strings.HasPrefix(l, "[BR]") {
				got = append(got, strings.TrimSpace(l))
			}
		}
		sort.Strings(got)
		if a, b := strings.Join(got, "\n"), strings.Join(lines, "\n"); a != b {
			v.Failf("%v prints %d entries, %d wanted: %v", what, len(got), len(lines), firstDiff(a, b))
			return v
		}
		if len(empty) > 0 && !strings.Contains(all, "Warning") {
			v.Failf("%v: no warning: %.300q", what, all)
			return v
		}
		if run.Cmd == "code" && !strings.Contains(all, fmt.Sprintf("Finished processing repos %d entries %d in ", len(repos), recs)) {
			v.Failf("%v: summary is not of %d repositories and %d entries: %.300q", what, len(repos), recs, all[strings.LastIndex(strings.TrimSpace(all), "\n")+1:])
			return v
		}
		v.ClassIf(recs > 0, "entries")
		v.ClassIf(sha != "", "incremental")
		v.Class(run.Cmd)
	}
	if len(c.Wrong) > 0 {
		var args []string
		for _, a := range c.Wrong {
			if a == "D" {
				a = top
			}
			args = append(args, a)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = e.Dir
		cmd.Env = e.GitEnv()
		out, err := cmd.CombinedOutput()
		timeout := ctx.Err() != nil
		cancel()
		if timeout {
			fw.Infraf("ripsrc does not end: %v", args)
		}
		if _, exited := err.(*exec.ExitError); err != nil && !exited {
			fw.Infraf("%v", err)
		}
		switch {
		case err == nil:
			v.Failf("%q exits with status 0", c.Wrong)
		case strings.Contains(string(out), "goroutine "):
			if fw.InfraText(string(out)) {
				fw.Infraf("%.300s", out)
			}
			v.Failf("%q crashes: %.500s", c.Wrong, out)
		case len(strings.TrimSpace(string(out))) == 0:
			v.Failf("%q fails without a message", c.Wrong)
		}
		for _, l := range strings.Split(string(out), "\n") {
			if cliEntry.MatchString(l) || strings.HasPrefix(l, "[BR]") {
				v.Failf("%q prints an entry: %.200q", c.Wrong, l)
			}
		}
		v.Class("wrong-invocations")
	}
	v.Nontrivial = v.Classes["processed-repositories"] > 0
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C26", Rule: "a run over a directory with at least one repository that is processed"})
	fw.AddSub(p, "cli", 600, 15000, genCli, runCli)
}
