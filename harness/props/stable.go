package props

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/gitblame2"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// Canon is everything that the runs over a repository report, in a comparable
// form.
type Canon map[string]string

func canonMeta(m *commitmeta.Commit, ordinal bool) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%v author %q %q committer %q %q date %v message %q parents %v\n", m.SHA, m.AuthorName, m.AuthorEmail, m.CommitterName, m.CommitterEmail, m.Date.Unix(), m.Message, m.Parents)
	if ordinal {
		fmt.Fprintf(&s, "ordinal %v\n", m.Ordinal)
	}
	var ps []string
	for p := range m.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&s, "%q %+v\n", p, *m.Files[p])
	}
	return s.String()
}

// canonBranch names pull requests by their commit.
func canonBranch(x *ripsrc.Branch) (key, s string) {
	return fmt.Sprintf("branch %q %v %v", x.Name, x.IsPullRequest, x.HeadSHA), fmt.Sprintf("%+v", *x)
}

// Runs says how the runs are made.
type Runs struct {
	Dir    string // of the repository
	Cp     string // checkpoint directory, inside the repository if empty
	PRs    []string
	Origin bool
	Blame  []string // commit and path pairs

	Ctx  context.Context
	Head bool   // not all branches
	From string // incremental
	Excl bool
	// NoStrict allows a checkpoint of another commit.
	NoStrict bool
	// NoOrdinal leaves out the position of commits.
	NoOrdinal bool
	// Obj is reused for all runs that need one, if set.
	Obj *ripsrc.Ripsrc
	Log logger.Logger
}

func (o Runs) log() logger.Logger {
	if o.Log != nil {
		return o.Log
	}
	return noLog{}
}

// runKinds are the entry points.
var runKinds = []string{"code", "flat", "history", "meta", "graph", "branches", "blame"}

func (o Runs) opts(cp string) ripsrc.Opts {
	return ripsrc.Opts{RepoDir: o.Dir, Logger: o.log(), CheckpointsDir: cp, AllBranches: !o.Head, BranchesUseOrigin: o.Origin, PullRequestSHAs: o.PRs, CommitFromIncl: o.From, CommitFromMakeNonIncl: o.Excl, NoStrictResume: o.NoStrict}
}

// one does one kind of run. cp is the checkpoint directory.
func (o Runs) one(kind, cp string) (Canon, error) {
	c := Canon{}
	ctx := o.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	obj := func() *ripsrc.Ripsrc {
		if o.Obj != nil {
			return o.Obj
		}
		return ripsrc.New(o.opts(cp))
	}
	switch kind {
	case "code":
		code := newRun("", nil, nil)
		if err := codeByCommitOn(ctx, obj(), code); err != nil {
			return nil, err
		}
		for h, m := range code.Meta {
			c["code "+h] = canonMeta(m, !o.NoOrdinal) + canonRecs(code.Recs[h])
		}
		c["code order"] = strings.Join(code.Order, "\n")
	case "flat":
		code := newRun("", nil, nil)
		if err := codeFlatOn(ctx, obj(), code); err != nil {
			return nil, err
		}
		for h, rs := range code.Recs {
			c["flat "+h] = canonRecs(rs)
		}
	case "history":
		hist, err := process.New(process.Opts{Logger: o.log(), RepoDir: o.Dir, CheckpointsDir: cp, AllBranches: !o.Head, CommitFromIncl: o.From, CommitFromMakeNonIncl: o.Excl, NoStrictResume: o.NoStrict}).RunGetAll()
		if err != nil {
			return nil, err
		}
		order := ""
		for _, r := range hist {
			order += r.Commit + "\n"
			s := ""
			var ps []string
			for p := range r.Files {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				f := r.Files[p]
				s += fmt.Sprintf("%q %v %v\n", p, f.IsBinary, f.Commit)
				for _, l := range f.Lines {
					s += fmt.Sprintf("%v %q\n", l.Commit, l.Line)
				}
			}
			c["history "+r.Commit] = s
		}
		c["history order"] = order
	case "meta":
		ms, err := commitmeta.New(o.Dir, commitmeta.Opts{AllBranches: !o.Head}).RunSlice()
		if err != nil {
			return nil, err
		}
		for i := range ms {
			c["meta "+ms[i].SHA] = canonMeta(&ms[i], true)
		}
	case "graph":
		g := parentsgraph.New(parentsgraph.Opts{RepoDir: o.Dir, AllBranches: !o.Head, Logger: o.log()})
		if err := g.Read(); err != nil {
			return nil, err
		}
		for h, ps := range g.Parents {
			c["parents "+h] = strings.Join(ps, " ")
		}
		for h, ps := range g.Children {
			c["children "+h] = strings.Join(ps, " ")
		}
	case "branches":
		bs, err := obj().BranchesSlice(ctx)
		if err != nil {
			return nil, err
		}
		for i := range bs {
			k, s := canonBranch(&bs[i])
			c[k] += s + "\n"
		}
	case "blame":
		for i := 0; i+1 < len(o.Blame); i += 2 {
			res, err := gitblame2.Run(o.Dir, o.Blame[i], o.Blame[i+1])
			if err != nil {
				return nil, err
			}
			c[fmt.Sprintf("blame %v %q", o.Blame[i], o.Blame[i+1])] = fmt.Sprintf("%q", res.Lines)
		}
	default:
		fw.Infraf("kind %v", kind)
	}
	return c, nil
}

func (o Runs) canon() (Canon, error) {
	c := Canon{}
	for _, k := range []string{"code", "history", "meta", "branches", "blame"} {
		cp := ""
		if o.Cp != "" {
			cp = filepath.Join(o.Cp, k)
		}
		d, err := o.one(k, cp)
		if err != nil {
			return nil, fmt.Errorf("%v: %v", k, err)
		}
		for x, y := range d {
			c[x] = y
		}
	}
	return c, nil
}

func (c Canon) diff(d Canon) string {
	var ks []string
	for k := range c {
		ks = append(ks, k)
	}
	for k := range d {
		if _, ok := c[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok := c[k]
		y, ok2 := d[k]
		switch {
		case !ok:
			return fmt.Sprintf("%v is only in the second result", k)
		case !ok2:
			return fmt.Sprintf("%v is only in the first result", k)
		case x != y:
			return fmt.Sprintf("%v differs: %v", k, firstDiff(x, y))
		}
	}
	return ""
}

// genStable makes a repository with branches, odd names and merges.
func genStable(t *rapid.T) (*gm.Repo, []int, bool) {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 2))
	o.MinCommits = 2
	o.MaxCommits = 12
	o.LongLines = false
	o.Shallow = false
	if r.P(1, 3) {
		o.Paths = append(gm.DrawPaths(r, gm.HostilePaths, 4), "plain.go", "x.py")
	}
	rp := gm.History(t, o)
	addIdents(r, rp, true)
	n := len(rp.Commits)
	if r.P(1, 4) {
		rp.Commits[n-1].Signed = true
	}
	for k := r.Int(0, 3); k > 0; k-- {
		name := fmt.Sprintf("%v%d", gm.Pick(r, []string{"refs/heads/x", "refs/heads/y/", "refs/tags/t", "refs/remotes/origin/z", "refs/pull/z"}), k)
		rp.Refs = append(rp.Refs, gm.Ref{Name: name, Commit: r.Int(0, n-1), Tag: strings.HasPrefix(name, "refs/tags") && r.P(1, 2)})
	}
	var prs []int
	in := rp.Wanted(true)
	for k := r.Int(0, 2); k > 0; k-- {
		if i := r.Int(0, n-1); in[i] {
			prs = append(prs, i)
		}
	}
	return rp, prs, r.P(1, 4)
}

func stableRuns(b *gm.Built, prs []int, origin bool) Runs {
	o := Runs{Origin: origin}
	for _, i := range prs {
		o.PRs = append(o.PRs, b.Hash[i])
	}
	n := 0
	at := b.Repo.HeadAt
	if at < 0 {
		return o
	}
	for _, p := range b.Trees[at].Paths() {
		if en := b.Trees[at][p]; regular(en.Mode) && n < 2 && !strings.HasPrefix(p, ":") {
			o.Blame = append(o.Blame, b.Hash[at], p)
			n++
		}
	}
	return o
}

// ---- C22

type ConfigCase struct {
	Repo   *gm.Repo    `json:"repo"`
	Bare   bool        `json:"bare,omitempty"`
	PRs    []int       `json:"prs,omitempty"`
	Origin bool        `json:"origin,omitempty"`
	User   [][2]string `json:"user,omitempty"`
	Local  [][2]string `json:"local,omitempty"`
	Env    [][2]string `json:"env,omitempty"`
	// Mailmap is a .mailmap file of the user.
	Mailmap bool `json:"mailmap,omitempty"`
	// Layer is where the configuration of the user is.
	Layer string `json:"layer,omitempty"`
	// Attrs are attributes that by themselves have no effect on diffs.
	Attrs []string `json:"attrs,omitempty"`
}

// quietAttrs name drivers and working tree conversions, neither make a file
// binary or not.
var quietAttrs = []string{"* diff=drv", "* diff=drv", "*.go diff=golang", "*.py diff=python", "*.txt diff=drv", "* text eol=crlf", "* -text", "* ident", "* filter=lfs", "* working-tree-encoding=UTF-16", "* whitespace=-blank-at-eol", "* merge=union", "* export-subst", "* encoding=latin1", "* linguist-generated", "[attr]mine diff=drv\n* mine"}

// driverConfigs set up what the attributes name.
var driverConfigs = [][2]string{
	{"diff.drv.command", "echo"}, {"diff.drv.command", "false"}, {"diff.drv.textconv", "cat -n"}, {"diff.drv.textconv", "false"}, {"diff.drv.cachetextconv", "true"}, {"diff.drv.xfuncname", "."}, {"diff.drv.wordRegex", "."},
	{"diff.drv.algorithm", "patience"}, {"diff.drv.algorithm", "histogram"}, {"diff.drv.algorithm", "minimal"}, {"diff.golang.algorithm", "patience"}, {"diff.python.algorithm", "histogram"}, {"diff.golang.textconv", "cat -n"},
	{"filter.lfs.clean", "false"}, {"filter.lfs.smudge", "false"}, {"filter.lfs.required", "true"}, {"filter.lfs.process", "false"}, {"merge.union.driver", "false"},
}

type configKey struct {
	key  string
	vals []string
}

var diffAlgorithms = configKey{"diff.algorithm", []string{"patience", "histogram", "minimal", "myers"}}

var renameLimit = configKey{"diff.renameLimit", []string{"1", "2", "0", "100"}}

var configs = []configKey{
	diffAlgorithms, renameLimit,
	{"diff.noprefix", []string{"true", "true", "false"}},
	{"diff.mnemonicPrefix", []string{"true"}},
	{"diff.srcPrefix", []string{"x/", "a", ""}},
	{"diff.dstPrefix", []string{"y/", "b", ""}},
	{"diff.context", []string{"0", "0", "1", "10", "100000"}},
	{"diff.interHunkContext", []string{"1", "5", "100000"}},
	{"diff.renames", []string{"false", "copies", "copy", "true", "0"}},
	{"diff.indentHeuristic", []string{"false", "true"}},
	{"diff.suppressBlankEmpty", []string{"true"}},
	{"diff.wordRegex", []string{"."}},
	{"diff.colorMoved", []string{"zebra", "default"}},
	{"diff.colorMovedWS", []string{"ignore-all-space"}},
	{"diff.wsErrorHighlight", []string{"all"}},
	{"diff.relative", []string{"true"}},
	{"diff.submodule", []string{"log", "diff"}},
	{"diff.ignoreSubmodules", []string{"all", "dirty"}},
	{"diff.external", []string{"true", "false", "echo", "/bin/cat"}},
	{"diff.orderFile", []string{"@order"}},
	{"diff.statGraphWidth", []string{"10"}},
	{"diff.statNameWidth", []string{"5"}},
	{"diff.dirstat", []string{"files,10"}},
	{"diff.tool", []string{"vimdiff"}},
	{"diff.guitool", []string{"meld"}},
	{"diff.autoRefreshIndex", []string{"false"}},
	{"core.quotePath", []string{"false", "true"}},
	{"core.pager", []string{"false", "cat -n", "less"}},
	{"core.abbrev", []string{"4", "7", "40", "no"}},
	{"core.whitespace", []string{"cr-at-eol", "tab-in-indent"}},
	{"core.autocrlf", []string{"true", "input"}},
	{"core.eol", []string{"crlf"}},
	{"core.bigFileThreshold", []string{"1", "10"}},
	{"core.attributesFile", []string{"@attributes"}},
	{"core.notesRef", []string{"refs/notes/x"}},
	{"core.commitGraph", []string{"false"}},
	{"core.multiPackIndex", []string{"false"}},
	{"core.warnAmbiguousRefs", []string{"false"}},
	{"core.logAllRefUpdates", []string{"always"}},
	{"core.commentChar", []string{"!"}},
	{"core.precomposeUnicode", []string{"true"}},
	{"core.preloadIndex", []string{"false"}},
	{"core.untrackedCache", []string{"true"}},
	{"core.fsmonitor", []string{"false"}},
	{"core.ignoreCase", []string{"true"}},
	{"core.fileMode", []string{"false", "true"}},
	{"core.symlinks", []string{"false"}},
	{"core.safecrlf", []string{"true"}},
	{"core.useReplaceRefs", []string{"true"}},
	{"core.maxTreeDepth", []string{"1000"}},
	{"pager.log", []string{"true", "cat -n"}},
	{"pager.blame", []string{"true"}},
	{"pager.branch", []string{"true"}},
	{"color.ui", []string{"always", "true"}},
	{"color.diff", []string{"always"}},
	{"color.branch", []string{"always"}},
	{"color.pager", []string{"true"}},
	{"color.diff.old", []string{"blue"}},
	{"color.blame.highlightRecent", []string{"blue"}},
	{"log.decorate", []string{"full", "short", "auto"}},
	{"log.showSignature", []string{"true"}},
	{"log.showRoot", []string{"false"}},
	{"log.diffMerges", []string{"off", "first-parent", "cc", "combined", "remerge", "dense-combined", "on"}},
	{"log.follow", []string{"true"}},
	{"log.mailmap", []string{"true", "false"}},
	{"log.abbrevCommit", []string{"true"}},
	{"log.date", []string{"relative", "format:%Y", "unix"}},
	{"log.excludeDecoration", []string{"refs/*"}},
	{"log.initialDecorationSet", []string{"all"}},
	{"log.graphColors", []string{"blue"}},
	{"format.pretty", []string{"oneline", "fuller", "format:%H x"}},
	{"format.notes", []string{"true"}},
	{"notes.displayRef", []string{"refs/notes/*"}},
	{"i18n.logOutputEncoding", []string{"ISO-8859-1", "UTF-16", "latin1"}},
	{"i18n.commitEncoding", []string{"ISO-8859-1"}},
	{"blame.ignoreRevsFile", []string{"@revs"}},
	{"blame.markIgnoredLines", []string{"true"}},
	{"blame.markUnblamableLines", []string{"true"}},
	{"blame.blankBoundary", []string{"true"}},
	{"blame.showRoot", []string{"true", "false"}},
	{"blame.showEmail", []string{"true"}},
	{"blame.date", []string{"relative"}},
	{"blame.coloring", []string{"highlightRecent"}},
	{"branch.sort", []string{"-committerdate", "objectsize"}},
	{"tag.sort", []string{"-version:refname"}},
	{"versionsort.suffix", []string{"-rc"}},
	{"column.ui", []string{"always"}},
	{"column.branch", []string{"always"}},
	{"merge.renames", []string{"false"}},
	{"merge.conflictStyle", []string{"diff3"}},
	{"status.short", []string{"true"}},
	{"submodule.recurse", []string{"true"}},
	{"mailmap.file", []string{"@mailmap"}},
	{"alias.log", []string{"status"}},
	{"alias.rev-parse", []string{"version"}},
	{"interactive.diffFilter", []string{"cat -n"}},
	{"diff.word.textconv", []string{"echo"}},
	{"diff.default.binary", []string{"true", "false"}},
	{"diff.default.algorithm", []string{"patience", "histogram"}},
	{"diff.default.textconv", []string{"cat -n"}},
	{"diff.default.command", []string{"echo"}},
	{"diff.default.xfuncname", []string{"x"}},
	{"gc.auto", []string{"0", "1"}},
	{"rerere.enabled", []string{"true"}},
	{"init.defaultBranch", []string{"trunk"}},
	{"feature.manyFiles", []string{"true"}},
	{"feature.experimental", []string{"true"}},
	{"index.threads", []string{"1"}},
	{"pack.threads", []string{"1"}},
	{"grep.lineNumber", []string{"true"}},
	{"help.autocorrect", []string{"immediate"}},
	{"advice.detachedHead", []string{"false"}},
	{"user.name", []string{"Someone"}},
	{"commit.gpgSign", []string{"true"}},
	{"gpg.program", []string{"false"}},
}

// envs are settings of the environment that git honours.
var envs = [][2]string{{"PAGER", "cat -n"}, {"GIT_PAGER", "cat -n"}, {"LESS", "-N"}, {"LC_ALL", "C"}, {"LC_ALL", "de_DE.UTF-8"}, {"LANG", "ja_JP.eucJP"}, {"TZ", "Asia/Kathmandu"}, {"TERM", "xterm-256color"}, {"COLUMNS", "20"}, {"GIT_EDITOR", "false"}, {"GIT_EXTERNAL_DIFF", "true"}, {"GIT_OPTIONAL_LOCKS", "0"}, {"EMAIL", "x@y"}, {"GIT_AUTHOR_NAME", "x"}, {"GIT_PAGER_IN_USE", "true"}}

// addShuffled gives commits a file whose versions are reordered blocks with
// many equal lines, for which the algorithms find different differences.
func addShuffled(r gm.R, rp *gm.Repo) {
	var ls []string
	for k := r.Int(8, 40); k > 0; k-- {
		ls = append(ls, gm.Pick(r, []string{"{", "}", "", "a()", "b()", "c()", fmt.Sprintf("u%d", k), fmt.Sprintf("	v%d", k)}))
	}
	for i := range rp.Commits {
		c := &rp.Commits[i]
		if len(c.Parents) > 1 || !r.P(2, 3) {
			continue
		}
		for k := r.Int(1, 3); k > 0; k-- {
			a, b := r.Int(0, len(ls)-1), r.Int(0, len(ls)-1)
			if a > b {
				a, b = b, a
			}
			ls = append(append(append([]string(nil), ls[b:]...), ls[a:b]...), ls[:a]...)
		}
		c.Changes = append(c.Changes, gm.Change{Path: "shuffled.py", Data: gm.B(strings.Join(ls, "\n") + "\n")})
	}
}

// addMoves gives one commit several files, and moves and changes them in
// later ones.
func addMoves(r gm.R, rp *gm.Repo) {
	n := r.Int(2, 6)
	v := 0
	for i := r.Int(0, len(rp.Commits)-1); i < len(rp.Commits); i += r.Int(1, 3) {
		c := &rp.Commits[i]
		for k := 0; k < n; k++ {
			s := ""
			for j := 0; j < 10; j++ {
				s += fmt.Sprintf("file %d line %d\n", k, j)
			}
			for j := 0; j < v; j++ {
				s += fmt.Sprintf("added %d\n", j)
			}
			if v > 0 {
				c.Changes = append(c.Changes, gm.Change{Path: gm.B(fmt.Sprintf("mv%d-%d", v-1, k)), Del: true})
			}
			c.Changes = append(c.Changes, gm.Change{Path: gm.B(fmt.Sprintf("mv%d-%d", v, k)), Data: gm.B(s)})
		}
		v++
	}
}

func genConfig(t *rapid.T) *ConfigCase {
	r := gm.R{T: t}
	c := &ConfigCase{Bare: r.P(1, 2), Mailmap: r.P(1, 5)}
	if r.P(1, 2) {
		c.Layer = gm.Pick(r, []string{"xdg", "include", "includeif", "worktree", "env", "parameters"})
	}
	c.Repo, c.PRs, c.Origin = genStable(t)
	if r.P(1, 2) {
		addShuffled(r, c.Repo)
	}
	if r.P(1, 4) {
		addMoves(r, c.Repo)
	}
	for k := r.Int(1, 8); k > 0; k-- {
		x := gm.Pick(r, configs)
		if r.P(1, 10) {
			x = diffAlgorithms
		} else if r.P(1, 16) {
			x = renameLimit
		}
		kv := [2]string{x.key, gm.Pick(r, x.vals)}
		if r.P(1, 2) {
			c.User = append(c.User, kv)
		} else {
			c.Local = append(c.Local, kv)
		}
	}
	if r.P(1, 3) {
		c.Env = append(c.Env, gm.Pick(r, envs))
	}
	if r.P(1, 3) {
		for k := r.Int(1, 2); k > 0; k-- {
			c.Attrs = append(c.Attrs, gm.Pick(r, quietAttrs))
		}
		if r.P(1, 2) {
			c.Attrs = append(c.Attrs, "* diff=drv")
			c.User = append(c.User, [2]string{"diff.drv.algorithm", gm.Pick(r, []string{"patience", "histogram"})})
		}
		for k := r.Int(0, 3); k > 0; k-- {
			c.User = append(c.User, gm.Pick(r, driverConfigs))
		}
	}
	return c
}

func runConfig(e *fw.Env, c *ConfigCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	o := stableRuns(b, c.PRs, c.Origin)
	o.Dir = b.Dir
	o.Cp = e.Sub("cp1")
	base, err := o.canon()
	if err != nil {
		v.Failf("without configuration: %v", err)
		return v
	}
	home := os.Getenv("HOME")
	files := e.Sub("files")
	var cleanup []func()
	defer func() {
		for _, f := range cleanup {
			f()
		}
	}()
	val := func(s string) string {
		if !strings.HasPrefix(s, "@") {
			return s
		}
		p := filepath.Join(files, s[1:])
		text := ""
		switch s {
		case "@order":
			text = "*.py\n*\n"
		case "@attributes":
			text = "* binary\n*.go -diff\n*.py diff=word\n"
		case "@revs":
			text = strings.Join(b.Hash, "\n") + "\n"
		case "@mailmap":
			text = "Mapped Name <mapped@x> <a@example.com>\n"
		}
		if err := ioutil.WriteFile(p, []byte(text), 0666); err != nil {
			fw.Infraf("%v", err)
		}
		return p
	}
	setenv := func(k, x string) {
		old, had := os.LookupEnv(k)
		os.Setenv(k, x)
		cleanup = append(cleanup, func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		})
	}
	userFile := filepath.Join(home, ".gitconfig")
	switch c.Layer {
	case "xdg":
		userFile = filepath.Join(home, ".config", "git", "config")
	case "include":
		userFile = filepath.Join(home, "more.config")
		e.Git(home, "config", "--file", filepath.Join(home, ".gitconfig"), "include.path", "more.config")
	case "includeif":
		userFile = filepath.Join(home, "more.config")
		e.Git(home, "config", "--file", filepath.Join(home, ".gitconfig"), "includeIf.gitdir:**.path", "more.config")
	case "worktree":
		userFile = filepath.Join(b.GitDir, "config.worktree")
		e.Git(b.GitDir, "config", "--file", filepath.Join(b.GitDir, "config"), "extensions.worktreeConfig", "true")
	case "env":
		userFile = ""
		setenv("GIT_CONFIG_COUNT", fmt.Sprint(len(c.User)))
		for k, kv := range c.User {
			setenv(fmt.Sprintf("GIT_CONFIG_KEY_%d", k), kv[0])
			setenv(fmt.Sprintf("GIT_CONFIG_VALUE_%d", k), val(kv[1]))
		}
	case "parameters":
		userFile = ""
		s := ""
		for _, kv := range c.User {
			s += fmt.Sprintf(" '%s'='%s'", kv[0], strings.Replace(val(kv[1]), "'", "'\\''", -1))
		}
		setenv("GIT_CONFIG_PARAMETERS", strings.TrimSpace(s))
	}
	for _, kv := range c.User {
		if userFile != "" {
			if err := os.MkdirAll(filepath.Dir(userFile), 0777); err != nil {
				fw.Infraf("%v", err)
			}
			e.Git(home, "config", "--file", userFile, kv[0], val(kv[1]))
		}
	}
	for _, kv := range c.Local {
		e.Git(b.GitDir, "config", "--file", filepath.Join(b.GitDir, "config"), kv[0], val(kv[1]))
	}
	if len(c.Attrs) > 0 {
		if err := os.MkdirAll(filepath.Join(b.GitDir, "info"), 0777); err != nil {
			fw.Infraf("%v", err)
		}
		if err := ioutil.WriteFile(filepath.Join(b.GitDir, "info", "attributes"), []byte(strings.Join(c.Attrs, "\n")+"\n"), 0666); err != nil {
			fw.Infraf("%v", err)
		}
		v.Class("attributes")
	}
	if c.Mailmap && !c.Bare {
		ioutil.WriteFile(filepath.Join(b.Dir, ".mailmap"), []byte("Mapped Name <mapped@x> <a@example.com>\n"), 0666)
	}
	for _, kv := range c.Env {
		setenv(kv[0], kv[1])
	}
	o.Cp = e.Sub("cp2")
	got, err := o.canon()
	if err != nil {
		v.Failf("with user (%v) %v local %v environment %v attributes %q: %v", c.Layer, c.User, c.Local, c.Env, c.Attrs, err)
		return v
	}
	if d := base.diff(got); d != "" {
		v.Failf("with user (%v) %v local %v environment %v attributes %q: %v", c.Layer, c.User, c.Local, c.Env, c.Attrs, d)
		return v
	}
	for _, l := range [][][2]string{c.User, c.Local} {
		for _, kv := range l {
			v.Class("key-" + kv[0])
		}
	}
	v.Class("layer-" + c.Layer)
	v.Nontrivial = len(c.Repo.Commits) >= 3
	return v
}

// ---- C17

var c17 *fw.Prop

type StorageCase struct {
	Repo   *gm.Repo `json:"repo"`
	Bare   bool     `json:"bare,omitempty"`
	PRs    []int    `json:"prs,omitempty"`
	Origin bool     `json:"origin,omitempty"`
	// Ops are changes of how the repository is stored, the runs are
	// repeated after each group.
	Ops   []string `json:"ops"`
	Procs int      `json:"procs,omitempty"`
}

var storageOps = []string{"repack", "repack-loose", "gc", "pack-refs", "loose-refs", "commit-graph", "midx", "nothing", "copy", "copy-space", "copy-odd", "symlink", "relative", "slash", "other-bare", "clone-mirror", "alternates", "untracked", "dirty", "no-index", "index", "reflog", "fetch-head", "merge-head", "index-lock", "inside", "cp-odd", "bitmap", "unreachable", "order", "worktree", "readonly", "ref-log-file", "hooks", "subdir-worktree", "parallel", "linked-worktree", "gitfile", "git-dir", "dot", "cwd-other", "sparse", "locks"}

func genStorage(t *rapid.T) *StorageCase {
	r := gm.R{T: t}
	c := &StorageCase{Bare: r.P(1, 2)}
	c.Repo, c.PRs, c.Origin = genStable(t)
	for k := r.Int(1, 4); k > 0; k-- {
		c.Ops = append(c.Ops, gm.Pick(r, storageOps))
	}
	if r.P(1, 3) {
		c.Procs = r.Int(1, 8)
	}
	return c
}

func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		switch {
		case st.IsDir():
			return os.MkdirAll(q, 0777)
		case st.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, q)
		}
		d, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		return ioutil.WriteFile(q, d, 0666)
	})
	if err != nil {
		fw.Infraf("%v", err)
	}
}

func runStorage(e *fw.Env, c *StorageCase) *fw.Verdict {
	v := &fw.Verdict{}
	if c.Procs > 0 {
		old := runtime.GOMAXPROCS(c.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	o := stableRuns(b, c.PRs, c.Origin)
	o.Dir = b.Dir
	o.Cp = e.Sub("cp")
	base, err := o.canon()
	if err != nil {
		v.Failf("first run: %v", err)
		return v
	}
	dir, gitDir, bare := b.Dir, b.GitDir, c.Bare
	git := func(args ...string) { e.Git(gitDir, append([]string{"--git-dir=."}, args...)...) }
	place := func(d string) {
		dir, gitDir = d, d
		if !bare {
			gitDir = filepath.Join(d, ".git")
		}
	}
	put := func(p, s string) {
		os.MkdirAll(filepath.Dir(p), 0777)
		if err := ioutil.WriteFile(p, []byte(s), 0666); err != nil {
			fw.Infraf("%v", err)
		}
	}
	head := ""
	if c.Repo.HeadAt >= 0 {
		head = b.Hash[c.Repo.HeadAt]
	}
	for k, op := range c.Ops {
		if bare && (op == "untracked" || op == "dirty" || op == "no-index" || op == "index" || op == "merge-head") {
			continue
		}
		o.Dir = dir
		o.Cp = filepath.Join(e.Dir, fmt.Sprintf("cp%d", k))
		parallel := false
		var cwd string
		after := func() {}
		switch op {
		case "nothing":
		case "repack":
			git("repack", "-adq")
		case "repack-loose":
			// unpack everything
			packs, _ := filepath.Glob(filepath.Join(gitDir, "objects/pack/*.pack"))
			for i, p := range packs {
				q := filepath.Join(e.Dir, fmt.Sprintf("unpack%d-%d", k, i))
				os.Rename(p, q)
				os.Remove(strings.TrimSuffix(p, ".pack") + ".idx")
				d, err := ioutil.ReadFile(q)
				if err != nil {
					fw.Infraf("%v", err)
				}
				e.GitIn(gitDir, d, "--git-dir=.", "unpack-objects", "-q")
			}
			os.Remove(filepath.Join(gitDir, "objects/pack/multi-pack-index"))
		case "gc":
			git("-c", "gc.autoDetach=false", "gc", "-q", "--prune=now")
		case "pack-refs":
			git("pack-refs", "--all", "--prune")
		case "loose-refs":
			b.GitDir = gitDir
			b.WriteRefs(e)
		case "commit-graph":
			git("commit-graph", "write", "--reachable", "--changed-paths")
		case "midx":
			git("repack", "-adq")
			git("multi-pack-index", "write")
		case "bitmap":
			git("repack", "-adbq")
		case "unreachable":
			e.GitIn(gitDir, []byte("unreachable\n"), "--git-dir=.", "hash-object", "-w", "--stdin")
		case "copy", "copy-space", "copy-odd", "order":
			name := map[string]string{"copy": "c", "copy-space": " a b'\"c ", "copy-odd": "-x\u00e9:%s{}*", "order": "o"}[op]
			to := filepath.Join(e.Dir, fmt.Sprintf("at%d", k), name)
			copyTree(dir, to)
			place(to)
		case "symlink":
			to := filepath.Join(e.Dir, fmt.Sprintf("link%d", k))
			if err := os.Symlink(dir, to); err != nil {
				fw.Infraf("%v", err)
			}
			o.Dir = to
		case "relative":
			cwd = filepath.Dir(dir)
			o.Dir = "./" + filepath.Base(dir)
		case "slash":
			o.Dir = dir + "/./"
		case "other-bare":
			bare = !bare
			to := filepath.Join(e.Dir, fmt.Sprintf("bare%d", k))
			nb := *b
			nb.Dir = to
			nb.GitDir = gm.Skeleton(to, bare, c.Repo.Head)
			copyTree(filepath.Join(gitDir, "objects"), filepath.Join(nb.GitDir, "objects"))
			nb.WriteRefs(e)
			place(to)
		case "clone-mirror", "alternates":
			if c.Repo.Head == "" {
				break
			}
			to := filepath.Join(e.Dir, fmt.Sprintf("mirror%d.git", k))
			if op == "alternates" {
				e.Git(e.Dir, "clone", "-q", "--mirror", "--shared", dir, to)
			} else {
				e.Git(e.Dir, "clone", "-q", "--mirror", "--no-local", dir, to)
			}
			e.Git(to, "--git-dir=.", "symbolic-ref", "HEAD", "refs/heads/"+c.Repo.Head)
			// not part of what was cloned
			for _, f := range c.Repo.Refs {
				if f.Sym != "" {
					e.Git(to, "--git-dir=.", "symbolic-ref", f.Name, f.Sym)
				}
			}
			bare = true
			place(to)
		case "untracked":
			put(filepath.Join(dir, "untracked.go"), "package x\n")
			put(filepath.Join(dir, ".gitignore"), "*\n")
		case "dirty":
			if head != "" {
				e.GitErr(dir, nil, "reset", "-q", "--hard")
				for p, en := range b.Trees[c.Repo.HeadAt] {
					if regular(en.Mode) && !strings.Contains(p, ".git") {
						ioutil.WriteFile(filepath.Join(dir, p), []byte("changed\n"), 0666)
						break
					}
				}
			}
		case "no-index":
			os.Remove(filepath.Join(gitDir, "index"))
		case "index":
			put(filepath.Join(dir, "staged.go"), "package x\n")
			e.GitErr(dir, nil, "add", "staged.go")
		case "reflog":
			put(filepath.Join(gitDir, "logs/HEAD"), strings.Repeat("0", 40)+" "+b.Hash[0]+" a <b> 1 +0000\tx\n")
		case "fetch-head":
			put(filepath.Join(gitDir, "FETCH_HEAD"), b.Hash[0]+"\t\tbranch 'x' of y\n")
			put(filepath.Join(gitDir, "ORIG_HEAD"), b.Hash[0]+"\n")
		case "merge-head":
			put(filepath.Join(gitDir, "MERGE_HEAD"), b.Hash[0]+"\n")
		case "index-lock":
			put(filepath.Join(gitDir, "index.lock"), "")
		case "inside":
			o.Cp = ""
		case "cp-odd":
			o.Cp = filepath.Join(e.Dir, fmt.Sprintf("cp %d", k), "not", "there yet '\"")
		case "worktree":
			if head != "" {
				to := filepath.Join(e.Dir, fmt.Sprintf("wt%d", k))
				e.Git(gitDir, "--git-dir=.", "worktree", "add", "-q", "--detach", "--no-checkout", to, head)
			}
		case "readonly":
			// as root this has no effect on git; the files stay as they are
		case "ref-log-file":
			put(filepath.Join(gitDir, "refs", "heads", ".ignored"), "x\n")
			os.Remove(filepath.Join(gitDir, "refs", "heads", ".ignored"))
		case "hooks":
			put(filepath.Join(gitDir, "hooks/post-checkout"), "#!/bin/sh\nexit 1\n")
			os.Chmod(filepath.Join(gitDir, "hooks/post-checkout"), 0777)
		case "subdir-worktree":
			put(filepath.Join(gitDir, "description"), "x\n")
		case "parallel":
			parallel = true
		case "linked-worktree":
			if c.Repo.Head != "" && head != "" {
				to := filepath.Join(e.Dir, fmt.Sprintf("linked%d", k))
				e.Git(gitDir, "--git-dir=.", "worktree", "add", "-f", "-q", "--no-checkout", to, c.Repo.Head)
				after = func() {
					os.RemoveAll(to)
					git("worktree", "prune")
				}
				o.Dir = to
			}
		case "gitfile":
			if bare {
				break
			}
			to := filepath.Join(e.Dir, fmt.Sprintf("moved%d", k))
			at := filepath.Join(dir, ".git")
			if err := os.Rename(at, to); err != nil {
				fw.Infraf("%v", err)
			}
			put(at, "gitdir: "+to+"\n")
			after = func() {
				os.Remove(at)
				os.Rename(to, at)
			}
		case "git-dir":
			o.Dir = gitDir
		case "dot":
			cwd = dir
			o.Dir = "."
		case "cwd-other":
			// the current directory is in another repository
			to := filepath.Join(e.Dir, fmt.Sprintf("other%d", k))
			gm.Skeleton(to, false, "main")
			e.Git(to, "-c", "user.name=x", "-c", "user.email=x", "commit", "-q", "--allow-empty", "-m", "x")
			cwd = to
		case "sparse":
			put(filepath.Join(gitDir, "info/sparse-checkout"), "/a.txt\n")
			git("config", "core.sparseCheckout", "true")
		case "locks":
			var ls []string
			for _, f := range []string{"HEAD.lock", "packed-refs.lock", "config.lock", "shallow.lock", "refs/heads/main.lock"} {
				p := filepath.Join(gitDir, f)
				put(p, "")
				ls = append(ls, p)
			}
			after = func() {
				for _, p := range ls {
					os.Remove(p)
				}
			}
		}
		v.Class(op)
		if cwd != "" {
			old, err := os.Getwd()
			if err != nil {
				fw.Infraf("%v", err)
			}
			if err := os.Chdir(cwd); err != nil {
				fw.Infraf("%v", err)
			}
			undo := after
			after = func() {
				undo()
				if err := os.Chdir(old); err != nil {
					fw.Infraf("%v", err)
				}
			}
		}
		what := fmt.Sprintf("after %v", c.Ops[:k+1])
		n := 1
		if parallel {
			n = 3
		}
		type outp struct {
			c   Canon
			err error
		}
		ch := make(chan outp, n)
		for j := 0; j < n; j++ {
			o := o
			if j > 0 {
				o.Cp = fmt.Sprintf("%v-%d", o.Cp, j)
			}
			go func() {
				c, err := o.canon()
				ch <- outp{c, err}
			}()
		}
		var outs []outp
		for j := 0; j < n; j++ {
			outs = append(outs, <-ch)
		}
		after()
		for _, x := range outs {
			if x.err != nil {
				v.Failf("%v: %v", what, x.err)
				return v
			}
			if d := base.diff(x.c); d != "" {
				v.Failf("%v: %v", what, d)
				return v
			}
		}
	}
	v.Nontrivial = len(c.Repo.Commits) >= 3 && len(v.Classes) > 0
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C22", Rule: "a repository of at least three commits"})
	fw.AddSub(p, "config", 1800, 25000, genConfig, runConfig)
	c17 = fw.Register(&fw.Prop{ID: "C17", Rule: "a repository of at least three commits and at least one change of its storage, or at least two files"})
	fw.AddSub(c17, "storage", 1200, 15000, genStorage, runStorage)
}
