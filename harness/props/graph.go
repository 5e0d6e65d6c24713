package props

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// BrCase is a repository whose branches are listed.
type BrCase struct {
	Repo   *gm.Repo `json:"repo"`
	PRs    []gm.B   `json:"prs,omitempty"` // "cN" is commit N
	Origin bool     `json:"origin,omitempty"`
	Conc   int      `json:"conc,omitempty"`
	Packed bool     `json:"packed,omitempty"`
	Bare   bool     `json:"bare,omitempty"`
	PROnly bool     `json:"pronly,omitempty"`
}

// dag draws a commit graph without files.
func dag(r gm.R, min, max int) *gm.Repo {
	rp := &gm.Repo{}
	n := r.Int(min, max)
	merges := r.Int(0, 12)
	window := r.Int(2, 8)
	for i := 0; i < n; i++ {
		c := gm.Commit{}
		pick := func() int {
			if r.P(1, 5) {
				return i - 1 - r.Int(0, i-1)
			}
			w := window
			if w > i {
				w = i
			}
			return i - 1 - r.Int(0, w-1)
		}
		switch {
		case i == 0 || r.P(1, 16):
		case i >= 2 && r.Int(0, 19) < merges:
			k := 2
			if r.P(1, 6) {
				k = 3
				if r.P(1, 3) {
					k = r.Int(4, 9)
				}
			}
			seen := map[int]bool{}
			for try := 0; try < 4*k && len(c.Parents) < k; try++ {
				p := pick()
				if !seen[p] {
					seen[p] = true
					c.Parents = append(c.Parents, p)
				}
			}
		default:
			c.Parents = []int{pick()}
		}
		if r.P(1, 6) {
			c.When = 1500000000 + int64(r.Int(0, 50))*60
		}
		rp.Commits = append(rp.Commits, c)
	}
	if r.P(1, 25) {
		crowd(r, rp)
	}
	return rp
}

// crowd gives one commit many children and merges many of them at once.
func crowd(r gm.R, rp *gm.Repo) {
	n := len(rp.Commits)
	at := n - 1 - r.Int(0, n-1)
	k := r.Int(12, 40)
	var kids []int
	for i := 0; i < k; i++ {
		rp.Commits = append(rp.Commits, gm.Commit{Parents: []int{at}})
		kids = append(kids, n+i)
	}
	if r.P(2, 3) {
		c := gm.Commit{}
		if r.P(1, 2) {
			c.Parents = append(c.Parents, at)
		}
		for _, x := range r.Perm(k)[:r.Int(10, k)] {
			c.Parents = append(c.Parents, kids[x])
		}
		rp.Commits = append(rp.Commits, c)
	}
}

// reach is plain reachability; avoid (if >= 0) is reached but not passed.
func reach(rp *gm.Repo, from, avoid int) map[int]bool {
	res := map[int]bool{}
	st := []int{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if res[x] {
			continue
		}
		res[x] = true
		if x == avoid {
			continue
		}
		st = append(st, rp.Commits[x].Parents...)
	}
	return res
}

// brModel is what has to be reported of head h with default d.
type brModel struct {
	commits map[int]bool
	points  []int
	merged  bool
	merge   map[int]bool
	behind  int // -1: unspecified
}

func modelBranch(rp *gm.Repo, d, h int) *brModel {
	m := &brModel{commits: map[int]bool{}, merge: map[int]bool{}}
	rd := reach(rp, d, -1)
	rh := reach(rp, h, -1)
	cut := reach(rp, d, h)
	for x := range rh {
		if !cut[x] || x == h {
			m.commits[x] = true
		}
	}
	cand := map[int]bool{}
	for x := range m.commits {
		for _, p := range rp.Commits[x].Parents {
			if cut[p] {
				cand[p] = true
			}
		}
	}
	for p := range cand {
		ok := true
		rp := reach(rp, p, -1)
		for q := range cand {
			if q != p && rp[q] {
				ok = false
			}
		}
		if ok {
			m.points = append(m.points, p)
		}
	}
	m.merged = rd[h]
	if m.merged {
		for x := range rd {
			for _, p := range rp.Commits[x].Parents {
				if p == h {
					m.merge[x] = true
				}
			}
		}
		return m
	}
	m.behind = -1
	for x := range rd {
		if rh[x] {
			m.behind = 0
		}
	}
	if m.behind == 0 {
		for x := range rd {
			if !rh[x] {
				m.behind++
			}
		}
	}
	return m
}

func hashes(b *gm.Built, idx []int) (res []string) {
	for _, i := range idx {
		res = append(res, b.Hash[i])
	}
	sort.Strings(res)
	return
}

func names(b *gm.Built, hs []string) string {
	var res []string
	for _, h := range hs {
		res = append(res, cname(b, h))
	}
	return strings.Join(res, " ")
}

func (c *BrCase) prs(b *gm.Built) (res []string) {
	for _, p := range c.PRs {
		var i int
		if n, _ := fmt.Sscanf(string(p), "c%d", &i); n == 1 && i < len(b.Hash) {
			res = append(res, b.Hash[i])
			continue
		}
		res = append(res, string(p))
	}
	return
}

// build creates the repository of the case.
func (c *BrCase) build(e *fw.Env) *gm.Built {
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	if c.Packed {
		b.Git(e, "pack-refs", "--all")
	}
	return b
}

// branches lists branches through the public interface or, when a concurrency
// is given, through the process directly.
func (c *BrCase) branches(b *gm.Built) ([]ripsrc.Branch, error) {
	if c.Conc == 0 && !c.PROnly {
		return ripsrc.New(ripsrc.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: true, BranchesUseOrigin: c.Origin, PullRequestSHAs: c.prs(b)}).BranchesSlice(context.Background())
	}
	gr := parentsgraph.New(parentsgraph.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: true})
	if err := gr.Read(); err != nil {
		return nil, err
	}
	return branches2.New(branches2.Opts{Logger: noLog{}, RepoDir: b.Dir, CommitGraph: gr, IncludeDefaultBranch: true, Concurrency: c.Conc, UseOrigin: c.Origin, PullRequestSHAs: c.prs(b), PullRequestsOnly: c.PROnly}).RunSlice(context.Background())
}

func genBrGraph(t *rapid.T) *BrCase {
	r := gm.R{T: t}
	c := &BrCase{Repo: dag(r, 1, 16), Bare: true}
	if r.P(1, 12) {
		gm.CutSome(r, c.Repo)
	}
	n := len(c.Repo.Commits)
	c.Repo.Head = "main"
	c.Repo.HeadAt = n - 1
	if r.P(1, 2) {
		c.Repo.HeadAt = r.Int(0, n-1)
	}
	for i := 0; i < n; i++ {
		switch r.Int(0, 9) {
		case 0, 1:
			c.PRs = append(c.PRs, gm.B(fmt.Sprintf("c%d", i)))
			// keep it in the graph
			c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: fmt.Sprintf("refs/pull/%d/head", i), Commit: i})
		default:
			c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/b%d", i), Commit: i})
		}
	}
	if r.P(1, 2) {
		c.Conc = r.Int(1, 4)
	}
	return c
}

func runBrGraph(e *fw.Env, c *BrCase, judge func(v *fw.Verdict, b *gm.Built, br *ripsrc.Branch, m *brModel)) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.build(e)
	res, err := c.branches(b)
	if err != nil {
		v.Failf("listing branches of a valid repository failed: %v", err)
		return v
	}
	for i := range res {
		br := &res[i]
		h, ok := b.Index[br.HeadSHA]
		if !ok {
			v.Failf("branch %q has unknown head %q", br.Name, br.HeadSHA)
			return v
		}
		if br.IsDefault {
			judge(v, b, br, nil)
			continue
		}
		m := modelBranch(c.Repo, c.Repo.HeadAt, h)
		v.ClassIf(m.merged, "merged")
		v.ClassIf(b.Repo.Shallow(), "shallow")
		v.ClassIf(!m.merged, "unmerged")
		v.ClassIf(br.IsPullRequest, "pull-requests")
		v.ClassIf(len(m.points) > 1, "several-branch-points")
		v.ClassIf(len(m.points) == 0, "no-branch-point")
		v.ClassIf(len(m.commits) > 1, "several-commits")
		v.ClassIf(len(m.merge) > 1, "several-merge-candidates")
		judge(v, b, br, m)
	}
	v.Class("repositories")
	return v
}

func judgeC09(v *fw.Verdict, b *gm.Built, br *ripsrc.Branch, m *brModel) {
	name := fmt.Sprintf("branch %q head %v", br.Name, cname(b, br.HeadSHA))
	want := map[string]bool{}
	if m == nil {
		for x := range reach(b.Repo, b.Repo.HeadAt, -1) {
			want[b.Hash[x]] = true
		}
	} else {
		for x := range m.commits {
			want[b.Hash[x]] = true
		}
	}
	seen := map[string]bool{}
	for _, h := range br.Commits {
		if !want[h] {
			v.Failf("%v: lists %v, which is not one of its commits", name, cname(b, h))
		}
		if seen[h] {
			v.Failf("%v: lists %v twice", name, cname(b, h))
		}
		seen[h] = true
	}
	for h := range want {
		if !seen[h] {
			v.Failf("%v: does not list %v; listed: %v", name, cname(b, h), names(b, br.Commits))
		}
	}
	if v.Fail != "" {
		return
	}
	if br.Commits[len(br.Commits)-1] != br.HeadSHA {
		v.Failf("%v: list of commits does not end with the head: %v", name, names(b, br.Commits))
	}
	if m == nil {
		i, ok := b.Index[br.FirstCommit]
		if !ok || !want[br.FirstCommit] || len(b.Repo.Commits[i].Parents) != 0 {
			v.Failf("%v: first commit %q is not a root commit", name, br.FirstCommit)
		}
		return
	}
	if br.FirstCommit != br.Commits[0] {
		v.Failf("%v: first commit %v is not the first listed: %v", name, cname(b, br.FirstCommit), names(b, br.Commits))
	}
	if w, g := strings.Join(hashes(b, m.points), " "), strings.Join(br.BranchedFromCommits, " "); w != g {
		v.Failf("%v: branch points are %v, want %v", name, names(b, br.BranchedFromCommits), names(b, hashes(b, m.points)))
	}
	if len(m.commits) > 1 || len(m.points) > 1 {
		v.Nontrivial = true
	}
}

func judgeC10(v *fw.Verdict, b *gm.Built, br *ripsrc.Branch, m *brModel) {
	if m == nil {
		return
	}
	name := fmt.Sprintf("branch %q head %v default %v", br.Name, cname(b, br.HeadSHA), cname(b, b.Hash[b.Repo.HeadAt]))
	if br.IsMerged != m.merged {
		v.Failf("%v: merged is %v, want %v", name, br.IsMerged, m.merged)
		return
	}
	if br.MergeCommit == "" {
		if len(m.merge) > 0 {
			v.Failf("%v: no merge commit reported although there is one", name)
		}
	} else if i, ok := b.Index[br.MergeCommit]; !ok || !m.merge[i] {
		v.Failf("%v: merge commit %v is not a child of the head that is on the default branch", name, cname(b, br.MergeCommit))
	}
	if br.AheadDefaultCount != len(br.Commits) || br.AheadDefaultCount != len(m.commits) {
		v.Failf("%v: ahead count is %d, want %d (%d listed)", name, br.AheadDefaultCount, len(m.commits), len(br.Commits))
	}
	if m.behind >= 0 && br.BehindDefaultCount != m.behind {
		v.Failf("%v: behind count is %d, want %d", name, br.BehindDefaultCount, m.behind)
	}
	if m.behind > 1 || (m.merged && len(m.merge) > 0) {
		v.Nontrivial = true
	}
}

// ---- C11

var branchNames = []string{"main", "master", "dev", "feature/x", "feature/y", "feature/deep/z", "heads/main", "heads/dev", "origin/main", "origin/dev", "tags/v1", "v1", "HEAD", "a@@@b", "@@@", "-dash", "x'y", "a.b", "\u00fc\u4e2d", "\xff\xfe", "end\u00a0", "end\u0085", "\u2028", "remotes/origin/main", "refs/heads/main", "refs/heads/dev", "@", "100%", "a,b", "A", "a", "x#y", "dependabot/npm_and_yarn/a-1.2.3", "renovate/b", "gh-pages", "release/1.0", "release/1.0-rc1", "hotfix/c", "pull/1", "pull/1/head", "x/HEAD", "HEAD-x", "main-old", "mainline", "master/x", "{", "(", "\"q\"", "$HOME", "origin", "FETCH_HEAD", "0123456789012345678901234567890123456789"}

func conflict(used map[string]bool, n string) bool {
	for u := range used {
		if u == n || strings.HasPrefix(u, n+"/") || strings.HasPrefix(n, u+"/") {
			return true
		}
	}
	return false
}

func genBrNames(t *rapid.T) *BrCase {
	r := gm.R{T: t}
	c := &BrCase{Repo: dag(r, 1, 7), Origin: r.P(1, 2), Conc: r.Int(0, 5), Packed: r.P(1, 3), Bare: r.P(1, 2), PROnly: r.P(1, 10)}
	n := len(c.Repo.Commits)
	c.Repo.Head = gm.Pick(r, branchNames)
	c.Repo.HeadAt = r.Int(0, n-1)
	used := map[string]bool{"refs/heads/" + c.Repo.Head: true}
	add := func(prefix string, k int) {
		for ; k > 0; k-- {
			x := prefix + gm.Pick(r, branchNames)
			if conflict(used, x) {
				continue
			}
			used[x] = true
			c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: x, Commit: r.Int(0, n-1), Tag: prefix == "refs/tags/" && r.P(1, 2)})
		}
	}
	add("refs/heads/", r.Int(0, 6))
	add("refs/remotes/origin/", r.Int(0, 6))
	add("refs/remotes/", r.Int(0, 1))
	add("refs/remotes/upstream/", r.Int(0, 2))
	add("refs/tags/", r.Int(0, 4))
	add("refs/", r.Int(0, 1))
	add("refs/pull/", r.Int(0, 2))
	if !conflict(used, "refs/remotes/origin/HEAD") && r.P(1, 2) {
		for _, f := range c.Repo.Refs {
			if strings.HasPrefix(f.Name, "refs/remotes/origin/") {
				c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: "refs/remotes/origin/HEAD", Sym: f.Name, Commit: f.Commit})
				break
			}
		}
	}
	if r.P(1, 6) {
		for _, f := range c.Repo.Refs {
			if strings.HasPrefix(f.Name, "refs/heads/") && !conflict(used, "refs/heads/alias") {
				used["refs/heads/alias"] = true
				c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: "refs/heads/alias", Sym: f.Name, Commit: f.Commit})
				break
			}
		}
	}
	for k := r.Int(0, 4); k > 0; k-- {
		switch r.Int(0, 5) {
		case 0:
			c.PRs = append(c.PRs, gm.Pick(r, []gm.B{"1111111111111111111111111111111111111111", "deadbeef", "main", "0000000000000000000000000000000000000000"}))
		default:
			c.PRs = append(c.PRs, gm.B(fmt.Sprintf("c%d", r.Int(0, n-1))))
		}
	}
	if r.P(1, 40) {
		// more than any limit on the number of branches
		p := "refs/heads/many/"
		if c.Origin {
			p = "refs/remotes/origin/many/"
		}
		for k, m := r.Int(100, 1100), r.Int(1, 9); k > 0; k-- {
			c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: p + fmt.Sprint(k), Commit: k * m % n})
		}
	}
	return c
}

func runBrNames(e *fw.Env, c *BrCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.build(e)
	res, err := c.branches(b)
	if err != nil {
		v.Failf("listing branches of a valid repository failed: %v", err)
		return v
	}
	type key struct {
		name, head string
		pr, def    bool
	}
	want := map[key]int{}
	prefix := "refs/heads/"
	if c.Origin {
		prefix = "refs/remotes/origin/"
	}
	all := map[string]string{} // ref of the mode -> commit
	for _, f := range c.Repo.Refs {
		if strings.HasPrefix(f.Name, prefix) && !(c.Origin && f.Name == prefix+"HEAD") {
			all[strings.TrimPrefix(f.Name, prefix)] = b.Hash[f.Commit]
		}
	}
	meta := map[string]string{}
	for k, h := range all {
		meta[k] = h
	}
	if !c.Origin {
		meta[c.Repo.Head] = b.Hash[c.Repo.HeadAt]
	}
	if !c.PROnly {
		for k, h := range all {
			if k != c.Repo.Head {
				want[key{k, h, false, false}]++
			}
		}
		want[key{c.Repo.Head, b.Hash[c.Repo.HeadAt], false, true}]++
	}
	inGraph := c.Repo.Wanted(true)
	for _, p := range c.prs(b) {
		if i, ok := b.Index[p]; ok && inGraph[i] {
			want[key{"", p, true, false}] = 1
		}
	}
	got := map[key]int{}
	for i, br := range res {
		k := key{br.Name, br.HeadSHA, br.IsPullRequest, br.IsDefault}
		got[k]++
		if br.IsDefault != (i == 0 && !c.PROnly) {
			v.Failf("result %d of %d: %q is default: %v", i, len(res), br.Name, br.IsDefault)
		}
		if want[k] == 0 {
			v.Failf("reported but not there: name %q head %v pull request %v default %v", k.name, cname(b, k.head), k.pr, k.def)
		} else if got[k] > 1 {
			v.Failf("reported %d times: name %q head %v pull request %v", got[k], k.name, cname(b, k.head), k.pr)
		}
	}
	for k := range want {
		if got[k] == 0 {
			v.Failf("not reported: name %q head %v pull request %v default %v", k.name, cname(b, k.head), k.pr, k.def)
		}
	}
	def, err := branchmeta.GetDefault(context.Background(), b.Dir)
	if err != nil {
		v.Failf("default branch: %v", err)
	} else if def.Name != c.Repo.Head || def.Commit != b.Hash[c.Repo.HeadAt] {
		v.Failf("default branch is %q at %v, want %q at %v", def.Name, cname(b, def.Commit), c.Repo.Head, cname(b, b.Hash[c.Repo.HeadAt]))
	}
	for _, incl := range []bool{false, true} {
		ms, err := branchmeta.Get(context.Background(), branchmeta.Opts{Logger: noLog{}, RepoDir: b.Dir, UseOrigin: c.Origin, IncludeDefault: incl})
		if err != nil {
			v.Failf("branch names: %v", err)
			return v
		}
		got := map[string]string{}
		for _, x := range ms {
			if _, dup := got[x.Name]; dup {
				v.Failf("branch names: %q listed twice", x.Name)
			}
			got[x.Name] = x.Commit
			w := b.Repo.Commits[b.Index[x.Commit]].When
			if w == 0 {
				w = 1500000000 + int64(b.Index[x.Commit])*60
			}
			if x.CommitCommitterTime.Unix() != w {
				v.Failf("branch names: %q has time %v, want %v", x.Name, x.CommitCommitterTime.Unix(), w)
			}
		}
		n := 0
		for k, h := range meta {
			if k == c.Repo.Head && !incl {
				continue
			}
			n++
			if got[k] != h {
				v.Failf("branch names (origin %v, default included %v): %q is at %v, want %v", c.Origin, incl, k, cname(b, got[k]), cname(b, h))
			}
		}
		if n != len(got) {
			v.Failf("branch names (origin %v, default included %v): %d listed, want %d", c.Origin, incl, len(got), n)
		}
	}
	v.Class("repositories")
	v.ClassN("branches", len(all))
	v.ClassN("pull-requests", len(c.PRs))
	v.ClassIf(c.Origin, "origin-mode")
	v.ClassIf(len(all) >= 100, "over-100-branches")
	v.Nontrivial = len(res) >= 3
	return v
}

// ---- C12

// EvCase is a repository and steps it evolves by.
type EvCase struct {
	Repo  *gm.Repo `json:"repo"`
	Steps []EvStep `json:"steps"`
	Conc  int      `json:"conc,omitempty"`
}

// EvStep is one change to the repository.
type EvStep struct {
	// Op: "commit" (on Branch), "merge-default" (default into Branch),
	// "merge" (Branch into default), "ref" (add or remove an unrelated ref),
	// "branch" (new branch at commit At)
	Op     string `json:"op"`
	Branch int    `json:"b,omitempty"`
	At     int    `json:"at,omitempty"`
}

// alikeNames gives names of branches that differ a little.
func alikeNames(r gm.R, n int) (res []string) {
	s := gm.Pick(r, []string{"b", "feature/login", "fix", "JIRA-12", "r\u00e9sum\u00e9", "a/b/c", "origin/x", "v1.0", "n\u00e4me-1", "refs/heads/x", "bugfix_2"})
	if r.P(1, 4) {
		s += "-" + strings.Repeat(gm.Pick(r, []string{"x", "ab", "1-"}), r.Int(1, 60)) + "z"
	}
	seen := map[string]bool{"main": true}
	add := func(x string) {
		for y := range seen {
			if x == y || strings.HasPrefix(x, y+"/") || strings.HasPrefix(y, x+"/") {
				return
			}
		}
		seen[x] = true
		res = append(res, x)
	}
	add(s)
	for tries := 0; len(res) < n && tries < 40; tries++ {
		x := gm.Pick(r, res)
		switch r.Int(0, 9) {
		case 0:
			x = strings.ToUpper(x)
		case 1:
			x = strings.ToLower(x)
		case 2:
			x = strings.Title(x)
		case 3:
			x += gm.Pick(r, []string{"1", "2", "a", "x", "-", "_", "#", "\u00e9"})
		case 4:
			x = gm.Pick(r, []string{"a/", "b/", "x", "1", "_", "heads/", "origin/", "\u00e9"}) + x
		case 5:
			x = x[strings.LastIndex(x, "/")+1:]
		case 6:
			x = strings.NewReplacer("/", "-").Replace(x)
		case 7:
			x = strings.NewReplacer("-", "_", "_", "-").Replace(x)
		case 8:
			x = strings.NewReplacer("\u00e9", "e\u0301", "\u00e4", "a").Replace(x)
		default:
			if i := r.Int(0, len(x)-1); x[i] != '/' && x[i] < 0x80 {
				x = x[:i] + gm.Pick(r, []string{"k", "0", "K", "="}) + x[i+1:]
			}
		}
		add(x)
	}
	return
}

func genEvolve(t *rapid.T) *EvCase {
	r := gm.R{T: t}
	c := &EvCase{Repo: dag(r, 1, 10), Conc: r.Int(0, 3)}
	n := len(c.Repo.Commits)
	c.Repo.Head = "main"
	c.Repo.HeadAt = r.Int(0, n-1)
	k := r.Int(1, 4)
	var ns []string
	if r.P(1, 2) {
		ns = alikeNames(r, r.Int(2, 6))
		k = len(ns)
	}
	for i := 0; i < k; i++ {
		f := gm.Ref{Name: fmt.Sprintf("refs/heads/b%d", i), Commit: r.Int(0, n-1)}
		if ns != nil {
			f.Name = "refs/heads/" + ns[i]
			if i > 0 && r.P(2, 3) {
				f.Commit = c.Repo.Refs[r.Int(0, i-1)].Commit
			}
		}
		c.Repo.Refs = append(c.Repo.Refs, f)
	}
	for s := r.Int(1, 5); s > 0; s-- {
		c.Steps = append(c.Steps, EvStep{Op: gm.Pick(r, []string{"commit", "commit", "merge", "merge", "merge-default", "ref", "branch", "commit-default"}), Branch: r.Int(0, k-1), At: r.Int(0, n-1)})
	}
	return c
}

func runEvolve(e *fw.Env, c *EvCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := &gm.Repo{Commits: append([]gm.Commit(nil), c.Repo.Commits...), Refs: append([]gm.Ref(nil), c.Repo.Refs...), Head: c.Repo.Head, HeadAt: c.Repo.HeadAt}
	b := rp.Build(e, e.Sub("repo"), true)
	bc := &BrCase{Repo: rp, Conc: c.Conc}
	ids := map[string]string{}   // id -> name and branch point
	known := map[string]string{} // name and branch point -> id
	list := func() map[string]*ripsrc.Branch {
		// every commit as a pull request as well
		bc.PRs = nil
		for i := range rp.Commits {
			bc.PRs = append(bc.PRs, gm.B(fmt.Sprintf("c%d", i)))
		}
		res, err := bc.branches(b)
		if err != nil {
			v.Failf("listing branches of a valid repository failed: %v", err)
			return nil
		}
		m := map[string]*ripsrc.Branch{}
		for i := range res {
			br := &res[i]
			if br.IsPullRequest {
				if br.BranchID != "" {
					v.Failf("pull request %v has branch id %v", cname(b, br.HeadSHA), br.BranchID)
				}
				continue
			}
			k := br.Name + " "
			if len(br.BranchedFromCommits) > 0 {
				k += br.BranchedFromCommits[0]
			}
			if o, ok := ids[br.BranchID]; ok && o != k {
				v.Failf("%q and %q (name, branch point) share the id %v", o, k, br.BranchID)
			}
			if o, ok := known[k]; ok && o != br.BranchID {
				v.Failf("%q (name, branch point) had id %v, now %v", k, o, br.BranchID)
			}
			if br.BranchID == "" {
				v.Failf("branch %q has no id", br.Name)
			}
			ids[br.BranchID] = k
			known[k] = br.BranchID
			m[br.Name] = br
		}
		return m
	}
	before := list()
	for name, x := range before {
		for o, y := range before {
			v.ClassIf(name < o && len(x.BranchedFromCommits) > 0 && len(y.BranchedFromCommits) > 0 && x.BranchedFromCommits[0] == y.BranchedFromCommits[0], "same-branch-point")
		}
	}
	for si, st := range c.Steps {
		if v.Fail != "" {
			return v
		}
		d := rp.HeadAt
		f := &rp.Refs[st.Branch]
		h := f.Commit
		subject := strings.TrimPrefix(f.Name, "refs/heads/")
		rd, rh := reach(rp, d, -1), reach(rp, h, -1)
		stableMerged, mergedNow := true, ""
		next := len(rp.Commits)
		switch st.Op {
		case "commit":
			if rd[h] {
				continue // a merged branch that goes on is another branch
			}
			rp.Commits = append(rp.Commits, gm.Commit{Parents: []int{h}})
			f.Commit = next
		case "merge-default":
			share := false
			for x := range rh {
				if rd[x] {
					share = true
				}
			}
			if rd[h] || rh[d] || !share {
				continue
			}
			rp.Commits = append(rp.Commits, gm.Commit{Parents: []int{h, d}})
			f.Commit = next
		case "commit-default":
			rp.Commits = append(rp.Commits, gm.Commit{Parents: []int{d}})
			rp.HeadAt = next
		case "merge":
			if rd[h] {
				continue
			}
			mergedNow = subject
			stableMerged = false
			rp.Commits = append(rp.Commits, gm.Commit{Parents: []int{d, h}})
			rp.HeadAt = next
		case "ref":
			rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/tags/t%d", si), Commit: st.At % next})
		case "branch":
			rp.Refs = append(rp.Refs, gm.Ref{Name: fmt.Sprintf("refs/heads/n%d", si), Commit: st.At % next})
		}
		b.Grow(e, rp)
		after := list()
		if v.Fail != "" {
			return v
		}
		for name, x := range before {
			y := after[name]
			if y == nil {
				v.Failf("step %d %v: branch %q is gone", si, st.Op, name)
				return v
			}
			if name != mergedNow && !stableMerged {
				// the merge may bring in commits this branch has, or
				// give a way around the head of one already merged
				xh := b.Index[x.HeadSHA]
				if x.IsMerged {
					continue
				}
				shared := false
				xr := reach(rp, xh, -1)
				for q := range rh {
					if !rd[q] && xr[q] {
						shared = true
					}
				}
				if shared {
					continue
				}
			}
			if x.BranchID != y.BranchID {
				v.Failf("step %d %v (branch %q, default at %v): id of %q changed from %v to %v; branch points were %v, are %v", si, st.Op, subject, cname(b, b.Hash[d]), name, short(x.BranchID), short(y.BranchID), names(b, x.BranchedFromCommits), names(b, y.BranchedFromCommits))
				return v
			}
			v.Class("compared")
			if name == mergedNow {
				v.Class("merged")
				if a, z := strings.Join(x.BranchedFromCommits, " "), strings.Join(y.BranchedFromCommits, " "); a != z {
					v.Failf("step %d: branch points of %q changed by merging it: %v, were %v", si, name, names(b, y.BranchedFromCommits), names(b, x.BranchedFromCommits))
				}
				a, z := append([]string(nil), x.Commits...), append([]string(nil), y.Commits...)
				sort.Strings(a)
				sort.Strings(z)
				if strings.Join(a, " ") != strings.Join(z, " ") {
					v.Failf("step %d: commits of %q changed by merging it: %v, were %v", si, name, names(b, z), names(b, a))
				}
				v.Nontrivial = true
			}
			if st.Op == "commit" && name == subject {
				v.Class("grown")
				v.Nontrivial = true
			}
		}
		before = after
	}
	return v
}

// ---- C13

type GraphCase struct {
	Repo *gm.Repo `json:"repo"`
	All  bool     `json:"all,omitempty"`
	Bare bool     `json:"bare,omitempty"`
}

func genGraph(t *rapid.T) *GraphCase {
	r := gm.R{T: t}
	c := &GraphCase{Repo: dag(r, 1, 24), All: r.P(1, 2), Bare: r.P(1, 2)}
	if r.P(1, 12) {
		gm.CutSome(r, c.Repo)
	}
	n := len(c.Repo.Commits)
	c.Repo.HeadAt = n - 1
	if r.P(1, 3) {
		c.Repo.HeadAt = r.Int(0, n-1)
	}
	if r.P(3, 4) {
		c.Repo.Head = "main"
	}
	kinds := []string{"refs/heads/b", "refs/tags/t", "refs/remotes/origin/r", "refs/pull/", "refs/notes/n", "refs/x"}
	for k := r.Int(0, 5); k > 0; k-- {
		p := gm.Pick(r, kinds)
		c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: fmt.Sprintf("%s%d", p, k), Commit: r.Int(0, n-1), Tag: p == "refs/tags/t" && r.P(1, 2)})
	}
	for i := range c.Repo.Commits {
		switch r.Int(0, 7) {
		case 0:
			c.Repo.Commits[i].Msg = gm.Pick(r, []gm.B{"\x00", "@\n", "x@y\n\nbody\n", "\n\n\n", "a\nb"})
		}
	}
	return c
}

func judgeGraph(v *fw.Verdict, b *gm.Built, gr *parentsgraph.Graph, want map[int]bool) {
	n := 0
	childs := map[string][]string{}
	for i := range b.Repo.Commits {
		if !want[i] {
			if _, ok := gr.Parents[b.Hash[i]]; ok {
				v.Failf("graph has %v, which is not reachable", cname(b, b.Hash[i]))
			}
			continue
		}
		n++
		h := b.Hash[i]
		if _, ok := childs[h]; !ok {
			childs[h] = nil
		}
		ps, ok := gr.Parents[h]
		if !ok {
			v.Failf("graph lacks %v", cname(b, h))
			continue
		}
		var w []string
		for _, p := range b.Repo.Commits[i].Parents {
			w = append(w, b.Hash[p])
			childs[b.Hash[p]] = append(childs[b.Hash[p]], h)
		}
		if strings.Join(ps, " ") != strings.Join(w, " ") || len(ps) != len(w) {
			v.Failf("%v: parents are %v, want %v", cname(b, h), names(b, ps), names(b, w))
		}
	}
	if len(gr.Parents) != n {
		v.Failf("graph has %d commits, want %d", len(gr.Parents), n)
	}
	if len(gr.Children) != len(childs) {
		v.Failf("children of %d commits, want %d", len(gr.Children), len(childs))
	}
	for h, w := range childs {
		g, ok := gr.Children[h]
		if !ok {
			v.Failf("no children entry for %v", cname(b, h))
		}
		sort.Strings(w)
		if strings.Join(g, " ") != strings.Join(w, " ") {
			v.Failf("%v: children are %v, want %v", cname(b, h), names(b, g), names(b, w))
		}
	}
}

func runGraph(e *fw.Env, c *GraphCase) *fw.Verdict {
	v := &fw.Verdict{}
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	want := c.Repo.Wanted(c.All)
	gr := parentsgraph.New(parentsgraph.Opts{Logger: noLog{}, RepoDir: b.Dir, AllBranches: c.All})
	if err := gr.Read(); err != nil {
		v.Failf("reading the graph of a valid repository failed: %v", err)
		return v
	}
	judgeGraph(v, b, gr, want)
	m := map[string][]string{}
	merges := 0
	for i := range c.Repo.Commits {
		if want[i] {
			var w []string
			for _, p := range c.Repo.Commits[i].Parents {
				w = append(w, b.Hash[p])
			}
			m[b.Hash[i]] = w
			if len(w) > 1 {
				merges++
			}
		}
	}
	if v.Fail == "" {
		judgeGraph(v, b, parentsgraph.NewFromMap(m), want)
	}
	v.ClassN("commits", len(want))
	v.ClassN("merges", merges)
	v.ClassIf(len(want) < len(c.Repo.Commits), "unreachable-commits")
	v.ClassIf(c.All, "all-branches")
	v.ClassIf(c.Repo.Shallow(), "shallow")
	kids := map[int]int{}
	for i := range c.Repo.Commits {
		if want[i] {
			for _, p := range c.Repo.Commits[i].Parents {
				kids[p]++
			}
			v.ClassIf(len(c.Repo.Commits[i].Parents) > 16, "over-16-parents")
		}
	}
	for _, k := range kids {
		v.ClassIf(k > 12, "over-12-children")
	}
	v.Nontrivial = len(want) >= 3 && merges > 0
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C09", Rule: "a commit graph with a branch that lists at least two commits or has at least two branch points"})
	fw.AddSub(p, "graph", 5000, 60000, genBrGraph, func(e *fw.Env, c *BrCase) *fw.Verdict {
		return runBrGraph(e, c, judgeC09)
	})
	p = fw.Register(&fw.Prop{ID: "C10", Rule: "a commit graph with a branch at least two commits behind, or merged with a merge commit"})
	fw.AddSub(p, "graph", 5000, 60000, genBrGraph, func(e *fw.Env, c *BrCase) *fw.Verdict {
		return runBrGraph(e, c, judgeC10)
	})
	p = fw.Register(&fw.Prop{ID: "C11", Rule: "a set of refs for which at least three branches or pull requests are reported"})
	fw.AddSub(p, "refs", 4000, 50000, genBrNames, runBrNames)
	p = fw.Register(&fw.Prop{ID: "C12", Rule: "an evolution in which a live branch grows or is merged and is then compared"})
	fw.AddSub(p, "evolve", 2500, 30000, genEvolve, runEvolve)
	p = fw.Register(&fw.Prop{ID: "C13", Rule: "a graph of at least three reachable commits with at least one merge"})
	fw.AddSub(p, "graph", 8000, 100000, genGraph, runGraph)
}
