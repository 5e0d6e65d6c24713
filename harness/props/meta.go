package props

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// MetaCase is a repository and a range of commits.
type MetaCase struct {
	Repo *gm.Repo `json:"repo"`
	All  bool     `json:"all,omitempty"`
	Bare bool     `json:"bare,omitempty"`
	From int      `json:"from"` // -1: everything
	Excl bool     `json:"excl,omitempty"`
	// Wanted are the refs a range has in addition to HEAD, when All is set.
	Wanted []Want `json:"wanted,omitempty"`
	// Pad is a number of further commits, in a line, before HEAD.
	Pad int `json:"pad,omitempty"`
	// Big is the number of lines of a further file, Many the number of
	// further files in one commit.
	Big  int `json:"big,omitempty"`
	Many int `json:"many,omitempty"`
}

// padded is the case with the further commits.
func (c *MetaCase) padded() *MetaCase {
	if c.Pad+c.Big+c.Many == 0 {
		return c
	}
	n, rp := *c, *c.Repo
	rp.Commits = append([]gm.Commit(nil), rp.Commits...)
	at, x := rp.HeadAt, len(rp.Commits)
	var chs [][]gm.Change
	if c.Big > 0 {
		var a, b strings.Builder
		for k := 0; k < c.Big; k++ {
			fmt.Fprintf(&a, "%d\n", k)
			if k%5 != 0 {
				fmt.Fprintf(&b, "%d\n", k+k%2*c.Big)
			}
		}
		chs = append(chs, []gm.Change{{Path: "big.txt", Data: gm.B(a.String())}}, []gm.Change{{Path: "big.txt", Data: gm.B(b.String())}})
	}
	if c.Many > 0 {
		var a, b []gm.Change
		for k := 0; k < c.Many; k++ {
			p := fmt.Sprintf("many/d%d/f%d", k%17, k)
			a = append(a, gm.Change{Path: gm.B(p), Data: gm.B(fmt.Sprintf("%d\n", k))})
			switch k % 3 {
			case 0:
				b = append(b, gm.Change{Path: gm.B(p), Del: true}, gm.Change{Path: gm.B(p + ".go"), Data: gm.B(fmt.Sprintf("%d\n", k))})
			case 1:
				b = append(b, gm.Change{Path: gm.B(p), Data: "x\ny\n"})
			}
		}
		chs = append(chs, a, b)
	}
	for k := 0; k < c.Pad+len(chs); k++ {
		cm := gm.Commit{Parents: []int{at}, When: 1600000000 + int64(k)*7}
		cm.Author = &gm.Ident{Name: gm.B(fmt.Sprintf("Dev %d", k%(k/50+2))), Email: gm.B(fmt.Sprintf("d%d@example.com", k)), When: cm.When - int64(k%3000)}
		cm.Msg = gm.B(fmt.Sprintf("change %d\n\nbody\n", k))
		if k >= c.Pad {
			cm.Changes = chs[k-c.Pad]
		} else if k%3 == 0 {
			cm.Changes = []gm.Change{{Path: gm.B(fmt.Sprintf("pad%d", k%7)), Data: gm.B(fmt.Sprintf("%d\n", k))}}
		}
		rp.Commits = append(rp.Commits, cm)
		at = x
		x++
	}
	rp.HeadAt = at
	n.Repo = &rp
	return &n
}

// Want is a ref by its number, or its commit.
type Want struct {
	Ref    int  `json:"ref"`
	Commit bool `json:"commit,omitempty"`
}

func genWants(r gm.R, refs []gm.Ref) (res []Want) {
	if len(refs) == 0 {
		return
	}
	for k := r.Int(0, 3); k > 0; k-- {
		res = append(res, Want{Ref: r.Int(0, len(refs)-1), Commit: r.P(1, 2)})
	}
	return
}

// wantedArgs are the options for ws, and the commits they are.
func wantedArgs(b *gm.Built, refs []gm.Ref, ws []Want) (args []string, at []int) {
	for _, w := range ws {
		if w.Ref >= len(refs) {
			continue
		}
		f := refs[w.Ref]
		at = append(at, f.Commit)
		if w.Commit {
			args = append(args, b.Hash[f.Commit])
		} else {
			args = append(args, f.Name)
		}
	}
	return
}

func (c *MetaCase) opts(b *gm.Built) commitmeta.Opts {
	o := commitmeta.Opts{AllBranches: c.All}
	if c.From >= 0 {
		o.CommitFromIncl = b.Hash[c.From]
		o.CommitFromMakeNonIncl = c.Excl
		o.WantedBranchRefs, _ = wantedArgs(b, c.Repo.Refs, c.Wanted)
	}
	return o
}

// rangeWanted is the set of commits a run from a commit covers.
func rangeWanted(rp *gm.Repo, from int, excl bool, more ...int) map[int]bool {
	res := rp.Reachable(append(more, rp.HeadAt)...)
	var drop map[int]bool
	if excl {
		drop = rp.Reachable(from)
	} else {
		drop = rp.Reachable(rp.Commits[from].Parents[0])
	}
	for x := range drop {
		delete(res, x)
	}
	return res
}

func (c *MetaCase) want() map[int]bool {
	if c.From < 0 {
		return c.Repo.Wanted(c.All)
	}
	var more []int
	if c.All {
		for _, w := range c.Wanted {
			if w.Ref < len(c.Repo.Refs) {
				more = append(more, c.Repo.Refs[w.Ref].Commit)
			}
		}
	}
	return rangeWanted(c.Repo, c.From, c.Excl, more...)
}

// noSkew gives commits increasing dates. git's own A..B may include ancestors
// of A when dates run backwards.
func noSkew(rp *gm.Repo) {
	for i := range rp.Commits {
		rp.Commits[i].When = 0
		if co := rp.Commits[i].Committer; co != nil {
			co.When = 1500000000 + int64(i)*60
		}
	}
}

// drawRange picks a start commit among those HEAD has.
func drawRange(r gm.R, rp *gm.Repo) (from int, excl bool) {
	noSkew(rp)
	excl = r.P(1, 2)
	var cand []int
	in := rp.Reachable(rp.HeadAt)
	for i := range rp.Commits {
		if in[i] && (excl || len(rp.Commits[i].Parents) > 0) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1, false
	}
	return gm.Pick(r, cand), excl
}

var hostileIdent = []string{
	"!SHA: 0123456789012345678901234567890123456789", "!Parents: x", "!Message: m", "!Date: 2020-01-01T00:00:00Z", "!Author: x", "!AName: ", "!",
	"commit 0123", ":100644 100644 0 1 M", "1\t2\tfile", "-\t-\t", "a\rb", "\r", "\t", "\x01\x1f", "\x7f", "\x1b[31m", "\u00e9", "\u4e2d\u6587", "\u2028", "\u0085", "\xff\xfe", "\xc3", "%an %x00 %n", "@", "\"", "\\n", "'", "a, b", "A.", "[x]", "{}", "=", "#", ";", "\u202e",
}

var plainIdent = []string{"Ann", "Bob Builder", "x", "J. R. Hacker", "user name"}

func genField(r gm.R, email bool) gm.B {
	switch r.Int(0, 6) {
	case 0, 1:
		if email {
			return "a.b@example.com"
		}
		return gm.B(gm.Pick(r, plainIdent))
	case 2:
		return ""
	case 3:
		if r.P(1, 6) {
			return gm.B(strings.Repeat("long \u00e9", r.Int(1, 9)*1500))
		}
		return gm.B(gm.Pick(r, hostileIdent))
	default:
		s := ""
		for k := r.Int(1, 3); k > 0; k-- {
			s += gm.Pick(r, []string{"", " ", "x"}) + gm.Pick(r, hostileIdent)
		}
		if r.P(1, 8) {
			s = " " + s
		}
		if r.P(1, 8) {
			s += " "
		}
		return gm.B(s)
	}
}

func genMsg(r gm.R) gm.B {
	piece := func() string {
		if r.P(1, 2) {
			return gm.Pick(r, []string{"fix", "add a thing", "x", "Merge branch 'b'"})
		}
		return gm.Pick(r, hostileIdent)
	}
	switch r.Int(0, 9) {
	case 0:
		return "\x00" // empty message
	case 1:
		return gm.B(gm.Pick(r, []string{"\n", "\n\n", " \n", "\t \n\n", " "}))
	case 2:
		if r.P(1, 3) {
			return gm.B(strings.Repeat("word \u00e9", r.Int(1, 6)*9500) + "\n\nbody\n")
		}
	}
	s := ""
	for k := r.Int(0, 1); k > 0; k-- {
		s += gm.Pick(r, []string{"\n", "  \n", "\t\n", "\r\n"})
	}
	for k := r.Int(1, 3); k > 0; k-- {
		s += piece() + gm.Pick(r, []string{"", " ", "\t", "\r"}) + "\n"
	}
	if r.P(1, 3) {
		s = strings.TrimSuffix(s, "\n")
	} else if r.P(1, 2) {
		s += "\n" + piece() + "\n" + piece()
	}
	return gm.B(s)
}

var zones = []string{"+0000", "+0000", "-0730", "+1400", "+0545", "-1200", "+0100", "+2359", "-2359", "+0001", "-0000"}

func genIdent(r gm.R) *gm.Ident {
	id := &gm.Ident{Name: genField(r, false), Email: genField(r, true), TZ: gm.Pick(r, zones)}
	switch r.Int(0, 5) {
	case 0:
		id.When = 90000
	case 1:
		id.When = 253402200000 // end of year 9999
	case 2:
		id.When = 4294967296 + int64(r.Int(0, 1000))
	default:
		id.When = 1400000000 + int64(r.Int(0, 300000000))
	}
	return id
}

func genMeta(t *rapid.T) *MetaCase {
	r := gm.R{T: t}
	c := &MetaCase{Repo: dag(r, 1, 9), All: r.P(1, 2), Bare: r.P(1, 2), From: -1}
	if r.P(1, 12) {
		gm.CutSome(r, c.Repo)
	}
	n := len(c.Repo.Commits)
	c.Repo.Head = "main"
	c.Repo.HeadAt = n - 1
	if r.P(1, 4) {
		c.Repo.HeadAt = r.Int(0, n-1)
	}
	for k := r.Int(0, 2); k > 0; k-- {
		f := "refs/heads/b%d"
		switch r.Int(0, 4) {
		case 3:
			f = "refs/tags/t%d"
		case 4:
			f = gm.Pick(r, gm.OtherRefs)
		}
		c.Repo.Refs = append(c.Repo.Refs, gm.Ref{Name: fmt.Sprintf(f, k), Commit: r.Int(0, n-1), Tag: f == "refs/tags/t%d" && r.P(1, 2)})
	}
	for i := range c.Repo.Commits {
		cm := &c.Repo.Commits[i]
		if r.P(4, 5) {
			cm.Author = genIdent(r)
		}
		if r.P(4, 5) {
			cm.Committer = genIdent(r)
			cm.Committer.When = 1500000000 + int64(i)*60
		}
		if r.P(4, 5) {
			cm.Msg = genMsg(r)
		}
		if r.P(1, 2) {
			cm.Changes = append(cm.Changes, gm.Change{Path: gm.B(gm.Pick(r, gm.PlainPaths)), Data: gm.B(fmt.Sprintf("%d\n", i))})
		}
		cm.Signed = r.P(1, 30)
		if r.P(1, 12) {
			// stored in latin 1
			cm.Encoding = gm.Pick(r, []string{"ISO-8859-1", "latin1", "iso8859-1"})
		}
	}
	if r.P(1, 3) {
		c.From, c.Excl = drawRange(r, c.Repo)
		c.Wanted = genWants(r, c.Repo.Refs)
	}
	if r.P(1, 60) {
		c.Pad = r.Int(90, 1600)
	}
	return c
}

func gitSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func trimRightGit(s string) string {
	for len(s) > 0 && gitSpace(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// subjectOf is the first paragraph on one line.
func subjectOf(msg string) string {
	var res []string
	for _, l := range strings.Split(msg, "\n") {
		l = trimRightGit(l)
		if l == "" {
			if len(res) > 0 {
				break
			}
			continue
		}
		res = append(res, l)
	}
	return strings.Join(res, " ")
}

func latin1(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

func diffField(v *fw.Verdict, b *gm.Built, h, field, got, want string) {
	if got != want {
		v.Failf("%v: %v is %.200q (%d bytes), want %.200q (%d bytes)", cname(b, h), field, got, len(got), want, len(want))
	}
}

func metaIdents(c *gm.Commit, i int) (a, co gm.Ident) {
	w := c.When
	if w == 0 {
		w = 1500000000 + int64(i)*60
	}
	a = gm.Ident{Name: "A U Thor", Email: "a@example.com", When: w}
	co = gm.Ident{Name: "C O Mitter", Email: "c@example.com", When: w}
	if c.Author != nil {
		a = *c.Author
	}
	if c.Committer != nil {
		co = *c.Committer
	}
	return
}

// checkHeader compares one reported commit with what was stored.
func checkHeader(v *fw.Verdict, b *gm.Built, i int, x *commitmeta.Commit) {
	c := &b.Repo.Commits[i]
	h := b.Hash[i]
	a, co := metaIdents(c, i)
	conv := func(s string) string {
		if c.Encoding != "" {
			return latin1(s)
		}
		return s
	}
	msg := string(c.Msg)
	switch msg {
	case "":
		msg = fmt.Sprintf("c%d\n", i)
	case "\x00":
		msg = ""
	}
	diffField(v, b, h, "author name", x.AuthorName, conv(trimRightGit(string(a.Name))))
	diffField(v, b, h, "author email", x.AuthorEmail, conv(string(a.Email)))
	diffField(v, b, h, "committer name", x.CommitterName, conv(trimRightGit(string(co.Name))))
	diffField(v, b, h, "committer email", x.CommitterEmail, conv(string(co.Email)))
	diffField(v, b, h, "subject", x.Message, subjectOf(conv(msg)))
	if x.Date.Unix() != a.When {
		v.Failf("%v: author date is %v (%d), want %d", cname(b, h), x.Date, x.Date.Unix(), a.When)
	}
	var ps []string
	for _, p := range c.Parents {
		ps = append(ps, b.Hash[p])
	}
	if len(ps) != len(x.Parents) || strings.Join(ps, " ") != strings.Join(x.Parents, " ") {
		v.Failf("%v: parents are %v, want %v", cname(b, h), names(b, x.Parents), names(b, ps))
	}
	if !utf8.ValidString(string(a.Name)) {
		v.Class("invalid-utf8")
	}
	if len(msg) > 60000 {
		v.Class("long-subject")
	}
	if c.Encoding != "" {
		v.Class("other-encoding")
	}
}

func checkMetaSet(v *fw.Verdict, b *gm.Built, want map[int]bool, res []commitmeta.Commit) {
	var order []string
	for k, x := range res {
		if x.Ordinal != int64(k+1) {
			v.Failf("commit %d of the result has ordinal %d", k+1, x.Ordinal)
		}
		order = append(order, x.SHA)
	}
	d := &Diffs{}
	CompareOrder(b, want, order, d)
	for _, s := range d.Set {
		// order itself is not part of this property
		if !strings.Contains(s, "before its parent") {
			v.Failf("%v", s)
		}
	}
}

func runMeta(e *fw.Env, c *MetaCase) *fw.Verdict {
	v := &fw.Verdict{}
	c = c.padded()
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	want := c.want()
	res, err := commitmeta.New(b.Dir, c.opts(b)).RunSlice()
	if err != nil {
		v.Failf("reading the metadata of a valid repository failed: %v", err)
		return v
	}
	checkMetaSet(v, b, want, res)
	for k := range res {
		if i, ok := b.Index[res[k].SHA]; ok && v.Fail == "" {
			checkHeader(v, b, i, &res[k])
		}
	}
	m, err := commitmeta.New(b.Dir, c.opts(b)).RunMap()
	if err != nil {
		v.Failf("reading the metadata of a valid repository failed: %v", err)
		return v
	}
	if len(m) != len(res) {
		v.Failf("the map has %d commits, the list %d", len(m), len(res))
	}
	for k, x := range m {
		if k != x.SHA {
			v.Failf("commit %v is in the map under %v", x.SHA, k)
		}
		if i, ok := b.Index[k]; ok && v.Fail == "" {
			checkHeader(v, b, i, &x)
		}
	}
	v.ClassN("commits", len(res))
	v.ClassIf(c.From >= 0, "ranges")
	v.ClassIf(c.Pad > 0, "hundreds-of-commits")
	v.ClassIf(c.Repo.Shallow(), "shallow")
	v.ClassIf(c.From >= 0 && c.All && len(c.Wanted) > 0, "ranges-of-refs")
	for i := range want {
		if c.Repo.Commits[i].Author != nil || c.Repo.Commits[i].Msg != "" {
			v.Nontrivial = true
		}
	}
	return v
}

// ---- C08

func genChanges(t *rapid.T) *MetaCase {
	r := gm.R{T: t}
	o := gm.StdOpts(r, r.P(1, 2))
	o.Merges = 2
	o.LongLines = false
	if r.P(1, 2) {
		o.Paths = movePaths
	}
	c := &MetaCase{Repo: gm.History(t, o), All: r.P(1, 2), Bare: r.P(2, 3), From: -1}
	if r.P(1, 5) {
		c.From, c.Excl = drawRange(r, c.Repo)
		c.Wanted = genWants(r, c.Repo.Refs)
	}
	switch r.Int(0, 79) {
	case 79:
		c.Big = r.Int(1, 90000)
	case 78:
		c.Many = r.Int(1, 2500)
	}
	return c
}

// movePaths make git's short rename notation ambiguous.
var movePaths = []string{"a/b/c.go", "a/c.go", "b/c.go", "a/b/d.go", "c.go", "a/x/b/c.go", "a/a/c.go", "{a => b}/c.go", "a => b", "{x}", "a/{b}/c.go", "b => a/c.go", "a/ => /c.go", " => ", "{ => }", "a/b.go => c.go"}

type numstat struct {
	add, del int
	bin      bool
}

// numstats asks git for the line counts of each non-merge commit.
func numstats(e *fw.Env, b *gm.Built) []map[string]numstat {
	res := make([]map[string]numstat, len(b.Hash))
	var in bytes.Buffer
	for i, c := range b.Repo.Commits {
		if len(c.Parents) < 2 {
			fmt.Fprintf(&in, "%s\n", b.Hash[i])
		}
	}
	out := string(e.GitIn(b.GitDir, in.Bytes(), "--git-dir=.", "-c", "diff.renameLimit=10000", "diff-tree", "--stdin", "--root", "-r", "-M", "-l10000", "--numstat", "-z", "--no-abbrev"))
	cur := -1
	toks := strings.Split(out, "\x00")
	for i := 0; i < len(toks); {
		t := toks[i]
		i++
		if len(t) >= 40 {
			// with -z and numstat the commit id is a token of its own
			if x, ok := b.Index[strings.TrimSpace(t[:40])]; ok {
				cur = x
				res[cur] = map[string]numstat{}
				t = strings.TrimPrefix(t[40:], "\n")
			}
		}
		if t == "" {
			continue
		}
		f := strings.SplitN(t, "\t", 3)
		if len(f) != 3 || cur < 0 {
			fw.Infraf("unexpected numstat %q", t)
		}
		n := numstat{bin: f[0] == "-"}
		n.add, _ = strconv.Atoi(f[0])
		n.del, _ = strconv.Atoi(f[1])
		p := f[2]
		if p == "" {
			if i+1 >= len(toks) {
				fw.Infraf("unexpected end of numstat")
			}
			p = toks[i+1]
			i += 2
		}
		res[cur][p] = n
	}
	return res
}

func regular(mode string) bool { return mode == "100644" || mode == "100755" }

// checkFiles compares one commit's change record with git's list.
func checkFiles(v *fw.Verdict, b *gm.Built, h string, raw []gm.RawEntry, ns map[string]numstat, files map[string]*commitmeta.CommitFile) {
	c := cname(b, h)
	known := map[string]bool{}
	rec := func(p, status string, en *gm.RawEntry, stat bool) {
		known[p] = true
		f := files[p]
		if f == nil {
			v.Failf("%v: %q (%c) is not in the change record", c, p, en.Status)
			return
		}
		if f.Filename != p {
			v.Failf("%v: the record of %q is named %q", c, p, f.Filename)
		}
		if string(f.Status) != status {
			v.Failf("%v: %q has status %v, want %v (git: %c)", c, p, f.Status, status, en.Status)
		}
		if en.Status == 'R' {
			if !f.Renamed || f.RenamedFrom != en.Old || f.RenamedTo != en.New {
				v.Failf("%v: %q has renamed %v from %q to %q, want from %q to %q", c, p, f.Renamed, f.RenamedFrom, f.RenamedTo, en.Old, en.New)
			}
		} else if f.Renamed {
			v.Failf("%v: %q (%c) is recorded as renamed from %q to %q", c, p, en.Status, f.RenamedFrom, f.RenamedTo)
		}
		n := numstat{}
		if stat {
			n = ns[p]
		}
		if f.Additions != n.add || f.Deletions != n.del || f.Binary != n.bin {
			v.Failf("%v: %q has %d added, %d deleted, binary %v; want %d, %d, %v", c, p, f.Additions, f.Deletions, f.Binary, n.add, n.del, n.bin)
		}
	}
	for i := range raw {
		en := &raw[i]
		mode := en.NewMode
		if en.Status == 'D' {
			mode = en.OldMode
		}
		if !regular(mode) {
			known[en.Old], known[en.New] = true, true
			continue
		}
		v.Class("status-" + string(en.Status))
		switch en.Status {
		case 'A':
			rec(en.New, "added", en, true)
		case 'D':
			rec(en.Old, "removed", en, true)
		case 'M', 'T':
			rec(en.New, "modified", en, true)
		case 'R':
			rec(en.Old, "removed", en, false)
			rec(en.New, "added", en, true)
		default:
			fw.Infraf("status %c", en.Status)
		}
	}
	var ps []string
	for p := range files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if !known[p] {
			v.Failf("%v: %q is in the change record, git does not list it", c, p)
		}
	}
}

func runChanges(e *fw.Env, c *MetaCase) *fw.Verdict {
	v := &fw.Verdict{}
	c = c.padded()
	b := c.Repo.Build(e, e.Sub("repo"), c.Bare)
	raw := b.RawChanges(e)
	ns := numstats(e, b)
	v.ClassIf(c.Big > 0, "big-file")
	v.ClassIf(c.Many > 0, "many-files")
	want := c.want()
	res, err := commitmeta.New(b.Dir, c.opts(b)).RunSlice()
	if err != nil {
		v.Failf("reading the metadata of a valid repository failed: %v", err)
		return v
	}
	checkMetaSet(v, b, want, res)
	n := 0
	for _, x := range res {
		i, ok := b.Index[x.SHA]
		if !ok || len(c.Repo.Commits[i].Parents) > 1 {
			continue
		}
		checkFiles(v, b, x.SHA, raw[i][0], ns[i], x.Files)
		for _, en := range raw[i][0] {
			if en.Status != 'A' {
				n++
			}
		}
	}
	v.ClassN("commits", len(res))
	v.Nontrivial = n >= 2
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C07", Rule: "a repository with at least one reported commit whose identities or message are not the defaults"})
	fw.AddSub(p, "headers", 5000, 60000, genMeta, runMeta)
	p = fw.Register(&fw.Prop{ID: "C08", Rule: "a history whose non-merge commits have at least two changes that are not additions"})
	fw.AddSub(p, "changes", 6000, 60000, genChanges, runChanges)
}
