package gm

import (
	"fmt"
	"math/bits"
	"math/rand"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// R draws values, from rapid or, for the expansion of long scripts, from G.
type R struct {
	T *rapid.T
	G *rand.Rand
}

func (r R) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	if r.G != nil {
		return lo + r.G.Intn(hi-lo+1)
	}
	// rapid's own integer ranges lean heavily to small values
	n := uint64(hi-lo) + 1
	var u uint64
	for k := bits.Len64(n-1) + 2; k > 0; k-- {
		u <<= 1
		if boolGen.Draw(r.T, "b") {
			u |= 1
		}
	}
	if bits.Len64(n-1)+2 > 63 {
		return lo + int(u%n)
	}
	// scale so that zero bits give the low end
	return lo + int(u*n>>uint(bits.Len64(n-1)+2))
}

var boolGen = rapid.Bool()

// P is true about n times in d.
func (r R) P(n, d int) bool { return r.Int(0, d-1) >= d-n }

func Pick[E any](r R, s []E) E { return s[r.Int(0, len(s)-1)] }

// Perm shuffles indexes 0..n-1 without bias.
func (r R) Perm(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	if n < 2 {
		return s
	}
	return rapid.Permutation(s).Draw(r.T, "perm")
}

// Opts steers the history generator.
type Opts struct {
	MinCommits, MaxCommits int
	Paths                  []string
	MaxOps                 int // per commit
	Unique                 bool
	Merges                 int // out of 20
	Octopus                bool
	Roots                  bool
	Binary                 bool
	Modes                  bool
	Symlinks               bool
	CR                     bool
	Hostile                bool // hostile line contents
	Skew                   bool // commit dates out of order
	EmptyCommits           bool
	Big                    bool // multi-hunk files
	NoRename               bool
	Linear                 bool
	RemoveAll              bool // commits that empty the tree
	LongLines              bool
	TextOnly               bool
	Idle                   bool // no changes
	Shallow                bool // some repositories are shallow clones
	Blow                   int  // one in so many has a big file or many files
}

type ln struct {
	key  float64
	id   int
	text string
}

type version struct {
	lines []ln
	noEOL bool
	mode  string
	raw   string // binary or symlink content
	isRaw bool
}

func (v *version) data() string {
	if v.isRaw {
		return v.raw
	}
	var b strings.Builder
	for i, l := range v.lines {
		b.WriteString(l.text)
		if i < len(v.lines)-1 || !v.noEOL {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

type HG struct {
	R
	O      Opts
	Repo   *Repo
	trees  []map[string]*version
	nextID int
	base   float64
	times  []int64
	pool   []*version // versions seen, for cherry-picks
}

var hostile = []string{
	"diff --git a/f b/f", "@@ -1,2 +1,2 @@", "@@ -0,0 +1 @@ x", "--- a/f", "+++ b/f", "-- f", "++ f", "- x", "+ x",
	"commit 0123456789012345678901234567890123456789", "\\ No newline at end of file", "Binary files a/x and b/x differ",
	"rename from f", "rename to g", "new file mode 100644", "deleted file mode 100644", "index 00..11 100644", "old mode 100644",
	"!SHA: 0123", ":100644 100644 00 11 M\tf", "Merge: a b", "Author: x", "\u00e9\u4e2d", "\xff\xfe\x80", "\x0c", "\x0b x", "\ttab", "    four spaces", "  ", "\"quoted\"", "%H %s", "\x1b[31mred\x1b[m",
	"similarity index 100%", "author x", "boundary", "\tfilename f", "GIT binary patch", "Submodule x", "\u2028", "\u0085", "a\rb",
	"// Code generated DO NOT EDIT", "/*", "*/", "\"",
}

var plainText = []string{"a", "b", "foo()", "}", "return x", "x = 1", "if y {", "// comment", "package main"}

var ends = []string{"\x0c", "\x0b", "\x01", "\x1a", " ", "  ", "\t", "\\", "\"", "\xff", "\x80", "\u00a0", "\u0085", "\u2028", "\ufeff", "\xef\xbb", "\x7f", "\b", "\x1b"}

var dupText = []string{"", "a", "b", "}", " ", "c"}
var dupHostile = []string{"\\ No newline at end of file", "@@ -1 +1 @@", "--", "+", "-", "++ b/f", "-- a/f", "diff --git a/f b/f", "\\", "@@", "\t", "Binary files differ", "commit 1"}

func (g *HG) newLine(key float64) ln {
	g.nextID++
	id := g.nextID
	var t string
	if g.O.Unique {
		if g.O.Hostile && g.P(1, 3) {
			t = Pick(g.R, hostile)
		} else {
			t = Pick(g.R, plainText)
		}
		t = fmt.Sprintf("%s #%d", t, id)
		if g.O.LongLines && g.P(1, 150) {
			t = strings.Repeat("long ", g.Int(13000, 14000)) + t
		}
	} else {
		if g.O.Hostile && g.P(1, 4) {
			t = Pick(g.R, dupHostile)
		} else {
			t = Pick(g.R, dupText)
		}
	}
	if g.O.Hostile && g.P(1, 12) {
		x := Pick(g.R, ends)
		if g.P(1, 3) {
			x = string([]byte{byte(g.Int(14, 255))})
		}
		if g.P(2, 3) {
			t += x
		} else {
			t = x + t
		}
	}
	if g.O.CR && g.P(1, 10) {
		t += "\r"
		if g.P(1, 6) {
			t += "\r"
		}
	}
	return ln{key, id, t}
}

func (g *HG) newKey() float64 {
	// spread keys without depending on the number of draws
	g.base += 0.6180339887498949
	for g.base >= 1 {
		g.base--
	}
	return g.base
}

func sortLines(l []ln) {
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].key != l[j].key {
			return l[i].key < l[j].key
		}
		return l[i].id < l[j].id
	})
}

func (g *HG) newText(max int) *version {
	v := &version{mode: "100644"}
	n := g.Int(0, max)
	if g.O.Big && g.P(1, 3) {
		n = g.Int(20, 60)
	}
	for i := 0; i < n; i++ {
		v.lines = append(v.lines, g.newLine(g.newKey()))
	}
	if g.O.LongLines && g.P(1, 20) && len(v.lines) > 0 {
		// a NUL so late that git takes the file for text
		v.lines = append(v.lines, ln{text: strings.Repeat("far ", 2010) + fmt.Sprint(g.nextID), key: -1, id: g.nextID + 1})
		v.lines[g.Int(0, len(v.lines)-2)].text += "\x00z"
		g.nextID++
		if !g.O.Unique {
			n := len(v.lines) - 1
			v.lines[0], v.lines[n] = v.lines[n], v.lines[0]
		}
	}
	if g.O.Unique {
		sortLines(v.lines)
	}
	v.noEOL = len(v.lines) > 0 && g.P(1, 6)
	if len(v.lines) > 0 && v.noEOL && v.lines[len(v.lines)-1].text == "" {
		v.noEOL = false
	}
	return v
}

func (g *HG) newBinary() *version {
	g.nextID++
	v := &version{mode: "100644", isRaw: true}
	switch g.Int(0, 2) {
	case 0:
		v.raw = fmt.Sprintf("\x00bin %d\n", g.nextID)
	case 1:
		v.raw = fmt.Sprintf("line one\nbin \x00 %d", g.nextID)
	default:
		v.raw = strings.Repeat(fmt.Sprintf("blob %d \x01\x02\n", g.nextID), 10) + "\x00"
	}
	return v
}

// newLink is a symbolic link or, at times, a submodule.
func (g *HG) newLink() *version {
	g.nextID++
	if g.P(1, 3) {
		return &version{mode: "160000", isRaw: true, raw: fmt.Sprintf("%s%040x\n", subproject, g.nextID*7919+1)}
	}
	return &version{mode: "120000", isRaw: true, raw: fmt.Sprintf("target/%d", g.nextID)}
}

// link reports whether the version is not a regular file.
func (v *version) link() bool { return v.mode == "120000" || v.mode == "160000" }

func (v *version) clone() *version {
	c := *v
	c.lines = append([]ln(nil), v.lines...)
	return &c
}

// edit changes a text version.
func (g *HG) edit(v *version) *version {
	if v.isRaw {
		if v.mode == "160000" && g.P(2, 3) {
			c := v.clone()
			g.nextID++
			c.raw = fmt.Sprintf("%s%040x\n", subproject, g.nextID*7919+1)
			return c
		}
		if g.P(1, 2) || g.O.TextOnly {
			return g.newText(6)
		}
		return g.newBinary()
	}
	c := v.clone()
	k := g.Int(1, 3)
	for ; k > 0; k-- {
		n := len(c.lines)
		switch op := g.Int(0, 9); {
		case op <= 3 || n == 0: // insert a block
			m := g.Int(1, 3)
			if g.O.Unique {
				var key float64
				if n > 0 && g.P(2, 3) {
					key = c.lines[g.Int(0, n-1)].key + 1e-9
				} else if n > 0 && g.P(1, 3) {
					key = c.lines[0].key / 2
				} else {
					key = g.newKey()
				}
				for j := 0; j < m; j++ {
					c.lines = append(c.lines, g.newLine(key+float64(j)*1e-13))
				}
				sortLines(c.lines)
			} else {
				at := g.Int(0, n)
				var nl []ln
				nl = append(nl, c.lines[:at]...)
				for j := 0; j < m; j++ {
					nl = append(nl, g.newLine(0))
				}
				c.lines = append(nl, c.lines[at:]...)
			}
		case op <= 5: // delete a block
			at := g.Int(0, n-1)
			m := g.Int(1, 3)
			if at+m > n {
				m = n - at
			}
			c.lines = append(append([]ln(nil), c.lines[:at]...), c.lines[at+m:]...)
		case op <= 7: // replace a line
			at := g.Int(0, n-1)
			c.lines = append([]ln(nil), c.lines...)
			c.lines[at] = g.newLine(c.lines[at].key)
			if g.O.Unique {
				sortLines(c.lines)
			}
		case op == 8: // final newline
			c.noEOL = !c.noEOL
		default:
			if !g.O.Unique && n > 3 && g.P(1, 2) { // reorder blocks
				for k := g.Int(1, 4); k > 0; k-- {
					i := g.Int(1, n-1)
					c.lines = append(append([]ln(nil), c.lines[i:]...), c.lines[:i]...)
					m := g.Int(1, n-1)
					c.lines = append(append([]ln(nil), c.lines[m:]...), c.lines[:m]...)
					j := g.Int(0, n-1)
					c.lines[i], c.lines[j] = c.lines[j], c.lines[i]
				}
			} else if n > 4 && g.P(1, 3) { // drop nearly everything
				c.lines = c.lines[:1]
			} else {
				c.noEOL = !c.noEOL
			}
		}
	}
	g.fixEOL(c)
	return c
}

func (g *HG) fixEOL(c *version) {
	n := len(c.lines)
	if n == 0 || c.lines[n-1].text == "" {
		c.noEOL = false
	}
}

// mix builds a merge result from several versions.
func (g *HG) mix(vs []*version) *version {
	c := &version{mode: vs[0].mode}
	if g.O.Unique {
		seen := map[int]bool{}
		for _, v := range vs {
			for _, l := range v.lines {
				if !seen[l.id] {
					seen[l.id] = true
					if g.P(5, 6) {
						c.lines = append(c.lines, l)
					}
				}
			}
		}
		if g.P(1, 2) {
			c.lines = append(c.lines, g.newLine(g.newKey()))
		}
		sortLines(c.lines)
	} else {
		for _, v := range vs {
			for _, l := range v.lines {
				if g.P(2, 3) {
					c.lines = append(c.lines, l)
				}
			}
		}
		if g.P(1, 2) {
			c.lines = append(c.lines, g.newLine(0))
		}
	}
	c.noEOL = vs[0].noEOL
	if g.P(1, 6) {
		c.noEOL = !c.noEOL
	}
	g.fixEOL(c)
	return c
}

func setPath(t map[string]*version, p string, v *version) {
	for k := range t {
		if strings.HasPrefix(k, p+"/") || strings.HasPrefix(p, k+"/") {
			delete(t, k)
		}
	}
	t[p] = v
}

func paths(t map[string]*version) (res []string) {
	for k := range t {
		res = append(res, k)
	}
	sort.Strings(res)
	return
}

func (g *HG) pathFor(t map[string]*version) string { return Pick(g.R, g.O.Paths) }

func (g *HG) op(t map[string]*version) {
	ps := paths(t)
	o := g.Int(0, 19)
	if len(ps) == 0 {
		o = 0
	}
	switch {
	case o <= 3: // add or overwrite
		p := g.pathFor(t)
		if old := t[p]; old != nil && !old.isRaw {
			t[p] = g.edit(old)
			return
		}
		v := g.newText(8)
		if g.O.Binary && g.P(1, 6) {
			v = g.newBinary()
		} else if g.O.Symlinks && g.P(1, 12) {
			v = g.newLink()
		} else if g.O.Modes && g.P(1, 8) {
			v.mode = "100755"
		}
		setPath(t, p, v)
	case o <= 9: // edit
		p := Pick(g.R, ps)
		t[p] = g.edit(t[p])
	case o <= 11: // delete
		delete(t, Pick(g.R, ps))
	case o <= 13: // rename, perhaps with an edit
		if g.O.NoRename {
			p := Pick(g.R, ps)
			t[p] = g.edit(t[p])
			return
		}
		p, q := Pick(g.R, ps), g.pathFor(t)
		v := t[p]
		if p == q {
			t[p] = g.edit(v)
			return
		}
		delete(t, p)
		if g.P(1, 2) && !v.isRaw {
			if len(v.lines) < 4 && g.O.Unique {
				v = v.clone()
			} else {
				v = g.edit(v)
			}
		}
		setPath(t, q, v)
		if g.P(1, 8) { // something else takes the old name
			setPath(t, p, g.newText(6))
		}
	case o == 14: // mode
		p := Pick(g.R, ps)
		if g.O.Modes && !t[p].link() {
			c := t[p].clone()
			if c.mode == "100644" {
				c.mode = "100755"
			} else {
				c.mode = "100644"
			}
			if g.P(1, 3) {
				m := c.mode
				c = g.edit(c)
				c.mode = m
			}
			t[p] = c
		} else {
			t[p] = g.edit(t[p])
		}
	case o == 15: // to or from binary
		p := Pick(g.R, ps)
		if !g.O.Binary {
			t[p] = g.edit(t[p])
			return
		}
		if t[p].isRaw {
			t[p] = g.newText(8)
		} else {
			t[p] = g.newBinary()
		}
	case o == 16: // type change
		p := Pick(g.R, ps)
		if !g.O.Symlinks {
			t[p] = g.edit(t[p])
			return
		}
		if t[p].link() {
			t[p] = g.newText(6)
		} else {
			t[p] = g.newLink()
		}
	case o == 17: // empty file
		p := Pick(g.R, ps)
		t[p] = &version{mode: "100644"}
	case o == 18: // a version seen before, elsewhere
		if len(g.pool) > 0 {
			setPath(t, g.pathFor(t), Pick(g.R, g.pool))
		}
	default: // copy
		p, q := Pick(g.R, ps), g.pathFor(t)
		v := t[p]
		if p != q {
			if g.P(1, 2) {
				v = g.edit(v)
			}
			setPath(t, q, v)
		}
	}
}

// History draws a whole history. HEAD is main.
func History(t *rapid.T, o Opts) *Repo {
	g := NewHG(t, o)
	n := g.Int(o.MinCommits, o.MaxCommits)
	for i := 0; i < n; i++ {
		g.Step()
	}
	if o.Shallow && g.P(1, 12) {
		CutSome(g.R, g.Repo)
	}
	if o.Blow > 0 && g.P(1, o.Blow) {
		x := &Blow{V: g.Int(0, 1)}
		if g.P(1, 2) {
			x.Big = g.Int(1, 40000)
		} else {
			x.Many = g.Int(1, 1500)
		}
		for i := g.Int(0, n-1); i < n; i += g.Int(1, 4) {
			y := *x
			g.Repo.Commits[i].Blow = &y
			x.V++
		}
	}
	g.Repo.Head = "main"
	g.Repo.HeadAt = g.HeadChoice()
	g.ExtraRefs()
	return g.Repo
}

func NewHG(t *rapid.T, o Opts) *HG {
	if o.MaxOps == 0 {
		o.MaxOps = 3
	}
	return &HG{R: R{T: t}, O: o, Repo: &Repo{}}
}

// NewSeededHG draws from a seed.
func NewSeededHG(seed int, o Opts) *HG {
	g := NewHG(nil, o)
	g.R = R{G: rand.New(rand.NewSource(int64(seed)))}
	return g
}

// HeadChoice prefers the newest commit.
func (g *HG) HeadChoice() int {
	n := len(g.Repo.Commits)
	if g.P(1, 4) {
		return n - 1 - g.Int(0, n-1)
	}
	return n - 1
}

// OtherRefs are formats of names that are neither branches nor tags.
var OtherRefs = []string{"refs/pull/%d/head", "refs/merge-requests/%d/head", "refs/notes/n%d", "refs/changes/01/%d/1", "refs/original/refs/heads/o%d", "refs/keep-around/k%d", "refs/x%d", "refs/remotes/up/r%d"}

func (g *HG) ExtraRefs() {
	n := len(g.Repo.Commits)
	k := g.Int(0, 3)
	for i := 0; i < k; i++ {
		c := g.Int(0, n-1)
		switch g.Int(0, 4) {
		case 4:
			f := Pick(g.R, OtherRefs)
			g.Repo.Refs = append(g.Repo.Refs, Ref{Name: fmt.Sprintf(f, i), Commit: c})
		case 0:
			g.Repo.Refs = append(g.Repo.Refs, Ref{Name: fmt.Sprintf("refs/tags/t%d", i), Commit: c, Tag: g.P(1, 2)})
		case 1:
			g.Repo.Refs = append(g.Repo.Refs, Ref{Name: fmt.Sprintf("refs/remotes/origin/r%d", i), Commit: c})
		default:
			g.Repo.Refs = append(g.Repo.Refs, Ref{Name: fmt.Sprintf("refs/heads/b%d", i), Commit: c})
		}
	}
}

// tip prefers recent commits.
func (g *HG) tip() int {
	n := len(g.Repo.Commits)
	if n > 4 && g.P(4, 5) {
		return n - 1 - g.Int(0, 3)
	}
	return n - 1 - g.Int(0, n-1)
}

// Step appends one commit.
func (g *HG) Step() int { return g.StepOn(nil) }

// StepOn appends a commit on the given parents (nil: drawn).
func (g *HG) StepOn(par []int) int {
	i := len(g.Repo.Commits)
	c := Commit{}
	switch {
	case par != nil:
		c.Parents = par
	case i == 0 || (g.O.Roots && g.P(1, 14)):
	case g.O.Linear:
		c.Parents = []int{i - 1}
	case i >= 2 && g.Int(0, 19) < g.O.Merges:
		k := 2
		if g.O.Octopus && g.P(1, 5) {
			k = g.Int(3, 4)
			if g.P(1, 5) {
				k = g.Int(5, 9)
			}
		}
		seen := map[int]bool{}
		for tries := 0; len(c.Parents) < k && tries < 4*k+4; tries++ {
			p := g.tip()
			if !seen[p] {
				seen[p] = true
				c.Parents = append(c.Parents, p)
			}
		}
	default:
		c.Parents = []int{g.tip()}
	}
	if g.O.Skew && g.P(1, 4) {
		c.When = t0 + int64(i)*60 + int64(g.Int(-40, 40))*60
	}
	t := map[string]*version{}
	if len(c.Parents) > 0 {
		for k, v := range g.trees[c.Parents[0]] {
			t[k] = v
		}
	}
	if len(c.Parents) > 1 {
		g.merge(t, c.Parents)
	}
	nops := g.Int(1, g.O.MaxOps)
	if len(c.Parents) > 1 {
		nops = 0
		if g.P(1, 3) {
			nops = 1
		}
	} else if g.O.EmptyCommits && g.P(1, 12) {
		nops = 0
	}
	if i == 0 {
		nops++
	}
	if g.O.RemoveAll && len(c.Parents) == 1 && g.P(1, 14) {
		for k := range t {
			delete(t, k)
		}
		nops = 0
	}
	if g.O.Idle {
		nops = 0
	}
	for ; nops > 0; nops-- {
		g.op(t)
	}
	g.trees = append(g.trees, t)
	// delta against the first parent
	base := map[string]*version{}
	if len(c.Parents) > 0 {
		base = g.trees[c.Parents[0]]
	}
	for _, p := range paths(base) {
		if t[p] == nil {
			c.Changes = append(c.Changes, Change{Path: B(p), Del: true})
		}
	}
	for _, p := range paths(t) {
		v, w := t[p], base[p]
		if w == nil || w.mode != v.mode || w.data() != v.data() {
			ch := Change{Path: B(p), Mode: v.mode, Data: B(v.data())}
			if ch.Mode == "100644" {
				ch.Mode = ""
			}
			c.Changes = append(c.Changes, ch)
			if len(g.pool) < 200 {
				g.pool = append(g.pool, v)
			}
		}
	}
	g.Repo.Commits = append(g.Repo.Commits, c)
	return i
}

func (g *HG) merge(t map[string]*version, par []int) {
	all := map[string]*version{}
	for _, p := range par {
		for k, v := range g.trees[p] {
			if all[k] == nil {
				all[k] = v
			}
		}
	}
	for _, p := range paths(all) {
		var have []*version
		same := true
		for _, q := range par {
			v := g.trees[q][p]
			if v != nil {
				have = append(have, v)
			}
			if v == nil || v.data() != have[0].data() || v.mode != have[0].mode {
				same = false
			}
		}
		if same {
			if g.P(1, 25) {
				t[p] = g.edit(have[0])
			}
			continue
		}
		switch o := g.Int(0, 9); {
		case o <= 2: // keep the first parent's side
		case o <= 5: // take another side
			if t[p] == nil {
				setPath(t, p, have[len(have)-1])
			} else {
				t[p] = have[g.Int(0, len(have)-1)]
			}
		case o <= 8:
			var texts []*version
			for _, v := range have {
				if !v.isRaw {
					texts = append(texts, v)
				}
			}
			if len(texts) > 0 {
				setPath(t, p, g.mix(texts))
			}
		default:
			delete(t, p)
		}
	}
}

// CutSome makes the repository shallow in up to three places, mostly early
// ones.
func CutSome(r R, rp *Repo) {
	n := len(rp.Commits)
	for k := r.Int(1, 3); k > 0; k-- {
		i := r.Int(0, n-1)
		if r.P(2, 3) {
			i = r.Int(0, n/2)
			if i >= n {
				i = n - 1
			}
		}
		c := &rp.Commits[i]
		if len(c.Parents) > 0 {
			c.Cut, c.Parents = c.Parents, nil
		}
	}
}

// Shallow reports whether some commit is cut.
func (r *Repo) Shallow() bool {
	for _, c := range r.Commits {
		if len(c.Cut) > 0 {
			return true
		}
	}
	return false
}

// PlainPaths are names without special characters.
var PlainPaths = []string{"a.txt", "b.go", "dir/a.txt", "dir/sub/c.js", "x", "with space.txt", "sp ace/f.py", "dir", "z.md"}

// StdOpts is the general history mix.
func StdOpts(r R, unique bool) Opts {
	return Opts{MinCommits: 1, MaxCommits: 16, Paths: PlainPaths, Unique: unique, Merges: 6, Octopus: true, Roots: true, Binary: true, Modes: true, Symlinks: true, CR: true, Hostile: true, Skew: true, EmptyCommits: true, Big: r.P(1, 2), RemoveAll: true, LongLines: r.P(1, 4), Shallow: true}
}

// HostilePaths are legal names that git or a parser may treat specially.
var HostilePaths = []string{
	"plain.go", "dir/plain.go", "a b.go", " lead.go", "trail.go ", "tab\tname.go", "nl\nname.go", "quo\"te.go", "back\\slash.go", "\\", "\"", "\"quoted\".go",
	"br{ace.go", "{a => b}.go", "a => b.go", "dir/{x => y}/f.go", "\u00e9\u4e2d.go", "inv\xff\xfe.go", "\xc3.go", "\x01ctl.go", "\x7f.go", "cr\rname.go", "cr.go\r",
	"b/x.go", "a/b.go", "a/a/b.go", "x b/x.go", "y b/y b/y.go", "x.go b/x.go", "-dash.go", "--", "+plus.go", ":colon.go", "@@ -1 +1 @@.go", "diff --git a/x b/x.go",
	"rename from x.go", "new\n+++ b/x.go", "nl\n\n.go", "*.go", "?", "[a].go", "$HOME.go", "%s.go", "#x.go", "~x.go", "^x.go", "HEAD", "refs/heads/main", "dev/null", "@@@del@@@plain.go", "!SHA: x.go", "1\t2\tx.go",
	"\a\b\v\f.go", "oct\\303.go", "\\n.go", "a\\", "\u2028.go", "\u0085.go", "'q'.go", "`x`.go", "a;b.go", "a|b.go", "<x>.go", "x/y z/\"w\"/v.go", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong.go",
	strings.Repeat("n", 240) + "me.go", strings.Repeat("deep/er and/", 50) + "f.go", strings.Repeat(strings.Repeat("d", 120)+"/", 12) + "\u00e9\n.go", strings.Repeat("\u4e2d\"", 60) + ".py",
}

// DrawPaths picks n of the names.
func DrawPaths(r R, from []string, n int) (res []string) {
	for _, i := range r.Perm(len(from)) {
		if len(res) == n {
			break
		}
		res = append(res, from[i])
	}
	return
}

// Versions draws related contents of a text file: the first is fresh, others
// are edits or mixes of earlier ones.
func (g *HG) Versions(n int) (res []string) {
	vs := []*version{g.newText(12)}
	for len(vs) < n {
		switch g.Int(0, 5) {
		case 0:
			vs = append(vs, g.newText(12))
		case 1, 2:
			vs = append(vs, g.mix(vs))
		default:
			v := g.edit(Pick(g.R, vs))
			for k := g.Int(0, 4); k > 0; k-- {
				v = g.edit(v)
			}
			vs = append(vs, v)
		}
	}
	for _, v := range vs {
		res = append(res, v.data())
	}
	return
}
