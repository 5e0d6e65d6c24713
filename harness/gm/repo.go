// Package gm generates git repositories and models what they contain.
package gm

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/harness/fw"
)

type B = fw.B

type Ident struct {
	Name  B      `json:"n"`
	Email B      `json:"e"`
	When  int64  `json:"t"`
	TZ    string `json:"z,omitempty"`
}

// Change sets or removes a path relative to the first parent's tree.
type Change struct {
	Path B      `json:"p"`
	Del  bool   `json:"del,omitempty"`
	Mode string `json:"m,omitempty"` // "" is 100644
	Data B      `json:"d,omitempty"`
}

type Commit struct {
	Parents []int `json:"par,omitempty"`
	// Cut, if set, are the parents named by the commit itself while the
	// repository is shallow there: git shows the commit without parents.
	Cut       []int    `json:"cut,omitempty"`
	Changes   []Change `json:"ch,omitempty"`
	Author    *Ident   `json:"au,omitempty"`
	Committer *Ident   `json:"co,omitempty"`
	When      int64    `json:"t,omitempty"`
	Msg       B        `json:"msg,omitempty"`
	Blow      *Blow    `json:"blow,omitempty"`
	// Signed gives a commit without children a signature.
	Signed   bool   `json:"signed,omitempty"`
	Encoding string `json:"enc,omitempty"`
}

// Blow adds to a commit a version of a big file and of many files.
type Blow struct {
	Big  int `json:"big,omitempty"`  // lines
	Many int `json:"many,omitempty"` // files
	V    int `json:"v,omitempty"`
}

func (x *Blow) apply(t Tree) {
	if x.Big > 0 {
		var s strings.Builder
		for k := 0; k < x.Big; k++ {
			if x.V > 0 && k%(x.V+5) == 0 {
				continue
			}
			if x.V > 0 && k%(x.V+11) == 1 {
				fmt.Fprintf(&s, "%d changed %d\n", k, x.V)
				continue
			}
			fmt.Fprintf(&s, "%d\n", k)
		}
		t.Set("big.py", Entry{Data: s.String()})
	}
	for k := 0; k < x.Many; k++ {
		p := fmt.Sprintf("many/d%d/f%d", k%17, k)
		switch old, ok := t[p]; {
		case x.V == 0 || !ok:
			t.Set(p, Entry{Data: fmt.Sprintf("file %d\nof many\n", k)})
		case k%3 == 0:
			delete(t, p)
			t.Set(p+".go", old)
		case k%3 == 1:
			t.Set(p, Entry{Data: fmt.Sprintf("file %d\nversion %d\n", k, x.V)})
		}
	}
}

// Ref names a commit; Tag makes it an annotated tag.
type Ref struct {
	Name   string `json:"name"`
	Commit int    `json:"c"`
	Tag    bool   `json:"tag,omitempty"`
	Sym    string `json:"sym,omitempty"`
}

type Repo struct {
	Commits []Commit `json:"commits"`
	Refs    []Ref    `json:"refs,omitempty"`
	// Head is the branch HEAD points to; it is at commit HeadAt.
	Head   string `json:"head"`
	HeadAt int    `json:"at"`
}

// Entry is a file in a tree.
type Entry struct {
	Mode string
	Data string
}

// subproject starts the content that git shows for a submodule, an entry of
// mode 160000.
const subproject = "Subproject commit "

type Tree map[string]Entry

func (t Tree) Clone() Tree {
	r := Tree{}
	for k, v := range t {
		r[k] = v
	}
	return r
}

// Set stores a file, resolving file/directory conflicts in its favour.
func (t Tree) Set(p string, e Entry) {
	if e.Mode == "" {
		e.Mode = "100644"
	}
	for k := range t {
		if strings.HasPrefix(k, p+"/") || strings.HasPrefix(p, k+"/") {
			delete(t, k)
		}
	}
	t[p] = e
}

func (t Tree) Paths() (res []string) {
	for k := range t {
		res = append(res, k)
	}
	sort.Strings(res)
	return
}

// stored are the parents in the commit object.
func (c *Commit) stored() []int {
	if len(c.Cut) > 0 {
		return c.Cut
	}
	return c.Parents
}

// Trees resolves the tree of each commit.
func (r *Repo) Trees() []Tree {
	res := make([]Tree, len(r.Commits))
	for i, c := range r.Commits {
		t := Tree{}
		if ps := c.stored(); len(ps) > 0 {
			t = res[ps[0]].Clone()
		}
		for _, ch := range c.Changes {
			if ch.Del {
				delete(t, string(ch.Path))
			}
		}
		for _, ch := range c.Changes {
			if !ch.Del {
				t.Set(string(ch.Path), Entry{ch.Mode, string(ch.Data)})
			}
		}
		if c.Blow != nil {
			c.Blow.apply(t)
		}
		res[i] = t
	}
	return res
}

// ValidPath reports whether git accepts the path in a tree.
func ValidPath(p string) bool {
	if p == "" || strings.Contains(p, "\x00") || len(p) > 2000 {
		return false
	}
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." || c == ".." {
			return false
		}
		l := strings.ToLower(c)
		if strings.HasPrefix(l, ".git") || strings.HasPrefix(l, "git~") {
			return false
		}
	}
	return true
}

func cquote(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Built is a repository on disk.
type Built struct {
	Dir    string // directory to give to the code under test
	GitDir string
	Hash   []string
	Index  map[string]int
	Repo   *Repo
	Trees  []Tree
}

const t0 = 1500000000

func (c *Commit) idents(i int) (a, co Ident) {
	w := c.When
	if w == 0 {
		w = t0 + int64(i)*60
	}
	a = Ident{Name: "A U Thor", Email: "a@example.com", When: w}
	co = Ident{Name: "C O Mitter", Email: "c@example.com", When: w}
	if c.Author != nil {
		a = *c.Author
	}
	if c.Committer != nil {
		co = *c.Committer
	}
	if a.TZ == "" {
		a.TZ = "+0000"
	}
	if co.TZ == "" {
		co.TZ = "+0000"
	}
	return
}

func (id Ident) line() string {
	n := string(id.Name)
	if n != "" {
		n += " "
	}
	return fmt.Sprintf("%s<%s> %d %s", n, id.Email, id.When, id.TZ)
}

// Stream is the fast-import input for commits from..; marks are index+1.
func (r *Repo) stream(trees []Tree, from int, hash []string) []byte {
	var b bytes.Buffer
	blob := map[string]int{}
	ref := func(i int) string {
		if i < from {
			return hash[i]
		}
		return ":" + strconv.Itoa(i+1)
	}
	nextMark := len(r.Commits) + 1
	for i := from; i < len(r.Commits); i++ {
		for _, p := range trees[i].Paths() {
			d := trees[i][p].Data
			if trees[i][p].Mode == "160000" {
				continue
			}
			if _, ok := blob[d]; !ok {
				blob[d] = nextMark
				fmt.Fprintf(&b, "blob\nmark :%d\ndata %d\n%s\n", nextMark, len(d), d)
				nextMark++
			}
		}
	}
	for i := from; i < len(r.Commits); i++ {
		c := &r.Commits[i]
		a, co := c.idents(i)
		fmt.Fprintf(&b, "reset refs/vtmp/x\n\ncommit refs/vtmp/x\nmark :%d\n", i+1)
		fmt.Fprintf(&b, "author %s\ncommitter %s\n", a.line(), co.line())
		if c.Encoding != "" {
			fmt.Fprintf(&b, "encoding %s\n", c.Encoding)
		}
		msg := string(c.Msg)
		if msg == "" {
			msg = "c" + strconv.Itoa(i) + "\n"
		}
		if msg == "\x00" {
			msg = ""
		}
		fmt.Fprintf(&b, "data %d\n%s\n", len(msg), msg)
		for k, p := range c.stored() {
			if k == 0 {
				fmt.Fprintf(&b, "from %s\n", ref(p))
			} else {
				fmt.Fprintf(&b, "merge %s\n", ref(p))
			}
		}
		b.WriteString("deleteall\n")
		for _, p := range trees[i].Paths() {
			e := trees[i][p]
			if e.Mode == "160000" {
				fmt.Fprintf(&b, "M 160000 %s %s\n", strings.TrimSpace(strings.TrimPrefix(e.Data, subproject)), cquote(p))
				continue
			}
			fmt.Fprintf(&b, "M %s :%d %s\n", e.Mode, blob[e.Data], cquote(p))
		}
		b.WriteString("\n")
	}
	b.WriteString("done\n")
	return b.Bytes()
}

func write(p string, data string) {
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		fw.Infraf("%v", err)
	}
	if err := os.WriteFile(p, []byte(data), 0666); err != nil {
		fw.Infraf("%v", err)
	}
}

// Skeleton creates an empty repository at dir.
func Skeleton(dir string, bare bool, head string) (gitDir string) {
	gitDir = dir
	if !bare {
		gitDir = filepath.Join(dir, ".git")
	}
	for _, d := range []string{"objects/pack", "objects/info", "refs/heads", "refs/tags", "info"} {
		if err := os.MkdirAll(filepath.Join(gitDir, d), 0777); err != nil {
			fw.Infraf("%v", err)
		}
	}
	write(filepath.Join(gitDir, "HEAD"), "ref: refs/heads/"+head+"\n")
	write(filepath.Join(gitDir, "config"), fmt.Sprintf("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = %v\n", bare))
	return
}

// Build creates the repository at dir.
func (r *Repo) Build(e *fw.Env, dir string, bare bool) *Built {
	b := &Built{Dir: dir, Repo: r, Index: map[string]int{}}
	b.GitDir = Skeleton(dir, bare, r.Head)
	b.Trees = r.Trees()
	b.importFrom(e, 0)
	b.WriteRefs(e)
	return b
}

func (b *Built) importFrom(e *fw.Env, from int) {
	r := b.Repo
	if from < len(r.Commits) {
		marks := filepath.Join(e.Dir, fmt.Sprintf("marks%d", from))
		in := r.stream(b.Trees, from, b.Hash)
		e.GitIn(b.GitDir, in, "--git-dir=.", "-c", "fastimport.unpackLimit=1", "-c", "core.ignorecase=false", "-c", "core.protectHFS=false", "-c", "core.protectNTFS=false", "fast-import", "--quiet", "--force", "--done", "--date-format=raw-permissive", "--export-marks="+marks)
		data, err := os.ReadFile(marks)
		if err != nil {
			fw.Infraf("%v", err)
		}
		hs := make([]string, len(r.Commits))
		copy(hs, b.Hash)
		for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			f := strings.Fields(l)
			if len(f) != 2 {
				continue
			}
			n, _ := strconv.Atoi(strings.TrimPrefix(f[0], ":"))
			if n >= 1 && n <= len(r.Commits) {
				hs[n-1] = f[1]
			}
		}
		b.Hash = hs
		os.RemoveAll(filepath.Join(b.GitDir, "refs", "vtmp"))
		os.Remove(marks)
	}
	for i := from; i < len(r.Commits); i++ {
		if r.Commits[i].Signed {
			b.sign(e, i)
		}
	}
	for i, h := range b.Hash {
		if len(h) != 40 {
			fw.Infraf("no hash for commit %d", i)
		}
		b.Index[h] = i
	}
}

// signature is not valid, git shows it all the same.
const signature = "gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEzBAABCAAdFiEE\n =abcd\n -----END PGP SIGNATURE-----\n"

// sign adds a signature to commit i, unless it has children.
func (b *Built) sign(e *fw.Env, i int) {
	for _, c := range b.Repo.Commits {
		for _, p := range c.stored() {
			if p == i {
				return
			}
		}
	}
	raw := string(b.Git(e, "cat-file", "commit", b.Hash[i]))
	k := strings.Index(raw, "\n\n")
	if k < 0 {
		fw.Infraf("unexpected commit %q", raw)
	}
	raw = raw[:k+1] + signature + raw[k+1:]
	b.Hash[i] = strings.TrimSpace(string(e.GitIn(b.GitDir, []byte(raw), "--git-dir=.", "hash-object", "-t", "commit", "-w", "--stdin")))
}

// Grow adds the commits of r that are not built yet (r starts with the
// commits already built) and moves the refs.
func (b *Built) Grow(e *fw.Env, r *Repo) {
	from := len(b.Hash)
	b.Repo = r
	b.Trees = r.Trees()
	b.importFrom(e, from)
	b.WriteRefs(e)
}

// WriteRefs writes HEAD and all refs, removing others.
func (b *Built) WriteRefs(e *fw.Env) {
	os.RemoveAll(filepath.Join(b.GitDir, "refs"))
	os.Remove(filepath.Join(b.GitDir, "packed-refs"))
	for _, d := range []string{"refs/heads", "refs/tags"} {
		os.MkdirAll(filepath.Join(b.GitDir, d), 0777)
	}
	r := b.Repo
	cut := ""
	for i, c := range r.Commits {
		if len(c.Cut) > 0 {
			cut += b.Hash[i] + "\n"
		}
	}
	os.Remove(filepath.Join(b.GitDir, "shallow"))
	if cut != "" {
		write(filepath.Join(b.GitDir, "shallow"), cut)
	}
	if r.Head == "" {
		write(filepath.Join(b.GitDir, "HEAD"), b.Hash[r.HeadAt]+"\n")
	} else {
		write(filepath.Join(b.GitDir, "HEAD"), "ref: refs/heads/"+r.Head+"\n")
		if r.HeadAt >= 0 {
			write(filepath.Join(b.GitDir, "refs", "heads", r.Head), b.Hash[r.HeadAt]+"\n")
		}
	}
	for _, f := range r.Refs {
		if f.Name == "refs/heads/"+r.Head && f.Sym == "" {
			continue
		}
		p := filepath.Join(b.GitDir, f.Name)
		if f.Sym != "" {
			write(p, "ref: "+f.Sym+"\n")
			continue
		}
		h := b.Hash[f.Commit]
		if f.Tag {
			name := f.Name[strings.LastIndexByte(f.Name, '/')+1:]
			obj := fmt.Sprintf("object %s\ntype commit\ntag %s\ntagger T <t@example.com> 1500000000 +0000\n\nmsg\n", h, name)
			h = strings.TrimSpace(string(e.GitIn(b.GitDir, []byte(obj), "--git-dir=.", "hash-object", "-t", "tag", "-w", "--stdin")))
		}
		write(p, h+"\n")
	}
}

// Git runs git in the repository.
func (b *Built) Git(e *fw.Env, args ...string) []byte {
	return e.Git(b.GitDir, append([]string{"--git-dir=."}, args...)...)
}

// Reachable returns the commits reachable from the given ones.
func (r *Repo) Reachable(from ...int) map[int]bool {
	res := map[int]bool{}
	var st []int
	st = append(st, from...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if res[x] {
			continue
		}
		res[x] = true
		st = append(st, r.Commits[x].Parents...)
	}
	return res
}

// Wanted is the set of commits a run has to cover.
func (r *Repo) Wanted(all bool) map[int]bool {
	from := []int{r.HeadAt}
	if all {
		for _, f := range r.Refs {
			if f.Sym == "" && !(f.Name == "refs/heads/"+r.Head) {
				from = append(from, f.Commit)
			}
		}
	}
	return r.Reachable(from...)
}
