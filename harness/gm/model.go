package gm

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/harness/fw"
)

// Flag says whether a file is reported as binary.
type Flag int

const (
	Text Flag = iota
	Binary
	Maybe // depends on which of several identical parents is followed
)

// State is what is known of a file in a commit.
type State struct {
	Flag Flag
	Raw  []string   // lines with their terminators
	Attr [][]string // allowed commits per line
	Wild bool       // attribution not determined
}

// Expect is a file that must be reported.
type Expect struct {
	Removed bool
	*State
}

type CommitModel struct {
	Hash     string
	Reported map[string]*Expect
	State    map[string]*State
	Raw      [][]RawEntry // per parent (one empty-tree entry list for a root)
}

// RawEntry is one entry of git's own raw change list.
type RawEntry struct {
	OldMode, NewMode string
	OldID, NewID     string
	Status           byte
	Score            string
	Old, New         string // Old == New unless renamed
}

type Model struct {
	B       *Built
	E       *fw.Env
	Commits []*CommitModel
	Stats   map[string]int
}

const emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"

// IsBin is git's rule for binary content.
func IsBin(s string) bool {
	if len(s) > 8000 {
		s = s[:8000]
	}
	return strings.IndexByte(s, 0) >= 0
}

// SplitRaw splits content into lines with terminators.
func SplitRaw(s string) (res []string) {
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(res, s)
		}
		res = append(res, s[:i+1])
		s = s[i+1:]
	}
	return
}

// Norm removes the line terminator and trailing carriage returns.
func Norm(s string) string {
	return strings.TrimRight(strings.TrimSuffix(s, "\n"), "\r")
}

// RawChanges asks git for the change lists of every commit and parent.
func (b *Built) RawChanges(e *fw.Env) [][][]RawEntry {
	tree := make([]string, len(b.Hash))
	{
		var in bytes.Buffer
		for _, h := range b.Hash {
			in.WriteString(h + "^{tree}\n")
		}
		out := e.GitIn(b.GitDir, in.Bytes(), "--git-dir=.", "cat-file", "--batch-check=%(objectname)")
		ls := strings.Split(strings.TrimSpace(string(out)), "\n")
		if len(ls) != len(b.Hash) {
			fw.Infraf("cat-file: %d lines for %d commits", len(ls), len(b.Hash))
		}
		for i, l := range ls {
			tree[i] = strings.TrimSpace(l)
		}
	}
	res := make([][][]RawEntry, len(b.Hash))
	type pair struct{ c, p int }
	var pairs []pair
	var in bytes.Buffer
	for i, c := range b.Repo.Commits {
		if len(c.Parents) == 0 {
			pairs = append(pairs, pair{i, 0})
			fmt.Fprintf(&in, "%s %s\n", emptyTree, tree[i])
			res[i] = make([][]RawEntry, 1)
			continue
		}
		res[i] = make([][]RawEntry, len(c.Parents))
		for k, p := range c.Parents {
			pairs = append(pairs, pair{i, k})
			fmt.Fprintf(&in, "%s %s\n", tree[p], tree[i])
		}
	}
	e.Git(b.GitDir, "--git-dir=.", "mktree", "--missing") // the empty tree object
	out := string(e.GitIn(b.GitDir, in.Bytes(), "--git-dir=.", "-c", "diff.renameLimit=10000", "diff-tree", "--stdin", "-r", "-M", "-l10000", "--raw", "-z", "--no-abbrev"))
	toks := strings.Split(out, "\x00")
	at := -1
	for i := 0; i < len(toks); {
		t := toks[i]
		for t != "" && t[0] != ':' {
			// header lines end in a newline even with -z
			at++
			if at >= len(pairs) || len(t) < 82 || t[81] != '\n' {
				fw.Infraf("unexpected diff-tree output %q", t)
			}
			t = t[82:]
		}
		if t == "" {
			i++
			continue
		}
		f := strings.Fields(t[1:])
		en := RawEntry{OldMode: f[0], NewMode: f[1], OldID: f[2], NewID: f[3], Status: f[4][0], Score: f[4][1:]}
		en.Old = toks[i+1]
		en.New = en.Old
		i += 2
		if en.Status == 'R' || en.Status == 'C' {
			en.New = toks[i]
			i++
		}
		pr := pairs[at]
		res[pr.c][pr.p] = append(res[pr.c][pr.p], en)
	}
	if at != len(pairs)-1 {
		fw.Infraf("diff-tree answered %d of %d", at+1, len(pairs))
	}
	return res
}

// BuildModel computes what history processing has to report.
func BuildModel(e *fw.Env, b *Built) *Model {
	m := &Model{B: b, E: e, Stats: map[string]int{}}
	raw := b.RawChanges(e)
	for i := range b.Repo.Commits {
		c := &CommitModel{Hash: b.Hash[i], Reported: map[string]*Expect{}, State: map[string]*State{}, Raw: raw[i]}
		m.Commits = append(m.Commits, c)
		if len(b.Repo.Commits[i].Parents) > 1 {
			m.merge(i, c)
		} else {
			m.regular(i, c)
		}
	}
	return m
}

func (m *Model) fresh(i int, data string) *State {
	if IsBin(data) {
		return &State{Flag: Binary, Raw: SplitRaw(data)}
	}
	s := &State{Raw: SplitRaw(data)}
	for range s.Raw {
		s.Attr = append(s.Attr, []string{m.B.Hash[i]})
	}
	return s
}

func (m *Model) regular(i int, c *CommitModel) {
	par := -1
	if ps := m.B.Repo.Commits[i].Parents; len(ps) == 1 {
		par = ps[0]
	}
	tree := m.B.Trees[i]
	if par >= 0 {
		for p, s := range m.Commits[par].State {
			if _, ok := tree[p]; ok {
				c.State[p] = s
			}
		}
	}
	for _, en := range c.Raw[0] {
		if en.Status == 'D' {
			c.Reported[en.Old] = &Expect{Removed: true}
			continue
		}
		data := tree[en.New].Data
		var s *State
		switch en.Status {
		case 'A', 'T':
			s = m.fresh(i, data)
		case 'M', 'R':
			old := m.Commits[par].State[en.Old]
			if old == nil {
				fw.Infraf("model: no state for %q", en.Old)
			}
			oldData := m.B.Trees[par][en.Old].Data
			s = m.changed(i, en.New, old, oldData, data)
		default:
			fw.Infraf("model: status %c", en.Status)
		}
		c.State[en.New] = s
		c.Reported[en.New] = &Expect{State: s}
	}
	for p := range tree {
		if c.State[p] == nil {
			fw.Infraf("model: nothing known of %q", p)
		}
	}
}

func (m *Model) changed(i int, path string, old *State, oldData, data string) *State {
	if oldData == data {
		return old
	}
	if IsBin(oldData) || IsBin(data) {
		return &State{Flag: Binary, Raw: SplitRaw(data)}
	}
	s := &State{Raw: SplitRaw(data)}
	switch {
	case old.Flag == Maybe || old.Wild:
		s.Wild = true
	case old.Flag == Binary:
		m.Stats["former-binary"]++
		for _, h := range m.Blame(i, path) {
			s.Attr = append(s.Attr, []string{h})
		}
		if len(s.Attr) != len(s.Raw) {
			fw.Infraf("model: blame gives %d lines for %d", len(s.Attr), len(s.Raw))
		}
	default:
		mp := m.Match(oldData, data)
		kept := false
		for k := range s.Raw {
			if mp[k] >= 0 {
				s.Attr = append(s.Attr, old.Attr[mp[k]])
				kept = true
			} else {
				s.Attr = append(s.Attr, []string{m.B.Hash[i]})
			}
		}
		if kept {
			m.Stats["kept"]++
		}
	}
	return s
}

// Blame is the commit git blame names for each line.
func (m *Model) Blame(i int, path string) (res []string) {
	out := string(m.B.Git(m.E, "blame", "--line-porcelain", m.B.Hash[i], "--", path))
	head := true
	for _, l := range strings.SplitAfter(out, "\n") {
		if l == "" {
			continue
		}
		if head {
			res = append(res, l[:40])
			head = false
			continue
		}
		if l[0] == '\t' {
			head = true
		}
	}
	return
}

func (m *Model) merge(i int, c *CommitModel) {
	ps := m.B.Repo.Commits[i].Parents
	tree := m.B.Trees[i]
	byPath := map[string][]*RawEntry{}
	for k := range ps {
		for j := range c.Raw[k] {
			en := &c.Raw[k][j]
			if en.Status == 'D' {
				if _, ok := tree[en.Old]; !ok {
					c.Reported[en.Old] = &Expect{Removed: true}
				}
				continue
			}
			if byPath[en.New] == nil {
				byPath[en.New] = make([]*RawEntry, len(ps))
			}
			byPath[en.New][k] = en
		}
	}
	for p := range tree {
		data := tree[p].Data
		ens := byPath[p]
		flagged, maybe := false, false
		var same []*State
		for k := range ps {
			ps := m.Commits[ps[k]].State
			if ens == nil || ens[k] == nil {
				if ps[p] == nil {
					fw.Infraf("model: merge: %q unknown in a parent", p)
				}
				same = append(same, ps[p])
				continue
			}
			en := ens[k]
			if en.Status == 'A' || en.Status == 'T' {
				if IsBin(data) {
					flagged = true
				}
				continue
			}
			oldData := m.B.Trees[m.B.Repo.Commits[i].Parents[k]][en.Old].Data
			if oldData != data && (IsBin(oldData) || IsBin(data)) {
				flagged = true
			}
			switch ps[en.Old].Flag {
			case Binary:
				flagged = true
			case Maybe:
				maybe = true
			}
		}
		switch {
		case flagged:
			s := &State{Flag: Binary, Raw: SplitRaw(data)}
			c.State[p] = s
			c.Reported[p] = &Expect{State: s}
			m.Stats["merge-binary"]++
		case maybe:
			s := &State{Flag: Maybe, Raw: SplitRaw(data), Wild: true}
			c.State[p] = s
			c.Reported[p] = &Expect{State: s}
			if len(same) > 0 {
				// may also be taken over unreported
				delete(c.Reported, p)
				c.Reported["?"+p] = nil
			}
		case len(same) > 0:
			c.State[p] = union(same)
		default:
			m.Stats["merge-resolved"]++
			s := &State{Raw: SplitRaw(data)}
			s.Attr = make([][]string, len(s.Raw))
			for k := range ps {
				en := ens[k]
				if en.Status == 'A' || en.Status == 'T' {
					continue
				}
				old := m.Commits[ps[k]].State[en.Old]
				if old.Wild {
					s.Wild = true
					continue
				}
				oldData := m.B.Trees[ps[k]][en.Old].Data
				mp := m.Match(oldData, data)
				for j := range s.Raw {
					if s.Attr[j] == nil && mp[j] >= 0 {
						s.Attr[j] = old.Attr[mp[j]]
					}
				}
			}
			for j := range s.Raw {
				if s.Attr[j] == nil {
					s.Attr[j] = []string{c.Hash}
				}
			}
			if s.Wild {
				s.Attr = nil
			}
			c.State[p] = s
			c.Reported[p] = &Expect{State: s}
		}
	}
}

func union(ss []*State) *State {
	first := ss[0]
	eq := true
	for _, s := range ss {
		if s != first {
			eq = false
		}
	}
	if eq {
		return first
	}
	r := &State{Flag: first.Flag, Raw: first.Raw}
	for _, s := range ss {
		if s.Flag != first.Flag {
			r.Flag = Maybe
		}
		if s.Wild {
			r.Wild = true
		}
	}
	if r.Flag == Maybe {
		r.Wild = true
	}
	if r.Wild || r.Flag == Binary {
		return r
	}
	for j := range first.Raw {
		set := map[string]bool{}
		for _, s := range ss {
			for _, h := range s.Attr[j] {
				set[h] = true
			}
		}
		var l []string
		for h := range set {
			l = append(l, h)
		}
		sort.Strings(l)
		r.Attr = append(r.Attr, l)
	}
	return r
}

// Match maps each line of new to the line of old git carries over, or -1.
func (m *Model) Match(old, new string) []int {
	o, n := SplitRaw(old), SplitRaw(new)
	if mp, ok := matchUnique(o, n); ok {
		m.Stats["match-unique"]++
		return mp
	}
	m.Stats["match-git"]++
	return GitMatch(m.E, m.B.GitDir, old, new)
}

func matchUnique(o, n []string) ([]int, bool) {
	at := map[string]int{}
	for i, l := range o {
		if _, ok := at[l]; ok {
			return nil, false
		}
		at[l] = i
	}
	seen := map[string]bool{}
	res := make([]int, len(n))
	last := -1
	for i, l := range n {
		if seen[l] {
			return nil, false
		}
		seen[l] = true
		k, ok := at[l]
		if !ok {
			res[i] = -1
			continue
		}
		if k < last {
			return nil, false
		}
		last = k
		res[i] = k
	}
	return res, true
}

// GitMatch is Match with git's full-context diff as the judge.
func GitMatch(e *fw.Env, gitDir, old, new string, opts ...string) []int {
	n := SplitRaw(new)
	res := make([]int, len(n))
	for i := range res {
		res[i] = -1
	}
	if old == "" || new == "" {
		return res
	}
	ha := e.GitIn(gitDir, []byte(old), "--git-dir=.", "hash-object", "-w", "--stdin")
	hb := e.GitIn(gitDir, []byte(new), "--git-dir=.", "hash-object", "-w", "--stdin")
	args := append([]string{"--git-dir=.", "diff", "--text", "--no-color", "--no-ext-diff", "-U1000000"}, opts...)
	out := string(e.Git(gitDir, append(args, strings.TrimSpace(string(ha)), strings.TrimSpace(string(hb)))...))
	if out == "" {
		for i := range res {
			res[i] = i
		}
		return res
	}
	body := false
	oi, ni := 0, 0
	for _, l := range SplitRaw(out) {
		if !body {
			if strings.HasPrefix(l, "@@ ") {
				body = true
			}
			continue
		}
		switch l[0] {
		case ' ':
			if ni >= len(res) {
				fw.Infraf("full-context diff too long")
			}
			res[ni] = oi
			oi++
			ni++
		case '+':
			ni++
		case '-':
			oi++
		case '\\':
		default:
			fw.Infraf("full-context diff line %q", l)
		}
	}
	if ni != len(n) {
		fw.Infraf("full-context diff has %d of %d lines", ni, len(n))
	}
	return res
}

// RawPair is git's change list between two commits.
func (b *Built) RawPair(e *fw.Env, from, to int) (res []RawEntry) {
	toks := strings.Split(string(e.Git(b.GitDir, "--git-dir=.", "-c", "diff.renameLimit=10000", "diff-tree", "-r", "-M", "--raw", "-z", "--no-abbrev", b.Hash[from], b.Hash[to])), "\x00")
	for i := 0; i+1 < len(toks); {
		f := strings.Fields(toks[i][1:])
		en := RawEntry{OldMode: f[0], NewMode: f[1], OldID: f[2], NewID: f[3], Status: f[4][0], Score: f[4][1:], Old: toks[i+1], New: toks[i+1]}
		i += 2
		if en.Status == 'R' || en.Status == 'C' {
			en.New = toks[i]
			i++
		}
		res = append(res, en)
	}
	return
}
