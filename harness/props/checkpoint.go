package props

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"encoding/binary"

	"pgregory.net/rapid"

	"verif/harness/cpdb"
	"verif/harness/fw"
	"verif/harness/gm"
	"verif/harness/pt"
)

const (
	xxP1 = 11400714785074694791
	xxP2 = 14029467366897019727
)

// collide returns two 64-byte strings with the same XXH64, made from seed.
func collide(seed uint64) (string, string) {
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - xxP2*inv
	}
	round := func(v, x uint64) uint64 { return bits.RotateLeft64(v+x*xxP2, 31) * uint64(xxP1) }
	a, b := make([]byte, 64), make([]byte, 64)
	for i := 0; i < 64; i += 8 {
		x := seed*0x9e3779b97f4a7c15 + uint64(i)*0x1234567
		binary.LittleEndian.PutUint64(a[i:], x)
		binary.LittleEndian.PutUint64(b[i:], x)
	}
	x1 := binary.LittleEndian.Uint64(a)
	x2 := x1 ^ (seed<<8 | 1)
	binary.LittleEndian.PutUint64(b, x2)
	p1, p2 := uint64(xxP1), uint64(xxP2)
	v := p1 + p2
	va, vb := round(v, x1), round(v, x2)
	// second stripe, same lane
	y := binary.LittleEndian.Uint64(a[32:])
	binary.LittleEndian.PutUint64(b[32:], y+(va-vb)*inv)
	return string(a), string(b)
}

var cpData = []string{"", "a", "a ", "a\n", "\x00", "\xff\xfe", "}", "\r", "x = 1", "x = 2", "\u00e9", "@@ -1 +1 @@"}
var cpPaths = []string{"a", "b/c", "a b", "\xff", "\u00e9", "a\nb", "x", "y", "", "longer/path/file.go", strings.Repeat("x", 300), strings.Repeat("x", 300) + "2", strings.Repeat("dir/", 1100) + "a", strings.Repeat("dir/", 1100) + "b"}

func genDB(r gm.R, big bool) *cpdb.DB {
	d := &cpdb.DB{}
	var hs []fw.B
	for i, n := 0, r.Int(0, 6); i < n; i++ {
		hs = append(hs, fw.B(fmt.Sprintf("%040x", i*7919+r.Int(0, 3))))
	}
	for i := 0; i < r.Int(0, 1); i++ {
		hs = append(hs, fw.B(gm.Pick(r, []string{"c1", "x", "\xff", "a b"})))
	}
	commit := func() fw.B {
		if len(hs) == 0 || r.P(1, 8) {
			return fw.B(gm.Pick(r, []string{"", "zz", "0000000000000000000000000000000000000000"}))
		}
		return gm.Pick(r, hs)
	}
	max := 8
	if big {
		max = 60
	}
	for i, n := 0, r.Int(0, max); i < n; i++ {
		l := cpdb.Line{Commit: commit()}
		switch r.Int(0, 9) {
		case 0:
			a, b := collide(uint64(r.Int(1, 5)))
			l.Data = fw.B(a)
			if r.P(1, 2) {
				l.Data = fw.B(b)
			}
			if r.P(1, 3) {
				l.Data = l.Data + "tail"
			}
		case 1:
			l.Data = fw.B(strings.Repeat(gm.Pick(r, cpData), r.Int(1, 200)))
		case 2:
			if big && r.P(1, 4) {
				s := make([]byte, r.Int(1, 80)*1000)
				x := uint32(r.Int(1, 1000))
				for k := range s {
					x = x*1664525 + 1013904223
					s[k] = byte(x >> 24)
				}
				l.Data = fw.B(s)
			}
		default:
			l.Data = fw.B(gm.Pick(r, cpData))
		}
		d.Lines = append(d.Lines, l)
	}
	for i, n := 0, r.Int(1, 6); i < n; i++ {
		f := cpdb.File{Commit: commit(), Binary: r.P(1, 5)}
		if len(d.Lines) > 0 && !f.Binary {
			for k := r.Int(0, 8); k > 0; k-- {
				f.Lines = append(f.Lines, r.Int(0, len(d.Lines)-1))
			}
			if big && r.P(1, 10) {
				f.Times = r.Int(100, 9000)
			}
		}
		d.Files = append(d.Files, f)
	}
	for _, h := range hs {
		c := cpdb.Commit{Hash: h}
		for k := r.Int(0, 5); k > 0; k-- {
			c.Entries = append(c.Entries, cpdb.Entry{Path: fw.B(gm.Pick(r, cpPaths)), File: r.Int(0, len(d.Files)-1)})
		}
		d.Commits = append(d.Commits, c)
	}
	d.Last = fw.B(gm.Pick(r, []string{"c1", "0123456789012345678901234567890123456789", "other", "c1 ", "c"}))
	if len(hs) > 0 && r.P(1, 2) {
		d.Last = gm.Pick(r, hs)
	}
	return d
}

func shared(d *cpdb.DB) bool {
	n := map[int]int{}
	for _, c := range d.Commits {
		for _, e := range c.Entries {
			n[e.File]++
			if n[e.File] > 1 && len(d.Files[e.File].Lines) > 0 {
				return true
			}
		}
	}
	return false
}

func genCpBulk(t *rapid.T) *CpCase {
	r := gm.R{T: t}
	c := &CpCase{}
	for k := r.Int(1, 2); k > 0; k-- {
		b := &cpdb.Bulk{Seed: r.Int(1, 1<<20), Commits: 1, Files: 1, Lines: r.Int(0, 3), Kinds: r.Int(1, 30)}
		switch r.Int(0, 3) {
		case 0:
			b.Commits, b.Files = r.Int(1000, 5000), r.Int(0, 20)
		case 1:
			b.Files, b.Commits = r.Int(1000, 20000), r.Int(1, 4)
		case 2:
			b.Lines, b.Files, b.Kinds = r.Int(30000, 140000), r.Int(1, 3), r.Int(1, 140000)
		default:
			b.Commits, b.Files, b.Lines, b.Kinds = r.Int(10, 100), r.Int(10, 100), r.Int(10, 400), r.Int(1, 2000)
		}
		d := genDB(r, false)
		d.Bulk = b
		c.DBs = append(c.DBs, d)
	}
	return c
}

// CpCase is a sequence of writes to one directory.
type CpCase struct {
	DBs  []*cpdb.DB `json:"dbs"`
	Junk []CpJunk   `json:"junk,omitempty"`
	Want []fw.B     `json:"want"` // commits asked for
}

// CpJunk is a file that is in the way before write number At.
type CpJunk struct {
	At   int  `json:"at"`
	Path fw.B `json:"p"`
	Data fw.B `json:"d,omitempty"`
}

func genCp(t *rapid.T) *CpCase {
	r := gm.R{T: t}
	c := &CpCase{}
	for k := r.Int(1, 3); k > 0; k-- {
		c.DBs = append(c.DBs, genDB(r, r.P(1, 4)))
	}
	for k := r.Int(0, 2); k > 0; k-- {
		p := gm.Pick(r, []string{"tmp/repo.tmp", "tmp/repo", "tmp/x/y", "checkpoint/extra", "checkpoint/lines", "checkpoint/line-data.tmp", "checkpoint/checkpoint-version", "tmp/checkpoint-version", "checkpoint/x/y", "unrelated"})
		c.Junk = append(c.Junk, CpJunk{At: r.Int(0, 2), Path: fw.B(p), Data: fw.B(gm.Pick(r, []string{"", "junk", "c1"}))})
	}
	for k := r.Int(0, 3); k > 0; k-- {
		c.Want = append(c.Want, fw.B(gm.Pick(r, []string{"c1", "other", "c2", "c1 ", "c", "0123456789012345678901234567890123456789", "0123456789", "x", "\n"})))
	}
	for k := r.Int(0, 3); k > 0; k-- {
		c.Want = append(c.Want, resembling(r, gm.Pick(r, c.DBs).Last))
	}
	return c
}

// resembling returns a name that is easily taken for s.
func resembling(r gm.R, s fw.B) fw.B {
	x := string(s)
	switch r.Int(0, 6) {
	case 0:
		x = x[:r.Int(0, len(x))]
	case 1:
		x = x[r.Int(0, len(x)):]
	case 2:
		x = strings.ToUpper(x)
	case 3:
		x += gm.Pick(r, []string{" ", "\n", "\x00", "0", "^", "~0", x})
	case 4:
		x = gm.Pick(r, []string{" ", "\n", "x", "0", x}) + x
	case 5:
		if len(x) > 0 {
			b := []byte(x)
			b[r.Int(0, len(b)-1)] ^= byte(1 << uint(r.Int(0, 7)))
			x = string(b)
		}
	default:
		b := []byte(x)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		x = string(b)
	}
	return fw.B(x)
}

func runCp(e *fw.Env, c *CpCase) *fw.Verdict {
	v := &fw.Verdict{}
	dir := filepath.Join(e.Dir, "deep", "cp")
	absent := func(what string) {
		for _, w := range []string{"", "c1"} {
			if r, err := cpdb.Read(dir, w); err == nil {
				v.Failf("%v: a read succeeds, %d commits", what, len(r))
			} else if len(r) != 0 {
				v.Failf("%v: a failed read returns data", what)
			}
		}
	}
	absent("nothing written")
	os.MkdirAll(dir, 0777)
	absent("empty directory")
	for k, d := range c.DBs {
		for _, j := range c.Junk {
			if j.At == k {
				p := filepath.Join(dir, string(j.Path))
				os.MkdirAll(filepath.Dir(p), 0777)
				os.WriteFile(p, []byte(j.Data), 0666)
			}
		}
		if err := d.Write(dir); err != nil {
			v.Failf("write %d: %v", k+1, err)
			return v
		}
		for _, w := range append([]fw.B{"", d.Last}, c.Want...) {
			got, err := cpdb.Read(dir, string(w))
			if w != "" && w != d.Last {
				v.Class("wrong-commit")
				if err == nil {
					v.Failf("write %d: checkpoint of %q is read for %q", k+1, d.Last, w)
				} else if len(got) != 0 {
					v.Failf("write %d: read for %q fails and returns data", k+1, w)
				}
				continue
			}
			if err != nil {
				v.Failf("write %d: read for %q fails: %v", k+1, w, err)
				return v
			}
			if s := d.Diff(got); s != "" {
				v.Failf("write %d, read for %q: %v", k+1, w, s)
				return v
			}
		}
		if shared(d) {
			v.Nontrivial = true
			v.Class("shared-files")
		}
		for _, cm := range d.Commits {
			v.ClassIf(len(cm.Entries) == 0, "commits-without-files")
		}
		v.ClassIf(len(d.Commits) == 0, "empty-databases")
		n := 0
		for _, l := range d.Lines {
			if len(l.Data) >= 64 && len(l.Data) <= 68 {
				n++
			}
		}
		v.ClassIf(n >= 2, "colliding-lines")
		if k := d.Bulk; k != nil {
			v.Nontrivial = true
			v.ClassIf(k.Commits >= 1000, "over-1000-commits")
			v.ClassIf(k.Files >= 1000, "over-1000-files")
			v.ClassIf(k.Lines >= 30000, "over-30000-lines")
		}
	}
	v.ClassN("writes", len(c.DBs))
	return v
}

// ---- C06

type CrashCase struct {
	Old  *cpdb.DB `json:"old,omitempty"`
	New  *cpdb.DB `json:"new"`
	Junk []CpJunk `json:"junk,omitempty"`
	// Only is one fault to replay; nil for all.
	Errnos []int `json:"errnos"`
}

func genCrash(t *rapid.T) *CrashCase {
	r := gm.R{T: t}
	c := &CrashCase{New: genDB(r, r.P(1, 2))}
	if r.P(4, 5) {
		c.Old = genDB(r, r.P(1, 2))
		if r.P(1, 4) {
			c.Old.Last = c.New.Last
		}
	}
	if r.P(1, 4) {
		c.Junk = append(c.Junk, CpJunk{Path: fw.B(gm.Pick(r, []string{"tmp/repo", "tmp/line-data.tmp", "tmp/checkpoint-version", "tmp/lines"})), Data: "junk"})
	}
	c.Errnos = []int{int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EACCES)}[r.Int(0, 2):][:1]
	return c
}

func copyDir(from, to string) {
	filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		q := to + strings.TrimPrefix(p, from)
		if fi.IsDir() {
			os.MkdirAll(q, 0777)
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			err = os.WriteFile(q, b, 0666)
		}
		if err != nil {
			fw.Infraf("copy: %v", err)
		}
		return nil
	})
}

func runCrash(e *fw.Env, c *CrashCase) *fw.Verdict {
	v := &fw.Verdict{}
	exe, err := os.Executable()
	if err != nil {
		fw.Infraf("%v", err)
	}
	cpw := filepath.Join(filepath.Dir(exe), "cpw")
	base := filepath.Join(e.Dir, "base")
	os.MkdirAll(base, 0777)
	if c.Old != nil {
		if err := c.Old.Write(base); err != nil {
			v.Failf("write of the old checkpoint: %v", err)
			return v
		}
	}
	for _, j := range c.Junk {
		p := filepath.Join(base, string(j.Path))
		os.MkdirAll(filepath.Dir(p), 0777)
		os.WriteFile(p, []byte(j.Data), 0666)
	}
	js, _ := json.Marshal(c.New)
	dbf := filepath.Join(e.Dir, "new.json")
	if err := os.WriteFile(dbf, js, 0666); err != nil {
		fw.Infraf("%v", err)
	}
	dir := filepath.Join(e.Dir, "cp")
	run := func(f pt.Fault) *pt.Result {
		os.RemoveAll(dir)
		copyDir(base, dir)
		r, err := pt.Run([]string{cpw, dbf, dir}, dir, f, 60*time.Second)
		if err != nil {
			fw.Infraf("trace: %v", err)
		}
		if r.Endless {
			panic(fmt.Sprintf("writing the checkpoint does not end; %d file operations, first %q", len(r.Ops), r.Ops[:min(len(r.Ops), 80)]))
		}
		if r.Exit == 4 || r.Exit == -2 {
			fw.Infraf("writer: %v", r.Stderr)
		}
		return r
	}
	state := func() (string, string) {
		// what a reader that asks for any of the commits gets
		res := ""
		for _, w := range []string{"", "new", "old"} {
			x := w
			if w == "new" {
				x = string(c.New.Last)
			}
			if w == "old" {
				if c.Old == nil {
					continue
				}
				x = string(c.Old.Last)
			}
			got, err := cpdb.Read(dir, x)
			if err != nil {
				res += "error "
				if len(got) != 0 {
					return res, "a failed read returns data"
				}
				continue
			}
			isNew, isOld := c.New.Diff(got), "no old checkpoint"
			if c.Old != nil {
				isOld = c.Old.Diff(got)
			}
			if isNew == "" && (w != "old" || c.Old.Last == c.New.Last) {
				res += "new "
				continue
			}
			if isOld == "" && (w != "new" || c.Old.Last == c.New.Last) {
				res += "old "
				continue
			}
			return res, fmt.Sprintf("a read for %q gives neither the old checkpoint (%v) nor the new one (%v)", x, isOld, isNew)
		}
		return res, ""
	}
	r0 := run(pt.Fault{})
	if r0.Exit != 0 {
		v.Failf("undisturbed write exits with %d: %.300s", r0.Exit, r0.Stderr)
		return v
	}
	got, err := cpdb.Read(dir, string(c.New.Last))
	if err != nil {
		v.Failf("read after an undisturbed write: %v", err)
		return v
	}
	if s := c.New.Diff(got); s != "" {
		v.Failf("read after an undisturbed write: %v", s)
		return v
	}
	v.ClassN("operations", len(r0.Ops))
	if len(r0.Ops) < 12 {
		fw.Infraf("only %d operations seen: %v", len(r0.Ops), r0.Ops)
	}
	var faults []pt.Fault
	for i := range r0.Ops {
		faults = append(faults, pt.Fault{At: i + 1, Mode: "kill"})
		if strings.HasPrefix(r0.Ops[i], "write") || strings.HasPrefix(r0.Ops[i], "pwrite") {
			faults = append(faults, pt.Fault{At: i + 1, Mode: "partial"}, pt.Fault{At: i + 1, Mode: "short"})
		}
		for _, en := range c.Errnos {
			faults = append(faults, pt.Fault{At: i + 1, Mode: "errno", Err: syscall.Errno(en)})
		}
	}
	for _, f := range faults {
		what := fmt.Sprintf("%v at operation %d", f.Mode, f.At)
		if f.Mode == "errno" {
			what = fmt.Sprintf("%v at operation %d", f.Err, f.At)
		}
		r := run(f)
		if f.At <= len(r.Ops) {
			what += " (" + r.Ops[f.At-1] + ")"
		}
		if !r.Hit {
			v.Class("not-reached")
			continue
		}
		v.Class("fault-" + f.Mode)
		switch r.Exit {
		case 0:
			if f.Mode == "kill" || f.Mode == "partial" {
				fw.Infraf("killed writer exits with 0")
			}
			got, err := cpdb.Read(dir, string(c.New.Last))
			if err != nil {
				v.Failf("%v: the write reports success, a read fails: %v", what, err)
				return v
			}
			if s := c.New.Diff(got); s != "" {
				v.Failf("%v: the write reports success, but %v", what, s)
				return v
			}
			v.Class("overcome")
		case 3:
			v.Class("reported")
		case -1:
			if f.Mode != "kill" && f.Mode != "partial" {
				v.Failf("%v: the writer was killed: %.300s", what, r.Stderr)
				return v
			}
		default:
			v.Failf("%v: the writer crashes (exit %d): %.500s", what, r.Exit, r.Stderr)
			return v
		}
		s, bad := state()
		if bad != "" {
			v.Failf("%v: %v", what, bad)
			return v
		}
		v.Class("state-" + strings.Fields(s)[0])
		// and again
		if err := c.New.Write(dir); err != nil {
			v.Failf("%v: repeating the write fails: %v", what, err)
			return v
		}
		got, err := cpdb.Read(dir, string(c.New.Last))
		if err != nil {
			v.Failf("%v: read after repeating the write: %v", what, err)
			return v
		}
		if s := c.New.Diff(got); s != "" {
			v.Failf("%v: after repeating the write: %v", what, s)
			return v
		}
	}
	v.Nontrivial = c.Old != nil && len(c.New.Commits) > 0 && len(c.Old.Commits) > 0
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C05", Rule: "a sequence of writes with a database in which several paths share a non-empty file, or that has thousands of commits, files or lines"})
	fw.AddSub(p, "roundtrip", 12000, 200000, genCp, runCp)
	fw.AddSub(p, "bulk", 160, 2400, genCpBulk, runCp)
	p = fw.Register(&fw.Prop{ID: "C06", Level: "exploration", Rule: "an old and a new database, both with commits, with every fault position of the write executed"})
	fw.AddSub(p, "crash", 96, 1600, genCrash, runCrash)
}
