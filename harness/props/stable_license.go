//go:build !no_license

package props

import (
	"fmt"
	"sync"

	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// LicenseCase has files that are classified in several orders and at the same
// time. The answers must be those of the first time.
type LicenseCase struct {
	Files  []FileSpec `json:"files"`
	Orders [][]int    `json:"orders"`
	Par    int        `json:"par"`
}

func genLicenseCase(t *rapid.T) *LicenseCase {
	r := gm.R{T: t}
	c := &LicenseCase{Par: r.Int(0, 6)}
	for k := r.Int(1, 4); k > 0; k-- {
		f := FileSpec{Path: gm.B(gm.Pick(r, infoDirs) + infoNames[r.Int(29, 50)])}
		for j := r.Int(1, 3); j > 0; j-- {
			f.Lines = append(f.Lines, genLicense(r)...)
		}
		if r.P(1, 5) && len(c.Files) > 0 {
			f.Path = gm.Pick(r, c.Files).Path
		}
		c.Files = append(c.Files, f)
	}
	for k := r.Int(1, 3); k > 0; k-- {
		var o []int
		for j := r.Int(1, 6); j > 0; j-- {
			o = append(o, r.Int(0, len(c.Files)-1))
		}
		c.Orders = append(c.Orders, o)
	}
	return c
}

func runLicenseCase(e *fw.Env, c *LicenseCase) *fw.Verdict {
	v := &fw.Verdict{}
	get := func(p *fileinfo.Process, i int) string {
		f := &c.Files[i]
		lines := f.lines()
		info, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: string(f.Path), Lines: lines, Content: joinLines(lines)})
		l := "no licence"
		if info.License != nil {
			l = fmt.Sprintf("%+v", *info.License)
		}
		return fmt.Sprintf("language %q %v skip %q", info.Language, l, skip)
	}
	base := make([]string, len(c.Files))
	for i := range c.Files {
		base[i] = get(fileinfo.New(), i)
		if len(base[i]) > 0 {
			v.Class("files")
		}
	}
	check := func(what string, i int, got string) {
		if got != base[i] {
			v.Failf("%v: file %d %q: %v, the first time %v", what, i, c.Files[i].Path, got, base[i])
		}
	}
	for k, o := range c.Orders {
		p := fileinfo.New()
		for _, i := range o {
			check(fmt.Sprintf("order %d", k), i, get(p, i))
		}
	}
	if c.Par > 1 {
		res := make([][]string, c.Par)
		var wg sync.WaitGroup
		for j := 0; j < c.Par; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				p := fileinfo.New()
				for i := range c.Files {
					res[j] = append(res[j], get(p, i))
				}
			}(j)
		}
		wg.Wait()
		for j := range res {
			for i, s := range res[j] {
				check(fmt.Sprintf("caller %d of %d", j, c.Par), i, s)
			}
		}
		v.Class("parallel")
	}
	v.Nontrivial = len(c.Files) > 1
	return v
}

func init() {
	fw.AddSub(c17, "licence", 700, 10000, genLicenseCase, runLicenseCase)
}
