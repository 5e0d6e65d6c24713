//go:build !no_license

package props

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// genCliLicences gives a repository with licences, which are slow to recognise
// for a program that was just started.
func genCliLicences(t *rapid.T) *CliCase {
	r := gm.R{T: t}
	c := &CliCase{Licences: true}
	rp := &gm.Repo{Head: "main"}
	for k := r.Int(1, 3); k > 0; k-- {
		cm := gm.Commit{}
		if n := len(rp.Commits); n > 0 {
			cm.Parents = []int{n - 1}
		}
		for j := r.Int(1, 3); j > 0; j-- {
			f := FileSpec{Path: gm.B(fmt.Sprintf("%v%d%d/", gm.Pick(r, []string{"d", "vendor/d", "sp ace"}), k, j) + infoNames[r.Int(29, 50)]), Lines: genLicense(r)}
			cm.Changes = append(cm.Changes, gm.Change{Path: f.Path, Data: gm.B(joinLines(f.lines()))})
		}
		rp.Commits = append(rp.Commits, cm)
	}
	rp.HeadAt = len(rp.Commits) - 1
	c.Repos = []*gm.Repo{rp}
	c.Ents = []CliEnt{{Name: "r", Kind: "valid"}}
	c.Runs = []CliRun{{Cmd: "code"}}
	return c
}

func init() {
	fw.AddSub(fw.Props["C26"], "licences", 16, 250, genCliLicences, runCli)
}
