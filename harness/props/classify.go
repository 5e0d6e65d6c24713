//go:build !no_license

package props

import (
	"context"
	_ "embed"
	"fmt"
	"regexp"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	enry "gopkg.in/src-d/enry.v1"
	"gopkg.in/src-d/go-license-detector.v2/licensedb"
	"gopkg.in/src-d/go-license-detector.v2/licensedb/filer"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// C15: classification of files.

//go:embed data/exclusions.txt
var exclusionText string

// exclusions are the documented patterns, each on its own.
var exclusions = func() (res []*regexp.Regexp) {
	for _, l := range strings.Split(exclusionText, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		if i := strings.Index(l, "#"); i > 0 {
			l = strings.TrimSpace(l[:i])
		}
		l = strings.Replace(l, ".", "\\.", -1)
		l = strings.Replace(l, "*", "(.*?)", -1)
		res = append(res, regexp.MustCompile(l))
	}
	return
}()

func excluded(p string) bool {
	for _, x := range exclusions {
		if x.MatchString(p) {
			return true
		}
	}
	return false
}

// LineSpec is a line repeated.
type LineSpec struct {
	Text  gm.B `json:"t,omitempty"`
	Len   int  `json:"len,omitempty"` // padded to
	Pad   gm.B `json:"pad,omitempty"` // with, "a" if empty
	Times int  `json:"n,omitempty"`   // 0 is once
}

type FileSpec struct {
	Path  gm.B       `json:"p"`
	Lines []LineSpec `json:"l"`
	NoEOL bool       `json:"noeol,omitempty"`
}

type InfoCase struct {
	Files []FileSpec `json:"files"`
}

func (f *FileSpec) lines() (res [][]byte) {
	for _, l := range f.Lines {
		s := string(l.Text)
		if len(s) < l.Len {
			pad := string(l.Pad)
			if pad == "" {
				pad = "a"
			}
			s += strings.Repeat(pad, l.Len-len(s))[:l.Len-len(s)]
		}
		n := l.Times
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			res = append(res, []byte(s))
		}
	}
	return
}

func joinLines(lines [][]byte) []byte {
	var c []byte
	for _, l := range lines {
		c = append(append(c, l...), '\n')
	}
	return c
}

var infoDirs = []string{"", "", "", "dir1/", "src/", "a/src/", "src/vendor/", "vendor/", "x/vendor/", "node_modules/", "src/node_modules/", "dependencies/", "src/dependencies/", "deps/", "dist/", "src/dist/", "Godeps/", ".github/", ".circleci/", "src/com/foo/android/cache/", "cache/", "src/cache/", ".hidden/", "x/.hidden/", "third_party/", "extern/", "tests/fixtures/", "src/extern/", "debian/", "Src/", "srcs/", "./", "src", "LICENSE/", "README/", "LICENSE-x/", "go.mod/", "b c/"}
var infoNames = []string{
	"main.go", "a.go", "a.py", "a.js", "a.c", "a.h", "a.m", "a.pl", "a.rb", "a.java", "a.ts", "a.cs", "a.sql", "a.json", "a.xml", "a.yaml", "a.yml", "a.toml", "a.ini", "a.md", "a.txt", "a", "a.unknownext", "Makefile", "Dockerfile", "CMakeLists.txt", "Rakefile", "configure", "gradlew",
	"README", "README.md", "README.txt", "README.rst", "readme.md", "MYREADME", "README.go", "LICENSE", "LICENCE", "LICENSE.md", "LICENSE.txt", "LICENSE-MIT", "LICENSE-MIT.go", "license.txt", "UNLICENSE", "UNLICENCE.md", "COPYING", "COPYING.txt", "COPYING.go", "LICENSES", "xLICENSE", "LICENSE.go", "COPYINGS",
	".config", ".a.go", ".", "..go", "a.", ".gitignore", ".travis.yml", "x.travis.yml", "go.mod", "go.sum", "xgo.mod", "xgo.sum", "gopkg.lock", "Gopkg.lock", "Cargo.toml", "Gemfile", "Gemfile.lock", "x.gemspec", "package.json", "package-lock.json", "yarn.lock", "xyarn.lock", "yarn.lockx", "a.min.js", "a-min.js", "amin.js", "a.min.css", "a.js.map", "gulpfile.js", "Gruntfile", "Gruntfile.js", "tox.ini", "circle.yml", "a.class", "a.jar", "a.pyc", "build.gradle", "x/build.gradle", "gradle.properties", "fastlane/Appfile",
	"VERSION", "VERSION.go", "CHANGES.js", "CHANGELOG.md", "changes.go", "AUTHORS", "DCO", "DCOX.go", "NOTICE.go", "MAINTAINERS", "a.zip", "a.gz", "a.Z", "a.png", "a.svg", "a.Pdf", "a.Ppdf", "a.P.pdf", "a.pdf", "a.doc", "a.dot", "a.a", "a.o", "a.so", "a.so.go", "a.out", "a.app", "a.bin", "a.log", "a.bak", "a.orc", "a.parquet", "a.example", "robots.txt", "a.pem", "a.asc", "a.sln", "a.csproj", "Screengrabfile", "proguard-rules.pro", "proguard.go", "dexguard/a.go", "jquery.js", "jquery-1.7.1.js", "bootstrap.css", "bootstrap.min.css", "jquery.ui.js", "a.h.in", "Makefile.in", "Jenkinsfile", "a.iml", "a.d.ts", "prototype.js", "foundation.css", "a.coveragerc", ".coveragerc", "tsconfig.json", "x.eslintrc.js", "x.eslintrc.jsx", "Vagrantfile", "mocha.opts", "new\nline.go", "a.go\n", "LICENSE\n", "sp ace.py", "\xff.go", "\u00e9.rb",
}

var infoTexts = []string{"package main", "func main() {", "}", "#!/usr/bin/python", "#!/bin/sh", "#!/usr/bin/env node", "<?php", "<?xml version=\"1.0\"?>", "@interface X", "#import <x.h>", "#include <x>", "class A", "use strict;", "my $x;", ":- dynamic x/1.", "-*- mode: ruby -*-", "# vim: set ft=python:", "//", "", "\t", "x", "\x00", "\x00\x01bin", "\xff\xfe", "SELECT 1;", "MIT", "License: MIT", "## License", "Released under the MIT license", "GPLv3", "Apache License 2.0", "end", "module X where"}

var mitText = `Permission is hereby granted, free of charge, to any person obtaining a copy of this software and associated documentation files (the "Software"), to deal in the Software without restriction, including without limitation the rights to use, copy, modify, merge, publish, distribute, sublicense, and/or sell copies of the Software, and to permit persons to whom the Software is furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.`

var apacheText = `Licensed under the Apache License, Version 2.0 (the "License");
you may not use this file except in compliance with the License.
You may obtain a copy of the License at

    http://www.apache.org/licenses/LICENSE-2.0

Unless required by applicable law or agreed to in writing, software
distributed under the License is distributed on an "AS IS" BASIS,
WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
See the License for the specific language governing permissions and
limitations under the License.`

var iscText = `Permission to use, copy, modify, and/or distribute this software for any purpose with or without fee is hereby granted, provided that the above copyright notice and this permission notice appear in all copies.

THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.`

var bsdText = `Redistribution and use in source and binary forms, with or without modification, are permitted provided that the following conditions are met:

1. Redistributions of source code must retain the above copyright notice, this list of conditions and the following disclaimer.

2. Redistributions in binary form must reproduce the above copyright notice, this list of conditions and the following disclaimer in the documentation and/or other materials provided with the distribution.

3. Neither the name of the copyright holder nor the names of its contributors may be used to endorse or promote products derived from this software without specific prior written permission.

THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.`

var unlicenseText = `This is free and unencumbered software released into the public domain.

Anyone is free to copy, modify, publish, use, compile, sell, or distribute this software, either in source code form or as a compiled binary, for any purpose, commercial or non-commercial, and by any means.

In jurisdictions that recognize copyright laws, the author or authors of this software dedicate any and all copyright interest in the software to the public domain. We make this dedication for the benefit of the public at large and to the detriment of our heirs and successors. We intend this dedication to be an overt act of relinquishment in perpetuity of all present and future rights to this software under copyright law.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.

For more information, please refer to <http://unlicense.org/>`

var licenseTexts = []string{mitText, apacheText, iscText, bsdText, unlicenseText}

// genLicense gives the lines of a licence, perhaps damaged.
func genLicense(r gm.R) (res []LineSpec) {
	s := gm.Pick(r, licenseTexts)
	if r.P(1, 5) {
		s += "\n\n" + gm.Pick(r, licenseTexts)
	}
	if r.P(1, 2) {
		s = "Copyright 2018 Pinpoint\n\n" + s
	}
	if r.P(1, 2) {
		// less and less like the licence
		w := strings.SplitAfter(s, " ")
		for k := r.Int(1, 40); k > 0 && len(w) > 1; k-- {
			x := r.Int(0, len(w)-1)
			switch r.Int(0, 2) {
			case 0:
				w = append(w[:x:x], w[x+1:]...)
			case 1:
				w[x] = "something "
			default:
				w[x] += "else "
			}
		}
		s = strings.Join(w, "")
	}
	for _, l := range strings.Split(s, "\n") {
		res = append(res, LineSpec{Text: gm.B(l)})
	}
	return
}

func genFile(r gm.R) FileSpec {
	f := FileSpec{Path: gm.B(gm.Pick(r, infoDirs) + gm.Pick(r, infoNames))}
	if r.P(1, 2) {
		f.Path = gm.B(gm.Pick(r, infoDirs) + infoNames[r.Int(0, 28)])
	}
	lic := r.P(1, 6)
	if lic && r.P(2, 3) {
		f.Path = gm.B(gm.Pick(r, infoDirs) + infoNames[r.Int(29, 50)])
	}
	if r.P(1, 8) {
		// patterns in the middle of a path
		f.Path += gm.B("/" + gm.Pick(r, infoNames))
	}
	for k := r.Int(0, 4); k > 0; k-- {
		f.Lines = append(f.Lines, LineSpec{Text: gm.B(gm.Pick(r, infoTexts))})
	}
	if lic {
		f.Lines = append(f.Lines, genLicense(r)...)
	}
	switch r.Int(0, 12) {
	case 0:
		f.Lines = append(f.Lines, LineSpec{Text: gm.B(gm.Pick(r, []string{"x", "x", " ", "\t// x", "é"})), Len: gm.Pick(r, []int{1095, 1096, 1096, 1097, 1097, 2000}), Pad: gm.B(gm.Pick(r, []string{"", "", " ", "\t", "\r", "é", "\x00", "\xff"}))})
	case 1:
		if r.P(1, 2) {
			f.Lines = append(f.Lines, LineSpec{Text: gm.B(gm.Pick(r, []string{"", "x", " "})), Times: gm.Pick(r, []int{39990, 40001}) - r.Int(0, 3)})
			n := 0
			for _, l := range f.Lines {
				if l.Times == 0 {
					n++
				} else {
					n += l.Times
				}
			}
			if d := gm.Pick(r, []int{40000, 40001}) - n; d > 0 {
				f.Lines = append(f.Lines, LineSpec{Text: "y", Times: d})
			}
		}
	case 2:
		if r.P(1, 3) {
			// up to about the size limit
			n := len(joinLines(f.lines()))
			want := gm.Pick(r, []int{999999, 1000000, 1000000, 1000001, 1000001, 1000999, 1001000})
			ll := gm.Pick(r, []int{999, 999, 1096, 30})
			if ll == 30 {
				// too many lines as well
				ll = 20
			}
			k := (want - n) / (ll + 1)
			f.Lines = append(f.Lines, LineSpec{Text: "z", Len: ll, Times: k - 1})
			if rest := want - len(joinLines(f.lines())) - 1; rest >= 0 {
				for rest > 1000 {
					f.Lines = append(f.Lines, LineSpec{Len: 500})
					rest -= 501
				}
				f.Lines = append(f.Lines, LineSpec{Len: rest})
			}
		}
	}
	return f
}

// similarPath differs a little from p.
func similarPath(r gm.R, p gm.B) gm.B {
	s := string(p)
	i := r.Int(0, len(s))
	switch r.Int(0, 6) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToLower(s)
	case 2:
		s = s[:i] + strings.ToUpper(s[i:])
	case 3:
		s = s[strings.LastIndex(s, "/")+1:]
	case 4:
		s = gm.Pick(r, infoDirs) + s
	case 5:
		s = s[:i] + gm.Pick(r, []string{"/", ".", "x", "-", "\n"}) + s[i:]
	default:
		if i < len(s) {
			s = s[:i] + s[i+1:]
		}
	}
	return gm.B(s)
}

func genInfo(t *rapid.T) *InfoCase {
	r := gm.R{T: t}
	c := &InfoCase{}
	long := ""
	if r.P(1, 8) {
		// a long directory shared by several files
		long = strings.Repeat(gm.Pick(r, []string{"directory/", "a/src/", strings.Repeat("component", 20) + "/"}), r.Int(5, 16))
	}
	for k := r.Int(2, 10); k > 0; k-- {
		f := genFile(r)
		if len(c.Files) > 0 && r.P(1, 4) {
			// same path, other content
			f.Path = gm.Pick(r, c.Files).Path
		} else if len(c.Files) > 0 && r.P(1, 5) {
			f.Lines = gm.Pick(r, c.Files).Lines
		}
		if long != "" && r.P(3, 4) && !strings.HasPrefix(string(f.Path), long) {
			f.Path = gm.B(long) + f.Path
		}
		if len(c.Files) > 0 && r.P(1, 6) {
			f.Path = similarPath(r, gm.Pick(r, c.Files).Path)
		}
		c.Files = append(c.Files, f)
	}
	return c
}

type memFile struct {
	name string
	data []byte
}

func (m *memFile) ReadFile(string) ([]byte, error)      { return m.data, nil }
func (m *memFile) ReadDir(string) ([]filer.File, error) { return []filer.File{{Name: m.name}}, nil }
func (m *memFile) Close()                               {}

// licenseNamed says if the name is that of a licence or readme.
func licenseNamed(p string) bool {
	if i := strings.Index(p, "LICENSE-"); i >= 0 && !strings.Contains(p[i:], "\n") {
		return true
	}
	for _, ext := range []string{"", ".md", ".txt"} {
		for _, n := range []string{"LICENSE", "LICENCE", "README", "COPYING", "UNLICENSE", "UNLICENCE"} {
			if strings.HasSuffix(p, n+ext) {
				return true
			}
		}
	}
	// LICENSE-x\ny.md does not occur
	return false
}

type infoWant struct {
	Class, Lang, Skip, License string
}

var skipTexts = map[string]string{"size": "File size was ", "license": "File is a license file", "config": "File was a config file", "dot": "File was a dot file", "excluded": "File was on an exclusion list", "vendored": "File was a vendored file", "lines": "File has more than ", "width": "File has a line width of ", "unknown": "Language was unknown"}

func wantInfo(path string, lines [][]byte, content []byte) (w infoWant) {
	if len(content) > 1000000 {
		w.Class = "size"
		return
	}
	if licenseNamed(path) {
		kv, err := licensedb.Detect(&memFile{path, content})
		if err == nil {
			var best string
			var conf float32 = -1
			for k, x := range kv {
				if x > conf || x == conf && k < best {
					best, conf = k, x
				}
			}
			if conf >= 0.85 {
				w.Class, w.License = "license", fmt.Sprint(best, conf)
				return
			}
		}
	}
	wide := false
	for _, l := range lines {
		wide = wide || len(l) > 1096
	}
	switch {
	case enry.IsConfiguration(path):
		w.Class = "config"
	case enry.IsDotFile(path):
		w.Class = "dot"
	case excluded(path):
		w.Class = "excluded"
	case enry.IsVendor(path) && !strings.HasPrefix(path, "src/"):
		w.Class = "vendored"
	case len(lines) > 40000:
		w.Class = "lines"
	case wide:
		w.Class = "width"
	default:
		w.Lang = enry.GetLanguage(path, content)
		if w.Lang == "" {
			w.Class = "unknown"
		}
	}
	return
}

func checkInfo(v *fw.Verdict, what string, w infoWant, lang string, lic *fileinfo.License, skip string) {
	l := ""
	if lic != nil {
		l = fmt.Sprint(lic.Name, lic.Confidence)
	}
	ok := lang == w.Lang && l == w.License
	if w.Class == "" {
		ok = ok && skip == ""
	} else {
		ok = ok && strings.HasPrefix(skip, skipTexts[w.Class])
	}
	if !ok {
		v.Failf("%v: language %q licence %q skipped %q, want language %q licence %q skipped for %q", what, lang, l, skip, w.Lang, w.License, skipTexts[w.Class])
	}
	if w.Class == "" {
		w.Class = "analysed"
	}
	v.Class(w.Class)
}

func runInfo(e *fw.Env, c *InfoCase) *fw.Verdict {
	v := &fw.Verdict{}
	p := fileinfo.New()
	n := 0
	for k := range c.Files {
		f := &c.Files[k]
		lines := f.lines()
		content := joinLines(lines)
		if f.NoEOL && len(content) > 0 {
			content = content[:len(content)-1]
		}
		w := wantInfo(string(f.Path), lines, content)
		info, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: string(f.Path), Lines: lines, Content: content})
		checkInfo(v, fmt.Sprintf("file %d %q (%d bytes, %d lines)", k, f.Path, len(content), len(lines)), w, info.Language, info.License, skip)
		if w.Class != "" || w.Lang != "" {
			n++
		}
	}
	v.Nontrivial = v.Classes["analysed"] > 0 && n > v.Classes["analysed"]
	return v
}

func genInfoRepo(t *rapid.T) *InfoCase {
	c := genInfo(t)
	for i := range c.Files {
		for j := range c.Files[i].Lines {
			// binary files have no content to classify
			l := &c.Files[i].Lines[j]
			l.Text = gm.B(strings.ReplaceAll(string(l.Text), "\x00", "0"))
			if l.Pad == "\x00" || l.Pad == "\r" {
				l.Pad = "0"
			}
		}
	}
	return c
}

// sameSize gives other lines of the same lengths.
func sameSize(lines [][]byte, k int) (res [][]byte) {
	for i, l := range lines {
		t := infoTexts[(i*7+k*5)%len(infoTexts)]
		for j := 1; (len(t) > len(l) || strings.Contains(t, "\x00")) && j < len(infoTexts); j++ {
			t = infoTexts[(i*7+k*5+j)%len(infoTexts)]
		}
		if len(t) > len(l) || len(l) > 300 || strings.Contains(t, "\x00") {
			res = append(res, l)
			continue
		}
		res = append(res, []byte(t+strings.Repeat(" ", len(l)-len(t))))
	}
	return
}

func runInfoRepo(e *fw.Env, c *InfoCase) *fw.Verdict {
	v := &fw.Verdict{}
	// the same files again with as many bytes and lines
	rp := &gm.Repo{Head: "main", Commits: []gm.Commit{{}, {Parents: []int{0}}, {Parents: []int{1}}}, HeadAt: 2}
	files := map[string]bool{}
	want := map[string][][]byte{} // commit number and path
	for k := range c.Files {
		f := &c.Files[k]
		p := string(f.Path)
		if !gm.ValidPath(p) {
			continue
		}
		clash := false
		for q := range files {
			clash = clash || q == p || strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/")
		}
		if clash {
			continue
		}
		files[p] = true
		lines := f.lines()
		old := ""
		for n := range rp.Commits {
			data := joinLines(lines)
			if f.NoEOL && len(data) > 0 {
				data = data[:len(data)-1]
			}
			if n == 0 || string(data) != old {
				rp.Commits[n].Changes = append(rp.Commits[n].Changes, gm.Change{Path: f.Path, Data: gm.B(data)})
				want[fmt.Sprint(n, " ", p)] = lines
			}
			if len(data) > 30000 {
				break
			}
			old = string(data)
			lines = sameSize(lines, n+len(p))
		}
	}
	b := rp.Build(e, e.Sub("repo"), true)
	res, err := ripsrc.New(ripsrc.Opts{RepoDir: b.Dir, Logger: noLog{}, CheckpointsDir: e.Sub("checkpoints")}).CodeSlice(context.Background())
	if err != nil {
		v.Failf("%v", err)
		return v
	}
	seen := map[string]bool{}
	for k := range res {
		r := &res[k]
		at, ok := b.Index[r.Commit.SHA]
		k := fmt.Sprint(at, " ", r.Filename)
		lines, ok2 := want[k]
		if !ok || !ok2 || seen[k] {
			v.Failf("unexpected record for commit %d %q", at, r.Filename)
			return v
		}
		seen[k] = true
		v.ClassIf(at > 0, "rewritten")
		content := joinLines(lines)
		w := wantInfo(r.Filename, lines, content)
		checkInfo(v, fmt.Sprintf("commit %d %q (%d bytes, %d lines)", at, r.Filename, len(content), len(lines)), w, r.Language, r.License, r.Skipped)
		if w.Class == "" && len(r.Lines) != len(lines) || w.Class != "" && len(r.Lines) != 0 {
			v.Failf("%q has %d lines", r.Filename, len(r.Lines))
		}
	}
	if len(seen) != len(want) {
		v.Failf("%d records for %d files", len(seen), len(want))
	}
	v.Nontrivial = v.Classes["analysed"] > 0 && len(v.Classes) > 1
	return v
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C15", Rule: "files of which some are analysed and some are skipped"})
	fw.AddSub(p, "files", 8000, 120000, genInfo, runInfo)
	fw.AddSub(p, "repository", 1000, 15000, genInfoRepo, runInfoRepo)
}
