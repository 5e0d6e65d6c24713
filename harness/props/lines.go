package props

import (
	"context"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc"
	"pgregory.net/rapid"

	"verif/harness/fw"
	"verif/harness/gm"
)

// C14: line classes.

type SrcLine struct {
	Text gm.B `json:"t"`
	// Class is the obvious class of the line: code, comment or blank, or
	// empty if the file is arbitrary text.
	Class string `json:"c,omitempty"`
}

type SrcFile struct {
	Path  gm.B      `json:"p"`
	Lang  string    `json:"lang,omitempty"`
	Lines []SrcLine `json:"l"`
	NoEOL bool      `json:"noeol,omitempty"`
	CRLF  bool      `json:"crlf,omitempty"`
	// Head is repeated Heads times before the lines.
	Head  []SrcLine `json:"head,omitempty"`
	Heads int       `json:"heads,omitempty"`
}

// expand writes out the repeated head.
func (f *SrcFile) expand() {
	var all []SrcLine
	for k := 0; k < f.Heads; k++ {
		all = append(all, f.Head...)
	}
	f.Lines = append(all, f.Lines...)
	f.Head, f.Heads = nil, 0
}

type SrcCase struct {
	// Commits are the files written by each commit, one after the other.
	Commits [][]SrcFile `json:"commits"`
}

type lang struct {
	name, ext  string
	line       []string // starts of line comments
	open, clos string   // block comment
	nested     bool
	code       []string
}

var cCode = []string{"x = 1;", "foo(a, b);", "{", "}", "return x;", "s = \"text\";", "s = \"// not a comment\";", "s = \"/* neither */\" + x;", "s = \"\\\"\" + \"//\";", "if (a / b > c) {", "x = a * b;", "while (x) {", "s = \"\";", "x = y - 1; // trailing", "x = 1; /* trailing */", "/* leading */ x = 1;", "a = b / *p;"}
var hashCode = []string{"x = 1", "foo(a, b)", "(", ")", "return x", "s = 'text'", "s = '# not a comment'", "x = a / b", "y = x # trailing", "a = [1, 2]", "if x > 1"}

var langs = []lang{
	{"Go", ".go", []string{"//"}, "/*", "*/", false, append([]string{"package main", "x := `raw // text`", "func f() {"}, cCode...)},
	{"Java", ".java", []string{"//"}, "/*", "*/", false, append([]string{"public class A {", "import a.b.C;"}, cCode...)},
	{"C", ".c", []string{"//"}, "/*", "*/", false, append([]string{"#include <x.h>", "#define A 1"}, cCode...)},
	{"C++", ".cpp", []string{"//"}, "/*", "*/", false, append([]string{"#include <vector>", "std::cout << 1;"}, cCode...)},
	{"Scala", ".scala", []string{"//"}, "/*", "*/", false, append([]string{"object A {", "val x = 1"}, cCode...)},
	{"Swift", ".swift", []string{"//"}, "/*", "*/", true, append([]string{"let x = 1"}, cCode...)},
	{"Kotlin", ".kt", []string{"//"}, "/*", "*/", true, append([]string{"val x = 1"}, cCode...)},
	{"JavaScript", ".js", []string{"//"}, "/*", "*/", false, append([]string{"var x = function() {"}, cCode...)},
	{"CSS", ".css", nil, "/*", "*/", false, []string{"a {", "color: red;", "}", "b > c, d {", "margin: 0 1px;"}},
	{"Python", ".py", []string{"#"}, "", "", false, append([]string{"import x", "def f(a):", "pass"}, hashCode...)},
	{"Ruby", ".rb", []string{"#"}, "", "", false, append([]string{"require 'x'", "def f(a)", "end"}, hashCode...)},
	{"Shell", ".sh", []string{"#"}, "", "", false, []string{"x=1", "foo a b", "if [ 1 ]; then", "fi", "echo 'text'", "echo '# no comment'", "cd /tmp", "for i in 1 2; do", "done", "a | b > c"}},
	{"Lua", ".lua", []string{"--"}, "", "", false, []string{"x = 1", "local y = 2", "foo(a)", "end", "if x then", "s = 'text'", "s = '-- text'", "a = b - c"}},
	{"Haskell", ".hs", []string{"--"}, "{-", "-}", false, []string{"x = 1", "f a b = a + b", "module X where", "  where y = 2", "a - b"}},
	{"Elixir", ".ex", []string{"#"}, "", "", false, []string{"x = 1", "def f(a) do", "end", "IO.puts(x)"}},
	{"Erlang", ".erl", []string{"%"}, "", "", false, []string{"-module(x).", "f(A) -> A.", "X = 1,"}},
	{"Clojure", ".clj", []string{";", ";;"}, "", "", false, []string{"(def x 1)", "(defn f [a]", "a)", "(println x)"}},
	{"Makefile", ".mk", []string{"#"}, "", "", false, []string{"all: x", "x: y z", "\tcc -o x", "V = 1"}},
	{"Dockerfile", ".dockerfile", []string{"#"}, "", "", false, []string{"FROM x", "RUN y z", "COPY a b"}},
	{"R", ".r", []string{"#"}, "", "", false, []string{"x <- 1", "f <- function(a) {", "}", "y = x + 1"}},
	{"HTML", ".html", nil, "<!--", "-->", false, []string{"<html>", "<b>text</b>", "</html>", "text", "<p class=\"x\">", "<!-- x --> text"}},
	{"TeX", ".tex", []string{"%"}, "", "", false, []string{"\\documentclass{x}", "\\begin{document}", "text", "\\end{document}"}},
	{"TypeScript", ".tsx", []string{"//"}, "/*", "*/", false, append([]string{"let x: number = 1;"}, cCode...)},
}

var commentTexts = []string{"", " text", " don't stop", " say \"hi", " x = 1;", " return foo(a)", " // more", " # more", " `", " \\", " {", " - *", " é中", " ==", " TODO: GENERATE", " DO NOT edit", "Generated", " do not modify"}

var announcements = []string{"GENERATED", "DO NOT EDIT", "DO NOT MODIFY", "machine generated", "Code GENERATED by x. DO NOT EDIT.", "this is machine generated code"}

var tokens = []string{"/*", "*/", "//", "#", "--", "{-", "-}", "\"", "'", "`", "\"\"\"", "'''", "\\\"", "\\", "=begin", "=end", "=pod", "=cut", "<!--", "-->", "(*", "*)", "--[[", "]]", "#|", "|#", ";", "%", "REM", "<?php", "?>", "x", "foo", " ", "\t", "if", " if ", "for ", "||", "&&", "==", "\f", "\v", "\x01", "\xff", "é", "GENERATED", "DO NOT EDIT", "{", "}", "r\"", "@\"", "\\\\", "/**", "**/", "///", "<!", "%%", "\"\"", "''", "\x1f"}

var textExts = []string{".go", ".java", ".c", ".cpp", ".h", ".py", ".rb", ".sh", ".js", ".ts", ".pl", ".php", ".lua", ".hs", ".rs", ".swift", ".kt", ".html", ".css", ".ex", ".erl", ".clj", ".ml", ".fs", ".vb", ".zig", ".nim", ".lisp", ".el", ".scm", ".d", ".dart", ".r", ".jl", ".m", ".mm", ".pas", ".ada", ".f90", ".cob", ".tex", ".md", ".asm", ".s", ".v", ".vhd", ".tcl", ".awk", ".groovy", ".coffee", ".elm", ".cr", ".bat", ".ps1", ".proto", ".thrift", ".cmake", ".mk", ".sty", ".less", ".scss", ".sass", ".vue", ".jsx", ".tsx", ".idr", ".agda", ".cs", ".scala", ".txt", ".rst", ".q", ".pro", ".ceylon", ".ur", ".lean", ".sv", ".rkt"}

func pad(r gm.R, s string) gm.B {
	return gm.B(gm.Pick(r, []string{"", "", "  ", "\t", " \t "}) + s + gm.Pick(r, []string{"", "", "", " ", "\t"}))
}

// genSource makes source of which every line has an obvious class.
func genSource(r gm.R, f *SrcFile) {
	l := gm.Pick(r, langs)
	f.Lang = l.name
	f.Path += gm.B(l.ext)
	announce := -1
	n := r.Int(0, 25)
	if r.P(1, 40) {
		f.Heads = r.Int(1, 6000)
		f.Head = []SrcLine{{pad(r, gm.Pick(r, l.code)), "code"}}
		if r.P(1, 2) {
			f.Head = append(f.Head, SrcLine{"", "blank"})
		}
		if len(l.line) > 0 && r.P(1, 2) {
			f.Head = append(f.Head, SrcLine{pad(r, l.line[0]+" text"), "comment"})
		}
	}
	if r.P(1, 5) {
		announce = r.Int(0, n)
	}
	text := func() string {
		s := gm.Pick(r, commentTexts)
		if l.clos == "" {
			return s
		}
		// must not end or open a block
		return s
	}
	for len(f.Lines) < n || announce >= 0 && len(f.Lines) <= announce {
		if len(f.Lines) >= announce && announce >= 0 {
			t := " " + gm.Pick(r, announcements)
			switch {
			case len(l.line) > 0 && (l.open == "" || r.P(1, 2)):
				f.Lines = append(f.Lines, SrcLine{pad(r, gm.Pick(r, l.line)+t), "announce"})
			case r.P(1, 2):
				f.Lines = append(f.Lines, SrcLine{pad(r, l.open+t+" "+l.clos), "announce"})
			default:
				f.Lines = append(f.Lines, SrcLine{pad(r, l.open), "comment"}, SrcLine{pad(r, "text"+t), "announce"}, SrcLine{pad(r, l.clos), "comment"})
			}
			announce = -1
			n += len(f.Lines)
			continue
		}
		switch k := r.Int(0, 9); {
		case k < 4:
			f.Lines = append(f.Lines, SrcLine{pad(r, gm.Pick(r, l.code)), "code"})
		case k < 6:
			f.Lines = append(f.Lines, SrcLine{gm.B(gm.Pick(r, []string{"", "", " ", "\t", "  \t"})), "blank"})
		case len(l.line) > 0 && (l.open == "" || k < 8):
			t := text()
			if l.name == "Lua" && strings.HasPrefix(t, "[[") {
				t = ""
			}
			f.Lines = append(f.Lines, SrcLine{pad(r, gm.Pick(r, l.line)+t), "comment"})
		case r.P(1, 3):
			f.Lines = append(f.Lines, SrcLine{pad(r, l.open+" "+text()+" "+l.clos), "comment"})
		default:
			f.Lines = append(f.Lines, SrcLine{pad(r, l.open+text()), "comment"})
			for j := r.Int(0, 4); j > 0; j-- {
				f.Lines = append(f.Lines, SrcLine{pad(r, "text"+text()), "comment"})
			}
			f.Lines = append(f.Lines, SrcLine{pad(r, l.clos), "comment"})
		}
	}
}

func genArbitrary(r gm.R, f *SrcFile) {
	f.Path += gm.B(gm.Pick(r, textExts))
	for n := r.Int(0, 12); n > 0; n-- {
		s := ""
		for k := r.Int(0, 5); k > 0; k-- {
			if r.P(1, 20) {
				s += string([]byte{byte(r.Int(11, 255))})
			} else {
				s += gm.Pick(r, tokens)
			}
		}
		f.Lines = append(f.Lines, SrcLine{Text: gm.B(strings.ReplaceAll(s, "\r", ""))})
	}
}

func genSrc(t *rapid.T) *SrcCase {
	r := gm.R{T: t}
	c := &SrcCase{}
	for k := r.Int(1, 2); k > 0; k-- {
		var fs []SrcFile
		for n := r.Int(1, 12); n > 0; n-- {
			f := SrcFile{Path: gm.B(fmt.Sprintf("%sf%d", gm.Pick(r, []string{"", "dir/", "src/"}), r.Int(1, 9)))}
			if r.P(1, 2) {
				genSource(r, &f)
			} else {
				genArbitrary(r, &f)
			}
			f.NoEOL = r.P(1, 4)
			f.CRLF = r.P(1, 10)
			fs = append(fs, f)
			if len(c.Commits) > 0 && len(c.Commits[0]) > 0 && r.P(1, 2) {
				// an edited version of an earlier file
				old := gm.Pick(r, c.Commits[0])
				g := old
				g.Lines, g.Heads, g.Head = nil, 0, nil
				for _, l := range old.Lines {
					if old.Lang != "" || r.P(4, 5) {
						g.Lines = append(g.Lines, l)
					}
				}
				if old.Lang != "" {
					g.Lines = append([]SrcLine{{"", "blank"}}, g.Lines...)
				}
				fs = append(fs, g)
			}
		}
		c.Commits = append(c.Commits, fs)
	}
	return c
}

func (f *SrcFile) data() string {
	var s []string
	for _, l := range f.Lines {
		s = append(s, string(l.Text))
	}
	eol := "\n"
	if f.CRLF {
		eol = "\r\n"
	}
	res := strings.Join(s, eol)
	if len(f.Lines) > 0 && !f.NoEOL {
		res += eol
	}
	return res
}

func runSrc(e *fw.Env, c *SrcCase) *fw.Verdict {
	v := &fw.Verdict{}
	rp := &gm.Repo{Head: "main"}
	specs := []map[string]*SrcFile{}
	for i, fs := range c.Commits {
		cm := gm.Commit{}
		if i > 0 {
			cm.Parents = []int{i - 1}
		}
		m := map[string]*SrcFile{}
		for k := range fs {
			f := &fs[k]
			if f.Heads > 0 {
				f.expand()
				v.Class("long-files")
			}
			if m[string(f.Path)] != nil {
				continue
			}
			m[string(f.Path)] = f
			cm.Changes = append(cm.Changes, gm.Change{Path: f.Path, Data: gm.B(f.data())})
		}
		rp.Commits = append(rp.Commits, cm)
		specs = append(specs, m)
	}
	rp.HeadAt = len(rp.Commits) - 1
	b := rp.Build(e, e.Sub("repo"), true)
	res, err := ripsrc.New(ripsrc.Opts{RepoDir: b.Dir, Logger: noLog{}, CheckpointsDir: filepath.Join(e.Sub("checkpoints"), "c")}).CodeSlice(context.Background())
	if err != nil {
		v.Failf("%v", err)
		return v
	}
	for k := range res {
		r := &res[k]
		i, ok := b.Index[r.Commit.SHA]
		if !ok {
			v.Failf("record of unknown commit %v", r.Commit.SHA)
			return v
		}
		f := specs[i][r.Filename]
		if f == nil {
			v.Failf("record of unknown file %q", r.Filename)
			return v
		}
		checkLines(v, i, f, r)
		if v.Fail != "" {
			return v
		}
	}
	v.Nontrivial = v.Classes["code"] > 0 && v.Classes["comment"] > 0
	return v
}

func checkLines(v *fw.Verdict, i int, f *SrcFile, r *ripsrc.BlameResult) {
	what := fmt.Sprintf("commit %d %q (%v)", i, r.Filename, r.Language)
	data := f.data()
	raw := gm.SplitRaw(data)
	announced, may := false, false
	for _, l := range f.Lines {
		announced = announced || l.Class == "announce"
		may = may || generatedWords.MatchString(string(l.Text))
	}
	if r.Skipped == generatedSkip {
		if !may || f.Lang != "" && !announced {
			v.Failf("%v: skipped as generated", what)
		}
		v.Class("generated")
		return
	}
	if r.Skipped != "" {
		if f.Lang != "" {
			v.Failf("%v: source file is skipped (%v)", what, r.Skipped)
		}
		return
	}
	if f.Lang != "" && r.Language != f.Lang {
		// what the language is does not matter here
		v.Class("other-language")
		f = &SrcFile{Path: f.Path, Lines: f.Lines, NoEOL: f.NoEOL, CRLF: f.CRLF}
	} else if announced {
		v.Failf("%v: a comment announces generated code, the file is not skipped", what)
		return
	}
	var code, comment, blank int64
	for k, l := range r.Lines {
		n := 0
		got := ""
		if l.Code {
			n++
			code++
			got = "code"
		}
		if l.Comment {
			n++
			comment++
			got = "comment"
		}
		if l.Blank {
			n++
			blank++
			got = "blank"
		}
		if n != 1 {
			v.Failf("%v line %d: code %v comment %v blank %v", what, k+1, l.Code, l.Comment, l.Blank)
			return
		}
		if f.Lang != "" && k < len(f.Lines) && got != f.Lines[k].Class {
			v.Failf("%v line %d %q: is %v, want %v", what, k+1, f.Lines[k].Text, got, f.Lines[k].Class)
			return
		}
		v.Class(got)
	}
	if int64(len(r.Lines)) != int64(len(raw)) || r.Loc != int64(len(raw)) {
		v.Failf("%v: %d lines, line total %d, the file has %d", what, len(r.Lines), r.Loc, len(raw))
		return
	}
	if r.Sloc != code || r.Comments != comment || r.Blanks != blank || code+comment+blank != r.Loc {
		v.Failf("%v: totals are code %d comments %d blanks %d of %d; the lines are %d, %d, %d", what, r.Sloc, r.Comments, r.Blanks, r.Loc, code, comment, blank)
		return
	}
	var size int64
	for _, l := range raw {
		size += int64(len(gm.Norm(l)) + 1)
	}
	if r.Size != size && !(f.CRLF && r.Size == int64(len(data))) && !(f.CRLF && r.Size == int64(len(data)+1)) {
		v.Failf("%v: size is %d, want %d", what, r.Size, size)
	}
	v.Class("files")
	v.ClassIf(f.Lang != "", "source-files")
}

func init() {
	p := fw.Register(&fw.Prop{ID: "C14", Rule: "files with both code and comment lines"})
	fw.AddSub(p, "source", 5000, 80000, genSrc, runSrc)
}
