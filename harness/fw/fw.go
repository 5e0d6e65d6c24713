// Package fw runs generated-input checks: a driver starts shards, each shard
// draws cases with rapid and sends them to a worker process that executes the
// code under test.
package fw

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Verdict is the outcome of one case.
type Verdict struct {
	// Fail is empty when the property held.
	Fail string `json:"fail,omitempty"`
	// Infra is set when no verdict is possible.
	Infra string `json:"infra,omitempty"`
	// Known is set if the failure is listed as a known finding.
	Known      string         `json:"known,omitempty"`
	Nontrivial bool           `json:"nontrivial,omitempty"`
	Classes    map[string]int `json:"classes,omitempty"`
	// Restart is set when the worker ends after this case.
	Restart bool `json:"restart,omitempty"`
}

func (v *Verdict) Class(name string) { v.ClassN(name, 1) }
func (v *Verdict) ClassN(name string, n int) {
	if v.Classes == nil {
		v.Classes = map[string]int{}
	}
	v.Classes[name] += n
}
func (v *Verdict) ClassIf(c bool, name string) {
	if c {
		v.Class(name)
	}
}

func (v *Verdict) Failf(f string, a ...interface{}) {
	if v.Fail == "" {
		v.Fail = fmt.Sprintf(f, a...)
	}
}

// Infra is panicked by harness code for environment trouble.
type Infra struct{ Err string }

func Infraf(f string, a ...interface{}) { panic(Infra{fmt.Sprintf(f, a...)}) }

// Env is what a case may use while it runs.
type Env struct {
	Dir string // fresh scratch directory, removed afterwards
}

func (e *Env) Sub(name string) string {
	d := filepath.Join(e.Dir, name)
	if err := os.MkdirAll(d, 0777); err != nil {
		Infraf("mkdir: %v", err)
	}
	return d
}

// GitEnv is the environment for git commands run by the harness itself.
func (e *Env) GitEnv() []string {
	var res []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GIT_") {
			continue
		}
		res = append(res, kv)
	}
	return append(res, "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_SYSTEM=/dev/null", "LC_ALL=C", "TZ=UTC")
}

// Git runs git for the harness (oracle side) and fails as infrastructure
// trouble if git fails.
func (e *Env) Git(dir string, args ...string) []byte {
	out, err := e.GitErr(dir, nil, args...)
	if err != nil {
		Infraf("%v", err)
	}
	return out
}

func (e *Env) GitIn(dir string, in []byte, args ...string) []byte {
	out, err := e.GitErr(dir, in, args...)
	if err != nil {
		Infraf("%v", err)
	}
	return out
}

func (e *Env) GitErr(dir string, in []byte, args ...string) ([]byte, error) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = e.GitEnv()
	if in != nil {
		c.Stdin = strings.NewReader(string(in))
	}
	var eb strings.Builder
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		return out, fmt.Errorf("harness git %v: %v %v", args, err, eb.String())
	}
	return out, nil
}

// Sub is one generator and its check.
type Sub struct {
	Name            string
	Gen             func(*rapid.T) interface{}
	Decode          func([]byte) (interface{}, error)
	Run             func(*Env, interface{}) *Verdict
	Quick, Thorough int
	// Shards limits the number of shards (0: all).
	Shards int
}

type Prop struct {
	ID    string
	Level string
	Rule  string
	Subs  []*Sub
	// License needs the licence database (slow start).
	License bool
	// CPU seconds and memory that one case may use at most; 0 is the default.
	CPU    float64
	Memory int64
	Assume []string
}

var Props = map[string]*Prop{}

func Register(p *Prop) *Prop {
	if p.Level == "" {
		p.Level = "exploration"
	}
	Props[p.ID] = p
	return p
}

func AddSub[C any](p *Prop, name string, quick, thorough int, gen func(*rapid.T) *C, run func(*Env, *C) *Verdict) *Sub {
	s := &Sub{Name: name, Quick: quick, Thorough: thorough}
	s.Gen = func(t *rapid.T) interface{} { return gen(t) }
	s.Decode = func(b []byte) (interface{}, error) {
		c := new(C)
		err := json.Unmarshal(b, c)
		return c, err
	}
	s.Run = func(e *Env, c interface{}) *Verdict { return run(e, c.(*C)) }
	p.Subs = append(p.Subs, s)
	return s
}

func (p *Prop) Sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// B is a byte string that survives JSON.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(b))})
}

func (b *B) UnmarshalJSON(d []byte) error {
	if len(d) > 0 && d[0] == '{' {
		m := map[string]string{}
		if err := json.Unmarshal(d, &m); err != nil {
			return err
		}
		x, err := base64.StdEncoding.DecodeString(m["b64"])
		if err != nil {
			return err
		}
		*b = B(x)
		return nil
	}
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	*b = B(s)
	return nil
}
