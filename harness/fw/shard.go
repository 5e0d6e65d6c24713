package fw

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// SubStats is what one shard measured for one generator.
type SubStats struct {
	Evaluations int             `json:"evaluations"`
	Planned     int             `json:"planned"`
	Hashes      map[string]bool `json:"hashes"` // distinct non-trivial cases
	Classes     map[string]int  `json:"classes"`
	Samples     []Sample        `json:"samples"`
	Known       map[string]int  `json:"known,omitempty"`
}

type Sample struct {
	Sub  string          `json:"generator"`
	Case json.RawMessage `json:"case"`
}

type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Prev     json.RawMessage `json:"prev,omitempty"`
}

type ShardResult struct {
	Subs    map[string]*SubStats `json:"subs"`
	Failure *Failure             `json:"failure,omitempty"`
	Infra   string               `json:"infra,omitempty"`
}

type shardTB struct {
	name   string
	failed bool
	log    string
}

func (t *shardTB) Helper()                          {}
func (t *shardTB) Name() string                     { return t.name }
func (t *shardTB) Logf(f string, a ...interface{})  {}
func (t *shardTB) Log(a ...interface{})             {}
func (t *shardTB) Skipf(f string, a ...interface{}) { runtime.Goexit() }
func (t *shardTB) Skip(a ...interface{})            { runtime.Goexit() }
func (t *shardTB) SkipNow()                         { runtime.Goexit() }
func (t *shardTB) Errorf(f string, a ...interface{}) {
	t.failed = true
	t.log += fmt.Sprintf(f, a...) + "\n"
}
func (t *shardTB) Error(a ...interface{})            { t.failed = true; t.log += fmt.Sprint(a...) + "\n" }
func (t *shardTB) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); runtime.Goexit() }
func (t *shardTB) Fatal(a ...interface{})            { t.Error(a...); runtime.Goexit() }
func (t *shardTB) FailNow()                          { t.failed = true; runtime.Goexit() }
func (t *shardTB) Fail()                             { t.failed = true }
func (t *shardTB) Failed() bool                      { return t.failed }

// SeedFor derives a non-zero seed.
func SeedFor(parts ...interface{}) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	s := binary.LittleEndian.Uint64(h[:8])
	if s == 0 {
		s = 1
	}
	return s
}

func caseHash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

const maxSampleBytes = 2500

// ShardMain runs this shard's part of every generator of a property.
func ShardMain(propID, tier string, seed, shard, shards int, budget time.Duration, shrink time.Duration, scratch, outFile string, only string) error {
	p := Props[propID]
	if p == nil {
		return fmt.Errorf("unknown property %v", propID)
	}
	testing.Init()
	flag.CommandLine.Parse([]string{})
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrink.String())
	res := &ShardResult{Subs: map[string]*SubStats{}}
	cl := NewClient(scratch)
	defer cl.Stop()
	deadline := time.Now().Add(budget)

	for _, s := range p.Subs {
		if only != "" && only != s.Name {
			continue
		}
		total := s.Quick
		if tier == "thorough" {
			total = s.Thorough
		}
		if x, err := strconv.Atoi(os.Getenv("VERIF_DEV_SCALE")); err == nil {
			total = total * x / 100 // used by tools/mutants.py only
		}
		n := shards
		if s.Shards != 0 && s.Shards < n {
			n = s.Shards
		}
		if shard >= n {
			continue
		}
		checks := total / n
		if shard < total%n {
			checks++
		}
		st := &SubStats{Planned: checks, Hashes: map[string]bool{}, Classes: map[string]int{}, Known: map[string]int{}}
		res.Subs[s.Name] = st
		if checks == 0 {
			continue
		}
		flag.Set("rapid.checks", strconv.Itoa(checks))
		flag.Set("rapid.seed", strconv.FormatUint(SeedFor(seed, propID, s.Name, shard), 10))
		var fail *Failure
		var infra string
		var prev, slow []byte
		subDeadline := deadline
		done := make(chan bool)
		tb := &shardTB{name: "verif/" + propID + "/" + s.Name}
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if infra != "" {
					return
				}
				c := s.Gen(t)
				if fail == nil && time.Now().After(subDeadline) {
					return
				}
				b, err := json.Marshal(c)
				if err != nil {
					infra = err.Error()
					return
				}
				if slow != nil {
					// looking for a smaller case takes too long
					if bytes.Equal(b, slow) {
						t.Fatalf("violation")
					}
					return
				}
				began := time.Now()
				v := cl.Do(propID, s.Name, b)
				if v.Fail != "" && InfraText(v.Fail) {
					v = &Verdict{Infra: v.Fail}
				}
				if v.Infra != "" {
					// once more before giving up
					v = cl.Do(propID, s.Name, b)
					if v.Infra != "" {
						infra = v.Infra
						return
					}
				}
				if fail == nil {
					st.Evaluations++
					for k, n := range v.Classes {
						st.Classes[k] += n
					}
					if v.Known != "" {
						st.Known[v.Known]++
					}
					if v.Nontrivial {
						st.Hashes[caseHash(b)] = true
						if len(st.Samples) < 2 && len(b) < maxSampleBytes {
							st.Samples = append(st.Samples, Sample{s.Name, b})
						}
					}
				}
				if v.Fail != "" {
					if time.Since(began) > 20*time.Second {
						slow = b
					}
					fail = &Failure{Property: propID, Sub: s.Name, Case: b, Message: v.Fail, Prev: prev}
					t.Fatalf("violation")
				}
				prev = b
			})
		}()
		<-done
		if fail != nil {
			res.Failure = fail
			break
		}
		if infra != "" {
			res.Infra = infra
			break
		}
		if tb.failed {
			res.Infra = "generator trouble: " + clip(tb.log, 1500)
			break
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	return os.WriteFile(outFile, b, 0666)
}
