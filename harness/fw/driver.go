package fw

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Config struct {
	Verif    string // /verif
	Prop     string
	Tier     string
	Seed     int
	Shards   int
	Evidence string
	Only     string
	Scale    float64
}

// DriverMain runs a check; it returns the exit status.
func DriverMain(cfg Config) int {
	start := time.Now()
	p := Props[cfg.Prop]
	if p == nil {
		fmt.Println("unknown property", cfg.Prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "vf-"+cfg.Prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	scratch, _ = filepath.EvalSymlinks(scratch)
	defer os.RemoveAll(scratch)

	// 1. saved cases
	saved, _ := filepath.Glob(filepath.Join(cfg.Verif, "corpus", cfg.Prop, "*.json"))
	sort.Strings(saved)
	savedRun := 0
	var failure *Failure
	var infra string
	if len(saved) > 0 && cfg.Only == "" {
		cl := NewClient(filepath.Join(scratch, "saved"))
		for _, f := range saved {
			fl, err := ReadReplay(f)
			if err != nil {
				fmt.Println("bad saved case", f, err)
				return 2
			}
			v := cl.Do(fl.Property, fl.Sub, fl.Case)
			if v.Infra != "" {
				v = cl.Do(fl.Property, fl.Sub, fl.Case)
			}
			if v.Infra != "" {
				infra = v.Infra
				break
			}
			savedRun++
			if v.Fail != "" {
				fl.Message = v.Fail
				failure = fl
				break
			}
		}
		cl.Stop()
	}

	// 2. shards
	var results []*ShardResult
	if failure == nil && infra == "" {
		results, infra = runShards(cfg, p, scratch)
		for _, r := range results {
			if r != nil && r.Failure != nil {
				failure = r.Failure
				break
			}
		}
		if failure == nil && infra == "" {
			for _, r := range results {
				if r != nil && r.Infra != "" {
					infra = r.Infra
					break
				}
			}
		}
	}

	// 3. confirm
	reproduced := 0
	tries := 0
	if failure != nil {
		cl := NewClient(filepath.Join(scratch, "confirm"))
		t0 := time.Now()
		for tries < 30 && time.Since(t0) < 60*time.Second {
			tries++
			v := cl.Do(failure.Property, failure.Sub, failure.Case)
			if v.Fail != "" {
				reproduced++
				failure.Message = v.Fail
				if tries >= 2 || reproduced == tries {
					break
				}
			}
		}
		if reproduced == 0 && failure.Prev != nil && strings.HasPrefix(failure.Message, "crash") {
			for i := 0; i < 3 && reproduced == 0; i++ {
				v := cl.Do(failure.Property, failure.Sub, failure.Prev)
				if v.Fail == "" {
					time.Sleep(500 * time.Millisecond)
					v = cl.Do(failure.Property, failure.Sub, failure.Case)
				}
				if v.Fail != "" {
					reproduced++
					failure.Case, failure.Message = failure.Prev, v.Fail
				}
			}
		}
		cl.Stop()
	}

	// 4. evidence
	ev := map[string]interface{}{}
	evals, distinct, planned := 0, 0, 0
	classes := map[string]int{}
	known := map[string]int{}
	var samples []Sample
	perSub := map[string]interface{}{}
	for _, s := range p.Subs {
		h := map[string]bool{}
		se := 0
		for _, r := range results {
			if r == nil || r.Subs[s.Name] == nil {
				continue
			}
			st := r.Subs[s.Name]
			se += st.Evaluations
			planned += st.Planned
			for k := range st.Hashes {
				h[k] = true
			}
			for k, n := range st.Classes {
				classes[s.Name+"/"+k] += n
			}
			for k, n := range st.Known {
				known[k] += n
			}
		}
		got := 0
		for _, r := range results {
			if r == nil || r.Subs[s.Name] == nil || got >= 2 {
				continue
			}
			for _, sm := range r.Subs[s.Name].Samples {
				if got < 2 {
					samples = append(samples, sm)
					got++
				}
			}
		}
		evals += se
		distinct += len(h)
		perSub[s.Name] = map[string]int{"evaluations": se, "distinct_nontrivial": len(h)}
	}
	size := 0
	var kept []Sample
	for _, s := range samples {
		if size+len(s.Case) > 24000 {
			continue
		}
		size += len(s.Case)
		kept = append(kept, s)
	}
	if kept == nil {
		kept = []Sample{}
	}
	cov := map[string]interface{}{
		"evaluations":         evals + savedRun,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             kept,
		"generators":          perSub,
		"classes":             classes,
		"saved_cases_run":     savedRun,
		"planned":             planned,
	}
	nviol := 0
	if failure != nil {
		nviol = 1
	}
	ev["property"] = cfg.Prop
	ev["tier"] = cfg.Tier
	ev["seed"] = cfg.Seed
	ev["level"] = p.Level
	ev["coverage"] = cov
	if p.Assume != nil {
		ev["assumptions"] = p.Assume
	}
	ev["violations"] = nviol
	ev["wall_s"] = float64(int(time.Since(start).Seconds()*100)) / 100
	b, _ := json.MarshalIndent(ev, "", " ")
	if cfg.Evidence != "" {
		os.MkdirAll(filepath.Dir(cfg.Evidence), 0777)
		if err := os.WriteFile(cfg.Evidence, b, 0666); err != nil {
			fmt.Println("can't write evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases (%d planned), %d distinct non-trivial, %.1f s\n", cfg.Prop, cfg.Tier, evals, planned, distinct, time.Since(start).Seconds())
	var ks []string
	for k := range classes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s: %d\n", k, classes[k])
	}
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, k)
	}
	if failure != nil {
		if reproduced == 0 && InfraText(failure.Message) {
			fmt.Println("no verdict:", failure.Message)
			return 2
		}
		dir := filepath.Join(cfg.Verif, "replays")
		os.MkdirAll(dir, 0777)
		failure.Prev = nil
		b, _ := json.MarshalIndent(failure, "", " ")
		path := filepath.Join(dir, cfg.Prop+"-"+caseHash(failure.Case)+".json")
		if err := os.WriteFile(path, b, 0666); err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Printf("%s\n(reproduced %d of %d)\n", clip(failure.Message, 4000), reproduced, tries)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, path)
		return 1
	}
	if infra != "" {
		fmt.Println("no verdict:", clip(infra, 3000))
		return 2
	}
	return 0
}

func ReadReplay(f string) (*Failure, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	fl := &Failure{}
	if err := json.Unmarshal(b, fl); err != nil {
		return nil, err
	}
	return fl, nil
}

func runShards(cfg Config, p *Prop, scratch string) (res []*ShardResult, infra string) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err.Error()
	}
	budget := 300
	hard := 780 * time.Second
	shrink := 25
	if cfg.Tier == "thorough" {
		budget = 3000
		hard = 3600 * time.Second
		shrink = 60
	}
	if os.Getenv("VERIF_DEV_SCALE") != "" {
		shrink = 1
	}
	type done struct {
		i   int
		err error
	}
	ch := make(chan done)
	cmds := make([]*exec.Cmd, cfg.Shards)
	outs := make([]string, cfg.Shards)
	res = make([]*ShardResult, cfg.Shards)
	for i := 0; i < cfg.Shards; i++ {
		dir := filepath.Join(scratch, "s"+strconv.Itoa(i))
		os.MkdirAll(dir, 0777)
		outs[i] = filepath.Join(scratch, fmt.Sprintf("out%d.json", i))
		c := exec.Command(exe, "shard", cfg.Prop, cfg.Tier, strconv.Itoa(cfg.Seed), strconv.Itoa(i), strconv.Itoa(cfg.Shards), strconv.Itoa(budget), strconv.Itoa(shrink), dir, outs[i], cfg.Only)
		c.Stderr = os.Stderr
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := c.Start(); err != nil {
			return res, "start shard: " + err.Error()
		}
		cmds[i] = c
		go func(i int) { ch <- done{i, cmds[i].Wait()} }(i)
	}
	left := cfg.Shards
	timeout := time.After(hard)
	stopped := false
	stop := func() {
		stopped = true
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	for left > 0 {
		select {
		case d := <-ch:
			left--
			b, err := os.ReadFile(outs[d.i])
			if err != nil {
				if !stopped && infra == "" {
					infra = fmt.Sprintf("shard %d: %v %v", d.i, d.err, err)
				}
				continue
			}
			r := &ShardResult{}
			if err := json.Unmarshal(b, r); err != nil {
				if infra == "" {
					infra = err.Error()
				}
				continue
			}
			res[d.i] = r
			if r.Failure != nil && !stopped {
				stop()
			}
		case <-timeout:
			infra = "time limit"
			stop()
		}
	}
	return
}
