package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type request struct {
	Prop string          `json:"prop"`
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

// WorkerMain executes cases read from stdin and writes verdicts to fd 3.
func WorkerMain(scratch string) {
	out := os.NewFile(3, "verdicts")
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	n := 0
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var req request
		v := &Verdict{}
		if err := json.Unmarshal(line, &req); err != nil {
			v.Infra = err.Error()
		} else {
			n++
			v = runCase(scratch, n, req)
		}
		// a case left git processes behind: start over in a new worker
		v.Restart = len(children(os.Getpid())) > 0
		if v.Restart {
			killChildren()
		}
		b, _ := json.Marshal(v)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
		if v.Restart {
			os.Exit(0)
		}
	}
}

func runCase(scratch string, n int, req request) (v *Verdict) {
	p := Props[req.Prop]
	if p == nil {
		return &Verdict{Infra: "unknown property " + req.Prop}
	}
	s := p.Sub(req.Sub)
	if s == nil {
		return &Verdict{Infra: "unknown generator " + req.Sub}
	}
	c, err := s.Decode(req.Case)
	if err != nil {
		return &Verdict{Infra: "bad case: " + err.Error()}
	}
	dir := filepath.Join(scratch, fmt.Sprintf("c%d", n))
	if err := os.MkdirAll(dir, 0777); err != nil {
		return &Verdict{Infra: err.Error()}
	}
	tmp := filepath.Join(dir, "tmp")
	home := filepath.Join(dir, "home")
	os.MkdirAll(tmp, 0777)
	os.MkdirAll(home, 0777)
	os.Setenv("TMPDIR", tmp)
	os.Setenv("HOME", home)
	defer func() {
		for i := 0; i < 5; i++ {
			if os.RemoveAll(dir) == nil {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if in, ok := r.(Infra); ok {
				v = &Verdict{Infra: in.Err}
				return
			}
			v = &Verdict{Fail: fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))}
		}
	}()
	return s.Run(&Env{Dir: dir}, c)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// children lists the direct child processes of pid.
func children(pid int) (res []int) {
	ents, _ := os.ReadDir("/proc")
	for _, e := range ents {
		var id int
		if _, err := fmt.Sscanf(e.Name(), "%d", &id); err != nil {
			continue
		}
		b, err := os.ReadFile("/proc/" + e.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		var st string
		var ppid int
		fmt.Sscanf(s[i+1:], "%s %d", &st, &ppid)
		if ppid == pid {
			res = append(res, id)
		}
	}
	return
}

// Children lists the child processes of this process.
func Children() []int { return children(os.Getpid()) }

// killChildren ends git processes a case left behind.
func killChildren() {
	for _, c := range children(os.Getpid()) {
		syscall.Kill(c, syscall.SIGKILL)
	}
}
