package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Client drives one worker process, restarting it when needed.
type Client struct {
	scratch string
	cmd     *exec.Cmd
	in      *os.File
	out     *bufio.Reader
	outF    *os.File
	errBuf  *tailBuf
	exited  chan struct{}
	served  int
	n       int
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.tail = append(b.tail, p...)
	if len(b.tail) > 1<<20 {
		b.tail = append([]byte(nil), b.tail[len(b.tail)-(1<<19):]...)
	}
	return len(p), nil
}

func (b *tailBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.tail)
}

func NewClient(scratch string) *Client { return &Client{scratch: scratch} }

func (c *Client) start() error {
	c.n++
	dir := filepath.Join(c.scratch, fmt.Sprintf("w%d", c.n))
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	inR, inW, err := os.Pipe()
	if err != nil {
		return err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe, "worker", dir)
	cmd.Stdin = inR
	cmd.ExtraFiles = []*os.File{outW}
	c.errBuf = &tailBuf{}
	cmd.Stderr = c.errBuf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GIT_") || strings.HasPrefix(kv, "XDG_") || strings.HasPrefix(kv, "HOME=") || strings.HasPrefix(kv, "TMPDIR=") || strings.HasPrefix(kv, "GOTRACEBACK=") || strings.HasPrefix(kv, "GORACE=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GIT_CONFIG_NOSYSTEM=1", "LC_ALL=C", "TZ=UTC", "HOME="+dir, "TMPDIR="+dir, "GOTRACEBACK=single", "GIT_CEILING_DIRECTORIES="+c.scratch, "GORACE=halt_on_error=1 exitcode=66")
	cmd.Env = env
	cmd.Dir = dir
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		return err
	}
	inR.Close()
	outW.Close()
	c.cmd = cmd
	c.in = inW
	c.outF = outR
	c.out = bufio.NewReaderSize(outR, 1<<16)
	c.exited = make(chan struct{})
	c.served = 0
	go func() {
		cmd.Wait()
		close(c.exited)
	}()
	return nil
}

func (c *Client) alive() bool {
	if c.cmd == nil {
		return false
	}
	select {
	case <-c.exited:
		return false
	default:
		return true
	}
}

// Stop ends the worker and removes its scratch directory.
func (c *Client) Stop() {
	if c.cmd == nil {
		return
	}
	c.in.Close()
	select {
	case <-c.exited:
	case <-time.After(300 * time.Millisecond):
		syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
		c.cmd.Process.Kill()
		<-c.exited
	}
	syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
	c.outF.Close()
	os.RemoveAll(filepath.Join(c.scratch, fmt.Sprintf("w%d", c.n)))
	c.cmd = nil
}

const (
	softLimit = 60 * time.Second  // start looking for a hang
	hardLimit = 400 * time.Second // give up without a verdict
	cpuLimit  = 60.0              // CPU seconds of one case that count as not terminating
	memLimit  = 3 << 30           // resident bytes that count as growing without bound
)

// Do runs one case in the worker.
func (c *Client) Do(prop, sub string, cs []byte) *Verdict {
	if c.cmd != nil && (!c.alive() || c.served >= 300) {
		c.Stop()
	}
	if c.cmd == nil {
		if err := c.start(); err != nil {
			return &Verdict{Infra: "start worker: " + err.Error()}
		}
	}
	c.served++
	b, err := json.Marshal(request{Prop: prop, Sub: sub, Case: cs})
	if err != nil {
		return &Verdict{Infra: err.Error()}
	}
	b = append(b, '\n')
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	in, out := c.in, c.out
	go func() {
		if _, err := in.Write(b); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	start := time.Now()
	idle := 0
	lastCPU := -1.0
	cpuMax, memMax := cpuLimit, int64(memLimit)
	if p := Props[prop]; p != nil && p.CPU > 0 {
		cpuMax, memMax = p.CPU, p.Memory
	}
	const every = 200 * time.Millisecond
	before, _, _ := procState(c.cmd.Process.Pid)
	look := softLimit
	for {
		select {
		case a := <-ch:
			if a.err == nil {
				v := &Verdict{}
				if err := json.Unmarshal(a.line, v); err != nil {
					return &Verdict{Infra: "bad verdict: " + err.Error()}
				}
				if v.Restart {
					c.Stop()
					v.Restart = false
				}
				return v
			}
			return c.died()
		case <-time.After(every):
			el := time.Since(start)
			cpu, sleeping, ok := procState(c.cmd.Process.Pid)
			if ok && cpu-before > cpuMax {
				d := c.dump()
				return &Verdict{Fail: fmt.Sprintf("uses %.0f s of CPU time for one case\n%s", cpu-before, d)}
			}
			if m := memory(c.cmd.Process.Pid); m > memMax {
				d := c.dump()
				return &Verdict{Fail: fmt.Sprintf("uses %d MB of memory for one case\n%s", m>>20, d)}
			}
			if el < look {
				continue
			}
			look = el + 2*time.Second
			pid := c.cmd.Process.Pid
			if ok && sleeping && len(children(pid)) == 0 && cpu-lastCPU < 0.02 && lastCPU >= 0 {
				idle++
			} else {
				idle = 0
			}
			lastCPU = cpu
			if idle >= 8 {
				d := c.dump()
				if strings.Contains(d, "IO wait") && !strings.Contains(d, "chan ") {
					return &Verdict{Infra: "worker idle, waiting for IO"}
				}
				return &Verdict{Fail: "hangs: the call never returns, the process is idle and has no child process\n" + d}
			}
			if el > hardLimit {
				c.Stop()
				return &Verdict{Infra: "case exceeded the time limit"}
			}
		}
	}
}

// dump ends the worker with a goroutine dump and returns its tail.
func (c *Client) dump() string {
	syscall.Kill(c.cmd.Process.Pid, syscall.SIGQUIT)
	select {
	case <-c.exited:
	case <-time.After(5 * time.Second):
	}
	s := c.errBuf.String()
	if i := strings.Index(s, "SIGQUIT"); i >= 0 {
		s = s[i:]
	}
	c.Stop()
	return clip(s, 6000)
}

var infraMarks = []string{"cannot allocate memory", "out of memory", "resource temporarily unavailable", "too many open files", "no space left on device", "signal: killed", "pthread_create failed", "failed to create new OS thread", "text file busy", "exec: \"git\": executable file not found"}

// InfraText reports whether a message speaks of exhausted resources.
func InfraText(s string) bool {
	l := strings.ToLower(s)
	for _, m := range infraMarks {
		if strings.Contains(l, m) {
			return true
		}
	}
	return false
}

// died classifies an unexpected end of the worker.
func (c *Client) died() *Verdict {
	select {
	case <-c.exited:
	case <-time.After(10 * time.Second):
		c.Stop()
		return &Verdict{Infra: "worker closed its output but did not exit"}
	}
	st := c.cmd.ProcessState
	s := c.errBuf.String()
	c.Stop()
	if k := strings.Index(s, "WARNING: DATA RACE"); k >= 0 {
		return &Verdict{Fail: "data race: " + clip(s[k:], 3500)}
	}
	i := strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i >= 0 {
		msg := s[i:]
		if InfraText(clip(msg, 2000)) {
			return &Verdict{Infra: "worker died: " + clip(msg, 500)}
		}
		pre := s[:i]
		if len(pre) > 300 {
			pre = pre[len(pre)-300:]
		}
		return &Verdict{Fail: "crash of the whole process: " + clip(msg, 2500) + "\nbefore it: " + pre}
	}
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return &Verdict{Infra: "worker was killed"}
	}
	if st.Exited() {
		return &Verdict{Fail: fmt.Sprintf("the code under test ended the process with status %d; stderr: %s", st.ExitCode(), clip(s, 800))}
	}
	return &Verdict{Infra: "worker ended: " + st.String() + " " + clip(s, 500)}
}

// memory is the resident size of a process in bytes.
func memory(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// procState returns CPU seconds used by a process and whether all its threads sleep.
func procState(pid int) (cpu float64, sleeping bool, ok bool) {
	dir := fmt.Sprintf("/proc/%d/task", pid)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return 0, false, false
	}
	sleeping = true
	for _, e := range ents {
		b, err := os.ReadFile(dir + "/" + e.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		f := strings.Fields(s[i+1:])
		if len(f) < 13 {
			continue
		}
		if f[0] != "S" {
			sleeping = false
		}
		u, _ := strconv.ParseFloat(f[11], 64)
		k, _ := strconv.ParseFloat(f[12], 64)
		cpu += (u + k) / 100
	}
	return cpu, sleeping, true
}
