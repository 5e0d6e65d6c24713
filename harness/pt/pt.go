// Package pt runs a program of ours under ptrace and interferes with one of
// its file operations below a directory.
package pt

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Fault is what happens at operation At (1 is the first; 0 for none).
type Fault struct {
	At   int
	Mode string // "kill" before it, "partial" (half a write, then kill), "short" (a short write), "errno"
	Err  syscall.Errno
}

type Result struct {
	Ops    []string // operation and path (base name)
	Exit   int      // exit code, or -1 if killed
	Stderr string
	Hit    bool // the fault took place
	// Endless: it had to be stopped after much CPU time or very many operations
	Endless bool
}

type regs = syscall.PtraceRegs

const (
	optSysGood = 1
	optFork    = 2
	optVfork   = 4
	optClone   = 8
	optExec    = 16
	optExit    = 0x100000 // EXITKILL
	wall       = 0x40000000
	wnothread  = 0x20000000
)

var atNames = map[uint64]string{257: "openat", 263: "unlinkat", 258: "mkdirat", 262: "newfstatat", 264: "renameat", 316: "renameat2", 437: "openat2"}
var pathNames = map[uint64]string{2: "open", 82: "rename", 83: "mkdir", 84: "rmdir", 87: "unlink", 76: "truncate", 6: "lstat", 4: "stat"}
var fdNames = map[uint64]string{1: "write", 18: "pwrite64", 77: "ftruncate", 74: "fsync", 75: "fdatasync", 217: "getdents64", 3: "close"}

func readStr(pid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 256)
	for len(out) < 8192 {
		// stay within a page per read
		n := 4096 - int(addr%4096)
		if n > len(buf) {
			n = len(buf)
		}
		k, err := syscall.PtracePeekData(pid, uintptr(addr), buf[:n])
		if k <= 0 || err != nil {
			break
		}
		if i := bytes.IndexByte(buf[:k], 0); i >= 0 {
			return string(append(out, buf[:i]...))
		}
		out = append(out, buf[:k]...)
		addr += uint64(k)
	}
	return string(out)
}

func fdPath(pid int, fd int64) string {
	p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, fd))
	return p
}

func under(dir, p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// op names the operation if it concerns dir.
func op(pid int, r *regs, dir string) string {
	nr := r.Orig_rax
	if n, ok := atNames[nr]; ok {
		p := readStr(pid, r.Rsi)
		if !filepath.IsAbs(p) {
			if int32(r.Rdi) == -100 {
				return ""
			}
			p = filepath.Join(fdPath(pid, int64(int32(r.Rdi))), p)
		}
		if under(dir, p) {
			return n + " " + filepath.Base(p)
		}
		return ""
	}
	if n, ok := pathNames[nr]; ok {
		p := readStr(pid, r.Rdi)
		if under(dir, p) {
			return n + " " + filepath.Base(p)
		}
		return ""
	}
	if n, ok := fdNames[nr]; ok {
		p := fdPath(pid, int64(int32(r.Rdi)))
		if under(dir, p) {
			return n + " " + filepath.Base(p)
		}
	}
	return ""
}

// Run runs argv. dir must be an absolute clean path.
func Run(argv []string, dir string, f Fault, limit time.Duration) (*Result, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	c := exec.Command(argv[0], argv[1:]...)
	var eb bytes.Buffer
	ef, err := os.CreateTemp("", "pt")
	if err != nil {
		return nil, err
	}
	defer os.Remove(ef.Name())
	defer ef.Close()
	c.Stderr = ef
	c.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	if err := c.Start(); err != nil {
		return nil, err
	}
	pid := c.Process.Pid
	defer c.Process.Release()
	res := &Result{Exit: -2}
	timer := time.AfterFunc(limit, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer timer.Stop()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, wall, nil); err != nil {
		return nil, err
	}
	if err := syscall.PtraceSetOptions(pid, optSysGood|optFork|optVfork|optClone|optExec|optExit); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, wall, nil)
		return nil, err
	}
	inside := map[int]bool{}
	seen := map[int]bool{pid: true}
	pending := map[int]string{} // what to do at the exit of the call
	syscall.PtraceSyscall(pid, 0)
	n := 0
	for {
		var ru syscall.Rusage
		t, err := syscall.Wait4(-1, &ws, wall|wnothread, &ru)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("wait: %v", err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(inside, t)
			if t == pid {
				if ws.Exited() {
					res.Exit = ws.ExitStatus()
				} else {
					res.Exit = -1
				}
				res.Endless = ru.Utime.Sec+ru.Stime.Sec >= 25 || n > 20000
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			if !inside[t] {
				inside[t] = true
				var r regs
				if syscall.PtraceGetRegs(t, &r) == nil {
					if o := op(t, &r, dir); o != "" {
						n++
						if n == 20001 {
							syscall.Kill(pid, syscall.SIGKILL)
						}
						res.Ops = append(res.Ops, o)
						if n == f.At {
							isWrite := r.Orig_rax == 1 || r.Orig_rax == 18
							switch f.Mode {
							case "kill":
								res.Hit = true
								syscall.Kill(pid, syscall.SIGKILL)
							case "partial", "short":
								if isWrite && r.Rdx > 1 {
									r.Rdx /= 2
									syscall.PtraceSetRegs(t, &r)
									res.Hit = true
									if f.Mode == "partial" {
										pending[t] = "kill"
									}
								}
							case "errno":
								r.Orig_rax = ^uint64(0)
								syscall.PtraceSetRegs(t, &r)
								pending[t] = "errno"
								res.Hit = true
							}
						}
					}
				}
			} else {
				inside[t] = false
				switch pending[t] {
				case "kill":
					syscall.Kill(pid, syscall.SIGKILL)
				case "errno":
					var r regs
					if syscall.PtraceGetRegs(t, &r) == nil {
						r.Rax = uint64(-int64(f.Err))
						syscall.PtraceSetRegs(t, &r)
					}
				}
				delete(pending, t)
			}
			syscall.PtraceSyscall(t, 0)
		case sig == syscall.SIGTRAP:
			syscall.PtraceSyscall(t, 0) // events
		case sig == syscall.SIGSTOP && !seen[t]:
			seen[t] = true
			syscall.PtraceSyscall(t, 0)
		default:
			syscall.PtraceSyscall(t, int(sig))
		}
		seen[t] = true
	}
	if _, err := ef.Seek(0, 0); err == nil {
		eb.ReadFrom(ef)
	}
	res.Stderr = eb.String()
	if !timer.Stop() && !res.Endless {
		return nil, fmt.Errorf("traced program took longer than %v", limit)
	}
	return res, nil
}
