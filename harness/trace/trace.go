// Package trace runs a child process of its own under ptrace and kills it before, or fails, one of the
// system calls it makes on files below a directory: crash points and failing devices, one by one.
package trace

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/amarin/gomorphy/verif/pbt"
)

// What is done to the call reached.
const (
	Nothing  = iota
	Kill     // the process is killed before the call
	KillHalf // the process is killed when half of a write is done (before any other call)
	Fail     // the call fails with an error
	FailOn   // the call fails, and so does every later one that needs room on the disk
)

// Fault is a deed at one of the calls.
type Fault struct {
	At    int // number of the call, from 0
	Deed  int
	Errno syscall.Errno
}

// Call is one system call on a file of the directory.
type Call struct {
	Name string // open, create, read, write, close, rename, remove, mkdir, stat, change
	Path string // below the directory
}

func (c Call) String() string { return c.Name + " " + c.Path }

// Result is how the child ended.
type Result struct {
	Calls  []Call
	Hit    bool // the deed was done
	Killed bool
	Status int
	Out    []byte
	Err    []byte
}

type kind struct {
	name string
	fd   int // number of the argument that is a descriptor, -1: none
	path int // number of the argument that is a path, -1: none
	at   int // number of the argument that is the directory of the path, -1: none
}

var calls = map[uint64]kind{
	0: {"read", 0, -1, -1}, 17: {"read", 0, -1, -1}, 19: {"read", 0, -1, -1}, 217: {"read", 0, -1, -1},
	1: {"write", 0, -1, -1}, 18: {"write", 0, -1, -1}, 20: {"write", 0, -1, -1},
	40: {"write", 0, -1, -1}, 275: {"write", 2, -1, -1}, 326: {"write", 2, -1, -1},
	3: {"close", 0, -1, -1},
	2: {"open", -1, 0, -1}, 257: {"open", -1, 1, 0}, 85: {"create", -1, 0, -1},
	82: {"rename", -1, 0, -1}, 264: {"rename", -1, 1, 0}, 316: {"rename", -1, 1, 0},
	87: {"remove", -1, 0, -1}, 263: {"remove", -1, 1, 0}, 84: {"remove", -1, 0, -1},
	83: {"mkdir", -1, 0, -1}, 258: {"mkdir", -1, 1, 0},
	4: {"stat", -1, 0, -1}, 6: {"stat", -1, 0, -1}, 262: {"stat", -1, 1, 0}, 332: {"stat", -1, 1, 0}, 5: {"stat", 0, -1, -1},
	21: {"stat", -1, 0, -1}, 269: {"stat", -1, 1, 0}, 439: {"stat", -1, 1, 0},
	76: {"change", -1, 0, -1}, 77: {"change", 0, -1, -1}, 74: {"change", 0, -1, -1}, 75: {"change", 0, -1, -1}, 285: {"change", 0, -1, -1},
	86: {"change", -1, 1, -1}, 265: {"change", -1, 3, 2}, 88: {"change", -1, 1, -1}, 266: {"change", -1, 2, 1},
	90: {"change", -1, 0, -1}, 91: {"change", 0, -1, -1}, 268: {"change", -1, 1, 0}, 280: {"change", -1, 1, 0}, 235: {"change", -1, 0, -1},
}

// Alters tells if the call may change what is on the disk.
func (c Call) Alters() bool {
	switch c.Name {
	case "read", "stat", "open", "close":
		return false
	}
	return true
}

const oCreate = syscall.O_CREAT

func arg(r *syscall.PtraceRegs, n int) uint64 {
	switch n {
	case 0:
		return r.Rdi
	case 1:
		return r.Rsi
	case 2:
		return r.Rdx
	case 3:
		return r.R10
	case 4:
		return r.R8
	}
	return r.R9
}

func peekString(tid int, addr uint64) string {
	var s []byte
	buf := make([]byte, 64)
	for len(s) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(s)), buf)
		if n > 0 {
			if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
				return string(append(s, buf[:i]...))
			}
			s = append(s, buf[:n]...)
		}
		if err != nil || n == 0 {
			break
		}
	}
	return string(s)
}

// look tells which call on a file below dir a process is about to make.
func look(tid int, r *syscall.PtraceRegs, dir string) (Call, bool) {
	k, ok := calls[r.Orig_rax]
	if !ok {
		return Call{}, false
	}
	path := ""
	if k.fd >= 0 {
		path, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(arg(r, k.fd))))
		path = strings.TrimSuffix(path, " (deleted)")
	} else {
		path = peekString(tid, arg(r, k.path))
		if !filepath.IsAbs(path) {
			from := fmt.Sprintf("/proc/%d/cwd", tid)
			if k.at >= 0 && int32(arg(r, k.at)) >= 0 {
				from = fmt.Sprintf("/proc/%d/fd/%d", tid, int32(arg(r, k.at)))
			}
			base, _ := os.Readlink(from)
			path = filepath.Join(base, path)
		}
	}
	if path != dir && !strings.HasPrefix(path, dir+"/") {
		return Call{}, false
	}
	c := Call{k.name, strings.TrimPrefix(path[len(dir):], "/")}
	if c.Name == "open" {
		flags := r.Rsi
		if r.Orig_rax == 257 {
			flags = r.Rdx
		}
		if flags&oCreate != 0 {
			c.Name = "create"
		}
	}
	return c, true
}

// Run runs cmd with a fault among its calls on files below dir, which has to be free of links.
func Run(cmd *exec.Cmd, dir string, fault Fault) Result {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var res Result
	out, err := os.CreateTemp("", "trace-out")
	pbt.Must(err)
	defer func() { _ = out.Close(); _ = os.Remove(out.Name()) }()
	errs, err := os.CreateTemp("", "trace-err")
	pbt.Must(err)
	defer func() { _ = errs.Close(); _ = os.Remove(errs.Name()) }()
	cmd.Stdout, cmd.Stderr = out, errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}
	pbt.Must(cmd.Start())
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	_, err = wait(pid, &ws)
	pbt.Must(err)
	if !ws.Stopped() {
		pbt.Must(fmt.Errorf("trace: the child did not stop: %v", ws))
	}
	const traceExitKill = 0x100000
	pbt.Must(syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACESYSGOOD|traceExitKill))
	pbt.Must(syscall.PtraceSyscall(pid, 0))

	type pending struct {
		override bool
		errno    syscall.Errno
		kill     bool
	}
	inside := map[int]*pending{} // threads inside a call
	full := false
	kill := func() {
		res.Hit, res.Killed = true, true
		_ = syscall.Kill(pid, syscall.SIGKILL)
	}
	for {
		tid, err := wait(-1, &ws)
		if err == syscall.ECHILD { //nolint:errorlint
			break
		}
		pbt.Must(err)
		if ws.Exited() || ws.Signaled() {
			delete(inside, tid)
			if tid == pid {
				res.Status = ws.ExitStatus()
				if ws.Signaled() {
					res.Status = 128 + int(ws.Signal())
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		deliver := 0
		switch sig := ws.StopSignal(); {
		case sig == syscall.SIGTRAP|0x80: // a call begins or ends
			p, leaving := inside[tid]
			if leaving {
				delete(inside, tid)
				if p != nil && p.override {
					var r syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &r) == nil {
						r.Rax = uint64(-int64(p.errno))
						_ = syscall.PtraceSetRegs(tid, &r)
					}
				}
				if p != nil && p.kill {
					kill()
				}
				break
			}
			inside[tid] = nil
			var r syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			c, ok := look(tid, &r, dir)
			if !ok {
				break
			}
			n := len(res.Calls)
			res.Calls = append(res.Calls, c)
			hit := n == fault.At && fault.Deed != Nothing
			switch {
			case !full:
			case c.Name == "write" || c.Name == "mkdir":
				hit = true
			case c.Name == "create": // what is there already is opened, and emptied, all the same
				_, err := os.Lstat(filepath.Join(dir, c.Path))
				hit = hit || err != nil
			}
			if !hit {
				break
			}
			switch fault.Deed {
			case Kill:
				kill()
			case KillHalf:
				if r.Orig_rax != 1 || r.Rdx < 2 {
					kill()
					break
				}
				r.Rdx /= 2
				if syscall.PtraceSetRegs(tid, &r) == nil {
					inside[tid] = &pending{kill: true}
				}
			case Fail, FailOn:
				res.Hit = true
				full = full || fault.Deed == FailOn
				inside[tid] = &pending{override: true, errno: fault.Errno}
				if c.Name != "close" { // a descriptor is gone even when closing it fails
					r.Orig_rax = ^uint64(0)
					_ = syscall.PtraceSetRegs(tid, &r)
				}
			}
		case sig == syscall.SIGTRAP && ws.TrapCause() > 0: // a new thread
		case sig == syscall.SIGSTOP: // a new thread begins
		default:
			deliver = int(sig)
		}
		_ = syscall.PtraceSyscall(tid, deliver)
	}
	_ = cmd.Process.Release()
	res.Out, err = os.ReadFile(out.Name())
	pbt.Must(err)
	res.Err, err = os.ReadFile(errs.Name())
	pbt.Must(err)
	return res
}

func wait(pid int, ws *syscall.WaitStatus) (int, error) {
	const all = 0x40000000 // __WALL
	for {
		tid, err := syscall.Wait4(pid, ws, all, nil)
		if err != syscall.EINTR { //nolint:errorlint
			return tid, err
		}
	}
}
