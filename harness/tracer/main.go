// Command tracer runs a program, observes its file system calls below
// of a directory, and kills the program or makes calls fail at chosen
// points. The plan is JSON on stdin, the report is JSON on stdout.
//
// The calls of the program itself and of its children are numbered from zero
// in the order in which they are entered.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Fault struct {
	K      int    `json:"k"`
	Action string `json:"action"` // kill-before, kill-after, errno, short
	N      int    `json:"n"`      // errno or number of bytes
	Name   string `json:"name"`   // expected call
}

type Plan struct {
	Path    string   `json:"path"`
	Args    []string `json:"args"`
	Dir     string   `json:"dir"`
	Env     []string `json:"env"`
	Root    string   `json:"root"`
	Targets []string `json:"targets"`
	Faults  []Fault  `json:"faults"`
	Stdin   []byte   `json:"stdin"`
}

type Call struct {
	Name  string `json:"name"`
	Path  string `json:"path"`
	Ret   int64  `json:"ret"`
	Fault string `json:"fault,omitempty"`
}

type Report struct {
	Calls  []Call              `json:"calls"`
	States map[string][]string `json:"states"` // distinct successive states of every target
	Code   int                 `json:"code"`
	Signal int                 `json:"signal"`
	Stdout []byte              `json:"stdout"`
	Stderr []byte              `json:"stderr"`
	Hang   bool                `json:"hang"`
	Error  string              `json:"error"`
}

// Arguments: p path (relative to the current directory), d directory descriptor
// followed by a path, f descriptor, - other.
var table = map[uint64]struct {
	name string
	args string
}{
	0: {"read", "f"}, 1: {"write", "f"}, 2: {"open", "p"}, 3: {"close", "f"}, 4: {"stat", "p"}, 5: {"fstat", "f"},
	6: {"lstat", "p"}, 8: {"lseek", "f"}, 17: {"pread64", "f"}, 18: {"pwrite64", "f"}, 19: {"readv", "f"}, 20: {"writev", "f"},
	21: {"access", "p"}, 40: {"sendfile", "ff"}, 74: {"fsync", "f"}, 75: {"fdatasync", "f"}, 76: {"truncate", "p"},
	77: {"ftruncate", "f"}, 82: {"rename", "pp"}, 83: {"mkdir", "p"}, 84: {"rmdir", "p"}, 85: {"creat", "p"}, 86: {"link", "pp"},
	87: {"unlink", "p"}, 88: {"symlink", "-p"}, 89: {"readlink", "p"}, 90: {"chmod", "p"}, 91: {"fchmod", "f"}, 92: {"chown", "p"},
	93: {"fchown", "f"}, 132: {"utime", "p"}, 217: {"getdents64", "f"}, 257: {"openat", "d"}, 258: {"mkdirat", "d"}, 260: {"fchownat", "d"},
	262: {"newfstatat", "d"}, 263: {"unlinkat", "d"}, 264: {"renameat", "dd"}, 265: {"linkat", "dd"}, 266: {"symlinkat", "-d"},
	267: {"readlinkat", "d"}, 268: {"fchmodat", "d"}, 269: {"faccessat", "d"}, 280: {"utimensat", "d"}, 285: {"fallocate", "f"},
	316: {"renameat2", "dd"}, 326: {"copy_file_range", "f-f"}, 332: {"statx", "d"}, 437: {"openat2", "d"}, 439: {"faccessat2", "d"},
	452: {"fchmodat2", "d"},
}

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "tracer: "+format+"\n", a...)
	os.Exit(3)
}

type info struct {
	op   byte
	_    [3]byte
	arch uint32
	ip   uint64
	sp   uint64
	u    [7]uint64
	_    [8]uint64
}

const getSyscallInfo = 0x420e

func syscallInfo(tid int) (*info, error) {
	var x info
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, getSyscallInfo, uintptr(tid), unsafe.Sizeof(x), uintptr(unsafe.Pointer(&x)), 0, 0)
	if e != 0 {
		return nil, e
	}
	return &x, nil
}

func str(tid int, addr uint64) string {
	var b []byte
	buf := make([]byte, 256)
	for len(b) < 8192 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr), buf)
		if err != nil && n <= 0 {
			break
		}
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(append(b, buf[:i]...))
		}
		b = append(b, buf[:n]...)
		addr += uint64(n)
	}
	return string(b)
}

func state(path string) string {
	st, err := os.Lstat(path)
	switch {
	case os.IsNotExist(err):
		return "absent"
	case err != nil:
		return "error " + err.Error()
	case st.Mode().IsRegular():
		b, err := os.ReadFile(path)
		if err != nil {
			return "error " + err.Error()
		}
		return fmt.Sprintf("file %x", sha256.Sum256(b))
	case st.Mode()&os.ModeSymlink != 0:
		l, err := os.Readlink(path)
		if err != nil {
			return state(path) // replaced meanwhile by another thread
		}
		return "link " + l
	}
	return "other " + st.Mode().Type().String()
}

func main() {
	var p Plan
	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &p)
	}
	if err != nil {
		fail("%v", err)
	}
	r := Report{States: map[string][]string{}}
	run(&p, &r)
	b, err := json.Marshal(&r)
	if err != nil {
		fail("%v", err)
	}
	os.Stdout.Write(b)
}

func run(p *Plan, r *Report) {
	runtime.LockOSThread()
	cmd := exec.Command(p.Path, p.Args...)
	cmd.Dir, cmd.Env = p.Dir, p.Env
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Setpgid: true}
	or, ow, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	er, ew, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	cmd.Stdout, cmd.Stderr = ow, ew
	if len(p.Stdin) > 0 {
		ir, iw, err := os.Pipe()
		if err != nil {
			fail("%v", err)
		}
		cmd.Stdin = ir
		go func() { iw.Write(p.Stdin); iw.Close() }()
		defer ir.Close()
	}
	for try := 0; ; try++ {
		err = cmd.Start()
		if err == syscall.ETXTBSY && try < 100 {
			time.Sleep(10 * time.Millisecond)
			continue
		}
		break
	}
	if err != nil {
		fail("start: %v", err)
	}
	ow.Close()
	ew.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { r.Stdout, _ = io.ReadAll(or); wg.Done() }()
	go func() { r.Stderr, _ = io.ReadAll(er); wg.Done() }()
	root := cmd.Process.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(root, &ws, syscall.WALL, nil); err != nil {
		fail("wait: %v", err)
	}
	const options = 1 | 2 | 4 | 8 | 16 | 0x100000 // sysgood, fork, vfork, clone, exec, exitkill
	if err := syscall.PtraceSetOptions(root, options); err != nil {
		fail("setoptions: %v", err)
	}
	var hang int32
	killAll := func() { syscall.Kill(-root, syscall.SIGKILL); syscall.Kill(root, syscall.SIGKILL) }
	timer := time.AfterFunc(60*time.Second, func() { atomic.StoreInt32(&hang, 1); killAll() })
	defer timer.Stop()

	type pending struct {
		call  int
		fault *Fault
	}
	inCall := map[int]*pending{}
	see := func() {
		for _, t := range p.Targets {
			s := state(t)
			l := r.States[t]
			if len(l) == 0 || l[len(l)-1] != s {
				r.States[t] = append(l, s)
			}
		}
	}
	see()
	abs := func(tid int, dir string, path string) string {
		if !filepath.IsAbs(path) {
			if dir == "" {
				dir, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", tid))
			}
			path = filepath.Join(dir, path)
		}
		return filepath.Clean(path)
	}
	fdPath := func(tid int, fd uint64) string {
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(fd)))
		return strings.TrimSuffix(s, " (deleted)")
	}
	relevant := func(tid int, x *info) (string, string, bool) {
		d, ok := table[x.u[0]]
		if !ok {
			return "", "", false
		}
		arg := 0
		for _, k := range d.args {
			path := ""
			switch k {
			case 'f':
				path = fdPath(tid, x.u[1+arg])
				arg++
			case 'p':
				path = abs(tid, "", str(tid, x.u[1+arg]))
				arg++
			case 'd':
				dir := ""
				if int32(x.u[1+arg]) != -100 {
					dir = fdPath(tid, x.u[1+arg])
				}
				path = abs(tid, dir, str(tid, x.u[2+arg]))
				arg += 2
			case '-':
				arg++
			}
			if path == p.Root || strings.HasPrefix(path, p.Root+"/") {
				return d.name, path, true
			}
		}
		return "", "", false
	}
	cont := func(tid int, sig int) {
		if err := syscall.PtraceSyscall(tid, sig); err != nil && err != syscall.ESRCH {
			fail("ptrace syscall: %v", err)
		}
	}
	started := map[int]bool{root: true}
	killed := false
	cont(root, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.ECHILD {
			break
		}
		if err != nil {
			fail("wait: %v", err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(inCall, tid)
			if tid == root {
				if ws.Signaled() {
					r.Signal = int(ws.Signal())
					r.Code = -1
				} else {
					r.Code = ws.ExitStatus()
				}
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		if sig != syscall.SIGTRAP|0x80 {
			switch {
			case sig == syscall.SIGTRAP && ws.TrapCause() > 0:
				cont(tid, 0)
			case sig == syscall.SIGSTOP && !started[tid]:
				started[tid] = true
				cont(tid, 0)
			case sig == syscall.SIGTRAP:
				cont(tid, 0)
			default:
				cont(tid, int(sig))
			}
			continue
		}
		started[tid] = true
		if killed {
			cont(tid, 0)
			continue
		}
		x, err := syscallInfo(tid)
		if err == syscall.ESRCH {
			continue
		}
		if err != nil {
			fail("PTRACE_GET_SYSCALL_INFO: %v", err)
		}
		see()
		switch x.op {
		case 1: // entry
			name, path, ok := relevant(tid, x)
			if !ok {
				delete(inCall, tid)
				break
			}
			k := len(r.Calls)
			r.Calls = append(r.Calls, Call{Name: name, Path: path})
			pe := &pending{call: k}
			inCall[tid] = pe
			for i := range p.Faults {
				f := &p.Faults[i]
				if f.K != k || (f.Name != "" && f.Name != name) {
					continue
				}
				r.Calls[k].Fault = fmt.Sprintf("%s %d", f.Action, f.N)
				pe.fault = f
				switch f.Action {
				case "kill-before":
					killed = true
					killAll()
				case "errno", "short":
					var regs syscall.PtraceRegs
					if err := syscall.PtraceGetRegs(tid, &regs); err != nil {
						fail("getregs: %v", err)
					}
					if f.Action == "errno" {
						regs.Orig_rax = ^uint64(0)
					} else if uint64(f.N) < regs.Rdx {
						regs.Rdx = uint64(f.N)
					}
					if err := syscall.PtraceSetRegs(tid, &regs); err != nil {
						fail("setregs: %v", err)
					}
				}
			}
		case 2: // exit
			pe := inCall[tid]
			delete(inCall, tid)
			if pe == nil {
				break
			}
			r.Calls[pe.call].Ret = int64(x.u[0])
			if f := pe.fault; f != nil {
				switch f.Action {
				case "kill-after":
					killed = true
					killAll()
				case "errno", "short":
					var regs syscall.PtraceRegs
					if err := syscall.PtraceGetRegs(tid, &regs); err != nil {
						fail("getregs: %v", err)
					}
					if f.Action == "errno" {
						regs.Rax = uint64(-int64(f.N))
						r.Calls[pe.call].Ret = -int64(f.N)
					} else {
						break
					}
					if err := syscall.PtraceSetRegs(tid, &regs); err != nil {
						fail("setregs: %v", err)
					}
				}
			}
		}
		cont(tid, 0)
	}
	see()
	r.Hang = atomic.LoadInt32(&hang) != 0
	wg.Wait()
}
