package hx

import (
	"encoding/json"
	"fmt"
	"strings"
	"syscall"
)

// Fault is injected by the tracer helper at the K-th file system call.
type Fault struct {
	K      int    `json:"k"`
	Action string `json:"action"`
	N      int    `json:"n"`
	Name   string `json:"name"`
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s at call %d (%s)", f.Action, f.K, f.Name)
	switch f.Action {
	case "errno":
		s += " " + syscall.Errno(f.N).Error()
	case "short":
		s += fmt.Sprintf(" %d bytes", f.N)
	}
	return s
}

// TracePlan is passed to the tracer helper.
type TracePlan struct {
	Path    string   `json:"path"`
	Args    []string `json:"args"`
	Dir     string   `json:"dir"`
	Env     []string `json:"env"`
	Root    string   `json:"root"`
	Targets []string `json:"targets"`
	Faults  []Fault  `json:"faults"`
	Stdin   []byte   `json:"stdin,omitempty"`
}

type TraceCall struct {
	Name  string `json:"name"`
	Path  string `json:"path"`
	Ret   int64  `json:"ret"`
	Fault string `json:"fault"`
}

type TraceReport struct {
	Calls  []TraceCall         `json:"calls"`
	States map[string][]string `json:"states"`
	Code   int                 `json:"code"`
	Signal int                 `json:"signal"`
	Stdout []byte              `json:"stdout"`
	Stderr []byte              `json:"stderr"`
	Hang   bool                `json:"hang"`
}

func (r *TraceReport) Exit() *Exit {
	return &Exit{Stdout: r.Stdout, Stderr: r.Stderr, Code: r.Code, Signal: syscall.Signal(r.Signal)}
}

// Injected tells whether some fault really took place.
func (r *TraceReport) Injected() bool {
	for _, c := range r.Calls {
		if c.Fault != "" {
			return true
		}
	}
	return false
}

func (r *TraceReport) String() string {
	var b strings.Builder
	for i, c := range r.Calls {
		fmt.Fprintf(&b, "\n  %d %s %s = %d", i, c.Name, c.Path, c.Ret)
		if c.Fault != "" {
			fmt.Fprintf(&b, " [%s]", c.Fault)
		}
	}
	return b.String()
}

func Trace(p TracePlan) (*TraceReport, error) {
	in, err := json.Marshal(p)
	if err != nil {
		Infra("%v", err)
	}
	if p.Env == nil {
		p.Env = BaseEnv()
		if in, err = json.Marshal(p); err != nil {
			Infra("%v", err)
		}
	}
	x, err := RunProc(Spec{Path: Bin("tracer"), Stdin: in})
	if err != nil {
		return nil, err
	}
	var r TraceReport
	if x.Code != 0 {
		Infra("tracer: %s %s", x.Status(), x.Stderr)
	}
	if err := json.Unmarshal(x.Stdout, &r); err != nil {
		Infra("tracer: %v", err)
	}
	if r.Hang {
		return &r, Hang("%s %q with %v%s", p.Path, p.Args, p.Faults, r.String())
	}
	return &r, nil
}

// Mutates tells whether a call may change the file system.
func (c TraceCall) Mutates() bool {
	switch c.Name {
	case "read", "close", "stat", "fstat", "lstat", "lseek", "pread64", "readv", "access", "readlink", "getdents64",
		"newfstatat", "readlinkat", "faccessat", "faccessat2", "statx", "fsync", "fdatasync":
		return false
	}
	return true
}

// Errors that such a call may really return.
func (c TraceCall) Errors() []syscall.Errno {
	switch c.Name {
	case "open", "openat", "openat2", "creat":
		return []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EROFS, syscall.EINTR}
	case "write", "pwrite64", "writev", "copy_file_range", "sendfile", "fallocate":
		return []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EINTR}
	case "fchmod", "chmod", "fchmodat", "fchmodat2", "chown", "fchown", "fchownat":
		return []syscall.Errno{syscall.EPERM, syscall.EIO}
	case "rename", "renameat", "renameat2", "link", "linkat":
		return []syscall.Errno{syscall.EACCES, syscall.EXDEV, syscall.EIO, syscall.ENOSPC}
	case "unlink", "unlinkat":
		return []syscall.Errno{syscall.EACCES, syscall.EIO}
	case "stat", "lstat", "newfstatat", "statx":
		return []syscall.Errno{syscall.EACCES, syscall.EIO}
	case "lseek":
		return nil
	}
	return []syscall.Errno{syscall.EIO}
}
