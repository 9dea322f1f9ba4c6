// Stand-in for emacsclient: records its arguments, acts by a plan.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type Outcome struct {
	Exit  int    `json:"exit"`
	Out   string `json:"out"`
	Err   string `json:"err"`
	Sleep int    `json:"sleep"` // milliseconds
	OutN  int    `json:"outN"`
	ErrN  int    `json:"errN"`
	// Act as emacsclient that does not find a server.
	NoServer bool `json:"noServer"`
}

type Plan struct {
	// Outcome of the n-th call (serial use).
	Calls []Outcome `json:"calls"`
	// Outcome by the last argument (concurrent use).
	ByArg map[string]Outcome `json:"byArg"`
	// Wait until this file appears before exiting, by the last argument.
	Hold map[string]string `json:"hold"`
}

// noServer runs the alternate editor in the same way as emacsclient.c does.
func noServer(dir string, args []string) {
	editor, found := os.LookupEnv("ALTERNATE_EDITOR")
	var files []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			files = append(files, args[i+1:]...)
			break
		}
		name, val, eq := strings.Cut(a, "=")
		switch {
		case len(name) >= 4 && strings.HasPrefix("--alternate-editor", name) || a == "-a":
			if !eq {
				if i++; i >= len(args) {
					os.Exit(1)
				}
				val = args[i]
			}
			editor, found = val, true
		case strings.HasPrefix(a, "-a"):
			editor, found = a[2:], true
		case strings.HasPrefix(a, "-") && a != "-":
		default:
			files = append(files, a)
		}
	}
	fmt.Fprintln(os.Stderr, "emacsclient: can't find socket; have you started the server?\nemacsclient: To start the server in Emacs, type \"M-x server-start\".")
	if !found {
		fmt.Fprintln(os.Stderr, "emacsclient: No socket or alternate editor.  Please use:\n\n\t--socket-name\n\t--server-file      (or environment variable EMACS_SERVER_FILE)\n\t--alternate-editor (or environment variable ALTERNATE_EDITOR)")
		os.Exit(1)
	}
	if editor == "" {
		os.WriteFile(filepath.Join(dir, "daemon"), nil, 0644)
		fmt.Fprintln(os.Stderr, "Starting Emacs daemon.")
		os.Exit(0)
	}
	var argv []string
	for tok := editor; tok != ""; {
		trimmed := strings.TrimLeft(tok, " \"")
		sep := " "
		if k := len(tok) - len(trimmed); k > 0 && tok[k-1] == '"' {
			sep = "\""
		}
		var word string
		word, tok, _ = strings.Cut(trimmed, sep)
		argv = append(argv, word)
	}
	argv = append(argv, files...)
	if p, err := exec.LookPath(argv[0]); err == nil {
		syscall.Exec(p, argv, os.Environ())
	}
	fmt.Fprintf(os.Stderr, "emacsclient: error executing alternate editor \"%s\"\n", editor)
	os.Exit(1)
}

// fill writes by small pieces.
func fill(f *os.File, n int) {
	piece := strings.Repeat("0123456 ", 512)
	for n > 0 {
		k := len(piece)
		if n < k {
			k = n
		}
		if _, err := f.WriteString(piece[:k]); err != nil {
			os.Exit(75)
		}
		n -= k
	}
}

// record saves circumstances of the last call.
func record(dir string) {
	var r struct {
		Dir string            `json:"dir"`
		Env map[string]string `json:"env"`
	}
	r.Dir, _ = os.Getwd()
	r.Env = map[string]string{}
	for _, v := range os.Environ() {
		name, value, _ := strings.Cut(v, "=")
		r.Env[name] = value
	}
	b, err := json.Marshal(r)
	if err != nil {
		os.Exit(76)
	}
	tmp := filepath.Join(dir, fmt.Sprintf("where%d", os.Getpid()))
	if os.WriteFile(tmp, b, 0644) != nil || os.Rename(tmp, filepath.Join(dir, "where")) != nil {
		os.Exit(77)
	}
}

// drain reads input as emacsclient on a terminal does. It has to get nothing.
func drain(dir string) {
	own, err := os.Readlink("/proc/self/fd/0")
	if err == nil && strings.HasPrefix(own, "pipe:") {
		if of, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/0", os.Getppid())); err == nil && of == own {
			os.WriteFile(filepath.Join(dir, "stolen"), nil, 0644)
		}
	}
	done := make(chan bool)
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := os.Stdin.Read(b)
			if n > 0 {
				os.WriteFile(filepath.Join(dir, "stolen"), b[:n], 0644)
			}
			if err != nil {
				close(done)
				return
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Millisecond):
	}
}

func main() {
	dir := os.Getenv("STUB_DIR")
	if dir == "" {
		os.Exit(70)
	}
	line, err := json.Marshal(os.Args)
	if err != nil {
		os.Exit(71)
	}
	f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		os.Exit(72)
	}
	if syscall.Flock(int(f.Fd()), syscall.LOCK_EX) != nil {
		os.Exit(73)
	}
	old, _ := os.ReadFile(filepath.Join(dir, "log"))
	n := strings.Count(string(old), "\n")
	f.Write(append(line, '\n'))
	f.Close()
	record(dir)
	drain(dir)
	var plan Plan
	if b, err := os.ReadFile(filepath.Join(dir, "plan.json")); err == nil {
		if json.Unmarshal(b, &plan) != nil {
			os.Exit(74)
		}
	}
	o := Outcome{Out: "org-protocol\n"}
	last := os.Args[len(os.Args)-1]
	if n < len(plan.Calls) {
		o = plan.Calls[n]
	} else if b, ok := plan.ByArg[last]; ok {
		o = b
	}
	if h, ok := plan.Hold[last]; ok {
		for i := 0; i < 12000; i++ {
			if _, err := os.Stat(h); err == nil {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	if o.NoServer {
		noServer(dir, os.Args[1:])
	}
	if o.Sleep > 0 {
		time.Sleep(time.Duration(o.Sleep) * time.Millisecond)
	}
	fmt.Fprint(os.Stdout, o.Out)
	fill(os.Stdout, o.OutN)
	fmt.Fprint(os.Stderr, o.Err)
	fill(os.Stderr, o.ErrN)
	os.Exit(o.Exit)
}
