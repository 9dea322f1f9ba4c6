package hx

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

type StubOutcome struct {
	Exit  int    `json:"exit"`
	Out   string `json:"out"`
	Err   string `json:"err"`
	Sleep int    `json:"sleep,omitempty"`
	// Numbers of bytes that follow Out and Err.
	OutN int `json:"outN,omitempty"`
	ErrN int `json:"errN,omitempty"`
	// The client does not find a server, so acts according to its arguments.
	NoServer bool `json:"noServer,omitempty"`
}

type StubPlan struct {
	Calls []StubOutcome          `json:"calls,omitempty"`
	ByArg map[string]StubOutcome `json:"byArg,omitempty"`
	Hold  map[string]string      `json:"hold,omitempty"`
}

// Stub is a scripted emacsclient.
type Stub struct{ Dir string }

func (e *Env) NewStub() *Stub {
	d := filepath.Join(e.Scratch(), "stub")
	must(os.MkdirAll(d, 0755))
	return &Stub{d}
}

func (s *Stub) Env() string { return "STUB_DIR=" + s.Dir }

func (s *Stub) SetPlan(p StubPlan) {
	b, err := json.Marshal(p)
	must(err)
	must(os.WriteFile(filepath.Join(s.Dir, "plan.json"), b, 0644))
}

// Circumstances of the last command.
type Circumstances struct {
	Dir string            `json:"dir"`
	Env map[string]string `json:"env"`
}

func (s *Stub) Where() (c Circumstances) {
	b, err := os.ReadFile(filepath.Join(s.Dir, "where"))
	must(err)
	must(json.Unmarshal(b, &c))
	return
}

// CheckWhere: the command is run in the directory and with the environment of
// the backend, otherwise the client opens another file or does not find Emacs.
func (s *Stub) CheckWhere(dir string, env []string) error {
	if _, err := os.Stat(filepath.Join(s.Dir, "stolen")); err == nil {
		return Errf("input of the backend is available for the command")
	}
	c := s.Where()
	if dir != "" {
		a, err := os.Stat(dir)
		must(err)
		if b, err := os.Stat(c.Dir); err != nil || !os.SameFile(a, b) {
			return Errf("the command is run in %s instead of %s", c.Dir, dir)
		}
	}
	for _, v := range env {
		name, value, _ := strings.Cut(v, "=")
		if got, ok := c.Env[name]; !ok || got != value {
			return Errf("the command is run with %s=%q (%v), %q is expected", name, got, ok, value)
		}
	}
	return nil
}

// EmacsEnv are variables that the client uses to find Emacs and a display.
func EmacsEnv(dir string) []string {
	return []string{"DISPLAY=:17", "WAYLAND_DISPLAY=wayland-9", "XDG_RUNTIME_DIR=" + dir, "EMACS_SERVER_FILE=a b/server",
		"EMACS_SOCKET_NAME=" + dir + "/socket", "TERM=dumb", "XAUTHORITY=" + dir + "/é", "TMPDIR=" + dir}
}

// Calls are the recorded argument lists, including argv[0].
func (s *Stub) Calls() [][]string {
	b, err := os.ReadFile(filepath.Join(s.Dir, "log"))
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	var r [][]string
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		var a []string
		must(json.Unmarshal([]byte(l), &a))
		r = append(r, a)
	}
	return r
}

func (s *Stub) Reset() { os.Remove(filepath.Join(s.Dir, "log")) }

// AltEditor is the environment of a user having an alternate editor,
// it must not be started by the backend.
func (s *Stub) AltEditor(userArgs []string) string {
	if DashDash(userArgs) {
		return "NO_ALTERNATE_EDITOR="
	}
	return "ALTERNATE_EDITOR=touch " + filepath.Join(s.Dir, "alternate")
}

// Started reports that an editor or a daemon has been started since there is no server.
func (s *Stub) Started() string {
	for _, n := range []string{"daemon", "alternate"} {
		if _, err := os.Lstat(filepath.Join(s.Dir, n)); err == nil {
			return n
		}
	}
	return ""
}

// DashDash means that user's arguments hide the following options.
func DashDash(args []string) bool {
	for _, a := range args {
		if a == "--" {
			return true
		}
	}
	return false
}
