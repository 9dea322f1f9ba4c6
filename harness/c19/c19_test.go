package c19

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type target struct {
	Kind  string `json:"kind"`
	Prev  string `json:"prev"`
	Mode  int    `json:"mode"`
	Extra int    `json:"extra"` // size of other previous content
}

type pair struct {
	A int `json:"a"` // index of the first fault modulo the number of faults
	D int `json:"d"` // distance of the call of the second one
	B int `json:"b"` // kind of the second fault
}

type faultCase struct {
	Targets []target `json:"targets"`
	Pad     int      `json:"pad"`
	Force   bool     `json:"force"`
	Pairs   []pair   `json:"pairs"`
}

func gen(t *rapid.T) faultCase {
	c := faultCase{}
	kinds := []string{"wrapper", "firefox", "chrome"}
	switch Pick(t, "targets", 2, 1, 1, 1) {
	case 1:
		kinds = kinds[1:2]
	case 2:
		kinds = kinds[2:]
	case 3:
		kinds = rapid.Permutation(kinds).Draw(t, "kinds")[:rapid.IntRange(2, 3).Draw(t, "count")]
	default:
		kinds = kinds[:1]
	}
	c.Force = Pick(t, "force", 1, 2) == 1
	for _, k := range kinds {
		x := target{Kind: k, Mode: rapid.SampledFrom([]int{0644, 0755, 0600, 0400}).Draw(t, "mode")}
		x.Prev = rapid.SampledFrom([]string{"absent", "other", "same", "empty", "long", "link", "other", "absent", "prefix"}).Draw(t, "previous")
		x.Extra = rapid.IntRange(0, 30000).Draw(t, "extra")
		c.Targets = append(c.Targets, x)
	}
	switch Pick(t, "length", 2, 1, 1) {
	case 1:
		c.Pad = rapid.IntRange(1, 9000).Draw(t, "pad")
	case 2:
		c.Pad = rapid.IntRange(9000, 100000).Draw(t, "pad")
	}
	c.Pairs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) pair {
		return pair{rapid.IntRange(0, 1000).Draw(t, "a"), rapid.IntRange(1, 6).Draw(t, "d"), rapid.IntRange(0, 30).Draw(t, "b")}
	}), 0, 8).Draw(t, "pairs")
	return c
}

func ok(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

type world struct {
	c     *faultCase
	root  string
	exe   string
	cwd   string
	args  []string
	paths []string
	want  [][]byte
	old   []string // states
	side  []string // files that must not change
}

func (w *world) path(i int) string {
	x := w.c.Targets[i]
	if x.Kind == "wrapper" {
		return filepath.Join(w.root, "w", "burl_wrapper")
	}
	return filepath.Join(w.root, x.Kind, "the.name.json")
}

func (w *world) clear() {
	ok(os.RemoveAll(w.root))
	ok(os.Mkdir(w.root, 0755))
	ok(os.Mkdir(filepath.Join(w.root, "side"), 0755))
	for _, p := range w.paths {
		ok(os.Mkdir(filepath.Dir(p), 0755))
	}
}

func otherContent(n int) []byte {
	b := []byte("#!/bin/sh\n# old\n")
	for len(b) < n {
		b = append(b, "# old content\n"...)
	}
	return b
}

// reset puts the previous states into their places.
func (w *world) reset() {
	w.clear()
	w.side = nil
	for i, x := range w.c.Targets {
		p := w.paths[i]
		put := func(b []byte) {
			ok(os.WriteFile(p, b, 0644))
			ok(os.Chmod(p, os.FileMode(x.Mode)))
		}
		switch x.Prev {
		case "same":
			put(w.want[i])
		case "prefix":
			put(w.want[i][:x.Extra%len(w.want[i])])
		case "empty":
			put(nil)
		case "other":
			put(otherContent(x.Extra % 500))
		case "long":
			put(otherContent(len(w.want[i]) + x.Extra))
		case "link":
			s := filepath.Join(w.root, "side", x.Kind)
			ok(os.WriteFile(s, otherContent(100), 0755))
			ok(os.Symlink(s, p))
			w.side = append(w.side, s)
		}
	}
}

func fileState(b []byte) string { return fmt.Sprintf("file %x", sha256.Sum256(b)) }

func (w *world) trace(faults ...Fault) (*TraceReport, error) {
	return Trace(TracePlan{Path: w.exe, Args: w.args, Dir: w.cwd, Root: w.root, Targets: append(append([]string(nil), w.paths...), w.side...), Faults: faults})
}

func (w *world) mode(i int) os.FileMode {
	if w.c.Targets[i].Kind == "wrapper" {
		return 0755
	}
	return 0644
}

// judge is the oracle of every run.
func (w *world) judge(r *TraceReport, base map[string]string, faults ...Fault) error {
	where := fmt.Sprintf("%v: %s %s%s", faults, r.Exit().Status(), r.Exit().Tail(), r.String())
	for _, p := range w.side {
		if l := r.States[p]; len(l) != 1 {
			return Errf("the file a link points to is changed: %v; %s", l, where)
		}
	}
	for i, p := range w.paths {
		full := fileState(w.want[i])
		for _, s := range r.States[p] {
			if s != base[p] && s != full {
				return Errf("%s goes through %q, neither the previous state %q nor the complete content %q; %s", filepath.Base(p), r.States[p], base[p], full, where)
			}
		}
	}
	// New content is ready for use as soon as it is visible.
	for i, p := range w.paths {
		if w.c.Targets[i].Prev == "same" || base[p] == fileState(w.want[i]) {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(b, w.want[i]) {
			continue
		}
		st, err := os.Stat(p)
		ok(err)
		if st.Mode() != w.mode(i) {
			return Errf("%s has new content, but its mode is %v; %s", filepath.Base(p), st.Mode(), where)
		}
	}
	if r.Signal == int(syscall.SIGKILL) {
		return nil
	}
	if r.Exit().Crashed() {
		return Errf("crash; %s", where)
	}
	if r.Code != 0 {
		if len(bytes.TrimSpace(r.Stderr)) == 0 {
			return Errf("failure without a message; %s", where)
		}
		return nil
	}
	for i, p := range w.paths {
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(b, w.want[i]) {
			return Errf("success is reported but %s does not have the content: %v; %s", filepath.Base(p), err, where)
		}
		st, err := os.Stat(p)
		ok(err)
		mode := w.mode(i)
		if w.c.Targets[i].Prev == "same" {
			if mode == 0755 && st.Mode()&0100 == 0 {
				return Errf("success is reported but the wrapper is not executable; %s", where)
			}
		} else if st.Mode() != mode {
			return Errf("success is reported but the mode of %s is %v; %s", filepath.Base(p), st.Mode(), where)
		}
	}
	return nil
}

func run(e *Env, c faultCase) error {
	cwd := e.Scratch()
	w := &world{c: &c, cwd: cwd, root: filepath.Join(cwd, "out"), exe: Bin("burl_backend")}
	for i, x := range c.Targets {
		w.paths = append(w.paths, w.path(i))
		if x.Kind == "wrapper" {
			w.args = append(w.args, "-wrapper", w.paths[i], "-emacsarg="+strings.Repeat("x", c.Pad+1))
		} else {
			opt := map[string]string{"firefox": "-mozilla-extension=", "chrome": "-chrome-extension="}[x.Kind]
			w.args = append(w.args, "-manifest-"+x.Kind, w.paths[i], opt+strings.Repeat("i", c.Pad%50000+1))
		}
	}
	if len(c.Targets) > 1 || c.Targets[0].Kind != "wrapper" {
		w.args = append(w.args, "-backend", "the.name")
	}
	w.clear()
	x, err := RunProc(Spec{Path: w.exe, Args: w.args, Dir: cwd})
	if err != nil {
		return err
	}
	if x.Code != 0 {
		return Errf("nothing exists: %s %s", x.Status(), x.Tail())
	}
	for _, p := range w.paths {
		b, err := os.ReadFile(p)
		if err != nil {
			return Errf("success is reported: %w", err)
		}
		if len(b) == 0 {
			return Errf("%s: is empty", p)
		}
		w.want = append(w.want, b)
	}
	if c.Force {
		w.args = append(w.args, "-force")
	}
	w.reset()
	base := map[string]string{}
	r, err := w.trace()
	if err != nil {
		return err
	}
	for _, p := range w.paths {
		base[p] = r.States[p][0]
	}
	if err := w.judge(r, base); err != nil {
		return err
	}
	writes := false
	var faults []Fault
	calls := r.Calls
	for k, call := range calls {
		if call.Mutates() {
			writes = writes || strings.Contains(call.Name, "rename")
			faults = append(faults, Fault{K: k, Action: "kill-before", Name: call.Name}, Fault{K: k, Action: "kill-after", Name: call.Name})
		}
		for _, n := range call.Errors() {
			faults = append(faults, Fault{K: k, Action: "errno", N: int(n), Name: call.Name})
		}
		if strings.Contains(call.Name, "write") && call.Ret > 1 {
			faults = append(faults, Fault{K: k, Action: "short", N: 1, Name: call.Name}, Fault{K: k, Action: "short", N: int(call.Ret / 2), Name: call.Name})
		}
	}
	one := func(f ...Fault) (*TraceReport, error) {
		w.reset()
		r, err := w.trace(f...)
		if err != nil {
			return nil, err
		}
		if r.Injected() {
			e.Label(f[0].Action + " " + f[0].Name)
		} else {
			e.Label("not reached")
		}
		return r, w.judge(r, base, f...)
	}
	for _, f := range faults {
		r, err := one(f)
		if err != nil {
			return err
		}
		if f.Action != "short" {
			continue
		}
		// The rest of the data.
		for k := f.K + 1; k < len(r.Calls); k++ {
			if r.Calls[k].Name == f.Name {
				for _, g := range []Fault{{k, "kill-before", 0, f.Name}, {k, "errno", int(syscall.ENOSPC), f.Name}, {k, "errno", int(syscall.EINTR), f.Name}} {
					if _, err := one(f, g); err != nil {
						return err
					}
				}
				break
			}
		}
	}
	for _, p := range c.Pairs {
		if len(faults) == 0 {
			break
		}
		f := faults[p.A%len(faults)]
		if f.Action[0] == 'k' {
			continue
		}
		r, err := one(f)
		if err != nil {
			return err
		}
		k := f.K + p.D
		if k >= len(r.Calls) {
			continue
		}
		g := Fault{K: k, Action: "kill-before", Name: r.Calls[k].Name}
		if l := r.Calls[k].Errors(); len(l) > 0 && p.B%3 > 0 {
			g.Action, g.N = "errno", int(l[p.B%len(l)])
		}
		if _, err := one(f, g); err != nil {
			return err
		}
	}
	e.Nontrivial(writes)
	return nil
}

func TestFaults(t *testing.T) {
	Check(t, Prop[faultCase]{Name: "faults", Limit: 30 * time.Minute, Gen: gen, Run: run})
}
