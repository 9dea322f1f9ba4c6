package c18

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

// A failed operation must not leave temporary files behind.

type cleanupCase struct {
	Kind  string `json:"kind"`
	Prev  string `json:"prev"`
	Force bool   `json:"force"`
	Len   int    `json:"len"`
	Pick  []int  `json:"pick"` // faults
}

func genCleanup(t *rapid.T) cleanupCase {
	return cleanupCase{
		Kind:  rapid.SampledFrom([]string{"wrapper", "firefox", "chrome"}).Draw(t, "kind"),
		Prev:  rapid.SampledFrom([]string{"absent", "other", "link"}).Draw(t, "previous"),
		Force: Pick(t, "force", 3, 1) == 0,
		Len:   rapid.IntRange(0, 50000).Draw(t, "len"),
		Pick:  rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 6).Draw(t, "pick"),
	}
}

func runCleanup(e *Env, c cleanupCase) error {
	cwd := e.Scratch()
	out := filepath.Join(cwd, "out")
	w := writeCase{Kind: c.Kind}
	target := filepath.Join(out, "target")
	if c.Kind != "wrapper" {
		target = filepath.Join(out, "the.name.json")
	}
	args := append(w.options(&step{}, c.Len), w.output(target)...)
	if c.Force {
		args = append(args, "-force")
	}
	trace := func(f ...Fault) (*TraceReport, error) {
		ok(os.RemoveAll(out))
		ok(os.Mkdir(out, 0755))
		switch c.Prev {
		case "other":
			ok(os.WriteFile(target, []byte("#!/bin/sh\n: other\n"), 0644))
		case "link":
			ok(os.WriteFile(filepath.Join(out, "linked"), []byte("#!/bin/sh\n: linked\n"), 0644))
			ok(os.Symlink("linked", target))
		}
		before := names(out)
		r, err := Trace(TracePlan{Path: Bin("burl_backend"), Args: args, Dir: cwd, Root: out, Targets: []string{target}, Faults: f})
		if err != nil {
			return nil, err
		}
		now := names(out)
		if c.Prev == "absent" && len(now) > 0 {
			before = []string{filepath.Base(target)} // it is allowed to be there
		}
		if strings.Join(before, "/") != strings.Join(now, "/") {
			return nil, Errf("%s: directory has %q after %v: %s %s%s", c.Kind, now, f, r.Exit().Status(), r.Exit().Tail(), r)
		}
		return r, nil
	}
	r, err := trace()
	if err != nil {
		return err
	}
	e.Nontrivial(false)
	var faults []Fault
	for k, call := range r.Calls {
		if strings.HasPrefix(call.Name, "unlink") || strings.HasPrefix(call.Name, "rmdir") {
			continue
		}
		for _, n := range call.Errors() {
			faults = append(faults, Fault{K: k, Action: "errno", N: int(n), Name: call.Name})
		}
		if call.Mutates() {
			e.Nontrivial(true)
		}
	}
	for _, n := range c.Pick {
		if len(faults) == 0 {
			break
		}
		f := faults[n%len(faults)]
		r, err := trace(f)
		if err != nil {
			return err
		}
		if r.Code != 0 {
			e.Label("failed " + f.Name)
		} else {
			e.Label("succeeded " + f.Name)
		}
	}
	return nil
}

func TestCleanup(t *testing.T) {
	Check(t, Prop[cleanupCase]{Name: "cleanup", Weight: 0.1, Gen: genCleanup, Run: runCleanup})
}
