package c18

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type step struct {
	// What is done with the target before the run.
	Tamper string `json:"tamper"`
	N      int    `json:"n,omitempty"` // parameter of the tampering
	Mode   int    `json:"mode"`        // permissions set before the run
	Hard   bool   `json:"hard"`        // with another hard link
	Arg    int    `json:"arg"`         // variant of the generated content
	Len    int    `json:"len"`         // wanted length of the content
	Force  bool   `json:"force"`
	Umask  int    `json:"umask"`
}

type writeCase struct {
	Kind  string `json:"kind"` // wrapper, firefox, chrome
	Steps []step `json:"steps"`
}

var tampers = []string{"", "remove", "empty", "same", "prefix", "extended", "changed", "space", "script", "text", "large", "link-same", "link-other",
	"dangling", "fifo", "zeros", "shebang-only", "directory", "full-directory", "link-directory"}

func gen(t *rapid.T) writeCase {
	c := writeCase{Kind: rapid.SampledFrom([]string{"wrapper", "wrapper", "firefox", "chrome"}).Draw(t, "kind")}
	n := rapid.IntRange(1, 4).Draw(t, "steps")
	for i := 0; i < n; i++ {
		list := tampers
		if c.Kind != "wrapper" {
			list = tampers[:len(tampers)-3] // a directory is a valid argument for a manifest
		}
		s := step{Tamper: rapid.SampledFrom(list).Draw(t, "tamper"), N: rapid.IntRange(0, 5000).Draw(t, "n"),
			Arg: rapid.IntRange(0, 1).Draw(t, "arg"), Force: rapid.Bool().Draw(t, "force")}
		s.Mode = rapid.SampledFrom([]int{0644, 0755, 0600, 0400, 0444, 0100, 0700, 0666, 0, 0500, 0711, 0640}).Draw(t, "mode")
		s.Hard = Pick(t, "hard", 3, 1) == 1
		s.Umask = rapid.SampledFrom([]int{022, 077, 0, 0777, 027}).Draw(t, "umask")
		switch Pick(t, "length", 2, 2, 1) {
		case 1:
			s.Len = rapid.SampledFrom([]int{4095, 4096, 4097, 8191, 8192, 8193}).Draw(t, "len")
		case 2:
			s.Len = rapid.IntRange(1000, 20000).Draw(t, "len")
		}
		if i > 0 && Pick(t, "same-as-before", 1, 1) == 1 {
			s.Arg, s.Len = c.Steps[i-1].Arg, c.Steps[i-1].Len
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// options that make content of about the wanted length.
func (c *writeCase) options(s *step, pad int) []string {
	if c.Kind == "wrapper" {
		return []string{"-emacsarg=" + strings.Repeat("x", pad+1), "-log", []string{"-", ""}[s.Arg]}
	}
	opt := map[string]string{"firefox": "-mozilla-extension=", "chrome": "-chrome-extension="}[c.Kind]
	return []string{opt + strings.Repeat("i", pad+1) + fmt.Sprint(s.Arg)}
}

func (c *writeCase) output(target string) []string {
	switch c.Kind {
	case "wrapper":
		return []string{"-wrapper", target}
	}
	return []string{"-manifest-" + c.Kind, target, "-backend", "the.name"}
}

// snapshot of a path without following links.
type snapshot struct {
	exists bool
	mode   os.FileMode
	ino    uint64
	data   string
	link   string
	list   []string
}

func snap(path string) snapshot {
	st, err := os.Lstat(path)
	if err != nil {
		return snapshot{}
	}
	s := snapshot{exists: true, mode: st.Mode(), ino: st.Sys().(*syscall.Stat_t).Ino}
	switch {
	case st.Mode().IsRegular():
		b, err := os.ReadFile(path)
		if err != nil {
			Infra("%v", err)
		}
		s.data = string(b)
	case st.Mode()&os.ModeSymlink != 0:
		s.link, _ = os.Readlink(path)
	case st.IsDir():
		s.list = names(path)
	}
	return s
}

func (s snapshot) String() string {
	return fmt.Sprintf("{exists %v mode %v inode %d data %s link %q list %q}", s.exists, s.mode, s.ino, Short([]byte(s.data)), s.link, s.list)
}

func names(dir string) (l []string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		Infra("%v", err)
	}
	for _, x := range ents {
		l = append(l, x.Name())
	}
	sort.Strings(l)
	return
}

func ok(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

func run(e *Env, c writeCase) error {
	cwd := e.Scratch()
	out := filepath.Join(cwd, "out")
	ok(os.Mkdir(out, 0755))
	side := filepath.Join(cwd, "side")
	ok(os.Mkdir(side, 0755))
	target := filepath.Join(out, "target")
	if c.Kind != "wrapper" {
		target = filepath.Join(out, "the.name.json")
	}
	exe := Bin("burl_backend")
	runWith := func(args []string, umask int) (*Exit, error) {
		full := append([]string{"-c", fmt.Sprintf("umask %04o; exec \"$@\"", umask), "sh", exe}, args...)
		return RunProc(Spec{Path: "/bin/sh", Args: full, Dir: cwd})
	}
	interesting := false
	for i := range c.Steps {
		s := &c.Steps[i]
		// The content to be generated.
		content := func(pad int) ([]byte, error) {
			x, err := runWith(append(c.options(s, pad), c.output("-")...), 022)
			if err != nil {
				return nil, err
			}
			if x.Code != 0 || len(x.Stdout) == 0 {
				return nil, Errf("step %d: no content on stdout: %s %s", i, x.Status(), x.Tail())
			}
			return x.Stdout, nil
		}
		pad := 0
		want, err := content(0)
		if err != nil {
			return err
		}
		if d := s.Len - len(want); d > 0 {
			pad = d
			if want, err = content(pad); err != nil {
				return err
			}
			if len(want) == 4096 {
				e.Label("4096")
			}
		}
		// The previous state.
		put := func(b []byte) {
			ok(os.RemoveAll(target))
			ok(os.WriteFile(target, b, 0644))
		}
		switch s.Tamper {
		case "remove":
			ok(os.RemoveAll(target))
		case "empty":
			put(nil)
		case "same":
			put(want)
		case "prefix":
			put(want[:s.N%len(want)])
		case "extended":
			put(append(append([]byte(nil), want...), bytes.Repeat([]byte("# more\n"), s.N/7+1)...))
		case "space":
			// Only white space at the ends or the case of a letter differ.
			b := append([]byte(nil), want...)
			switch s.N % 8 {
			case 0:
				b = append(b, '\n')
			case 1:
				b = bytes.TrimRight(b, "\n")
			case 2:
				b = append([]byte{'\n'}, b...)
			case 3:
				b = append(b, "  \n\n"...)
			case 4:
				b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
			case 5:
				b = bytes.Replace(b, []byte(" "), []byte("  "), 1)
			case 6:
				b = append(b, 0)
			case 7:
				b = bytes.ToUpper(b)
			}
			put(b)
		case "changed":
			b := append([]byte(nil), want...)
			b[s.N%len(b)] ^= 1
			put(b)
		case "script":
			put([]byte("#!/bin/sh\necho other\n"))
		case "shebang-only":
			put([]byte("#!/"))
		case "text":
			put([]byte("My notes\n"))
		case "zeros":
			put(make([]byte, s.N))
		case "large":
			put(append([]byte("#!/bin/sh\n"), bytes.Repeat([]byte("long"), 4000+s.N)...))
		case "link-same", "link-other":
			ok(os.RemoveAll(target))
			b := want
			if s.Tamper == "link-other" {
				b = []byte("#!/bin/sh\n: other\n")
			}
			ok(os.WriteFile(filepath.Join(side, "linked"), b, 0644))
			ok(os.Symlink(filepath.Join(side, "linked"), target))
		case "dangling":
			ok(os.RemoveAll(target))
			ok(os.Symlink(filepath.Join(side, "absent"), target))
		case "directory":
			ok(os.RemoveAll(target))
			ok(os.Mkdir(target, 0755))
		case "full-directory":
			ok(os.RemoveAll(target))
			ok(os.Mkdir(target, 0755))
			ok(os.WriteFile(filepath.Join(target, "inside"), want, 0644))
		case "link-directory":
			ok(os.RemoveAll(target))
			ok(os.RemoveAll(filepath.Join(side, "d")))
			ok(os.Mkdir(filepath.Join(side, "d"), 0755))
			ok(os.Symlink(filepath.Join(side, "d"), target))
		case "fifo":
			ok(os.RemoveAll(target))
			ok(syscall.Mkfifo(target, 0644))
		}
		st, err := os.Stat(target)
		if err == nil && st.Mode().IsRegular() {
			ok(os.Chmod(target, os.FileMode(s.Mode)))
			st, err = os.Stat(target)
		}
		os.Remove(filepath.Join(side, "hard"))
		if s.Hard {
			if l, err := os.Lstat(target); err == nil && l.Mode().IsRegular() {
				ok(os.Link(target, filepath.Join(side, "hard")))
			}
		}
		before := snap(target)
		regular := err == nil && st.Mode().IsRegular()
		same := false
		if regular {
			b, err := os.ReadFile(target)
			ok(err)
			same = bytes.Equal(b, want)
		}
		sideNames := names(side)
		sides := map[string]snapshot{}
		for _, n := range sideNames {
			sides[n] = snap(filepath.Join(side, n))
		}
		outNames := names(out)

		args := append(c.options(s, pad), c.output(target)...)
		if s.Force {
			args = append(args, "-force")
		}
		x, err := runWith(args, s.Umask)
		if err != nil {
			return Errf("step %d (%s): %w", i, s.Tamper, err)
		}
		if x.Signal != 0 || x.Crashed() {
			return Errf("step %d: %s %s", i, x.Status(), x.Tail())
		}
		after := snap(target)
		where := fmt.Sprintf("step %d (%s %s, %d bytes, force %v, exists %v): %s %s", i, c.Kind, s.Tamper, len(want), s.Force, before.exists, x.Status(), x.Tail())
		mode := os.FileMode(0644)
		if c.Kind == "wrapper" {
			mode = 0755
		}
		if before.exists {
			interesting = true
		}
		switch {
		case same:
			if x.Code != 0 {
				return Errf("%s: the file has the same content already", where)
			}
			if after.data != before.data || after.ino != before.ino || after.link != before.link {
				return Errf("%s: file with the same content is changed from %v to %v", where, before, after)
			}
			now, err := os.Stat(target)
			ok(err)
			perm := st.Mode().Perm()
			if c.Kind == "wrapper" && perm&0100 == 0 {
				if now.Mode().Perm()&0100 == 0 {
					return Errf("%s: the script is not executable: mode %v", where, now.Mode())
				}
				// Nothing is given to others, nothing is taken.
				if d := now.Mode().Perm() &^ perm; d&^0700 != 0 || perm&^now.Mode().Perm() != 0 {
					return Errf("%s: mode %v becomes %v", where, perm, now.Mode())
				}
			} else if d := now.Mode().Perm() &^ perm; d&^0500 != 0 || perm&^now.Mode().Perm() != 0 || (c.Kind != "wrapper" && d != 0) {
				return Errf("%s: mode %v of the file with the same content becomes %v", where, perm, now.Mode())
			}
			e.Label("same")
		case !before.exists || (s.Force && regular) || (s.Force && x.Code == 0):
			if before.exists && !regular && x.Code != 0 && after.String() == before.String() {
				break // It is not specified what -force does with such files.
			}
			if x.Code != 0 {
				return Errf("%s: not written", where)
			}
			if !after.mode.IsRegular() || after.data != string(want) {
				return Errf("%s: target is %v", where, after)
			}
			if after.mode.Perm() != mode {
				return Errf("%s: mode is %v", where, after.mode)
			}
			e.Label("written")
			if before.exists {
				e.Label("overwritten")
			}
		default:
			if x.Code == 0 {
				return Errf("%s: no error, %v becomes %v", where, before, after)
			}
			if after.String() != before.String() {
				return Errf("%s: %v becomes %v", where, before, after)
			}
			e.Label("refused")
		}
		if x.Code != 0 && len(bytes.TrimSpace(x.Stderr)) == 0 {
			return Errf("%s: no message", where)
		}
		// Everything else.
		if !before.exists && x.Code == 0 {
			outNames = append(outNames, filepath.Base(target))
			sort.Strings(outNames)
		}
		if now := names(out); strings.Join(now, "/") != strings.Join(outNames, "/") {
			return Errf("%s: directory has %q, expected %q", where, now, outNames)
		}
		if now := names(side); strings.Join(now, "/") != strings.Join(sideNames, "/") {
			return Errf("%s: other directory has %q, expected %q", where, now, sideNames)
		}
		for _, n := range sideNames {
			now := snap(filepath.Join(side, n))
			now.mode = sides[n].mode // permissions of a linked script may be fixed
			if now.String() != sides[n].String() {
				return Errf("%s: other file %s is changed from %v to %v", where, n, sides[n], now)
			}
		}
	}
	e.Nontrivial(interesting)
	return nil
}

func TestWrite(t *testing.T) {
	Check(t, Prop[writeCase]{Name: "write", Gen: gen, Run: run})
}
