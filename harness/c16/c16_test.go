package c16

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type goneCase struct {
	Names  []string `json:"names"`         // path components below the scratch directory
	Length int      `json:"len,omitempty"` // the path is extended to this length
	Pad    string   `json:"pad,omitempty"`
	How    int      `json:"how"` // what happens with the executable
	Make   string   `json:"make"`
	Use    string   `json:"use"`
	Extra  bool     `json:"extra"`
	Notes  bool     `json:"notes"`
}

var pieces = []string{"burl", "a", "B c", "'", "\"", "\\", "\\n", "\\x41", "%s", "%", "$HOME", "$(id)", "`", "é", "файл", "😀", "&", ";", "|", "*", "?", "~", "#", "!",
	"{", "}", "[", "]", "<", ">", "(", ")", "=", "-", "^", ",", ".", "ß", "日本", "\\\\", "\"\"", "\\0", "'\"'", "%q", "--", "-n"}

func drawComponent(t *rapid.T, label string) string {
	var b strings.Builder
	n := rapid.IntRange(1, 5).Draw(t, label)
	for i := 0; i < n; i++ {
		if Pick(t, label+"-kind", 6, 1) == 1 {
			r := rapid.Rune().Draw(t, label+"-rune")
			if unicode.IsPrint(r) && r != '/' && r != utf8.RuneError {
				b.WriteRune(r)
				continue
			}
		}
		b.WriteString(rapid.SampledFrom(pieces).Draw(t, label+"-piece"))
	}
	s := b.String()
	if strings.Trim(s, ".") == "" {
		s += "x"
	}
	return s
}

func gen(t *rapid.T) goneCase {
	c := goneCase{How: rapid.IntRange(0, 3).Draw(t, "how"), Make: DrawLocale(t, "make"), Use: DrawLocale(t, "use"),
		Extra: rapid.Bool().Draw(t, "extra"), Notes: rapid.Bool().Draw(t, "notes")}
	n := rapid.IntRange(1, 3).Draw(t, "depth")
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, drawComponent(t, "component"))
	}
	switch Pick(t, "length", 2, 2, 1) {
	case 1:
		c.Length = rapid.IntRange(120, 560).Draw(t, "len")
	case 2:
		c.Length = rapid.IntRange(120, 4000).Draw(t, "len")
	}
	c.Pad = rapid.SampledFrom([]string{"p", "é", "日", "\"", "\\", "😀", "'"}).Draw(t, "pad")
	return c
}

func run(e *Env, c goneCase) error {
	cwd := e.Scratch()
	names := append([]string(nil), c.Names...)
	path := filepath.Join(cwd, filepath.Join(names...))
	// Extend by directories.
	dir := cwd
	for len(path) < c.Length {
		k := min(c.Length-len(path)-1, 240)
		if k <= 0 {
			break
		}
		d := strings.Repeat(c.Pad, max(1, k/len(c.Pad)))
		d += strings.Repeat("z", max(0, k-len(d)))
		dir = filepath.Join(dir, d)
		path = filepath.Join(dir, filepath.Join(names...))
	}
	if len(path) > 4000 {
		return nil
	}
	LinkBin("burl_backend", path)
	wrapper := filepath.Join(cwd, "the wrapper")
	args := []string{"-wrapper", wrapper}
	if c.Notes {
		e.Write("notes.org", nil)
		args = append(args, "-org", filepath.Join(cwd, "notes.org"))
	}
	x, err := RunProc(Spec{Path: path, Args: args, Dir: cwd, Env: []string{c.Make}})
	if err != nil {
		return err
	}
	if x.Code != 0 {
		return Errf("wrapper is not created: %s %s", x.Status(), x.Tail())
	}
	switch c.How {
	case 0:
		err = os.Remove(path)
	case 1: // another file, not executable
		os.Remove(path)
		err = os.WriteFile(path, []byte("#!/bin/sh\necho started\n"), 0644)
	case 2:
		err = os.Rename(filepath.Dir(path), filepath.Join(cwd, "moved"))
		if err != nil { // the directory contains the scratch one
			err = os.Remove(path)
		}
	case 3: // dangling link
		os.Remove(path)
		err = os.Symlink("nowhere", path)
	}
	if err != nil {
		Infra("%v", err)
	}
	if _, err := os.Stat(wrapper); err != nil {
		os.Mkdir(cwd, 0755)
		wrapper = filepath.Join(cwd, "moved", "the wrapper")
	}
	s := Spec{Path: wrapper, Dir: "/", Env: []string{c.Use}, Stdin: Frame([]byte(`{"id":1,"method":"hello","params":[{}]}`))}
	if c.Extra {
		s.Args = []string{"/path/manifest.json", "id@example.org"}
	}
	x, err = RunProc(s)
	if err != nil {
		return err
	}
	frames, err := ParseFrames(x.Stdout)
	if err != nil {
		return Errf("path of %d bytes: %v", len(path), err)
	}
	if len(frames) != 1 {
		return Errf("path of %d bytes: %d frames, stderr %s", len(path), len(frames), x.Tail())
	}
	if !utf8.Valid(frames[0]) {
		return Errf("body is not UTF-8: %s", Short(frames[0]))
	}
	var m map[string]interface{}
	if err := json.Unmarshal(frames[0], &m); err != nil {
		return Errf("body is not a JSON object: %v: %s", err, Short(frames[0]))
	}
	text, ok := m["error"].(string)
	want := strings.NewReplacer(`"`, "'", `\`, "/").Replace(path)
	if !ok || !strings.Contains(text, want) {
		return Errf("error text %q does not name %q", text, want)
	}
	if len(frames[0]) > 255 {
		e.Label("longer-than-255")
	}
	if utf8.RuneCount(frames[0]) != len(frames[0]) {
		e.Label("multibyte")
	}
	return nil
}

func TestGone(t *testing.T) {
	Check(t, Prop[goneCase]{Name: "gone", Gen: gen, Run: run})
}
