package c17

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

const (
	appName   = "io.github.maxnikulin.burl"
	firefoxID = "linkremark@maxnikulin.github.io"
	chromeID  = "mgmcoaemjnaehlliifkgljdnbpedihoe"
)

// Target of one manifest.
type target struct {
	Kind  string `json:"kind"` // "", dir, file, existing, nodir, stdout, underfile
	File  string `json:"file,omitempty"`
	Abs   bool   `json:"abs"`
	Slash bool   `json:"slash"` // trailing slash of a directory
}

type manifestCase struct {
	Firefox target   `json:"firefox"`
	Chrome  target   `json:"chrome"`
	Wrapper string   `json:"wrapper"` // "", file, rel, stdout, exe, dir
	Name    *string  `json:"name,omitempty"`
	FIDs    []string `json:"fids"`
	CIDs    []string `json:"cids"`
	Custom  string   `json:"custom,omitempty"`
	Force   bool     `json:"force"`
	Exe     string   `json:"exe"`
	Shuffle []int    `json:"shuffle"` // order of the options
}

var names = []string{"io.github.maxnikulin.burl", "burl_wrapper", "x", "a.b", "имя", "with space", "q\"uote", "back\\slash", "<&>", "%s", "a'b", "$x", "x.json", ".x", "My.App", "Burl_B"}

func drawTarget(t *rapid.T, label string, name string) target {
	g := target{Kind: rapid.SampledFrom([]string{"dir", "dir", "dir", "dir", "file", "file", "file", "file", "file", "file", "existing", "existing", "", "", "", "", "stdout", "nodir", "underfile"}).Draw(t, label)}
	g.Abs = rapid.Bool().Draw(t, label+"-abs")
	g.Slash = rapid.Bool().Draw(t, label+"-slash")
	base := rapid.SampledFrom(names).Draw(t, label+"-base")
	if name != "" && Pick(t, label+"-agrees", 12, 1) == 0 {
		base = strings.ReplaceAll(name, "/", "_")
	}
	ext := rapid.SampledFrom([]string{".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".json", ".JSON", ".txt", "", ".json.bak", "json"}).Draw(t, label+"-ext")
	g.File = base + ext
	if strings.Trim(base, ".") == "" {
		g.File = "dots" + ext
	}
	if Rare(t, label+"-onlyext", 30) {
		g.File = ".json"
	}
	return g
}

func drawIDs(t *rapid.T, label string) []string {
	n := Pick(t, label+"-n", 3, 2, 2, 1, 1)
	var ids []string
	for i := 0; i < n; i++ {
		if Pick(t, label+"-empty", 8, 1) == 1 || (i == 0 && Pick(t, label+"-reset", 3, 1) == 1) {
			ids = append(ids, "")
		} else {
			ids = append(ids, rapid.SampledFrom([]string{"abcdefghijklmnop", "addon@example.org", "{11111111-2222}", "chrome-extension://xyz/",
				"chrome-extension://xyz", "id \"q\"", "<&>", "имя@x", "-x", "chrome-extension", "https://a/", "CHROME-EXTENSION://u/"}).Draw(t, label+"-id"))
		}
	}
	return ids
}

func gen(t *rapid.T) manifestCase {
	c := manifestCase{Force: rapid.Bool().Draw(t, "force"), Exe: "burl_backend"}
	name := ""
	if Pick(t, "named", 1, 1) == 1 {
		name = rapid.SampledFrom(append([]string{"", "a/b", ".."}, append(names, names...)...)).Draw(t, "name")
		c.Name = &name
	}
	c.Firefox = drawTarget(t, "firefox", name)
	c.Chrome = drawTarget(t, "chrome", name)
	c.Wrapper = rapid.SampledFrom([]string{"", "", "", "file", "file", "file", "file", "rel", "rel", "rel", "stdout", "exe", "exe", "dir"}).Draw(t, "wrapper")
	c.FIDs = drawIDs(t, "fids")
	c.CIDs = drawIDs(t, "cids")
	if c.Firefox.Kind == "stdout" && Pick(t, "stdouts", 3, 1) == 0 {
		c.Chrome.Kind = ""
	}
	if c.Wrapper == "stdout" && Pick(t, "wrapper-stdout", 3, 1) == 0 {
		c.Firefox.Kind, c.Chrome.Kind = "", ""
	}
	if Pick(t, "custom?", 1, 1) == 1 && (c.Wrapper == "file" || c.Wrapper == "rel" || Pick(t, "custom-bad", 5, 1) == 1) {
		c.Custom = rapid.SampledFrom([]string{"log", "nolog", "org", "txt", "positional", "linkset", "client", "arg", "scheme"}).Draw(t, "custom")
	}
	if Pick(t, "odd-exe", 2, 1) == 1 {
		c.Exe = rapid.SampledFrom(names).Draw(t, "exe")
	}
	c.Shuffle = rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "order")
	return c
}

// ids is a model of the list option; an error if an empty value follows
// additions to the default.
func ids(def string, values []string) (l []string, ok bool) {
	l = []string{def}
	state := 0
	for _, v := range values {
		if v == "" {
			if state == 1 {
				return nil, false
			}
			l, state = nil, 2
			continue
		}
		l = append(l, v)
		if state == 0 {
			state = 1
		}
	}
	return l, true
}

// resolve gives the file and the name of a manifest, ok is false if the
// request is not valid.
func (g *target) resolve(dir, name string) (file, mname string, ok bool) {
	switch g.Kind {
	case "stdout":
		if name == "" {
			name = appName
		}
		return "-", name, true
	case "dir":
		if name == "" {
			name = appName
		}
		return filepath.Join(dir, name+".json"), name, !strings.Contains(name, "/")
	case "nodir", "underfile":
		return "", "", false
	}
	base := g.File
	ext := filepath.Ext(base)
	if strings.ToLower(ext) != ".json" || len(base) == len(ext) {
		return "", "", false
	}
	if name != "" && base != name+".json" {
		return "", "", false
	}
	return filepath.Join(dir, base), base[:len(base)-len(ext)], true
}

// arg is the value of the option.
func (g *target) arg(cwd, sub string) string {
	d := sub
	if g.Abs {
		d = filepath.Join(cwd, sub)
	}
	switch g.Kind {
	case "stdout":
		return "-"
	case "dir":
		if g.Slash {
			return d + "/"
		}
		return d
	case "nodir":
		return d + "/absent/" + g.File
	case "underfile":
		return d + "/plain/" + g.File
	}
	return d + "/" + g.File
}

const stale = "{\"stale\": true}\n"

func run(e *Env, c manifestCase) error {
	cwd := e.Scratch()
	exe := filepath.Join(cwd, "bin", c.Exe)
	LinkBin("burl_backend", exe)
	for _, d := range []string{"ff", "cr", "out"} {
		os.MkdirAll(filepath.Join(cwd, d), 0755)
	}
	e.Write("ff/plain", nil)
	e.Write("cr/plain", nil)
	e.Write("n.org", nil)
	name := ""
	if c.Name != nil {
		name = *c.Name
	}
	opts := make([][]string, 8)
	custom := c.Custom != ""
	var positional []string
	switch c.Custom {
	case "log":
		opts[0] = []string{"-log", "x.log"}
	case "nolog":
		opts[0] = []string{"-log", ""}
	case "org", "txt":
		opts[0] = []string{"-" + c.Custom, "n.org"}
	case "positional":
		positional = []string{"n.org"}
	case "linkset":
		opts[0] = []string{"-disable-link-set"}
	case "client":
		opts[0] = []string{"-emacsclient", "other"}
	case "arg":
		opts[0] = []string{"-emacsarg", "-c"}
	case "scheme":
		opts[0] = []string{"-scheme", "ftp"}
	}
	wrapper := ""
	switch c.Wrapper {
	case "file":
		wrapper = filepath.Join(cwd, "out", "wrapper")
		opts[1] = []string{"-wrapper", wrapper}
	case "rel":
		wrapper = filepath.Join(cwd, "out", "the wrapper")
		opts[1] = []string{"--wrapper=./out/the wrapper"}
	case "stdout":
		opts[1] = []string{"-wrapper", "-"}
	case "exe":
		wrapper = exe
		opts[1] = []string{"-wrapper", exe}
	case "dir":
		opts[1] = []string{"-wrapper", "out"}
	}
	targets := []*target{&c.Firefox, &c.Chrome}
	subs := []string{"ff", "cr"}
	flags := []string{"-manifest-firefox", "-manifest-chrome"}
	files, mnames := make([]string, 2), make([]string, 2)
	valid := make([]bool, 2)
	for i, g := range targets {
		if g.Kind == "" {
			continue
		}
		opts[2+i] = []string{flags[i], g.arg(cwd, subs[i])}
		files[i], mnames[i], valid[i] = g.resolve(filepath.Join(cwd, subs[i]), name)
		if g.Kind == "existing" {
			e.Write(filepath.Join(subs[i], g.File), []byte(stale))
			if !c.Force {
				valid[i] = false
			}
		}
	}
	if c.Name != nil {
		opts[4] = []string{"-backend", name}
	}
	for _, x := range c.FIDs {
		opts[5] = append(opts[5], "-mozilla-extension="+x)
	}
	for _, x := range c.CIDs {
		opts[6] = append(opts[6], "-chrome-extension="+x)
	}
	if c.Force {
		opts[7] = []string{"-force"}
	}
	var args []string
	for _, k := range c.Shuffle {
		args = append(args, opts[k]...)
	}
	args = append(args, positional...)

	lists := make([][]string, 2)
	fids, fok := ids(firefoxID, c.FIDs)
	cids, cok := ids(chromeID, c.CIDs)
	for _, id := range cids {
		if strings.HasPrefix(id, "chrome-extension://") {
			lists[1] = append(lists[1], id)
		} else {
			lists[1] = append(lists[1], "chrome-extension://"+id+"/")
		}
	}
	lists[0] = fids
	requested := c.Firefox.Kind != "" || c.Chrome.Kind != ""
	if !requested {
		if c.Wrapper == "" {
			return nil // starts the backend
		}
		e.Label("wrapper-only")
	}
	stdouts := 0
	for _, x := range []bool{c.Wrapper == "stdout", c.Firefox.Kind == "stdout", c.Chrome.Kind == "stdout"} {
		if x {
			stdouts++
		}
	}
	// Nothing at all is possible.
	bad := ""
	switch {
	case !fok || !cok:
		bad = "empty id after additions"
	case stdouts > 1:
		bad = "several outputs to stdout"
	case c.Wrapper == "stdout" && requested:
		bad = "manifest without a wrapper file"
	case c.Wrapper == "" && custom:
		bad = "custom options without a wrapper"
	case c.Wrapper == "dir":
		bad = "wrapper is a directory"
	case c.Wrapper == "exe" && custom:
		bad = "the wrapper is the backend"
	}
	exeBefore, _ := os.Stat(exe)
	x, err := RunProc(Spec{Path: exe, Args: args, Dir: cwd})
	if err != nil {
		return err
	}
	if x.Signal != 0 || x.Crashed() {
		return Errf("%q: %s, %s", args, x.Status(), x.Tail())
	}
	if st, err := os.Stat(exe); err != nil || !os.SameFile(st, exeBefore) {
		return Errf("%q: the backend itself is overwritten", args)
	}
	if wrapper == "" {
		wrapper = exe
	}
	anyBad := bad
	for i, g := range targets {
		if g.Kind == "" {
			continue
		}
		if !valid[i] || len(lists[i]) == 0 {
			anyBad = anyBad + fmt.Sprintf(" %s can not be written", flags[i])
		}
	}
	if (x.Code != 0) != (anyBad != "") {
		if anyBad != "" {
			return Errf("%q: no error, although:%s", args, anyBad)
		}
		return Errf("%q: %s: %s", args, x.Status(), x.Tail())
	}
	if x.Code != 0 && len(bytes.TrimSpace(x.Stderr)) == 0 {
		return Errf("%q: %s without a message", args, x.Status())
	}
	written := 0
	for i, g := range targets {
		dir := filepath.Join(cwd, subs[i])
		ok := g.Kind != "" && bad == "" && valid[i] && len(lists[i]) > 0
		// Everything in the directory.
		present := map[string][]byte{}
		ents, _ := os.ReadDir(dir)
		for _, n := range ents {
			if n.Name() != "plain" {
				b, _ := os.ReadFile(filepath.Join(dir, n.Name()))
				present[n.Name()] = b
			}
		}
		if g.Kind == "existing" && !ok {
			if string(present[g.File]) != stale {
				return Errf("%q: existing %s is changed to %s in spite of the error%s", args, g.File, Short(present[g.File]), anyBad)
			}
			delete(present, g.File)
		}
		var content []byte
		if ok && g.Kind != "stdout" {
			b, is := present[filepath.Base(files[i])]
			if !is {
				// Another manifest has failed before this one was tried.
				if anyBad != "" && g.Kind != "existing" {
					e.Label("not-tried")
					goto rest
				}
				return Errf("%q: %s is not written", args, files[i])
			}
			if anyBad != "" && string(b) == stale {
				delete(present, filepath.Base(files[i]))
				goto rest
			}
			content = b
			delete(present, filepath.Base(files[i]))
		}
		if ok && g.Kind == "stdout" {
			if len(x.Stdout) == 0 && anyBad != "" {
				goto rest
			}
			content = x.Stdout
		}
		if ok {
			written++
			if err := check(content, mnames[i], wrapper, i, lists[i]); err != nil {
				return Errf("%q: %w: %s", args, err, Short(content))
			}
		}
	rest:
		if len(present) > 0 {
			for n, b := range present {
				return Errf("%q: unexpected file %s in %s: %s (%s)", args, n, subs[i], Short(b), anyBad)
			}
		}
	}
	if stdouts == 0 && len(x.Stdout) > 0 {
		return Errf("%q: unexpected output %s", args, Short(x.Stdout))
	}
	if bad != "" && len(x.Stdout) > 0 {
		return Errf("%q: output in spite of %s: %s", args, bad, Short(x.Stdout))
	}
	if written > 0 {
		e.Label("written")
	}
	if anyBad != "" {
		e.Label("refused")
	}
	e.Nontrivial(requested)
	return nil
}

func check(content []byte, name, path string, kind int, list []string) error {
	var m map[string]json.RawMessage
	if err := Unmarshal(content, &m); err != nil {
		return Errf("manifest is not a JSON object: %v", err)
	}
	var s struct{ Name, Description, Path, Type string }
	if err := Unmarshal(content, &s); err != nil {
		return err
	}
	if s.Name != name {
		return Errf("name is %q, expected %q", s.Name, name)
	}
	if s.Type != "stdio" {
		return Errf("type is %q", s.Type)
	}
	if strings.TrimSpace(s.Description) == "" {
		return Errf("no description")
	}
	if s.Path != path {
		return Errf("path is %q, expected %q", s.Path, path)
	}
	keys := []string{"allowed_extensions", "allowed_origins"}
	if _, has := m[keys[1-kind]]; has {
		return Errf("%s in the manifest of another browser", keys[1-kind])
	}
	var got []string
	if err := Unmarshal(m[keys[kind]], &got); err != nil {
		return Errf("%s: %v", keys[kind], err)
	}
	if !reflect.DeepEqual(got, list) {
		return Errf("%s is %q, expected %q", keys[kind], got, list)
	}
	return nil
}

func TestManifest(t *testing.T) {
	Check(t, Prop[manifestCase]{Name: "manifest", Gen: gen, Run: run})
}
