package c15

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type note struct {
	Name []byte `json:"name"`
	Link []byte `json:"link,omitempty"` // symbolic link used instead of the file
	Dir  bool   `json:"dir,omitempty"`  // in a subdirectory
	How  int    `json:"how"`            // form of the path
	Opt  string `json:"opt"`            // txt, org, "" (positional)
}

type option struct {
	Name  string `json:"name"`
	Value []byte `json:"value,omitempty"`
	Note  *note  `json:"note,omitempty"`
	Form  int    `json:"form"` // -x v, --x v, -x=v, --x=v
}

type wrapperCase struct {
	Exe     []byte   `json:"exe"`     // name of the executable
	ExeDir  []byte   `json:"exeDir"`  // its directory
	Call    int      `json:"call"`    // how it is called
	Wrapper []byte   `json:"wrapper"` // name of the wrapper
	Where   int      `json:"where"`   // relative, absolute, stdout
	First   bool     `json:"first"`   // -wrapper before other options
	Options []option `json:"options"`
	Dashes  bool     `json:"dashes"` // "--" before the positional arguments
	Make    string   `json:"make"`   // locale
	Use     string   `json:"use"`
	Extra   bool     `json:"extra"` // the browser passes arguments
}

func gen(t *rapid.T) wrapperCase {
	c := wrapperCase{Exe: []byte("burl_backend"), ExeDir: []byte("bin"), Wrapper: []byte("wrapper")}
	if Pick(t, "odd-exe", 1, 1) == 1 {
		c.Exe = DrawFileName(t, "exe")
		c.ExeDir = DrawFileName(t, "exe-dir")
	}
	if Pick(t, "odd-wrapper", 2, 1) == 1 {
		c.Wrapper = DrawFileName(t, "wrapper")
	}
	c.Call = rapid.IntRange(0, 2).Draw(t, "call")
	c.Where = rapid.IntRange(0, 3).Draw(t, "where")
	c.First = rapid.Bool().Draw(t, "first")
	c.Make, c.Use = DrawLocale(t, "make"), DrawLocale(t, "use")
	c.Extra = rapid.Bool().Draw(t, "extra")
	n := rapid.IntRange(0, 7).Draw(t, "options")
	reset := map[string]int{}
	for i := 0; i < n; i++ {
		o := option{Form: rapid.IntRange(0, 3).Draw(t, "form")}
		switch Pick(t, "option", 2, 2, 3, 3, 1, 5) {
		case 0:
			o.Name = "log"
			switch Pick(t, "log", 3, 1, 1) {
			case 0:
				o.Value = append([]byte("log-"), DrawFileName(t, "log-name")...)
			case 1:
				o.Value = []byte("-")
			}
		case 1:
			o.Name, o.Value = "emacsclient", DrawOdd(t, "client", 0)
		case 2:
			o.Name, o.Value = "emacsarg", DrawOdd(t, "arg", 1)
		case 3:
			o.Name, o.Value = "scheme", DrawOdd(t, "scheme", 1)
		case 4:
			o.Name = "disable-link-set"
			o.Value = []byte(rapid.SampledFrom([]string{"", "true", "false"}).Draw(t, "disable"))
		case 5:
			nt := &note{Name: DrawFileName(t, "note"), How: rapid.IntRange(0, 4).Draw(t, "how"),
				Opt: rapid.SampledFrom([]string{"txt", "org", ""}).Draw(t, "type"), Dir: rapid.Bool().Draw(t, "dir")}
			if Pick(t, "suffix", 1, 1) == 1 {
				nt.Name = append(nt.Name, ".org"...)
			}
			if Pick(t, "link", 3, 1) == 1 {
				nt.Link = append([]byte("link-"), DrawFileName(t, "link-name")...)
			}
			o.Name, o.Note = nt.Opt, nt
		}
		if o.Name == "emacsarg" || o.Name == "scheme" {
			// An empty value discards the defaults; it is an error after
			// additions.
			if reset[o.Name] != 1 && Pick(t, "reset", 3, 1) == 1 {
				o.Value = nil
				reset[o.Name] = 2
			} else if reset[o.Name] == 0 {
				reset[o.Name] = 1
			}
		}
		c.Options = append(c.Options, o)
	}
	c.Dashes = rapid.Bool().Draw(t, "dashes")
	if Rare(t, "long options", 120) {
		// Number and length of options.
		word := DrawOdd(t, "many-arg", 1)
		for k := rapid.IntRange(10, 400).Draw(t, "many"); k > 0; k-- {
			o := option{Name: "emacsarg", Form: k % 4, Value: append(append([]byte{}, word...), strings.Repeat(" x", k%37)...)}
			if k%3 == 0 {
				nt := &note{Name: []byte(fmt.Sprintf("%d.org", k)), How: k % 5, Opt: []string{"txt", "org", ""}[k%7%3], Dir: k%2 == 0}
				if k%4 == 0 {
					nt.Link = []byte("link-x y")
				}
				o.Name, o.Note, o.Value = nt.Opt, nt, nil
			}
			c.Options = append(c.Options, o)
		}
	}
	return c
}

func put(path string, data string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		Infra("%v", err)
	}
	if err := os.WriteFile(path, []byte(data), 0644); err != nil {
		Infra("%v", err)
	}
}

// place creates the files of a note and returns the path given to the option
// and the path expected in the wrapper.
func (n *note) place(cwd string, i int) (given, real string) {
	sub := "notes"
	if n.Dir {
		sub = "notes/sub dir"
	}
	dir := filepath.Join(cwd, sub)
	// Names are made distinct, notes have different content.
	name := fmt.Sprintf("%d", i) + string(n.Name)
	if n.How%2 == 1 {
		name = string(n.Name)
	}
	real = filepath.Join(dir, name)
	if st, err := os.Lstat(real); err != nil || st.Mode().IsRegular() {
		put(real, fmt.Sprintf("[[http://example.org/note%d]]\n", i))
	}
	rel := filepath.Join(sub, name)
	if n.Link != nil {
		// The link is in another directory.
		put(filepath.Join(cwd, "links", "x"), "")
		linkName := fmt.Sprint(i) + string(n.Link)
		link := filepath.Join(cwd, "links", linkName)
		os.Remove(link)
		target := real
		if n.How > 2 {
			target = filepath.Join("..", rel)
		}
		if err := os.Symlink(target, link); err != nil {
			Infra("%v", err)
		}
		rel = filepath.Join("links", linkName)
	}
	switch n.How {
	case 0:
		return filepath.Join(cwd, rel), real
	case 1:
		return rel, real
	case 2:
		return "./" + rel, real
	case 3:
		return "notes//../" + rel, real
	}
	return cwd + "/./" + rel, real
}

// args are the options for the backend, sources have expected paths.
func (c *wrapperCase) args(cwd string) (args []string, real map[string]string) {
	var positional []string
	real = map[string]string{}
	for i, o := range c.Options {
		value := string(o.Value)
		if o.Note != nil {
			given, r := o.Note.place(cwd, i)
			real[given] = r
			value = given
			if o.Name == "" {
				positional = append(positional, given)
				continue
			}
		}
		if o.Name == "disable-link-set" {
			if value == "" {
				args = append(args, "-disable-link-set")
			} else {
				args = append(args, "-disable-link-set="+value)
			}
			continue
		}
		switch o.Form {
		case 0:
			args = append(args, "-"+o.Name, value)
		case 1:
			args = append(args, "--"+o.Name, value)
		case 2:
			args = append(args, "-"+o.Name+"="+value)
		case 3:
			args = append(args, "--"+o.Name+"="+value)
		}
	}
	w := []string{"-wrapper", c.wrapperArg(cwd)}
	if c.First {
		args = append(w, args...)
	} else {
		args = append(args, w...)
	}
	if c.Dashes {
		args = append(args, "--")
	}
	return append(args, positional...), real
}

func (c *wrapperCase) wrapperArg(cwd string) string {
	switch c.Where {
	case 0:
		return filepath.Join(cwd, "out", string(c.Wrapper))
	case 1:
		return "out/" + string(c.Wrapper)
	case 2:
		return "out/./../out/" + string(c.Wrapper)
	}
	return "-"
}

// make creates the wrapper and returns its path, the path of the executable
// and the model of the configuration.
func (c *wrapperCase) make(e *Env, cwd string, env []string) (wrapper, exe string, conf *Config, failed bool, err error) {
	for _, d := range []string{"out", "elsewhere", "notes"} {
		if err := os.MkdirAll(filepath.Join(cwd, d), 0755); err != nil {
			Infra("%v", err)
		}
	}
	exe = filepath.Join(cwd, string(c.ExeDir), string(c.Exe))
	LinkBin("burl_backend", exe)
	args, real := c.args(cwd)
	var model []string
	for i := 0; i < len(args); i++ {
		if args[i] == "-wrapper" {
			i++
			continue
		}
		model = append(model, args[i])
	}
	conf, perr := ParseBackendArgs(model)
	call := exe
	switch c.Call {
	case 1:
		call = "./" + string(c.ExeDir) + "/" + string(c.Exe)
	case 2:
		call = filepath.Join(cwd, "callme")
		os.Remove(call)
		if err := os.Symlink(exe, call); err != nil {
			Infra("%v", err)
		}
	}
	x, err := RunProc(Spec{Path: call, Args: args, Dir: cwd, Env: append([]string{c.Make}, env...)})
	if err != nil {
		return
	}
	wrapper = filepath.Join(cwd, "out", string(c.Wrapper))
	if c.Where == 3 && x.Code == 0 {
		if _, err := os.Lstat(wrapper); err == nil {
			return "", "", nil, false, Errf("wrapper file is written although stdout is requested")
		}
		put(wrapper, string(x.Stdout))
		os.Chmod(wrapper, 0755)
	}
	if perr != nil {
		if x.Code == 0 {
			return "", "", nil, false, Errf("%q: %v, but it is accepted", model, perr)
		}
		if _, err := os.Lstat(wrapper); err == nil {
			return "", "", nil, false, Errf("wrapper file is written in spite of an error")
		}
		return "", "", nil, true, nil
	}
	if x.Code != 0 || x.Signal != 0 {
		return "", "", nil, false, Errf("creating of the wrapper with %q: %s; stderr: %s", args, x.Status(), x.Tail())
	}
	for i, s := range conf.Sources {
		conf.Sources[i].Path = real[s.Path]
	}
	if conf.Log != "" && conf.Log != "-" {
		conf.Log = filepath.Join(cwd, conf.Log)
	}
	return wrapper, exe, conf, false, nil
}

func run(e *Env, c wrapperCase) error {
	cwd := e.Scratch()
	wrapper, exe, conf, failed, err := c.make(e, cwd, nil)
	if err != nil || failed {
		return err
	}
	ReplaceBin("argdump", exe)
	s := Spec{Path: wrapper, Dir: filepath.Join(cwd, "elsewhere"), Env: []string{c.Use}}
	if c.Extra {
		s.Args = []string{"/path/manifest.json", "id@example.org"}
	}
	x, err := RunProc(s)
	if err != nil {
		return err
	}
	var d struct {
		Exe  []byte
		Args [][]byte
		Dump bool
	}
	if err := json.Unmarshal(x.Stdout, &d); err != nil || !d.Dump || x.Code != 0 {
		return Errf("wrapper does not start the executable: %s, stdout %s, stderr %s", x.Status(), Short(x.Stdout), x.Tail())
	}
	if string(d.Exe) != exe {
		return Errf("wrapper starts %q instead of %q", d.Exe, exe)
	}
	var args []string
	for _, a := range d.Args {
		args = append(args, string(a))
	}
	got, err := ParseBackendArgs(args)
	if err != nil {
		return Errf("arguments in the wrapper: %v: %q", err, args)
	}
	if g, w := fmt.Sprintf("%q", *got), fmt.Sprintf("%q", *conf); g != w {
		return Errf("configuration in the wrapper\n  %s\nexpected\n  %s", g, w)
	}
	if len(c.Options) > 0 {
		e.Label("options")
	}
	e.Nontrivial(len(c.Options) > 0 || string(c.Exe) != "burl_backend")
	return nil
}

func TestArguments(t *testing.T) {
	Check(t, Prop[wrapperCase]{Name: "arguments", Gen: gen, Run: run})
}

// Behaviour of the wrapper compared with the backend started directly.
func genBehaviour(t *rapid.T) wrapperCase {
	c := gen(t)
	for i := range c.Options {
		o := &c.Options[i]
		switch o.Name {
		case "scheme": // must be valid
			if len(o.Value) > 0 {
				o.Value = []byte(rapid.SampledFrom([]string{"ftp", "file:", "x-y"}).Draw(t, "valid-scheme"))
			}
		case "emacsclient":
			o.Value = []byte("@stub@")
		}
	}
	c.Options = append(c.Options, option{Name: "emacsclient", Value: []byte("@stub@")})
	return c
}

func runBehaviour(e *Env, c wrapperCase) error {
	cwd := e.Scratch()
	stub := e.NewStub()
	clientName := filepath.Join(cwd, "my 'client'")
	if err := os.Symlink(Bin("stub"), clientName); err != nil {
		Infra("%v", err)
	}
	for i := range c.Options {
		if string(c.Options[i].Value) == "@stub@" {
			c.Options[i].Value = []byte(clientName)
		}
	}
	wrapper, exe, conf, failed, err := c.make(e, cwd, nil)
	if err != nil || failed {
		return err
	}
	if len(conf.Schemes) == 0 {
		return nil // refused at start-up
	}
	args, _ := c.args(cwd)
	var direct []string
	for i := 0; i < len(args); i++ {
		if args[i] == "-wrapper" {
			i++
			continue
		}
		direct = append(direct, args[i])
	}
	var frames [][]byte
	frames = append(frames, Request(0, "hello", map[string]interface{}{"formats": []interface{}{map[string]string{"format": "org-protocol", "version": "0.2"}}}))
	var variants []string
	for i := range c.Options {
		variants = append(variants, fmt.Sprintf("http://example.org/note%d", i))
	}
	frames = append(frames, MentionsRequest(1, variants, Ptr(100)))
	frames = append(frames, Request(2, "linkremark.linkSet", map[string]interface{}{"prefix": []string{"http"}}))
	frames = append(frames, Request(3, "capture", map[string]interface{}{"format": "org-protocol", "data": map[string]string{"url": "org-protocol:/x"}}))
	observe := func(s Spec) (string, error) {
		stub.Reset()
		s.Env = append(s.Env, stub.Env())
		rs, _, err := RunFrames(s, frames)
		if err != nil {
			return "", err
		}
		out := ""
		for i := range frames {
			r := rs[fmt.Sprint(i)]
			if r == nil {
				return "", Errf("no response to request %d", i)
			}
			text := string(r.Result) + " error " + r.ErrText()
			if i == 1 && !r.Failed() {
				tree, err := ParseTree(r.Result)
				if err != nil {
					return "", err
				}
				text = flat(tree)
			}
			if i == 2 && !r.Failed() {
				var set struct{ Urls []string }
				Unmarshal(r.Result, &set)
				sort.Strings(set.Urls)
				text = Quote(set.Urls)
			}
			out += text + "\n"
		}
		calls := stub.Calls()
		for i := range calls {
			calls[i][0] = filepath.Base(calls[i][0])
		}
		return out + fmt.Sprintf("commands %q", calls), nil
	}
	a, err := observe(Spec{Path: exe, Args: direct, Dir: cwd})
	if err != nil {
		return Errf("direct: %w", err)
	}
	b, err := observe(Spec{Path: wrapper, Dir: filepath.Join(cwd, "elsewhere"), Env: []string{c.Use}})
	if err != nil {
		return Errf("wrapper: %w", err)
	}
	if a != b {
		return Errf("the wrapper behaves like\n%s\nthe backend like\n%s", b, a)
	}
	e.Nontrivial(len(conf.Sources) > 0)
	return nil
}

// flat is the tree without file names.
func flat(n *RNode) string {
	var b strings.Builder
	var walk func(n *RNode)
	walk = func(n *RNode) {
		if n.URL != nil {
			fmt.Fprintf(&b, "%s ", *n.URL)
		}
		for _, x := range n.Children {
			walk(x)
		}
		for _, x := range n.Links {
			walk(x)
		}
		if n.Type == "File" {
			b.WriteString("; ")
		}
	}
	walk(n)
	return b.String()
}

func TestBehaviour(t *testing.T) {
	Check(t, Prop[wrapperCase]{Name: "behaviour", Weight: 0.2, Gen: genBehaviour, Run: runBehaviour})
}
