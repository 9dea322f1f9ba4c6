package c22

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

// How a file is passed to the tool.
type source struct {
	How  string `json:"how"` // option, positional, stdin-option, stdin
	Name string `json:"name"`
}

func drawSources(t *rapid.T, org []bool) (r []source) {
	stdin := -1
	if n := len(org); n > 0 {
		switch Pick(t, "stdin", 4, 1, 1) {
		case 1:
			stdin = rapid.IntRange(0, n-1).Draw(t, "which")
		case 2:
			if n == 1 && !org[0] {
				return []source{{How: "stdin", Name: "-"}}
			}
		}
	}
	// Options are before positional arguments.
	positional := rapid.IntRange(0, len(org)).Draw(t, "options")
	for i, o := range org {
		s := source{}
		switch {
		case i == stdin && (i < positional || o):
			s = source{"stdin-option", "-"}
			if i >= positional {
				positional = i + 1
			}
		case i == stdin:
			s = source{"positional", "-"}
		case i < positional:
			s.How = "option"
			s.Name = fmt.Sprintf("f%d%s", i, rapid.SampledFrom([]string{".org", ".txt", "", ".ORG", ".org.txt", " x"}).Draw(t, "name"))
		default:
			s.How = "positional"
			ext := []string{".txt", "", ".ORG", ".org.bak", "org", ".md"}
			if o {
				ext = []string{".org", ".txt.org", " y.org"}
			}
			s.Name = fmt.Sprintf("f%d%s", i, rapid.SampledFrom(ext).Draw(t, "name"))
		}
		r = append(r, s)
	}
	// Sources that come before an option must be options.
	last := -1
	for i, s := range r {
		if s.How == "stdin-option" {
			last = i
		}
	}
	for i := range r {
		if i < last && r[i].How == "positional" {
			r[i].How = "option"
		}
	}
	return
}

// install writes the files, returns options, positional arguments and standard input.
func install(e *Env, src []source, org []bool, data func(int) []byte) (opts, pos []string, stdin []byte) {
	for i, s := range src {
		kind := "-txt"
		if org[i] {
			kind = "-org"
		}
		if s.Name == "-" {
			stdin = data(i)
		} else {
			e.Write(s.Name, data(i))
		}
		switch s.How {
		case "option", "stdin-option":
			opts = append(opts, kind, s.Name)
		case "positional":
			pos = append(pos, s.Name)
		}
	}
	return
}

// lost tells what is wrong when the output can not be written.
func lost(e *Env, args []string, stdin []byte) error {
	x, err := RunProc(Spec{Path: Bin("burl_tool"), Args: args, Dir: e.Scratch(), Stdin: stdin, Stdout: "/dev/full"})
	if err != nil {
		return err
	}
	if x.Crashed() || x.Code == 0 || len(x.Stderr) == 0 {
		return Errf("%q: %s, though the output can not be written; stderr %s", args, x.Status(), x.Tail())
	}
	e.Label("output error")
	return nil
}

func runTool(e *Env, args []string, stdin []byte) (*Exit, error) {
	x, err := RunProc(Spec{Path: Bin("burl_tool"), Args: args, Dir: e.Scratch(), Stdin: stdin})
	if err != nil {
		return nil, err
	}
	if x.Crashed() {
		return nil, Errf("%q: %s %s", args, x.Status(), x.Tail())
	}
	return x, nil
}

// ---- mentions of URL

type urlCase struct {
	Files   Files    `json:"files"`
	Src     []source `json:"src"`
	URLs    []string `json:"urls"`
	Full    bool     `json:"full"`   // the output can not be written
	Unread  bool     `json:"unread"` // something in standard input that nobody asked for
	Missing bool     `json:"missing"`
}

func orgs(fs Files) (r []bool) {
	for i := range fs {
		r = append(r, fs[i].Org)
	}
	return
}

func genURL(t *rapid.T) urlCase {
	kind := rapid.SampledFrom([]string{"org", "mixed", "txt"}).Draw(t, "kind")
	bases := DrawBases(t, kind == "org")[:1]
	max := 12
	if Pick(t, "big", 4, 1) == 1 {
		max = 60
	}
	c := urlCase{Files: DrawFiles(t, DocOpts{Bases: bases, MaxLines: max, Deep: true}, 1, 4, kind)}
	c.Src = drawSources(t, orgs(c.Files))
	q := "any"
	if kind != "org" {
		q = "txt"
	}
	for i := rapid.IntRange(1, 3).Draw(t, "urls"); i > 0; i-- {
		u := DrawURL(t, bases, q)
		if Pick(t, "tail", 2, 1) == 1 {
			u += rapid.SampledFrom([]string{"?", "#", "?#", "&", "/?&#", "/"}).Draw(t, "qt")
		}
		c.URLs = append(c.URLs, u)
	}
	c.Full = Pick(t, "full", 8, 1) == 1
	c.Unread = rapid.Bool().Draw(t, "unread")
	c.Missing = Rare(t, "missing", 15) && c.Src[0].How != "stdin"
	return c
}

func runURL(e *Env, c urlCase) error {
	org := orgs(c.Files)
	opts, pos, stdin := install(e, c.Src, org, func(i int) []byte { return c.Files[i].Render() })
	model := Group()
	var backArgs []string
	for i := range c.Files {
		model.Children = append(model.Children, c.Files[i].Model(c.Src[i].Name))
		kind := "-txt"
		if org[i] {
			kind = "-org"
		}
		name := c.Src[i].Name
		if name == "-" {
			name = "stdin-data"
			e.Write(name, stdin)
		}
		backArgs = append(backArgs, kind, name)
	}
	if c.Missing {
		pos = append(pos, "absent.org")
	}
	var reqs [][]byte
	for i, u := range c.URLs {
		reqs = append(reqs, MentionsRequest(i, []string{u}, nil))
	}
	rs, _, err := RunFrames(Spec{Path: Bin("burl_backend"), Args: backArgs, Dir: e.Scratch()}, reqs)
	if err != nil {
		return err
	}
	stdin = unread(c.Unread, c.Src, stdin, c.URLs)
	found := false
	for i, u := range c.URLs {
		args := append(append(append([]string(nil), opts...), u), pos...)
		x, err := runTool(e, args, stdin)
		if err != nil {
			return err
		}
		if c.Missing {
			if x.Code == 0 || len(x.Stderr) == 0 {
				return Errf("%q: %s, no error for the missing file", args, x.Status())
			}
			continue
		}
		if x.Code != 0 {
			return Errf("%q: %s %s", args, x.Status(), x.Tail())
		}
		want := model.Prune(func(s string) bool { return MatchesAny([]string{u}, s) })
		if want.Total() == 0 {
			if len(x.Stdout) > 0 {
				return Errf("%q: nothing is expected, output: %s", args, Short(x.Stdout))
			}
			e.Label("no mentions")
			continue
		}
		found = true
		tree, err := ParseTree(x.Stdout)
		if err != nil {
			return Errf("%q: output %w", args, err)
		}
		if err := CompareLimited(want, tree, 8); err != nil {
			return Errf("%q: %d mentions: %w\noutput: %s", args, want.Total(), err, Short(x.Stdout))
		}
		if want.Total() > 8 {
			e.Label("limited")
		}
		if c.Full {
			if err := lost(e, args, stdin); err != nil {
				return err
			}
		}
		// The same as of the backend.
		r := rs[fmt.Sprint(i)]
		if r == nil || r.Failed() {
			return Errf("%q: no result from the backend", u)
		}
		var a, b interface{}
		if err := Unmarshal(x.Stdout, &a); err != nil {
			return Errf("%q: %w: %s", args, err, Short(x.Stdout))
		}
		back := strings.ReplaceAll(string(r.Result), `"stdin-data"`, `"-"`)
		if err := Unmarshal([]byte(back), &b); err != nil {
			return err
		}
		if !reflect.DeepEqual(a, b) {
			return Errf("%q: output %s\nbackend: %s", args, Short(x.Stdout), Short(r.Result))
		}
	}
	e.Nontrivial(found)
	for _, s := range c.Src {
		e.Label(s.How)
	}
	return nil
}

func TestURL(t *testing.T) {
	Check(t, Prop[urlCase]{Name: "url", Gen: genURL, Run: runURL})
}

// ---- sets of links

type setCase struct {
	Files  []LFile  `json:"files"`
	Src    []source `json:"src"`
	Prefix []string `json:"prefix"`
	Unread bool     `json:"unread"`
	Full   bool     `json:"full"`
}

// Standard input that should be left alone unless it is a source.
func unread(on bool, src []source, stdin []byte, texts []string) []byte {
	for _, s := range src {
		if s.Name == "-" {
			on = false
		}
	}
	if !on {
		return stdin
	}
	return []byte(strings.Join(texts, "\n") + "\n")
}

func lorgs(fs []LFile) (r []bool) {
	for i := range fs {
		r = append(r, fs[i].Org)
	}
	return
}

func genSet(t *rapid.T) setCase {
	c := setCase{}
	for i := rapid.IntRange(1, 4).Draw(t, "files"); i > 0; i-- {
		c.Files = append(c.Files, DrawLFile(t, 12))
	}
	c.Src = drawSources(t, lorgs(c.Files))
	c.Full = Pick(t, "full", 8, 1) == 1
	c.Unread = rapid.Bool().Draw(t, "unread")
	for i := rapid.IntRange(1, 4).Draw(t, "prefixes"); i > 0; i-- {
		p := DrawPrefix(t, c.Files)
		if !ValidPrefix(p) && Pick(t, "valid", 3, 1) == 0 {
			p = "ftp"
		}
		c.Prefix = append(c.Prefix, p)
	}
	return c
}

func runSet(e *Env, c setCase) error {
	opts, pos, stdin := install(e, c.Src, lorgs(c.Files), func(i int) []byte { return c.Files[i].Render() })
	args := opts
	var extra []string
	for _, p := range c.Prefix {
		extra = append(extra, p+"unread", strings.TrimRight(p, ":")+"://example.org/unread")
		args = append(args, "-set="+p)
	}
	args = append(args, pos...)
	x, err := runTool(e, args, unread(c.Unread, c.Src, stdin, extra))
	if err != nil {
		return err
	}
	want, valid := ExpectedLinks(c.Files, c.Prefix)
	if !valid {
		if x.Code == 0 || len(x.Stderr) == 0 || len(x.Stdout) > 0 {
			return Errf("%q: %s, invalid prefix should be refused", args, x.Status())
		}
		e.Label("refused")
		return nil
	}
	if x.Code != 0 {
		return Errf("%q: %s %s", args, x.Status(), x.Tail())
	}
	var list []string
	for u := range want {
		list = append(list, u)
	}
	sort.Strings(list)
	got := strings.Split(string(x.Stdout), "\n")
	if got[len(got)-1] != "" {
		return Errf("%q: no new line at the end: %s", args, Short(x.Stdout))
	}
	got = got[:len(got)-1]
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", list) {
		return Errf("%q: output %q, expected %q", args, got, list)
	}
	if c.Full && len(list) > 0 {
		if err := lost(e, args, stdin); err != nil {
			return err
		}
	}
	e.Nontrivial(len(list) > 0)
	for _, s := range c.Src {
		e.Label(s.How)
	}
	return nil
}

func TestSet(t *testing.T) {
	Check(t, Prop[setCase]{Name: "set", Gen: genSet, Run: runSet})
}
