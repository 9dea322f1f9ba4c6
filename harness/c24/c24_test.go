package c24

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type note struct {
	How     string `json:"how"` // org, txt, positional
	Content string `json:"content"`
}

type format struct {
	Format  *string         `json:"f"`
	Version *string         `json:"v"`
	Options json.RawMessage `json:"o,omitempty"`
}

type query struct {
	Method  string   `json:"method"`
	Version *string  `json:"version"`
	Formats []format `json:"formats"`
	Raw     string   `json:"raw,omitempty"` // parameter that offers nothing
}

type helloCase struct {
	Notes   []note  `json:"notes"`
	Disable string  `json:"disable"`
	Log     string  `json:"log"`
	Scheme  bool    `json:"scheme"`
	Queries []query `json:"queries"`
}

var contents = map[string]string{
	"links":    "* A\nhttps://example.org/a text\n[[https://example.org/b][b]]\n",
	"no links": "* Heading\ntext\n",
	"empty":    "",
	"absent":   "",
}

func sp(s string) *string { return &s }

func gen(t *rapid.T) helloCase {
	c := helloCase{}
	for i := rapid.IntRange(0, 3).Draw(t, "notes"); i > 0; i-- {
		c.Notes = append(c.Notes, note{rapid.SampledFrom([]string{"org", "txt", "positional"}).Draw(t, "how"),
			rapid.SampledFrom([]string{"links", "links", "no links", "empty", "absent"}).Draw(t, "content")})
	}
	if len(c.Notes) > 0 && Rare(t, "many notes", 40) {
		for i := rapid.IntRange(4, 70).Draw(t, "notes-n"); i > 0; i-- {
			c.Notes = append(c.Notes, c.Notes[0])
		}
	}
	c.Disable = rapid.SampledFrom([]string{"", "", "-disable-link-set", "--disable-link-set=true", "-disable-link-set=false"}).Draw(t, "disable")
	c.Log = rapid.SampledFrom([]string{"", "-", "file"}).Draw(t, "log")
	c.Scheme = Pick(t, "scheme", 3, 1) == 1
	for i := rapid.IntRange(1, 5).Draw(t, "queries"); i > 0; i-- {
		q := query{Method: rapid.SampledFrom([]string{"hello", "linkremark.hello", "burl.hello"}).Draw(t, "method")}
		if Pick(t, "version", 1, 3) == 1 {
			q.Version = sp(rapid.SampledFrom([]string{"", "0.2", "0.3", "x"}).Draw(t, "version"))
		}
		if Pick(t, "raw", 12, 1) == 1 {
			q.Raw = rapid.SampledFrom([]string{`{}`, `{"formats":null}`, `{"formats":[]}`, `{"formats":[null]}`, `{"version":"0.2","format":"org-protocol"}`, `{"formats":[{}]}`, `{"version":"1"}`}).Draw(t, "param")
		} else {
			k := rapid.IntRange(0, 5).Draw(t, "formats")
			if Rare(t, "many formats", 60) {
				for n := rapid.IntRange(5, 300).Draw(t, "formats-n"); n > 0; n-- {
					q.Formats = append(q.Formats, format{sp("object"), sp("1"), nil})
				}
			}
			for ; k > 0; k-- {
				f := format{}
				if Pick(t, "named", 1, 9) == 1 {
					f.Format = sp(rapid.SampledFrom([]string{"org-protocol", "org-protocol", "org", "object", "Org-Protocol", "org-protocol ", " org-protocol", "", "org_protocol", "org-protoco", "org-protocol:", "markdown"}).Draw(t, "format"))
				}
				if Pick(t, "versioned", 1, 5) == 1 {
					f.Version = sp(rapid.SampledFrom([]string{"0.2", "0.2", "", "0.1", "1000", " ", "é", "null", "<&>\"", "long long long version"}).Draw(t, "v"))
				}
				if Pick(t, "options", 3, 1) == 1 {
					f.Options = json.RawMessage(rapid.SampledFrom([]string{`null`, `{}`, `{"clipboardForBody":true}`, `{"format":"org","version":"0.2","nested":{"a":[1]}}`}).Draw(t, "o"))
				}
				q.Formats = append(q.Formats, f)
			}
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func (q *query) param() json.RawMessage {
	if q.Raw != "" {
		return json.RawMessage(q.Raw)
	}
	fs := []map[string]interface{}{}
	for _, f := range q.Formats {
		m := map[string]interface{}{}
		if f.Format != nil {
			m["format"] = *f.Format
		}
		if f.Version != nil {
			m["version"] = *f.Version
		}
		if f.Options != nil {
			m["options"] = f.Options
		}
		fs = append(fs, m)
	}
	p := map[string]interface{}{"formats": fs}
	if q.Version != nil {
		p["version"] = *q.Version
	}
	b, _ := json.Marshal(p)
	return b
}

// accepted returns the version to be negotiated.
func (q *query) accepted() string {
	for _, f := range q.Formats {
		if q.Raw == "" && f.Format != nil && *f.Format == "org-protocol" {
			if f.Version != nil {
				return *f.Version
			}
			return ""
		}
	}
	return ""
}

type helloReply struct {
	Format       *string  `json:"format"`
	Version      *string  `json:"version"`
	Capabilities []string `json:"capabilities"`
}

func run(e *Env, c helloCase) error {
	dir := e.Scratch()
	var args, pos, paths []string
	readable, links := true, false
	for i, n := range c.Notes {
		name := filepath.Join(dir, "note"+string(rune('0'+i)))
		if n.How == "org" || (n.How == "positional" && i%2 == 0) {
			name += ".org"
		} else {
			name += ".txt"
		}
		if n.Content == "absent" {
			readable = false
		} else if err := WriteFile(name, []byte(contents[n.Content])); err != nil {
			Infra("%v", err)
		}
		links = links || n.Content == "links"
		if n.How == "positional" {
			pos = append(pos, name)
		} else {
			args = append(args, "-"+n.How, name)
		}
		paths = append(paths, name)
	}
	disabled := c.Disable == "-disable-link-set" || c.Disable == "--disable-link-set=true"
	if c.Disable != "" {
		args = append(args, c.Disable)
	}
	log := c.Log
	if log == "file" {
		log = filepath.Join(dir, "log")
	}
	args = append(args, "-log", log)
	if c.Scheme {
		args = append(args, "-scheme", "ftp")
	}
	stub := e.NewStub()
	args = append(args, "-emacsclient", Bin("stub"))
	args = append(args, pos...)
	s := StartSession(Spec{Path: Bin("burl_backend"), Args: args, Dir: dir, Env: []string{stub.Env()}})
	defer s.Kill()
	want := []string{}
	if len(c.Notes) > 0 {
		want = append(want, "urlMentions", "visit")
		if !disabled {
			want = append(want, "linkSet")
		}
	}
	sort.Strings(want)
	success := false
	for _, q := range c.Queries {
		r, err := s.Call(q.Method, q.param())
		if err != nil {
			return err
		}
		v := q.accepted()
		if v == "" {
			if !r.Failed() || r.ErrText() == "" {
				return Errf("%s %s: no error, result %s", q.Method, q.param(), Short(r.Result))
			}
			e.Label("refused")
			continue
		}
		if r.Failed() {
			return Errf("%s %s: error %s", q.Method, q.param(), r.ErrText())
		}
		var h helloReply
		if err := Unmarshal(r.Result, &h); err != nil {
			return Errf("%s %s: result %s", q.Method, q.param(), Short(r.Result))
		}
		if h.Format == nil || *h.Format != "org-protocol" || h.Version == nil || *h.Version != v {
			return Errf("%s %s: result %s, expected version %q of org-protocol", q.Method, q.param(), Short(r.Result), v)
		}
		got := append([]string(nil), h.Capabilities...)
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return Errf("arguments %q: capabilities %q, expected %q", args, got, want)
		}
		success = true
		e.Label("capabilities " + strings.Join(want, ","))
	}
	e.Nontrivial(success)
	// What is advertised works.
	for _, p := range paths {
		r, err := s.Call("linkremark.visit", map[string]interface{}{"file": p, "lineNo": 1})
		if err != nil {
			return err
		}
		if r.Failed() {
			return Errf("visit of %s is advertised, error %s", p, r.ErrText())
		}
	}
	if len(c.Notes) > 0 && readable {
		r, err := s.Call("linkremark.urlMentions", map[string]interface{}{"variants": []string{"https://example.org/a"}})
		if err != nil {
			return err
		}
		// Nothing is claimed about files without any link.
		if r.Failed() && links {
			return Errf("urlMentions is advertised, error %s", r.ErrText())
		}
	}
	r, err := s.Call("linkremark.linkSet", map[string]interface{}{"prefix": []string{"https"}})
	if err != nil {
		return err
	}
	if disabled {
		if !r.Failed() {
			return Errf("linkSet is disabled, result %s", Short(r.Result))
		}
		e.Label("disabled")
	} else if len(c.Notes) > 0 && readable {
		if r.Failed() {
			return Errf("linkSet is advertised, error %s", r.ErrText())
		}
		if links && !strings.Contains(string(r.Result), "https://example.org/a") {
			return Errf("linkSet result is %s", Short(r.Result))
		}
	}
	return s.CloseClean()
}

func TestHello(t *testing.T) {
	Check(t, Prop[helloCase]{Name: "hello", Gen: gen, Run: run})
}

// The browser starts an executable named in the manifest with two arguments.

type browserCase struct {
	Browser string `json:"browser"`
	Wrapper bool   `json:"wrapper"`
	Notes   bool   `json:"notes"`
}

func genBrowser(t *rapid.T) browserCase {
	return browserCase{rapid.SampledFrom([]string{"firefox", "chrome"}).Draw(t, "browser"), rapid.Bool().Draw(t, "wrapper"), rapid.Bool().Draw(t, "notes")}
}

func runBrowser(e *Env, c browserCase) error {
	dir := e.Scratch()
	manifest := filepath.Join(dir, "burl.test.json")
	args := []string{"-manifest-" + c.Browser, manifest}
	if c.Wrapper {
		args = append(args, "-wrapper", filepath.Join(dir, "wrapper"))
	}
	notes := c.Notes && c.Wrapper
	if notes {
		e.Write("a.org", []byte(contents["links"]))
		args = append(args, "-org", filepath.Join(dir, "a.org"))
	}
	x, err := RunProc(Spec{Path: Bin("burl_backend"), Args: args, Dir: dir})
	if err != nil {
		return err
	}
	if x.Code != 0 {
		return Errf("%q: %s %s", args, x.Status(), x.Tail())
	}
	b, err := os.ReadFile(manifest)
	if err != nil {
		return Errf("no manifest: %w", err)
	}
	var m struct {
		Path string `json:"path"`
	}
	if err := Unmarshal(b, &m); err != nil {
		return Errf("manifest: %w", err)
	}
	browser := []string{manifest, "linkremark@maxnikulin.github.io"}
	if c.Browser == "chrome" {
		browser = []string{"chrome-extension://abcdefghijklmnopabcdefghijklmnop/"}
	}
	s := StartSession(Spec{Path: m.Path, Args: browser, Dir: dir})
	defer s.Kill()
	r, err := s.Call("linkremark.hello", json.RawMessage(`{"formats":[{"format":"org-protocol","version":"0.2"}]}`))
	if err != nil {
		return err
	}
	var h helloReply
	if r.Failed() || Unmarshal(r.Result, &h) != nil {
		return Errf("hello: error %s, result %s", r.ErrText(), Short(r.Result))
	}
	sort.Strings(h.Capabilities)
	got, want := strings.Join(h.Capabilities, ","), ""
	if notes {
		want = "linkSet,urlMentions,visit"
	}
	e.Nontrivial(true)
	if got == want {
		return nil
	}
	if !c.Wrapper && got == "linkSet,urlMentions,visit" {
		e.Label("known finding")
		return KnownFinding("backend without wrapper started by " + c.Browser + " takes the arguments of the browser for note files and advertises visit,urlMentions,linkSet")
	}
	return Errf("%v: capabilities are %q, expected %q", c, got, want)
}

func TestBrowser(t *testing.T) {
	Check(t, Prop[browserCase]{Name: "browser", Weight: 0.02, Gen: genBrowser, Run: runBrowser})
}
