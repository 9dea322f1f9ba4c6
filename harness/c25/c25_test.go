package c25

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

// link is a candidate, its number makes it unique.
type link struct {
	K      string `json:"k"` // b, d, a, p
	Scheme string `json:"s"`
	Body   string `json:"b"` // text after the colon
	Descr  string `json:"d,omitempty"`
	Pre    string `json:"pre"`
	Post   string `json:"post"`
}

func (l *link) url() string { return l.Scheme + ":" + l.Body }

type schemeCase struct {
	Options []string `json:"options"` // values of options
	Forms   []string `json:"forms"`   // ways to write them
	Late    bool     `json:"late"`    // options after note files
	Files   [][]link `json:"files"`
}

// Names that differ from each other a little and contain each other.
var names = []string{"ftp", "sftp", "ft", "tp", "git", "digit", "gith", "info", "news", "snews", "urn", "urn1", "gopher", "x1", "irc", "ircs", "file", "id", "attachment",
	"http", "https", "httpsx", "xhttp", "doi", "doing", "do", "mid", "midi", "amid", "org", "man", "woman", "tel", "hotel", "telnet", "s", "svn-ssh", "Ed2k", "zotXML"}

var defaults = []string{"doi", "http", "https", "mid"}

// configured tells what options mean; nothing is configured if they are refused.
func configured(options []string) (map[string]bool, bool) {
	r := map[string]bool{}
	for _, s := range defaults {
		r[s] = true
	}
	added, replaced := false, false
	for _, o := range options {
		if o == "" {
			if added && !replaced {
				return nil, false
			}
			replaced = true
			r = map[string]bool{}
			continue
		}
		added = true
		if o = strings.TrimSuffix(o, ":"); o != "" {
			r[o] = true
		}
	}
	return r, len(r) > 0
}

func near(t *rapid.T, known []string) string {
	s := rapid.SampledFrom(known).Draw(t, "known")
	switch Pick(t, "near", 1, 1, 1, 1, 1, 1) {
	case 0:
		return s + rapid.SampledFrom([]string{"x", "s", "1", "-x", "q"}).Draw(t, "after")
	case 1:
		return rapid.SampledFrom([]string{"x", "s", "q", "x1", "a"}).Draw(t, "before") + s
	case 2:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 3:
		if len(s) > 1 {
			return s[1:]
		}
	case 4:
		return "x" + s + "x"
	case 5:
		return s + s
	}
	return "zz"
}

func gen(t *rapid.T) schemeCase {
	c := schemeCase{}
	name := func(i string) string {
		n := rapid.SampledFrom(names).Draw(t, i)
		if Pick(t, "colon", 2, 1) == 1 {
			n += ":"
		}
		return n
	}
	add := func() {
		for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
			n := name("add")
			if Rare(t, "empty name", 20) {
				n = ":"
			}
			c.Options = append(c.Options, n)
		}
	}
	switch Pick(t, "config", 2, 5, 6, 1, 1) {
	case 1:
		add()
	case 2:
		c.Options = append(c.Options, "")
		if Rare(t, "twice", 10) {
			c.Options = append(c.Options, "")
		}
		c.Options = append(c.Options, name("only"))
		add()
	case 3:
		c.Options = append(c.Options, "")
		if Pick(t, "colon only", 2, 1) == 1 {
			c.Options = append(c.Options, ":")
		}
	case 4:
		c.Options = append(c.Options, name("first"))
		add()
		c.Options = append(c.Options, "")
		add()
	}
	wide := Rare(t, "many schemes", 60) && len(c.Options) > 0
	if wide {
		for n := rapid.IntRange(10, 300).Draw(t, "schemes-n"); n > 0; n-- {
			c.Options = append(c.Options, fmt.Sprintf("sch%dz", n))
		}
	}
	for range c.Options {
		c.Forms = append(c.Forms, rapid.SampledFrom([]string{"-scheme=", "--scheme=", "-scheme", "--scheme"}).Draw(t, "form"))
	}
	c.Late = Pick(t, "late", 1, 1) == 1
	set, _ := configured(c.Options)
	var known []string
	for _, n := range append(append([]string{}, defaults...), names...) {
		if set[n] {
			known = append(known, n)
		}
	}
	if wide {
		for s := range set {
			if strings.HasPrefix(s, "sch") {
				known = append(known, s)
			}
		}
		sort.Strings(known)
	}
	if len(known) == 0 {
		known = []string{"https"}
	}
	n := 0
	for f := rapid.IntRange(1, 2).Draw(t, "files"); f > 0; f-- {
		var ls []link
		for i := rapid.IntRange(0, 14).Draw(t, "links"); i > 0; i-- {
			n++
			l := link{K: rapid.SampledFrom([]string{"b", "d", "a", "p"}).Draw(t, "kind")}
			switch Pick(t, "scheme", 4, 3, 3, 2) {
			case 0:
				l.Scheme = rapid.SampledFrom(known).Draw(t, "known")
			case 1:
				l.Scheme = near(t, known)
			case 2:
				l.Scheme = rapid.SampledFrom(names).Draw(t, "some")
			case 3:
				l.Scheme = near(t, defaults)
			}
			// The body has names of schemes, sometimes followed by colon.
			k := rapid.SampledFrom(append(append([]string{}, known...), defaults...)).Draw(t, "embedded")
			l.Body = rapid.SampledFrom([]string{"%d", "//example.org/%d", "%d/" + k, k + "/%d", "//" + k + ".org/%d", "~/" + k + "/%d", "x" + k + ":%d", "%d" + k + "z:1",
				"~/" + k + ":%d", k + ":%d", "%d::" + k + ":x", "//example.org/%d/" + k + "://example.org/2"}).Draw(t, "body")
			l.Body = fmt.Sprintf(l.Body, 1000+n)
			if l.K == "d" {
				l.Descr = rapid.SampledFrom([]string{"text", k, k + ":1", "x " + k + "://example.org/3 y", "<" + k + ":4>"}).Draw(t, "descr")
			}
			l.Pre = rapid.SampledFrom([]string{"", "", " ", "- ", "(", "text ", "* ", "** H "}).Draw(t, "pre")
			l.Post = rapid.SampledFrom([]string{"", " ", " text", ", "}).Draw(t, "post")
			if l.ambiguous(set) {
				continue
			}
			ls = append(ls, l)
		}
		c.Files = append(c.Files, ls)
	}
	return c
}

// In angle brackets and in plain text another link may begin at any word
// boundary inside, so such candidates are not used. Characters of links in
// double brackets belong to that link.
func (l *link) ambiguous(set map[string]bool) bool {
	if l.K == "b" || l.K == "d" {
		return false
	}
	u := l.url()
	for s := range set {
		for _, m := range regexp.MustCompile(`\b`+regexp.QuoteMeta(s)+`:`).FindAllStringIndex(u, -1) {
			if m[0] > 0 {
				return true
			}
		}
	}
	return false
}

// inner parts of a link that begin with a configured scheme.
func inner(u string, set map[string]bool) (r []string) {
	for k := 1; k < len(u); k++ {
		for s := range set {
			if strings.HasPrefix(u[k:], s+":") {
				r = append(r, u[k:])
			}
		}
	}
	sort.Strings(r)
	return
}

func doc(ls []link, set map[string]bool, known string) Doc {
	d := Doc{Org: true}
	// There is always something to find.
	d.Lines = append(d.Lines, Line{Pieces: []Piece{{K: "b", Text: known + ":1000"}}})
	for _, l := range ls {
		p := Piece{K: "x"}
		if set[l.Scheme] {
			p = Piece{K: l.K, Text: l.url(), Descr: l.Descr}
		} else {
			q := Piece{K: l.K, Text: l.url(), Descr: l.Descr}
			p.Text = strings.TrimSuffix(q.Rendered(), "\n")
		}
		line := Line{}
		pre := l.Pre
		if strings.HasPrefix(pre, "*") {
			line.Level, line.Gap = strings.Count(pre, "*"), " "
			pre = strings.TrimLeft(pre, "* ")
		}
		p.Pre, p.Post = pre, l.Post
		line.Pieces = []Piece{p}
		d.Lines = append(d.Lines, line)
	}
	return d
}

func run(e *Env, c schemeCase) error {
	set, valid := configured(c.Options)
	var opts []string
	for i, o := range c.Options {
		if f := c.Forms[i]; strings.HasSuffix(f, "=") {
			opts = append(opts, f+o)
		} else {
			opts = append(opts, f, o)
		}
	}
	known := ""
	for _, s := range append(append([]string{}, defaults...), names...) {
		if set[s] {
			known = s
		}
	}
	if known == "" {
		// All of configured ones may be rare.
		for s := range set {
			if known == "" || s < known {
				known = s
			}
		}
	}
	var files Files
	queries := []string{known + ":1000"}
	for _, ls := range c.Files {
		files = append(files, doc(ls, set, known))
		for i := range ls {
			queries = append(queries, ls[i].url())
			queries = append(queries, inner(ls[i].url(), set)...)
		}
	}
	notes, model := files.Install(e)
	args := append(append([]string{}, opts...), notes...)
	if c.Late {
		args = append(append([]string{}, notes...), opts...)
	}
	spec := Spec{Path: Bin("burl_backend"), Args: args}
	if !valid {
		e.Label("refused")
		e.Nontrivial(true)
		spec.Stdin = Frame(MentionsRequest(0, queries, nil))
		x, err := RunProc(spec)
		if err != nil {
			return err
		}
		if x.Crashed() {
			return Errf("options %q: crash: %s", c.Options, x.Tail())
		}
		if x.Code == 0 {
			return Errf("options %q are not refused, %s", c.Options, x.Status())
		}
		if len(x.Stdout) > 0 {
			return Errf("options %q are refused, but there is output: %s", c.Options, Short(x.Stdout))
		}
		return nil
	}
	reqs := [][]byte{MentionsRequest(0, queries, Ptr(NoLimit))}
	// One by one as well.
	for i, q := range queries {
		reqs = append(reqs, MentionsRequest(i+1, []string{q}, Ptr(NoLimit)))
	}
	rs, _, err := RunFrames(spec, reqs)
	if err != nil {
		return Errf("options %q: %w", c.Options, err)
	}
	if _, err := CheckMentions(rs["0"], model, queries); err != nil {
		return Errf("options %q: %w", c.Options, err)
	}
	found, missed := 0, 0
	for i, q := range queries {
		n, err := CheckMentions(rs[fmt.Sprint(i+1)], model, []string{q})
		if err != nil {
			return Errf("options %q: %w", c.Options, err)
		}
		if n > 0 {
			found++
		} else {
			missed++
		}
	}
	e.Nontrivial(found > 1 && missed > 0)
	if len(c.Options) == 0 {
		e.Label("default")
	} else if c.Options[0] == "" {
		e.Label("replaced")
	} else {
		e.Label("added")
	}
	return nil
}

func TestSchemes(t *testing.T) {
	Check(t, Prop[schemeCase]{Name: "schemes", Gen: gen, Run: run})
}
