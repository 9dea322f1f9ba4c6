package c31

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type note struct {
	Org   bool       `json:"org"`
	Lines [][]string `json:"lines"` // of pieces
	EOL   string     `json:"eol"`
	NoEOL bool       `json:"noeol"`
}

func (n *note) text() string {
	var l []string
	for _, x := range n.Lines {
		l = append(l, strings.Join(x, ""))
	}
	s := strings.Join(l, n.EOL)
	if !n.NoEOL && len(l) > 0 {
		s += n.EOL
	}
	return s
}

type textCase struct {
	Notes   []note   `json:"notes"`
	Schemes []string `json:"schemes,omitempty"` // instead of the default ones
	Narrow  []string `json:"narrow,omitempty"`  // longer prefixes
}

var urls = []string{"https://example.org/a", "https://example.org/b", "http://e.org/", "https://example.org/a/b?c=d#e", "mid:x@y", "doi:10.1/2", "news:comp.lang", "ftp://h.org/f", "https://пример.рф/й", "http://e.org"}
var pieces = []string{"[[", "]]", "][", "[", "]", "<", ">", "(", ")", " ", " ", " ", "\"", "'", ".", ",", "*", "* ", "** ", "***** ", " * ", "=", "~", "word", "/", "?", "#", "&", "\\", "\\[", "\\]", "\\\\", "\u00a0",
	"ы", "https:", "https", "://", "|", "_", "-", "+", "file:", "x", "%20", "{", "}", "\t", "\r", "::", ":", "HTTPS://A.b", "https://", "//", "mid:", "...", "«", "»", "…", "(a)", "((b)c)", "\u2028", "🙂", "\x00", "\x7f", "é",
	"#+begin_src", "# ", ":PROPERTIES:", "TODO ", "[fn:1]", "@", "http", "doi", "news:", "ftp:", "\u200b", "\ufeff", "%", "%d", "\v", "\f", "\u0085", "[[file:a.org][b]]", "<<x>>", "e.org", ".html", "index", "1", "42"}

func drawPiece(t *rapid.T) string {
	switch Pick(t, "kind", 6, 12, 1) {
	case 0:
		return rapid.SampledFrom(urls).Draw(t, "url")
	case 1:
		return rapid.SampledFrom(pieces).Draw(t, "piece")
	}
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == utf8.RuneError {
			return '.'
		}
		return r
	}, rapid.StringN(1, 6, 24).Draw(t, "any"))
}

func gen(t *rapid.T) textCase {
	c := textCase{}
	for i := Pick(t, "notes", 3, 2, 1); i >= 0; i-- {
		n := note{Org: Pick(t, "org", 1, 2) == 1, EOL: rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n"}).Draw(t, "eol")}
		n.NoEOL = Pick(t, "noeol", 2, 1) == 1
		n.Lines = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(drawPiece), 0, 12), 0, 20).Draw(t, "lines")
		c.Notes = append(c.Notes, n)
	}
	switch Pick(t, "schemes", 6, 1, 1, 1) {
	case 1:
		c.Schemes = []string{"https"}
	case 2:
		c.Schemes = []string{"news", "ftp", "http"}
	case 3:
		c.Schemes = []string{"file", "https", "news", "mid", "http"}
	}
	all := c.Schemes
	if all == nil {
		all = []string{"https", "http", "mid", "doi"}
	}
	for i := Pick(t, "narrow", 1, 2, 1); i > 0; i-- {
		p := rapid.SampledFrom([]string{"https://example.org", "https://example.org/a", "https:", "http://e", "https://example.org/a/", "mid:x", "news:c"}).Draw(t, "prefix")
		for _, s := range all {
			if strings.HasPrefix(p, s+":") {
				c.Narrow = append(c.Narrow, p)
			}
		}
	}
	return c
}

type link struct {
	File string
	Line int
	URL  string
}

// walk checks places and collects links in order.
func walk(n *RNode, file string, lines map[string][]string, top *int, out *[]link) error {
	if n == nil {
		return nil
	}
	place := func(what string, line *int, text string) error {
		if line == nil || *line < 1 || *line > len(lines[file]) {
			return Errf("%s has line %v of %d", what, line, len(lines[file]))
		}
		if !strings.Contains(lines[file][*line-1], text) {
			return Errf("%s: no %q in line %d: %q", what, text, *line, lines[file][*line-1])
		}
		if *line < *top {
			return Errf("%s: line %d after line %d", what, *line, *top)
		}
		*top = *line
		return nil
	}
	switch n.Type {
	case "File":
		if n.Path == nil {
			return Errf("file without path")
		}
		file = *n.Path
		if lines[file] == nil {
			return Errf("unexpected file %q", file)
		}
		*top = 0
	case "Heading":
		if n.RawText == nil {
			return Errf("heading without text")
		}
		if err := place("Heading", n.LineNo, *n.RawText); err != nil {
			return err
		}
		if !strings.HasPrefix(lines[file][*n.LineNo-1], "*") {
			return Errf("heading at line %d: %q", *n.LineNo, lines[file][*n.LineNo-1])
		}
	case "Link":
		if n.URL == nil {
			return Errf("link without URL")
		}
		if err := place("Link", n.LineNo, *n.URL); err != nil {
			return err
		}
		if n.Descr != nil {
			if err := place("Link", n.LineNo, *n.Descr); err != nil {
				return err
			}
		}
		*out = append(*out, link{file, *n.LineNo, *n.URL})
	}
	for _, l := range [][]*RNode{n.Children, n.Links} {
		for _, x := range l {
			if err := walk(x, file, lines, top, out); err != nil {
				return err
			}
		}
	}
	return nil
}

func keys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type session struct {
	*Session
	lines map[string][]string
}

func (s *session) set(prefixes []string) (map[string]bool, error) {
	r, err := s.Call("linkremark.linkSet", map[string]interface{}{"prefix": prefixes})
	if err != nil {
		return nil, err
	}
	if r.Failed() {
		return nil, Errf("linkSet %q: %s", prefixes, r.ErrText())
	}
	var reply struct{ Urls []string }
	if err := Unmarshal(r.Result, &reply); err != nil {
		return nil, err
	}
	m := map[string]bool{}
	for _, u := range reply.Urls {
		if m[u] {
			return nil, Errf("linkSet %q: %q is repeated", prefixes, u)
		}
		m[u] = true
		ok := false
		for _, p := range prefixes {
			if !strings.HasSuffix(p, ":") && !strings.Contains(p, ":") {
				p += ":"
			}
			ok = ok || strings.HasPrefix(u, p)
		}
		if !ok {
			return nil, Errf("linkSet %q: unexpected %q", prefixes, u)
		}
		ok = false
		for _, l := range s.lines {
			for _, x := range l {
				ok = ok || strings.Contains(x, u)
			}
		}
		if !ok {
			return nil, Errf("linkSet %q: %q is not in the notes", prefixes, u)
		}
	}
	return m, nil
}

func (s *session) mentions(variants []string) ([]link, error) {
	r, err := s.Call("linkremark.urlMentions", map[string]interface{}{"variants": variants, "options": map[string]int{"countLimit": NoLimit}})
	if err != nil {
		return nil, err
	}
	if r.Failed() {
		return nil, nil // no links at all
	}
	tree, err := ParseTree(r.Result)
	if err != nil {
		return nil, err
	}
	var l []link
	top := 0
	if err := walk(tree, "", s.lines, &top, &l); err != nil {
		return nil, fmt.Errorf("%w\nreply: %s", err, Short(r.Result))
	}
	for _, x := range l {
		if !MatchesAny(variants, x.URL) {
			return nil, Errf("%q is not asked for", x.URL)
		}
	}
	return l, nil
}

func run(e *Env, c textCase) error {
	schemes := c.Schemes
	var args []string
	if schemes == nil {
		schemes = []string{"https", "http", "mid", "doi"}
	} else {
		args = append(args, "-scheme", "")
		for _, s := range schemes {
			args = append(args, "-scheme", s)
		}
	}
	re := regexp.MustCompile(`(?:` + strings.Join(schemes, "|") + `|https?):`)
	type file struct {
		args []string
		path string
		org  bool
	}
	var files []file
	lines := map[string][]string{}
	cand := map[string]bool{}
	for i := range c.Notes {
		n := &c.Notes[i]
		text := n.text()
		f := file{org: n.Org}
		if n.Org {
			f.path = e.Write(fmt.Sprintf("n%d.org", i), []byte(text))
			f.args = []string{"-org", f.path}
		} else {
			f.path = e.Write(fmt.Sprintf("n%d.txt", i), []byte(text))
			f.args = []string{"-txt", f.path}
		}
		files = append(files, f)
		l := strings.Split(text, "\n")
		lines[f.path] = l
		for _, s := range l {
			for _, m := range re.FindAllStringIndex(s, -1) {
				for k := m[1]; k <= len(s); k++ {
					if utf8.ValidString(s[m[0]:k]) {
						cand[s[m[0]:k]] = true
					}
				}
			}
		}
	}
	if len(cand) == 0 {
		cand["https://example.org/a"] = true
	}
	ask := func(files []file) (set map[string]bool, links []link, narrow map[string]bool, err error) {
		a := append([]string(nil), args...)
		for _, f := range files {
			a = append(a, f.args...)
		}
		s := &session{StartSession(Spec{Path: Bin("burl_backend"), Args: a}), lines}
		defer s.Kill()
		if set, err = s.set(schemes); err != nil {
			return
		}
		q := map[string]bool{}
		for k := range cand {
			q[k] = true
		}
		for k := range set {
			q[k] = true
		}
		if links, err = s.mentions(keys(q)); err != nil {
			return
		}
		if len(c.Narrow) > 0 {
			if narrow, err = s.set(c.Narrow); err != nil {
				return
			}
			for u := range set {
				for _, p := range c.Narrow {
					if strings.HasPrefix(u, p) && !narrow[u] {
						err = Errf("%q is returned by linkSet for %q and is not for %q", u, schemes, c.Narrow)
						return
					}
				}
			}
		}
		err = s.CloseClean()
		return
	}
	set, links, narrow, err := ask(files)
	if err != nil {
		return err
	}
	// One file at a time.
	sum := map[string]bool{}
	sumNarrow := map[string]bool{}
	var one []link
	for _, f := range files {
		s, l, n, err := ask([]file{f})
		if err != nil {
			return err
		}
		for u := range s {
			sum[u] = true
		}
		for u := range n {
			sumNarrow[u] = true
		}
		one = append(one, l...)
		if !f.org {
			continue
		}
		found := map[string]bool{}
		for _, x := range l {
			found[x.URL] = true
		}
		if !reflect.DeepEqual(found, s) {
			return Errf("urlMentions finds %q\nlinkSet returns %q\nfile %q", keys(found), keys(s), strings.Join(lines[f.path], "\n"))
		}
	}
	if !reflect.DeepEqual(sum, set) {
		return Errf("linkSet for all files is %q, for each one %q", keys(set), keys(sum))
	}
	if len(c.Narrow) > 0 && !reflect.DeepEqual(sumNarrow, narrow) {
		return Errf("linkSet %q for all files is %q, for each one %q", c.Narrow, keys(narrow), keys(sumNarrow))
	}
	if fmt.Sprint(one) != fmt.Sprint(links) {
		return Errf("urlMentions for all files: %q, for each one: %q", links, one)
	}
	if len(links) > 0 {
		e.Label("links")
	}
	e.Nontrivial(len(set) > 0 && len(links) > 0)
	return nil
}

func TestText(t *testing.T) {
	Check(t, Prop[textCase]{Name: "text", Gen: gen, Run: run})
}
