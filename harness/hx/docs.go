package hx

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Structured note files: what the links are is known by construction, the
// text is rendered from it. No parsing is involved in the oracle.

type Piece struct {
	// w: word; b: [[url]]; d: [[url][descr]]; a: <url>; p: plain url;
	// x: text that is not a link of interest; f: long filler
	K     string `json:"k"`
	Text  string `json:"t"`           // word, decoy or URL
	Descr string `json:"d,omitempty"` // description
	Pre   string `json:"pre"`         // text before
	Post  string `json:"post,omitempty"`
	N     int    `json:"n,omitempty"`   // length of the filler
	Rep   int    `json:"rep,omitempty"` // more copies on the same line
}

type Line struct {
	Level  int     `json:"l,omitempty"` // number of stars, 0 is not a heading
	Gap    string  `json:"g,omitempty"` // white space after the stars
	Trail  string  `json:"e,omitempty"` // white space at the end
	Pieces []Piece `json:"p,omitempty"`
	Rep    int     `json:"rep,omitempty"` // more lines of the same text after this one
}

type Doc struct {
	Org   bool   `json:"org"`
	CRLF  bool   `json:"crlf,omitempty"`
	NoEOL bool   `json:"noeol,omitempty"` // no line end after the last line
	Lines []Line `json:"lines"`
}

func (p *Piece) isLink() bool { return strings.Contains("bdap", p.K) }

// Rendered is the text of the piece.
func (p *Piece) Rendered() string { return p.render() }

func (p *Piece) render() string {
	switch p.K {
	case "b":
		return p.Pre + "[[" + p.Text + "]]" + p.Post
	case "d":
		return p.Pre + "[[" + p.Text + "][" + p.Descr + "]]" + p.Post
	case "a":
		return p.Pre + "<" + p.Text + ">" + p.Post
	case "f":
		return p.Pre + strings.Repeat("long filler ", p.N) + p.Post
	}
	return p.Pre + p.Text + p.Post
}

func (l *Line) text() string {
	b := strings.Builder{}
	for i := range l.Pieces {
		text := l.Pieces[i].render()
		for r := 0; r <= l.Pieces[i].Rep; r++ {
			b.WriteString(text)
		}
	}
	return b.String()
}

func (l *Line) render() string {
	if l.Level > 0 {
		return strings.Repeat("*", l.Level) + l.Gap + strings.TrimSpace(l.text()) + l.Trail
	}
	// A line of text never looks like a heading.
	t := l.text()
	if strings.HasPrefix(t, "*") {
		t = " " + t
	}
	return t + l.Trail
}

func (d *Doc) Render() []byte {
	eol := "\n"
	if d.CRLF {
		eol = "\r\n"
	}
	b := strings.Builder{}
	for i := range d.Lines {
		text := d.Lines[i].render()
		for r := 0; r <= d.Lines[i].Rep; r++ {
			b.WriteString(text)
			if r < d.Lines[i].Rep || i < len(d.Lines)-1 || !d.NoEOL {
				b.WriteString(eol)
			}
		}
	}
	return []byte(b.String())
}

// MLink is an expected link.
type MLink struct {
	URL, Descr string
	LineNo     int
}

// MNode is a node of the expected tree of all links (not only matching ones).
type MNode struct {
	Type     string // FileGroup, File, Heading
	Path     string
	RawText  string
	LineNo   int
	Level    int
	Links    []MLink
	Children []*MNode
}

// Model is the tree of links of the document.
func (d *Doc) Model(path string) *MNode {
	root := &MNode{Type: "File", Path: path}
	stack := []*MNode{root}
	lineNo := 0
	for i := range d.Lines {
		l := &d.Lines[i]
		text := strings.TrimSpace(l.text())
		for r := 0; r <= l.Rep; r++ {
			lineNo++
			if l.Level > 0 && d.Org {
				for len(stack) > 1 && stack[len(stack)-1].Level >= l.Level {
					stack = stack[:len(stack)-1]
				}
				n := &MNode{Type: "Heading", RawText: text, LineNo: lineNo, Level: l.Level}
				tip := stack[len(stack)-1]
				tip.Children = append(tip.Children, n)
				stack = append(stack, n)
			}
			tip := stack[len(stack)-1]
			for j := range l.Pieces {
				if p := &l.Pieces[j]; p.isLink() {
					descr := ""
					if p.K == "d" {
						descr = p.Descr
					}
					for k := 0; k <= p.Rep; k++ {
						tip.Links = append(tip.Links, MLink{p.Text, descr, lineNo})
					}
				}
			}
		}
	}
	return root
}

func Group(files ...*MNode) *MNode { return &MNode{Type: "FileGroup", Children: files} }

// Prune keeps matching links and nodes with them; nil if nothing is left and
// the node is not a group.
func (n *MNode) Prune(match func(url string) bool) *MNode {
	c := *n
	c.Links, c.Children = nil, nil
	for _, l := range n.Links {
		if match(l.URL) {
			c.Links = append(c.Links, l)
		}
	}
	for _, k := range n.Children {
		if p := k.Prune(match); p != nil {
			c.Children = append(c.Children, p)
		}
	}
	if len(c.Links) == 0 && len(c.Children) == 0 && n.Type != "FileGroup" {
		return nil
	}
	return &c
}

func (n *MNode) Total() int {
	t := len(n.Links)
	for _, c := range n.Children {
		t += c.Total()
	}
	return t
}

// Distinct is the number of links that are shown without limit.
func (n *MNode) Distinct() int {
	t := len(n.DistinctLinks())
	for _, c := range n.Children {
		t += c.Distinct()
	}
	return t
}

func (n *MNode) DistinctLinks() []MLink {
	seen := map[string]bool{}
	var r []MLink
	for _, l := range n.Links {
		if !seen[l.URL] {
			seen[l.URL] = true
			r = append(r, l)
		}
	}
	return r
}

func (n *MNode) AllURLs() []string {
	seen := map[string]bool{}
	var walk func(*MNode)
	walk = func(n *MNode) {
		for _, l := range n.Links {
			seen[l.URL] = true
		}
		for _, c := range n.Children {
			walk(c)
		}
	}
	walk(n)
	r := make([]string, 0, len(seen))
	for u := range seen {
		r = append(r, u)
	}
	sort.Strings(r)
	return r
}

// RNode is a node of a reply: a tree node, a Body or a Link.
type RNode struct {
	Type     string   `json:"_type,omitempty"`
	Path     *string  `json:"path,omitempty"`
	RawText  *string  `json:"rawText,omitempty"`
	LineNo   *int     `json:"lineNo,omitempty"`
	Total    *int     `json:"total,omitempty"`
	Filtered *int     `json:"filtered,omitempty"`
	Children []*RNode `json:"children,omitempty"`
	Links    []*RNode `json:"links,omitempty"`
	URL      *string  `json:"url,omitempty"`
	Descr    *string  `json:"descr,omitempty"`
}

func num(p *int) string {
	if p == nil {
		return "absent"
	}
	return fmt.Sprint(*p)
}

func str(p *string) string {
	if p == nil {
		return "absent"
	}
	return fmt.Sprintf("%q", *p)
}

func (r *RNode) name() string {
	switch r.Type {
	case "File":
		return "File " + str(r.Path)
	case "Heading":
		return fmt.Sprintf("Heading %s line %s", str(r.RawText), num(r.LineNo))
	}
	return r.Type
}

// SameNode tells whether a reply node describes the model node.
func (n *MNode) SameNode(r *RNode) bool {
	if n.Type != r.Type {
		return false
	}
	switch n.Type {
	case "File":
		return r.Path != nil && *r.Path == n.Path
	case "Heading":
		return r.RawText != nil && *r.RawText == n.RawText && r.LineNo != nil && *r.LineNo == n.LineNo
	}
	return true
}

func (n *MNode) label() string {
	switch n.Type {
	case "File":
		return fmt.Sprintf("File %q", n.Path)
	case "Heading":
		return fmt.Sprintf("Heading %q line %d", n.RawText, n.LineNo)
	}
	return n.Type
}

func sameLink(l MLink, r *RNode) bool {
	return r.Type == "Link" && r.URL != nil && *r.URL == l.URL && r.LineNo != nil && *r.LineNo == l.LineNo &&
		((l.Descr == "" && (r.Descr == nil || *r.Descr == "")) || (r.Descr != nil && *r.Descr == l.Descr))
}

func compareBody(where string, links, distinct []MLink, body *RNode) error {
	if body.Type != "Body" {
		return Errf("%s: expected Body with %d links, got %s", where, len(distinct), body.name())
	}
	if len(body.Links) != len(distinct) {
		return Errf("%s: expected links %v, got %s", where, distinct, Quote(body.Links))
	}
	for i, l := range distinct {
		if !sameLink(l, body.Links[i]) {
			return Errf("%s: expected link %+v, got %s", where, l, Quote(body.Links[i]))
		}
	}
	if body.Total == nil || *body.Total != len(links) {
		return Errf("%s: Body total %s, expected %d", where, num(body.Total), len(links))
	}
	if body.Filtered == nil || *body.Filtered != len(distinct) {
		return Errf("%s: Body filtered %s, expected %d", where, num(body.Filtered), len(distinct))
	}
	return nil
}

// CompareFull compares a reply, that has not been limited, with the pruned
// model. A group of one file is represented by the file itself.
func CompareFull(n *MNode, r *RNode) error {
	if r == nil {
		return Errf("null instead of %s", n.label())
	}
	if n.Type == "FileGroup" && len(n.Children) == 1 && r.Type == "File" {
		n = n.Children[0]
	}
	return compareFull(n, r, "")
}

func compareFull(n *MNode, r *RNode, where string) error {
	if r == nil {
		return Errf("%s: null instead of %s", where, n.label())
	}
	if !n.SameNode(r) {
		return Errf("%s: expected %s, got %s", where, n.label(), r.name())
	}
	where += "/" + n.label()
	kids := r.Children
	if len(n.Links) > 0 {
		if len(kids) == 0 {
			return Errf("%s: no links, expected %v", where, n.Links)
		}
		if err := compareBody(where, n.Links, n.DistinctLinks(), kids[0]); err != nil {
			return err
		}
		kids = kids[1:]
	}
	if len(kids) != len(n.Children) {
		var got, want []string
		for _, k := range kids {
			got = append(got, k.name())
		}
		for _, k := range n.Children {
			want = append(want, k.label())
		}
		return Errf("%s: expected children %q, got %q", where, want, got)
	}
	for i, c := range n.Children {
		if err := compareFull(c, kids[i], where); err != nil {
			return err
		}
	}
	if r.Total == nil || *r.Total != n.Total() {
		return Errf("%s: total %s, expected %d", where, num(r.Total), n.Total())
	}
	if r.Filtered == nil || *r.Filtered != n.Distinct() {
		return Errf("%s: filtered %s, expected %d", where, num(r.Filtered), n.Distinct())
	}
	return nil
}

// LimitedOpts of CompareLimited.
func CompareLimited(group *MNode, r *RNode, limit int) error {
	if r == nil {
		return Errf("null reply")
	}
	if limit < 0 {
		limit = 0
	}
	total, distinct := group.Total(), group.Distinct()
	n := group
	if r.Type == "File" {
		n = nil
		for _, f := range group.Children {
			if f.SameNode(r) {
				n = f
				break
			}
		}
		if n == nil {
			return Errf("unexpected file %s at the top", str(r.Path))
		}
		// The group is kept unless just one child is left.
		min := limit
		if len(group.Children) < min {
			min = len(group.Children)
		}
		if min != 1 {
			return Errf("1 file is shown of %d with limit %d", len(group.Children), limit)
		}
		for _, f := range group.Children {
			if f.Total() > n.Total() {
				return Errf("file %s with %d matches is shown, while %q with %d is not", str(r.Path), n.Total(), f.Path, f.Total())
			}
		}
		if f := *n; len(group.Children) > 1 && f.Distinct() < 1 {
			return Errf("model error")
		}
	} else if r.Type != "FileGroup" {
		return Errf("unexpected top node %s", r.name())
	}
	shown, err := compareLimited(n, r, "", limit, true)
	if err != nil {
		return err
	}
	if shown > limit {
		return Errf("%d links are shown, limit is %d", shown, limit)
	}
	if total == distinct {
		want := limit
		if total < want {
			want = total
		}
		if shown != want {
			return Errf("%d links are shown, expected %d: limit is %d and there are %d matches", shown, want, limit, total)
		}
	}
	if limit >= total && shown != distinct {
		return Errf("%d links are shown of %d distinct, though limit is %d and there are %d matches", shown, distinct, limit, total)
	}
	return nil
}

func compareLimited(n *MNode, r *RNode, where string, target int, targetKnown bool) (shown int, err error) {
	if r == nil {
		return 0, Errf("%s: null instead of a node", where)
	}
	if !n.SameNode(r) {
		return 0, Errf("%s: expected %s, got %s", where, n.label(), r.name())
	}
	where += "/" + n.label()
	kept := 0
	minKept, maxDropped := 1<<60, 0
	keep := func(total int) {
		kept++
		if total < minKept {
			minKept = total
		}
	}
	drop := func(total int) {
		if total > maxDropped {
			maxDropped = total
		}
	}
	kids := r.Children
	if len(n.Links) > 0 {
		if len(kids) > 0 && kids[0].Type == "Body" {
			b := kids[0]
			kids = kids[1:]
			keep(len(n.Links))
			d := n.DistinctLinks()
			if len(b.Links) == 0 || len(b.Links) > len(d) {
				return 0, Errf("%s: %d links are shown of %d distinct", where, len(b.Links), len(d))
			}
			if err := compareBody(where, n.Links, d[:len(b.Links)], b); err != nil {
				return 0, err
			}
			shown += len(b.Links)
		} else {
			drop(len(n.Links))
		}
	}
	for _, c := range n.Children {
		if len(kids) > 0 && c.SameNode(kids[0]) {
			s, err := compareLimited(c, kids[0], where, 0, false)
			if err != nil {
				return 0, err
			}
			if s < 1 {
				return 0, Errf("%s: child %s shows no links", where, c.label())
			}
			shown += s
			keep(c.Total())
			kids = kids[1:]
		} else {
			drop(c.Total())
		}
	}
	if len(kids) > 0 {
		return 0, Errf("%s: unexpected or misplaced child %s", where, kids[0].name())
	}
	if kept > 0 && minKept < maxDropped {
		return 0, Errf("%s: a child with %d matches is dropped, while one with %d is kept", where, maxDropped, minKept)
	}
	if r.Total == nil || *r.Total != n.Total() {
		return 0, Errf("%s: total %s, expected %d", where, num(r.Total), n.Total())
	}
	if r.Filtered == nil || *r.Filtered != shown {
		return 0, Errf("%s: filtered %s, but %d links are shown", where, num(r.Filtered), shown)
	}
	have := len(n.Children)
	if len(n.Links) > 0 {
		have++
	}
	if !targetKnown && n.Total() == n.Distinct() {
		// Without repeated links what is shown is what was allowed.
		target, targetKnown = shown, true
	}
	if targetKnown {
		want := target
		if have < want {
			want = have
		}
		if kept != want {
			return 0, Errf("%s: %d children are kept of %d, though the limit here is %d", where, kept, have, target)
		}
	}
	return shown, nil
}

// ---- generators

var words = []string{"note", "see", "also", "http", "https", "mid", "doi", "TODO", "org-mode", "a", "x", "[2021-03-01 Mon]",
	"=code=", "~verb~", "/slanted/", "żółw", "ссылка", "日本", "😀", "(paren)", "\"quoted\"", "{curly}", "50%", "C:\\dir", "*bold*", "#+begin_src", ":PROPERTIES:", "-", "1.", "|", "&amp;", "[fn:1]", "\\alpha"}

var decoysOrg = []string{"xhttps://example.org/a", "xhttp://example.org/a", "https:", "http://", "mid:", "ftp:https", "[[https.txt]]",
	"[[file:~/https.org][https]]", "[[#mid]]", "[[mid]]", "[[id:123-doi]]", "<https>", "<file:doi>", "[[file:a.org::https][x]]",
	"[[elisp:(browse \"https\")]]", "[ [https]]", "[]", "[[]]", "[[][]]", "<>", "mailto:someone", "[[mailto:https@mid]]", "<2021-03-01 Mon>"}

var decoysTxt = []string{"https:", "http://", "https", "/relative/path", "../up", "a/b", "word.", "(", "[]", "<>", "https:///", "mid", "...", "C:\\x", "//"}

// URLSpec pools.
type URLPool struct {
	Bases []string
	Tails []string
}

var hosts = []string{"example.org", "www.example.org", "sub.example.com", "a.b-c.net"}
var paths = []string{"/", "/a", "/b", "/a/b", "/A", "/a/b.html", "/~user/x_y", "/q%20w", "/x,y"}
var pathsOrg = []string{"/a?q=1", "/a?q=1&r=2", "/a#frag", "/a?x=%C3%A9#f/g", "/w/Paren_(x)", "/a:b", "/é/ü", "/a&b", "/a//b", "/a?", "/a/?"}

// Tails in brackets and angle brackets may be arbitrary, plain links end with
// a slash or non-punctuation.
var tails = []string{"", "", "", "/", "//", "?", "#", "/?", "/#", "?#", "/?#", "&", "&&", "/?&#", "/?&&", "?&", "&#", "##", "??", "/?/", "#/", "&?", "?/", "/&", "#&"}
var plainTails = []string{"", "", "", "/", "//", "///"}

// A domain name of any permitted shape (letters of the last component, up to
// 63 characters in each one).
func drawHost(t *rapid.T, org bool) string {
	if org && Pick(t, "not a domain", 2, 1) == 1 {
		return rapid.SampledFrom([]string{"localhost", "localhost:8080", "127.0.0.1", "user@example.org", "u:p@example.org:81", "example.org:8443", "xn--80ak6aa92e.xn--p1ai", "EXAMPLE.org", "example.org."}).Draw(t, "host-o")
	}
	n := rapid.IntRange(1, 4).Draw(t, "labels")
	if Pick(t, "many labels", 6, 1) == 1 {
		n = rapid.IntRange(5, 16).Draw(t, "labels-m")
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch Pick(t, "label", 5, 1, 1, 1) {
		case 0:
			b.WriteString(rapid.SampledFrom([]string{"a", "x1", "www", "3com", "a-b", "a--b", "under_score", "0", "xn--e1afmkfd"}).Draw(t, "label-s"))
		case 1:
			b.WriteString(rapid.SampledFrom([]string{"пример", "bücher", "例え", "ñ"}).Draw(t, "label-i"))
		case 2:
			b.WriteString(strings.Repeat("l", rapid.IntRange(25, 63).Draw(t, "label-l")))
		case 3:
			b.WriteString(rapid.StringMatching(`[a-z0-9]([a-z0-9-]{0,20}[a-z0-9])?`).Draw(t, "label-r"))
		}
		b.WriteByte('.')
	}
	switch Pick(t, "tld", 5, 1, 1) {
	case 0:
		b.WriteString(rapid.SampledFrom([]string{"org", "com", "museum", "io", "photography"}).Draw(t, "tld-s"))
	case 1:
		b.WriteString(rapid.SampledFrom([]string{"рф", "中国", "МОСКВА"}).Draw(t, "tld-i"))
	case 2:
		b.WriteString(strings.Repeat("t", rapid.IntRange(2, 63).Draw(t, "tld-l")))
	}
	return b.String()
}

// A path that is the same in any kind of links.
func drawPath(t *rapid.T) string {
	var b strings.Builder
	n := rapid.IntRange(1, 4).Draw(t, "components")
	if Rare(t, "long path", 8) {
		n = rapid.IntRange(5, 60).Draw(t, "components-l")
	}
	for i := 0; i < n; i++ {
		b.WriteByte('/')
		if Pick(t, "component kind", 3, 1) == 1 {
			b.WriteString(rapid.StringMatching(`([a-zA-Z0-9.@,~_-]|%[0-9a-fA-F]{2}|[éжΩ日]){0,8}[a-zA-Z0-9]`).Draw(t, "component-r"))
			continue
		}
		b.WriteString(rapid.SampledFrom([]string{"a", "b.c", "%D0%B9", "%2f", "%41%5A", "x-y_z", "@user", "~a", "1,2", "день", "2021", "index.html", "v1.2.3-rc"}).Draw(t, "component"))
	}
	return b.String()
}

// A path that is allowed in any link of Org files: parentheses are balanced and
// there are at most two levels of them, punctuation is not the last.
func drawOrgPath(t *rapid.T) string {
	var b strings.Builder
	b.WriteByte('/')
	text := func(max int) {
		for n := rapid.IntRange(0, max).Draw(t, "n"); n > 0; n-- {
			b.WriteString(rapid.SampledFrom([]string{"a", "Z", "9", "é", "ж", "日", "%20", ".", ",", "'", "\"", "*", "+", "=", ";", "@", "$", "!", ":", "|", "{", "}", "^", "`", "~", "_", "-", "?", "&", "#", "/", "…", "»", "\u00a0", "//example.org/", "http:"}).Draw(t, "c"))
		}
	}
	for n := rapid.IntRange(0, 3).Draw(t, "groups"); n > 0; n-- {
		text(4)
		b.WriteByte('(')
		text(3)
		for m := rapid.IntRange(0, 2).Draw(t, "nested"); m > 0; m-- {
			b.WriteByte('(')
			text(2)
			b.WriteByte(')')
			text(2)
		}
		b.WriteByte(')')
	}
	text(3)
	b.WriteString(rapid.SampledFrom([]string{"z", "0", "й", "/", "(e)"}).Draw(t, "last"))
	return b.String()
}

func DrawBase(t *rapid.T, org bool) string {
	h := rapid.SampledFrom(hosts).Draw(t, "host")
	if Pick(t, "odd host", 6, 1) == 1 {
		h = drawHost(t, org)
	}
	if Rare(t, "very long path", 150) {
		return "//" + h + "/" + strings.Repeat("path-", rapid.IntRange(100, 1500).Draw(t, "path-n")) + "z"
	}
	if Pick(t, "odd path", 6, 1) == 1 {
		return "//" + h + drawPath(t)
	}
	if org && Pick(t, "any path", 8, 1) == 1 {
		return "//" + h + drawOrgPath(t)
	}
	p := rapid.SampledFrom(paths)
	if org {
		p = rapid.SampledFrom(append(append([]string{}, paths...), pathsOrg...))
	}
	return "//" + h + p.Draw(t, "path")
}

// DrawURL for org bracket/angle links ("any"), org plain links ("plain"), or
// txt ("txt").
func DrawURL(t *rapid.T, bases []string, kind string) string {
	if kind != "txt" {
		switch Pick(t, "scheme", 12, 1, 1) {
		case 1:
			return "mid:" + rapid.SampledFrom([]string{"1@example.org", "x.y@z", "abc"}).Draw(t, "mid")
		case 2:
			return "doi:" + rapid.SampledFrom([]string{"10.1000/182", "10.1/x(y)z"}).Draw(t, "doi")
		}
	}
	s := rapid.SampledFrom([]string{"http:", "https:"}).Draw(t, "http")
	u := s + rapid.SampledFrom(bases).Draw(t, "base")
	switch kind {
	case "any":
		u += rapid.SampledFrom(tails).Draw(t, "tail")
		if Pick(t, "spaced", 15, 1) == 1 {
			u += rapid.SampledFrom([]string{" with space", " with space", " ", "\t"}).Draw(t, "space")
		}
	case "plain":
		u = strings.TrimRight(u, "?&#") + rapid.SampledFrom(plainTails).Draw(t, "ptail")
	case "txt":
		if Pick(t, "other scheme", 8, 1) == 1 {
			s = rapid.SampledFrom([]string{"ftp", "gemini", "HTTP", "a", "chromeextension", "averyveryverylongscheme", ""}).Draw(t, "scheme-name")
			if s == "" {
				s = rapid.StringMatching(`[a-zA-Z]{1,40}`).Draw(t, "scheme-any")
			}
			u = s + u[strings.IndexByte(u, ':'):]
		}
		u += rapid.SampledFrom(plainTails).Draw(t, "ptail")
	}
	return u
}

// DrawEscaped is a tail of targets in double brackets: square brackets are
// escaped with an odd number of backslashes, backslashes may be elsewhere, the
// number of them at the end is even.
func DrawEscaped(t *rapid.T) string {
	if Pick(t, "escaped", 9, 1) == 0 {
		return ""
	}
	var b strings.Builder
	n := rapid.IntRange(1, 4).Draw(t, "escapes")
	for i := 0; i < n; i++ {
		b.WriteString(rapid.SampledFrom([]string{"\\[", "\\]", "\\[1\\]", "\\\\\\[", "\\d", "\\\\ d", "x", "\\\\", "y\\\\\\]"}).Draw(t, "escape"))
	}
	r := b.String()
	// Even number of backslashes before a bracket is not an escape.
	for i := 0; i < len(r); i++ {
		j := i
		for j < len(r) && r[j] == '\\' {
			j++
		}
		if j < len(r) && strings.IndexByte("[]", r[j]) >= 0 && (j-i)%2 == 0 {
			return "\\[1\\]"
		}
		i = j
	}
	return r
}

func drawDescr(t *rapid.T) string {
	if Rare(t, "long descr", 150) {
		return "long " + strings.Repeat("описание ", rapid.IntRange(10, 500).Draw(t, "descr-n")) + "end"
	}
	return rapid.SampledFrom([]string{"a description", "x", "[b] c", "https://example.org/a", "ссылка 😀", "a]b", "<https://example.org/b>",
		"two  words", " lead", "trail ", " both\t", " ", "\u00a0nb", "]start", "(x)", "[[https://example.org/a", "*bold* /it/", "\"q\" \\n & <t>"}).Draw(t, "descr")
}

func drawWord(t *rapid.T) string {
	if Pick(t, "wordkind", 6, 1) == 1 {
		return rapid.StringMatching(`[a-zA-Z0-9.,;!?_=+-]{1,12}`).Draw(t, "rword")
	}
	return rapid.SampledFrom(words).Draw(t, "word")
}

func drawOrgPiece(t *rapid.T, bases []string) Piece {
	p := Piece{Pre: " "}
	switch Pick(t, "piece", 5, 3, 3, 3, 4, 3) {
	case 0:
		p.K, p.Text = "w", drawWord(t)
	case 1:
		p.K, p.Text = "b", DrawURL(t, bases, "any")+DrawEscaped(t)
		p.Pre = rapid.SampledFrom([]string{" ", "", "(", "*", "- ", "/", "\""}).Draw(t, "pre")
		p.Post = rapid.SampledFrom([]string{"", "", ".", ")", ",", "*"}).Draw(t, "post")
	case 2:
		p.K, p.Text, p.Descr = "d", DrawURL(t, bases, "any")+DrawEscaped(t), drawDescr(t)
		p.Pre = rapid.SampledFrom([]string{" ", "", "(", "- "}).Draw(t, "pre")
		p.Post = rapid.SampledFrom([]string{"", "", ".", ")", ", "}).Draw(t, "post")
	case 3:
		p.K, p.Text = "a", DrawURL(t, bases, "any")
		if Pick(t, "brackets", 10, 1) == 1 {
			p.Text += rapid.SampledFrom([]string{"[1]", "[", "]", "[[x]]", "\\[", "\\", "<", "a<b", "/?q=<x", "<<"}).Draw(t, "in angle")
		}
		p.Pre = rapid.SampledFrom([]string{" ", "", "(", "- "}).Draw(t, "pre")
		p.Post = rapid.SampledFrom([]string{"", "", ".", ")", ","}).Draw(t, "post")
	case 4:
		p.K, p.Text = "p", DrawURL(t, bases, "plain")
		p.Pre = rapid.SampledFrom([]string{" ", "\t", " (", " \"", " - ", " ="}).Draw(t, "pre")
		p.Post = rapid.SampledFrom([]string{" ", " ", ".", ",", "!", ";", "?", "...", ":"}).Draw(t, "post")
		if strings.HasSuffix(p.Pre, "(") {
			p.Post = ")"
		} else if p.Post != " " {
			p.Post += " "
		}
	case 5:
		p.K, p.Text, p.Post = "x", rapid.SampledFrom(decoysOrg).Draw(t, "decoy"), " "
	}
	return p
}

func drawTxtPiece(t *rapid.T, bases []string) Piece {
	p := Piece{Pre: " "}
	switch Pick(t, "piece", 4, 8, 2) {
	case 0:
		p.K, p.Text = "w", drawWord(t)
	case 1:
		p.K, p.Text = "p", DrawURL(t, bases, "txt")
		d := rapid.SampledFrom([][2]string{{" ", " "}, {"\t", "\t"}, {" (", ") "}, {" <", "> "}, {" [", "] "}, {" \"", "\" "}, {" '", "' "}, {" [[", "]] "}, {"  ", ""}, {"(", ")"}, {"\u00a0", "\u00a0"},
			{" x[", "]y "}, {" [[", "][word]] "}, {" word(", ")word "}, {" \"x\" \"", "\"x "}, {" <a href='", "'>x</a> "}, {" [x](", ") "}, {" {", "} "}, {" x<", ">y "}}).Draw(t, "delim")
		p.Pre, p.Post = d[0], d[1]
		if p.Post == "" {
			p.Post = " "
		}
	case 2:
		p.K, p.Text, p.Post = "x", rapid.SampledFrom(decoysTxt).Draw(t, "decoy"), " "
	}
	return p
}

// DocOpts controls generation.
type DocOpts struct {
	Org      bool
	Bases    []string
	MaxLines int
	// Deep heading levels
	Deep bool
}

func DrawDoc(t *rapid.T, o DocOpts) Doc {
	d := Doc{Org: o.Org}
	d.CRLF = Pick(t, "crlf", 5, 1) == 1
	d.NoEOL = Pick(t, "noeol", 3, 1) == 1
	n := rapid.IntRange(0, o.MaxLines).Draw(t, "lines")
	piece := drawTxtPiece
	if o.Org {
		piece = drawOrgPiece
	}
	prev := 0
	for i := 0; i < n; i++ {
		l := Line{}
		kind := Pick(t, "line", 6, 4, 1)
		if kind == 1 && o.Org {
			switch Pick(t, "step", 3, 3, 3, 2) {
			case 0: // sibling or first
				l.Level = prev
			case 1: // child
				l.Level = prev + 1
			case 2: // ancestor
				l.Level = rapid.IntRange(1, prev+1).Draw(t, "level")
			case 3: // skip
				max := 6
				if o.Deep {
					max = rapid.SampledFrom([]int{25, 25, 25, 100, 300}).Draw(t, "max level")
				}
				l.Level = rapid.IntRange(1, max).Draw(t, "level")
			}
			if l.Level < 1 {
				l.Level = 1
			}
			prev = l.Level
			l.Gap = rapid.SampledFrom([]string{" ", " ", " ", "  ", "\t"}).Draw(t, "gap")
			l.Trail = rapid.SampledFrom([]string{"", "", "", "", " ", "  ", "\t"}).Draw(t, "trail")
			k := rapid.IntRange(0, 2).Draw(t, "hpieces")
			if Rare(t, "long heading", 200) {
				l.Pieces = append(l.Pieces, Piece{K: "f", N: rapid.IntRange(10, 2000).Draw(t, "heading-n")})
			}
			for j := 0; j < k; j++ {
				if Pick(t, "hpiece", 3, 1) == 1 {
					l.Pieces = append(l.Pieces, piece(t, o.Bases))
				} else {
					l.Pieces = append(l.Pieces, Piece{K: "w", Pre: " ", Text: rapid.SampledFrom([]string{"Heading", "TODO", "A", "B", "раздел", ":tag:", "*", "[50%]"}).Draw(t, "hword")})
				}
			}
		} else if kind == 2 {
			l.Trail = rapid.SampledFrom([]string{"", " ", "\t", "*", "**bold**", "***", " * item", "-----"}).Draw(t, "odd")
			if strings.HasPrefix(l.Trail, "*") && !o.Org {
				l.Trail = ""
			}
		} else {
			k := rapid.IntRange(0, 4).Draw(t, "pieces")
			for j := 0; j < k; j++ {
				l.Pieces = append(l.Pieces, piece(t, o.Bases))
			}
			if Pick(t, "long", 60, 1) == 1 {
				l.Pieces = append(l.Pieces, Piece{K: "f", Pre: " ", N: rapid.IntRange(100, 4000).Draw(t, "len")})
			}
		}
		for len(l.text()) > 50000 {
			l.Pieces = l.Pieces[:len(l.Pieces)-1]
		}
		if len(l.Pieces) > 0 && Rare(t, "repeat piece", 100) {
			// Many links on a line, which still is not too long.
			p := &l.Pieces[rapid.IntRange(0, len(l.Pieces)-1).Draw(t, "which")]
			if max := (60000 - len(l.text())) / (len(p.render()) + 1); p.isLink() && max > 0 {
				if max > 100 && !Rare(t, "up to the limit", 5) {
					max = 100
				}
				p.Rep = rapid.IntRange(1, max).Draw(t, "copies")
			}
		}
		if len(l.text()) < 5000 && Rare(t, "repeat", 400) {
			// Large line numbers and counts.
			max := 300
			if Rare(t, "huge", 6) {
				max = 70000
				if l.text() == "" && l.Level == 0 {
					max = 200000
				} else if len(l.text()) > 200 {
					max = 300
				}
			}
			l.Rep = rapid.IntRange(max/10, max).Draw(t, "times")
		}
		d.Lines = append(d.Lines, l)
	}
	return d
}

// Links counts link pieces.
func (d *Doc) Links() int {
	n := 0
	for i := range d.Lines {
		for j := range d.Lines[i].Pieces {
			if d.Lines[i].Pieces[j].isLink() {
				n++
			}
		}
	}
	return n
}

// MaxLevel is the deepest heading.
func (d *Doc) MaxLevel() (max int, skipped bool) {
	prev := 0
	for i := range d.Lines {
		if l := d.Lines[i].Level; l > 0 {
			if l > max {
				max = l
			}
			if l > prev+1 {
				skipped = true
			}
			prev = l
		}
	}
	return
}

// Files is a set of documents, rendered below the scratch directory.
type Files []Doc

func (fs Files) Name(i int) string {
	if fs[i].Org {
		return fmt.Sprintf("n%d.org", i)
	}
	return fmt.Sprintf("n%d.txt", i)
}

// Install writes the documents and returns backend arguments and the model.
func (fs Files) Install(e *Env) (args []string, model *MNode) {
	model = Group()
	for i := range fs {
		p := e.Write(fs.Name(i), fs[i].Render())
		if fs[i].Org {
			args = append(args, "-org", p)
		} else {
			args = append(args, "-txt", p)
		}
		model.Children = append(model.Children, fs[i].Model(p))
	}
	return
}

func DrawFiles(t *rapid.T, o DocOpts, min, max int, kind string) Files {
	n := rapid.IntRange(min, max).Draw(t, "files")
	if Rare(t, "many files", 150) {
		n = rapid.IntRange(20, 200).Draw(t, "files-n")
		o.MaxLines = 6
	}
	var fs Files
	for i := 0; i < n; i++ {
		oo := o
		switch kind {
		case "org":
			oo.Org = true
		case "txt":
			oo.Org = false
		default:
			oo.Org = Pick(t, "type", 2, 1) == 0
		}
		fs = append(fs, DrawDoc(t, oo))
	}
	return fs
}

func DrawBases(t *rapid.T, org bool) []string {
	n := rapid.IntRange(1, 4).Draw(t, "bases")
	var b []string
	for i := 0; i < n; i++ {
		b = append(b, DrawBase(t, org))
	}
	return b
}

// AnyLinks tells whether the model has links at all.
func (n *MNode) AnyLinks() bool { return n.Total() > 0 }
