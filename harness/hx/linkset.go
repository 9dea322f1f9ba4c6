package hx

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// Files for linkSet: links are known by construction.

type LPiece struct {
	K     string `json:"k"` // b d a p w
	Text  string `json:"t"`
	Descr string `json:"d,omitempty"`
	Pre   string `json:"pre"`
	Post  string `json:"post"`
	Rep   int    `json:"rep,omitempty"` // more copies on the same line
}

func (p *LPiece) render() string {
	switch p.K {
	case "b":
		return p.Pre + "[[" + p.Text + "]]" + p.Post
	case "d":
		return p.Pre + "[[" + p.Text + "][" + p.Descr + "]]" + p.Post
	case "a":
		return p.Pre + "<" + p.Text + ">" + p.Post
	}
	return p.Pre + p.Text + p.Post
}

type LFile struct {
	Org   bool       `json:"org"`
	CRLF  bool       `json:"crlf"`
	Lines [][]LPiece `json:"lines"`
	Many  int        `json:"many,omitempty"` // generated lines at the end
}

func (f *LFile) Render() []byte {
	eol := "\n"
	if f.CRLF {
		eol = "\r\n"
	}
	b := strings.Builder{}
	for _, l := range f.Lines {
		for _, p := range l {
			for r := 0; r <= p.Rep; r++ {
				b.WriteString(p.render())
			}
		}
		b.WriteString(eol)
	}
	for i := 0; i < f.Many; i++ {
		if f.Org {
			b.WriteString("- [[" + manyLink(i) + "][text]]" + eol)
		} else {
			b.WriteString("- " + manyLink(i) + eol)
		}
	}
	return []byte(b.String())
}

func manyLink(i int) string { return fmt.Sprintf("https://many.example.org/link/%d", i) }

// No scheme is a tail of another one after a word boundary.
var lSchemes = []string{"https", "http", "ftp", "file", "id", "mid", "doi", "news", "x-app", "git+ssh", "h2", "HTTPS"}

var lBodies = []string{"//example.org/", "//example.org/a", "//example.org/ab", "//example.org/a/b", "//example.com/", "//e.org/x_(y)", "//e.org/é", "//e.org/q?a=1&b=2", "~/notes", "a", "ab", "abc", "a-b.c", "1234", "//e.org/a.b*c", "//e.org/a+b$d", "/abs/path", "//e.org/a/", "é", "//E.org/A"}

// Plain AllLinks end with a slash or a letter or a closing parenthesis and have
// at least two characters after the colon.
func drawLinkURL(t *rapid.T, plain bool) string {
	s := rapid.SampledFrom(lSchemes).Draw(t, "scheme")
	b := rapid.SampledFrom(lBodies).Draw(t, "body")
	if Pick(t, "any path", 8, 1) == 1 {
		// Nothing inside looks like another link.
		b = "//e.org" + strings.ReplaceAll(drawOrgPath(t), ":", "")
	}
	if plain {
		if len([]rune(b)) < 2 {
			b += "z"
		}
	} else {
		switch Pick(t, "extra", 6, 1, 1, 1) {
		case 1:
			b += rapid.SampledFrom([]string{" with space", " ", " x  ", "\t"}).Draw(t, "space")
		case 2:
			b += rapid.SampledFrom([]string{"?", "#", ".", ",", "::search", "(", "\"", "'"}).Draw(t, "punct")
		case 3:
			b = ""
		}
	}
	return s + ":" + b
}

func DrawLFile(t *rapid.T, max int) LFile {
	f := LFile{Org: Pick(t, "org", 2, 1) == 0, CRLF: Pick(t, "crlf", 4, 1) == 1}
	n := rapid.IntRange(0, max).Draw(t, "lines")
	if Rare(t, "many links", 200) {
		f.Many = rapid.IntRange(100, 5000).Draw(t, "many")
		if Rare(t, "huge", 8) {
			f.Many = rapid.IntRange(25000, 70000).Draw(t, "huge-n")
		}
	}
	for i := 0; i < n; i++ {
		var l []LPiece
		k := rapid.IntRange(0, 3).Draw(t, "pieces")
		for j := 0; j < k; j++ {
			p := LPiece{Pre: " ", Post: " "}
			kind := Pick(t, "kind", 3, 2, 2, 2, 4)
			if !f.Org && kind > 0 {
				kind = 4
			}
			switch kind {
			case 0:
				p.K, p.Text = "w", rapid.SampledFrom([]string{"word", "https", "a", "ссылка", "*", "(x)", "[ ]", "<>", "50%", "https:", "id:", "xhttps:", "x_https"}).Draw(t, "word")
			case 1:
				p.K, p.Text = "b", drawLinkURL(t, false)+DrawEscaped(t)
			case 2:
				p.K, p.Text = "d", drawLinkURL(t, false)+DrawEscaped(t)
				p.Descr = rapid.SampledFrom([]string{"text", "https://example.org/descr", "a]b", "ссылка", "<ftp://e.org/in>"}).Draw(t, "descr")
			case 3:
				p.K, p.Text = "a", drawLinkURL(t, false)
				if Pick(t, "lt", 8, 1) == 1 {
					p.Text += rapid.SampledFrom([]string{"<", "<b", "<<1", "/<x"}).Draw(t, "in angle")
				}
			case 4:
				p.K, p.Text = "p", drawLinkURL(t, true)
				d := rapid.SampledFrom([][2]string{{" ", " "}, {"\t", "\t"}, {"(", ") "}, {" \"", "\" "}, {" ", ". "}, {"- ", ", "}, {" ", "?! "}}).Draw(t, "delim")
				if !f.Org {
					d = rapid.SampledFrom([][2]string{{" ", " "}, {"(", ") "}, {" <", "> "}, {"[[", "]] "}, {" [", "] "}, {" [[", "][text]] "}, {" \"", "\" "}, {" ", ". "}}).Draw(t, "delim")
				}
				p.Pre, p.Post = d[0], d[1]
			}
			if p.K == "b" || p.K == "d" || p.K == "a" {
				p.Post = rapid.SampledFrom([]string{" ", ". ", ", ", ") "}).Draw(t, "post")
			}
			if Rare(t, "repeat piece", 150) && len(p.Text)+len(p.Descr) < 200 {
				// Many links on a line, which still is not too long.
				p.Rep = rapid.IntRange(1, 20000/(len(p.render())+1)).Draw(t, "copies")
			}
			l = append(l, p)
		}
		f.Lines = append(f.Lines, l)
	}
	return f
}

// Independent statement of what a valid prefix is.
func ValidPrefix(p string) bool {
	scheme, rest, _ := strings.Cut(p, ":")
	if strings.Contains(rest, "\n") {
		return false
	}
	return regexp.MustCompile(`\A[A-Za-z][A-Za-z0-9]*([-+][A-Za-z0-9]+)*\z`).MatchString(scheme)
}

func AllLinks(f *LFile) (r []string) {
	for _, l := range f.Lines {
		for _, p := range l {
			if p.K != "w" {
				r = append(r, p.Text)
			}
		}
	}
	for i := 0; i < f.Many; i++ {
		r = append(r, manyLink(i))
	}
	return
}

func DrawPrefix(t *rapid.T, files []LFile) string {
	var all []string
	for i := range files {
		all = append(all, AllLinks(&files[i])...)
	}
	k := Pick(t, "prefix", 4, 3, 6, 2, 2)
	if len(all) == 0 && (k == 2 || k == 3) {
		k = 0
	}
	switch k {
	case 0:
		return rapid.SampledFrom(lSchemes).Draw(t, "scheme")
	case 1:
		return rapid.SampledFrom(lSchemes).Draw(t, "scheme") + ":"
	case 2: // a prefix of a present link
		u := rapid.SampledFrom(all).Draw(t, "link")
		r := []rune(u)
		i := strings.Index(u, ":") + 1
		return string(r[:rapid.IntRange(i, len(r)).Draw(t, "cut")])
	case 3: // close to a present one
		u := rapid.SampledFrom(all).Draw(t, "link")
		return u + rapid.SampledFrom([]string{"x", "/", "?", " "}).Draw(t, "add")
	}
	return rapid.SampledFrom([]string{"", ":", " https", "https ", "1a", "a_b", "a--b", "-a", "a-", "https:\nx", "https\n", "//", ".*", "http|ftp", "é", "[a-z]", "a.b:", "(", "https:(", "https:[", "ftp:\\", "x:.*", "https://e.org/a.b", "https:$", "https:^", "f", "https://e.org/a+b$d", "h", "HTTP", "Ftp:"}).Draw(t, "odd")
}

func ExpectedLinks(files []LFile, prefixes []string) (map[string]bool, bool) {
	if len(prefixes) == 0 || len(prefixes) > 16 {
		return nil, false
	}
	for _, p := range prefixes {
		if !ValidPrefix(p) {
			return nil, false
		}
	}
	r := map[string]bool{}
	for i := range files {
		for _, u := range AllLinks(&files[i]) {
			for _, p := range prefixes {
				if !strings.Contains(p, ":") {
					p += ":"
				}
				if strings.HasPrefix(u, p) {
					r[u] = true
				}
			}
		}
	}
	return r, true
}
