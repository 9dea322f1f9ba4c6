package c05

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

// One element of the input stream.
type item struct {
	// "req": well-formed request, which must be answered; "bad": frame which
	// may be refused; "raw": bytes without framing; "huge": header only;
	// "cut": frame with missing bytes at the end.
	Kind   string `json:"kind"`
	ID     string `json:"id,omitempty"` // JSON
	Method string `json:"method,omitempty"`
	Params string `json:"params,omitempty"` // JSON of the parameter
	Body   []byte `json:"body,omitempty"`
	Size   uint32 `json:"size,omitempty"`
}

type note struct {
	Org  bool   `json:"org"`
	Data []byte `json:"data"`
	Pad  int    `json:"pad,omitempty"` // that many repetitions of the data
}

type hostile struct {
	Notes []note `json:"notes"`
	Log   string `json:"log"`
	Items []item `json:"items"`
}

var methods = []string{"linkremark.hello", "linkremark.capture", "linkremark.visit", "linkremark.urlMentions", "linkremark.linkSet",
	"hello", "burl.urlMentions", "Burl.Search", "", "burl.search", "x.y", "linkremark.\u0000"}

var numbers = []string{"0", "-1", "1", "8", "-0", "1e3", "0.5", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
	"18446744073709551616", "1e400", "-1e400", "2147483648", "1000000000", "1E-300"}

var strs = []string{"", "a", "http", "http:", "https", "http://example.org/", "http://example.org/a", "mid:", "[", "(", "\\", "\\Q", "*", "a**",
	"org-protocol:", "org-protocol:/capture", "org-protocol", "%s%n", "\u0000", "\n", "./", "-", "--help", "://", "http://example.org/?&#", "😀", "0.2"}

func drawJSON(t *rapid.T, depth int) string {
	k := Pick(t, "json", 1, 1, 1, 3, 4, 2, 3)
	if depth <= 0 && k > 4 {
		k = 4
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return "true"
	case 2:
		return "false"
	case 3:
		return rapid.SampledFrom(numbers).Draw(t, "number")
	case 4:
		return drawString(t)
	case 5:
		n := rapid.IntRange(0, 4).Draw(t, "len")
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, drawJSON(t, depth-1))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	n := rapid.IntRange(0, 4).Draw(t, "len")
	var s []string
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(t, "key")
		s = append(s, Quoted(k)+":"+drawJSON(t, depth-1))
	}
	return "{" + strings.Join(s, ",") + "}"
}

var keys = []string{"formats", "version", "format", "options", "data", "url", "title", "body", "error", "file", "lineNo", "variants",
	"countLimit", "prefix", "q", "limit", "tol", "", "__proto__", "VARIANTS", "x"}

func drawString(t *rapid.T) string {
	if Pick(t, "string", 4, 1) == 1 {
		return Quoted(rapid.String().Draw(t, "string-v"))
	}
	return Quoted(rapid.SampledFrom(strs).Draw(t, "string-s"))
}

// A parameter close to what the method expects, with some wrong values.
func drawParam(t *rapid.T, method string) string {
	v := func(good func() string) string {
		if Pick(t, "hostile", 4, 1) == 1 {
			return drawJSON(t, 2)
		}
		return good()
	}
	text := func() string { return drawString(t) }
	num := func() string { return rapid.SampledFrom(numbers).Draw(t, "num") }
	list := func(f func() string) func() string {
		return func() string {
			n := rapid.IntRange(0, 4).Draw(t, "list")
			if Pick(t, "long", 30, 1) == 1 {
				n = rapid.IntRange(15, 40).Draw(t, "long-list")
			}
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, v(f))
			}
			return "[" + strings.Join(s, ",") + "]"
		}
	}
	obj := func(members ...interface{}) func() string {
		return func() string {
			var s []string
			for i := 0; i < len(members); i += 2 {
				if Pick(t, "absent", 6, 1) == 1 {
					continue
				}
				s = append(s, Quoted(members[i].(string))+":"+v(members[i+1].(func() string)))
			}
			return "{" + strings.Join(s, ",") + "}"
		}
	}
	c := func(s string) func() string { return func() string { return s } }
	any := func() string { return drawJSON(t, 2) }
	switch {
	case strings.HasSuffix(method, "ello"):
		return v(obj("formats", list(obj("format", c(`"org-protocol"`), "version", text, "options", any)), "version", text))
	case strings.HasSuffix(method, "apture"):
		return v(obj("format", c(`"org-protocol"`), "version", text, "data", obj("url", text, "title", text, "body", any), "options", any, "error", any))
	case strings.HasSuffix(method, "isit"):
		return v(obj("file", text, "lineNo", num))
	case strings.HasSuffix(method, "entions"):
		return v(obj("variants", list(text), "options", obj("countLimit", num)))
	case strings.HasSuffix(method, "Set"):
		return v(obj("prefix", list(text)))
	case strings.HasSuffix(method, "earch"):
		return v(obj("q", text, "limit", num, "tol", num))
	}
	return any()
}

func drawRequest(t *rapid.T, i int) item {
	m := rapid.SampledFrom(methods).Draw(t, "method")
	it := item{Kind: "req", Method: m, Params: drawParam(t, m), ID: fmt.Sprint(i)}
	if Pick(t, "odd-id", 5, 1) == 1 {
		it.ID = fmt.Sprintf(rapid.SampledFrom([]string{`"%d"`, `[%d]`, `{"a":%d}`, `-%d.5`, `1e%d`, `"\u0000%d"`}).Draw(t, "id"), i+1000)
	}
	return it
}

func (it *item) body() []byte {
	if it.Kind == "req" {
		return []byte(`{"id":` + it.ID + `,"method":` + Quoted(it.Method) + `,"params":[` + it.Params + `]}`)
	}
	return it.Body
}

func drawBad(t *rapid.T, i int) item {
	it := item{Kind: "bad"}
	good := drawRequest(t, i)
	text := string(good.body())
	switch rapid.IntRange(0, 10).Draw(t, "bad") {
	case 0:
		it.Body = []byte{}
	case 1:
		it.Body = []byte(drawJSON(t, 3))
	case 2: // cut JSON
		it.Body = []byte(text[:rapid.IntRange(0, len(text)-1).Draw(t, "cut")])
	case 3: // several values in a frame
		second := drawRequest(t, i+500)
		it.Body = []byte(text + string(second.body()))
	case 4: // garbage after the value
		it.Body = append([]byte(text), rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "garbage")...)
	case 5:
		it.Body = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	case 6: // one byte is changed
		b := []byte(text)
		b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "byte")
		it.Body = b
	case 7: // wrong members
		var m []string
		for _, k := range []string{"id", "method", "params"} {
			if Pick(t, "member", 2, 1) == 0 {
				m = append(m, Quoted(k)+":"+drawJSON(t, 2))
			}
		}
		it.Body = []byte("{" + strings.Join(m, ",") + "}")
	case 8: // deep nesting
		n := rapid.SampledFrom([]int{100, 9990, 10010, 200000}).Draw(t, "deep")
		it.Body = []byte(`{"id":1,"method":"hello","params":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}`)
	case 9: // long text
		it.Body = []byte(`{"id":1,"method":"` + strings.Repeat("m", rapid.IntRange(0, 100000).Draw(t, "long")) + `","params":[]}`)
	case 10: // invalid UTF-8 inside of strings
		it.Body = []byte(strings.ReplaceAll(text, "e", "\xff\xed\xa0\x80"))
	}
	return it
}

// Level of a heading, sometimes close to limits that an implementation may have.
func drawLevel(t *rapid.T) int {
	switch Pick(t, "level", 6, 2, 1, 1) {
	case 0:
		return rapid.IntRange(1, 6).Draw(t, "level-s")
	case 1:
		return rapid.IntRange(1, 70).Draw(t, "level-m")
	case 2:
		return rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025}).Draw(t, "level-l")
	}
	return rapid.IntRange(60, 4000).Draw(t, "level-h")
}

func drawNote(t *rapid.T) note {
	n := note{Org: rapid.Bool().Draw(t, "org")}
	switch Pick(t, "note", 3, 3, 1, 1, 3) {
	case 4: // lines, most of them are headings and links
		k := rapid.IntRange(1, 12).Draw(t, "lines")
		for i := 0; i < k; i++ {
			switch Pick(t, "line", 4, 2, 1, 1) {
			case 0:
				n.Data = append(n.Data, strings.Repeat("*", drawLevel(t))+rapid.SampledFrom([]string{" a", " ", "", " [[http://example.org/a][b]]", "\t", " http://example.org/"}).Draw(t, "title")...)
			case 1:
				n.Data = append(n.Data, rapid.SampledFrom([]string{"http://example.org/a", "[[https://example.org/]]", "<mid:x@y>", "[[http://example.org/a][", "http://"}).Draw(t, "link")...)
			case 2:
				n.Data = append(n.Data, strings.Repeat(rapid.SampledFrom([]string{"a.", "/", "%41", "é", "[[", "<", "\\", "http:"}).Draw(t, "unit"), rapid.IntRange(1, 3000).Draw(t, "units"))...)
			}
			n.Data = append(n.Data, rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n", "\n\n"}).Draw(t, "newline")...)
		}
	case 0:
		parts := []string{"* ", "**", "*", "\n", "[[", "]]", "][", "<", ">", "http://example.org/a", "http:", "https://example.org", "mid:x@y",
			" ", "\t", "\r", "\x00", "\xff", "\xc3", "://", "#", "?", "&", "й", "\u2028", "\\", "[[http://example.org/", "***** deep\n", ":", "file:x", "(", "doi:"}
		n.Data = []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(parts), 0, 60).Draw(t, "parts"), ""))
	case 1:
		n.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	case 2:
		n.Data = []byte(rapid.SampledFrom([]string{"*", "[[", "http://a.b/ ", "x", "[[http:a][", "<http:", "* a\n", " * \n", "\n", "\xf0\x9f"}).Draw(t, "unit"))
		n.Pad = rapid.IntRange(1, 30000).Draw(t, "pad")
	case 3:
		n.Data = []byte(rapid.String().Draw(t, "string"))
	}
	return n
}

func gen(t *rapid.T) hostile {
	c := hostile{Log: rapid.SampledFrom([]string{"", "-", "file"}).Draw(t, "log")}
	k := rapid.IntRange(0, 3).Draw(t, "notes")
	for i := 0; i < k; i++ {
		c.Notes = append(c.Notes, drawNote(t))
	}
	n := rapid.IntRange(1, 10).Draw(t, "items")
	for i := 0; i < n; i++ {
		if Pick(t, "kind", 5, 1) == 1 {
			c.Items = append(c.Items, drawBad(t, i))
		} else {
			c.Items = append(c.Items, drawRequest(t, i))
		}
	}
	switch Pick(t, "end", 5, 1, 1, 2) {
	case 1:
		c.Items = append(c.Items, item{Kind: "raw", Body: rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "raw")})
	case 2:
		c.Items = append(c.Items, item{Kind: "huge", Size: rapid.SampledFrom([]uint32{1 << 30, 1<<30 + 1, 1 << 31, 1<<32 - 1, 100000}).Draw(t, "size"), Body: []byte(`{"id":`)})
	case 3:
		it := drawRequest(t, n)
		b := Frame(it.body())
		c.Items = append(c.Items, item{Kind: "raw", Body: b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")]})
	}
	return c
}

func run(e *Env, c hostile) error {
	dir := e.Scratch()
	args := []string{"-emacsclient", "/nonexistent/emacsclient"}
	switch c.Log {
	case "-":
		args = append(args, "-log", "-")
	case "file":
		args = append(args, "-log", filepath.Join(dir, "log"))
	}
	for i, n := range c.Notes {
		data := n.Data
		if n.Pad > 0 {
			data = []byte(strings.Repeat(string(n.Data), n.Pad))
		}
		name := fmt.Sprintf("n%d", i)
		e.Write(name, data)
		opt := "-txt"
		if n.Org {
			opt = "-org"
		}
		args = append(args, opt, filepath.Join(dir, name))
	}
	var in []byte
	required := map[string]bool{}
	poisoned := false
	answered := 0
	for i := range c.Items {
		it := &c.Items[i]
		switch it.Kind {
		case "req":
			in = append(in, Frame(it.body())...)
			if !poisoned {
				var b json.RawMessage
				if json.Unmarshal([]byte(it.ID), &b) != nil || !utf8.Valid(it.body()) {
					Infra("bad request %s", it.body())
				}
				required[it.ID] = true
				answered++
			}
		case "bad":
			in = append(in, Frame(it.Body)...)
			poisoned = true
		case "raw":
			in = append(in, it.Body...)
			poisoned = true
		case "huge":
			in = append(in, byte(it.Size), byte(it.Size>>8), byte(it.Size>>16), byte(it.Size>>24))
			in = append(in, it.Body...)
			poisoned = true
		}
	}
	x, err := RunProc(Spec{Path: Bin("burl_backend"), Args: args, Stdin: in})
	if err != nil {
		return err
	}
	if x.Code != 0 || x.Signal != 0 {
		return Errf("%s; stderr: %s", x.Status(), x.Tail())
	}
	rs, err := ParseResponses(x.Stdout)
	if err != nil {
		return Errf("output: %w", err)
	}
	seen := map[string]int{}
	for _, r := range rs {
		seen[string(r.ID)]++
	}
	for id := range required {
		if seen[id] == 0 {
			return Errf("request with id %s before any undecodable frame is not answered", id)
		}
		if seen[id] > 1 && !poisoned {
			return Errf("%d responses with id %s", seen[id], id)
		}
	}
	if !poisoned && len(rs) != len(required) {
		return Errf("%d responses to %d requests", len(rs), len(required))
	}
	if poisoned {
		e.Label("undecodable")
	}
	if c.Log == "file" {
		e.Label("log-file")
	}
	e.Nontrivial(poisoned || answered > 0)
	return nil
}

func TestHostile(t *testing.T) {
	Check(t, Prop[hostile]{Name: "hostile", Gen: gen, Run: run})
}
