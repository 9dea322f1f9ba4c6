package c04

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/rpc"
	"net/rpc/jsonrpc"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

var handlers = []string{"T.A", "T.B", "S.A", "S.Other"}

type codecCase struct {
	Map   map[string]string `json:"map"`
	Names []string          `json:"names"`
}

func drawName(t *rapid.T) string {
	switch Pick(t, "name-kind", 4, 2, 2) {
	case 0:
		return rapid.SampledFrom([]string{"hello", "x.hello", "y.hello", "visit", "a.b.c", "", ".", "T", "T.", ".A", "A", "T.A", "T.B", "S.A", "S.Other", "T.a", "имя", "a b", "\"q\"", "T.A ", " T.A", "unknown.T.A", "unknown"}).Draw(t, "name")
	case 1:
		return rapid.StringMatching(`[a-cT.]{0,5}`).Draw(t, "name")
	}
	return rapid.String().Draw(t, "name")
}

func genCodec(t *rapid.T) codecCase {
	c := codecCase{Map: map[string]string{}}
	n := rapid.IntRange(0, 6).Draw(t, "map")
	var keys []string
	for i := 0; i < n; i++ {
		k := drawName(t)
		if _, dup := c.Map[k]; !dup {
			keys = append(keys, k)
		}
		c.Map[k] = rapid.SampledFrom(handlers).Draw(t, "handler")
	}
	m := rapid.IntRange(1, 12).Draw(t, "names")
	for i := 0; i < m; i++ {
		if len(keys) > 0 && Pick(t, "published", 1, 1) == 1 {
			c.Names = append(c.Names, rapid.SampledFrom(keys).Draw(t, "key"))
		} else if len(keys) > 0 && Pick(t, "mutate", 2, 1) == 1 {
			k := rapid.SampledFrom(keys).Draw(t, "key")
			c.Names = append(c.Names, mutateEnvelope(t, k))
		} else {
			c.Names = append(c.Names, drawName(t))
		}
	}
	return c
}

// Mutate makes a name similar to a given one.
func mutateEnvelope(t *rapid.T, k string) string {
	switch rapid.IntRange(0, 6).Draw(t, "mutation") {
	case 0:
		return strings.ToUpper(k)
	case 1:
		return k + "."
	case 2:
		return " " + k
	case 3:
		return strings.TrimPrefix(k, "linkremark.")
	case 4:
		return "burl." + k
	case 5:
		if len(k) > 0 {
			return strings.ToValidUTF8(k[:len(k)-1], "")
		}
	}
	return k + "\x00"
}

type recorder struct {
	mu  sync.Mutex
	ran []string
}

func (r *recorder) add(h string, n int) {
	r.mu.Lock()
	r.ran = append(r.ran, fmt.Sprint(h, " ", n))
	r.mu.Unlock()
}

type serviceT struct{ r *recorder }

func (s *serviceT) A(n int, out *string) error { s.r.add("T.A", n); *out = "T.A"; return nil }
func (s *serviceT) B(n int, out *string) error { s.r.add("T.B", n); *out = "T.B"; return nil }

type serviceS struct{ r *recorder }

func (s *serviceS) A(n int, out *string) error { s.r.add("S.A", n); *out = "S.A"; return nil }
func (s *serviceS) Other(n int, out *string) error {
	s.r.add("S.Other", n)
	*out = "S.Other"
	return nil
}

func runCodec(e *Env, c codecCase) error {
	var in []byte
	for i, n := range c.Names {
		in = append(in, Frame(Request(i, n, i))...)
	}
	sink := &Sink{FailAt: -1}
	rec := &recorder{}
	srv := rpc.NewServer()
	srv.RegisterName("T", &serviceT{rec})
	srv.RegisterName("S", &serviceS{rec})
	done := make(chan struct{})
	go func() {
		defer close(done)
		srv.ServeCodec(webextensions.NewServerCodecSplit(&ChunkReader{R: bytes.NewReader(in)}, sink,
			webextensions.MappedServerCodecFactory(c.Map, jsonrpc.NewServerCodec)))
	}()
	select {
	case <-done:
	case <-time.After(HangLimit):
		return Hang("serve loop")
	}
	rs, err := ParseResponses(sink.B)
	if err != nil {
		return err
	}
	by := map[string]*Response{}
	for _, r := range rs {
		if by[string(r.ID)] != nil {
			return Errf("two responses with id %s", r.ID)
		}
		by[string(r.ID)] = r
	}
	var want []string
	unknown := 0
	for i, n := range c.Names {
		// What the server sees as the name.
		var name string
		b, _ := json.Marshal(n)
		json.Unmarshal(b, &name)
		h, ok := c.Map[name]
		r := by[fmt.Sprint(i)]
		if r == nil {
			return Errf("request %d, method %q: no response", i, n)
		}
		if ok {
			want = append(want, fmt.Sprint(h, " ", i))
			if r.Failed() || string(r.Result) != Quoted(h) {
				return Errf("method %q is mapped to %s: result %s, error %s", n, h, r.Result, r.Error)
			}
		} else {
			unknown++
			if !r.Failed() || r.ErrText() == "" {
				return Errf("method %q is not mapped: result %s, error %s", n, r.Result, r.Error)
			}
		}
	}
	if len(rs) != len(c.Names) {
		return Errf("%d responses to %d requests", len(rs), len(c.Names))
	}
	sort.Strings(want)
	sort.Strings(rec.ran)
	if strings.Join(want, ",") != strings.Join(rec.ran, ",") {
		return Errf("handlers run: %q, expected %q", rec.ran, want)
	}
	e.Nontrivial(len(want) > 0 && unknown > 0)
	return nil
}

func TestCodec(t *testing.T) {
	Check(t, Prop[codecCase]{Name: "codec", Gen: genCodec, Run: runCodec})
}

// The method table of the backend.
var published = map[string][]string{
	"hello":       {"hello", "linkremark.hello", "burl.hello"},
	"capture":     {"capture", "linkremark.capture", "burl.capture"},
	"visit":       {"linkremark.visit", "burl.visit"},
	"urlMentions": {"linkremark.urlMentions", "burl.urlMentions"},
	"linkSet":     {"linkremark.linkSet", "burl.linkSet"},
}

var operations = []string{"hello", "capture", "visit", "urlMentions", "linkSet"}

// Names that are not published.
var internal = []string{"Burl.Hello", "Burl.Capture", "Burl.Visit", "Burl.UrlMentions", "Burl.LinkSet", "Burl.Search",
	"burl.search", "linkremark.search", "search", "burl.Search", "Burl.NewBurlBackendPtr", "visit", "urlMentions", "linkSet",
	"", ".", "burl.", ".hello", "unknown.Burl.Visit", "unknown.hello", "Hello", "HELLO", "burl.Hello", "linkremark.Visit",
	"burl.hello.", "hello ", "rpc.discover", "Burl", "burl", "BurlBackend.Visit", "burl.visit\x00", "linkremark.мир", "linkremark.\"visit\""}

type step struct {
	Op    string `json:"op"` // operation which parameters are used
	Good  bool   `json:"good"`
	Name  string `json:"name,omitempty"`
	Param int    `json:"param"`
}

type backendCase struct {
	Steps []step `json:"steps"`
}

func genBackend(t *rapid.T) backendCase {
	c := backendCase{}
	n := rapid.IntRange(1, 15).Draw(t, "n")
	all := map[string]bool{}
	for _, l := range published {
		for _, x := range l {
			all[x] = true
		}
	}
	for i := 0; i < n; i++ {
		s := step{Op: rapid.SampledFrom(operations).Draw(t, "op"), Param: rapid.IntRange(0, 3).Draw(t, "param")}
		s.Good = Pick(t, "good", 1, 1) == 0
		if !s.Good {
			switch Pick(t, "bad", 3, 2, 1) {
			case 0:
				s.Name = rapid.SampledFrom(internal).Draw(t, "internal")
			case 1:
				s.Name = mutateEnvelope(t, rapid.SampledFrom(published[s.Op]).Draw(t, "alias"))
			case 2:
				s.Name = drawName(t)
			}
			var name string
			b, _ := json.Marshal(s.Name)
			json.Unmarshal(b, &name)
			if all[name] {
				s.Good = true
				s.Name = ""
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func param(op string, k int, file string) interface{} {
	switch op {
	case "hello":
		return map[string]interface{}{"formats": []interface{}{map[string]string{"format": "org-protocol", "version": fmt.Sprint("0.", k)}}}
	case "capture":
		if k == 3 {
			return map[string]interface{}{"format": "object"}
		}
		return map[string]interface{}{"format": "org-protocol", "data": map[string]string{"url": fmt.Sprint("org-protocol:/c?", k)}}
	case "visit":
		if k == 3 {
			return map[string]interface{}{"file": "/etc/passwd"}
		}
		return map[string]interface{}{"file": file, "lineNo": k}
	case "urlMentions":
		return map[string]interface{}{"variants": []string{fmt.Sprint("http://example.org/", k)}, "options": map[string]int{"countLimit": 5}}
	}
	return map[string]interface{}{"prefix": []string{fmt.Sprint("http://example.org/", k)}}
}

func runBackend(e *Env, c backendCase) error {
	dir := e.Scratch()
	stub := e.NewStub()
	file := filepath.Join(dir, "a.org")
	e.Write("a.org", []byte("* H\n[[http://example.org/0]] http://example.org/1\n** I\n<http://example.org/2> http://example.org/3\n"))
	s := StartSession(Spec{Path: Bin("burl_backend"), Args: []string{"-emacsclient", Bin("stub"), file}, Env: []string{stub.Env()}})
	defer s.Kill()
	unpublished := 0
	for i, st := range c.Steps {
		p := param(st.Op, st.Param, file)
		if !st.Good {
			unpublished++
			stub.Reset()
			r, err := s.Call(st.Name, p)
			if err != nil {
				return Errf("step %d: %w", i, err)
			}
			if !r.Failed() || r.ErrText() == "" {
				return Errf("step %d: method %q is not published: result %s error %s", i, st.Name, Short(r.Result), r.Error)
			}
			if calls := stub.Calls(); len(calls) > 0 {
				return Errf("step %d: method %q is not published but runs %q", i, st.Name, calls)
			}
			continue
		}
		first := ""
		for _, alias := range published[st.Op] {
			stub.Reset()
			r, err := s.Call(alias, p)
			if err != nil {
				return Errf("step %d: %w", i, err)
			}
			var set struct{ Urls []string }
			got := string(r.Result)
			if Unmarshal(r.Result, &set) == nil && set.Urls != nil {
				sort.Strings(set.Urls)
				got = Quote(set)
			}
			got = fmt.Sprintf("%s error %s, commands %q", got, r.Error, stub.Calls())
			wantFail := st.Param == 3 && (st.Op == "capture" || st.Op == "visit")
			if r.Failed() != wantFail {
				return Errf("step %d: %s %s: error %s", i, alias, Quote(p), r.Error)
			}
			// The result belongs to the operation.
			mark := map[string]string{"hello": `"capabilities"`, "capture": `"status"`, "visit": "true", "urlMentions": `"_type":"File`, "linkSet": `urls`}[st.Op]
			if !wantFail && !strings.Contains(string(r.Result), mark) {
				return Errf("step %d: %s %s: result %s", i, alias, Quote(p), Short(r.Result))
			}
			if first == "" {
				first = got
			} else if got != first {
				return Errf("step %d: %s gives %s, %s gives %s", i, published[st.Op][0], first, alias, got)
			}
		}
	}
	e.Nontrivial(unpublished > 0 && unpublished < len(c.Steps))
	return s.CloseClean()
}

func TestBackend(t *testing.T) {
	Check(t, Prop[backendCase]{Name: "backend", Weight: 0.3, Gen: genBackend, Run: runBackend})
}
