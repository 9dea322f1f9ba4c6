package c14

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type request struct {
	Kind  string   `json:"k"` // hello mentions set visit capture
	Strs  []string `json:"s,omitempty"`
	Limit *int     `json:"limit,omitempty"`
	File  int      `json:"file,omitempty"`
	Line  int      `json:"line,omitempty"`
	Fail  bool     `json:"fail,omitempty"`
}

type burst struct {
	Files    Files     `json:"files"`
	Emacs    []string  `json:"emacs"`
	Sleep    bool      `json:"sleep"` // client commands take some time
	Requests []request `json:"requests"`
	Schemes  []string  `json:"schemes,omitempty"`
}

func gen(t *rapid.T) burst {
	c := burst{}
	bases := DrawBases(t, false)
	c.Files = DrawFiles(t, DocOpts{Bases: bases, MaxLines: 30}, 1, 3, "mixed")
	k := rapid.IntRange(0, 9).Draw(t, "userargs")
	for i := 0; i < k; i++ {
		c.Emacs = append(c.Emacs, fmt.Sprintf("--user%d", i))
	}
	c.Sleep = Pick(t, "sleep", 3, 1) == 1
	if Pick(t, "scheme", 3, 1) == 1 {
		c.Schemes = []string{"ftp"}
	}
	n := rapid.IntRange(2, 40).Draw(t, "n")
	// A few different requests are repeated many times, or all different.
	focus := Pick(t, "focus", 2, 1, 1, 1)
	for i := 0; i < n; i++ {
		r := request{}
		kind := Pick(t, "kind", 2, 4, 3, 3, 3)
		switch focus {
		case 1:
			kind = 3 + kind%2
		case 2:
			kind = 1 + kind%2
		case 3:
			kind = 4
		}
		switch kind {
		case 0:
			r.Kind, r.Strs = "hello", []string{rapid.SampledFrom([]string{"0.1", "0.2", "0.3", ""}).Draw(t, "version")}
		case 1:
			r.Kind = "mentions"
			r.Strs = []string{DrawURL(t, bases, "txt")}
			if Pick(t, "limited", 1, 1) == 1 {
				r.Limit = Ptr(rapid.IntRange(0, 12).Draw(t, "limit"))
			}
		case 2:
			r.Kind, r.Strs = "set", []string{rapid.SampledFrom([]string{"http", "https", "mid", "https://example.org/a", "1bad"}).Draw(t, "prefix")}
		case 3:
			r.Kind = "visit"
			r.File = rapid.IntRange(-1, len(c.Files)-1).Draw(t, "file")
			r.Line = rapid.IntRange(0, 5).Draw(t, "line")
		case 4:
			r.Kind = "capture"
			r.Strs = []string{fmt.Sprintf("org-protocol:/capture?n=%d", rapid.IntRange(0, 20).Draw(t, "uri"))}
			if Pick(t, "bad", 8, 1) == 1 {
				r.Strs[0] = "http://example.org/"
			}
		}
		c.Requests = append(c.Requests, r)
	}
	return c
}

func (r request) frame(id int, names []string) []byte {
	switch r.Kind {
	case "hello":
		return Request(id, "linkremark.hello", map[string]interface{}{"version": "0.2",
			"formats": []interface{}{map[string]string{"format": "org-protocol", "version": r.Strs[0]}}})
	case "mentions":
		return MentionsRequest(id, r.Strs, r.Limit)
	case "set":
		return Request(id, "linkremark.linkSet", map[string]interface{}{"prefix": r.Strs})
	case "visit":
		f := "/etc/passwd"
		if r.File >= 0 {
			f = names[r.File]
		}
		return Request(id, "linkremark.visit", map[string]interface{}{"file": f, "lineNo": r.Line})
	}
	return Request(id, "linkremark.capture", map[string]interface{}{"format": "org-protocol", "version": "0.2", "data": map[string]string{"url": r.Strs[0]}})
}

// canon makes the replies comparable: link sets have no order.
func canon(r *Response) string {
	if r.Failed() {
		return "error " + r.ErrText()
	}
	var s struct{ Urls []string }
	if Unmarshal(r.Result, &s) == nil && s.Urls != nil {
		sort.Strings(s.Urls)
		return Quote(s.Urls)
	}
	return string(r.Result)
}

func key(b []byte) string {
	// The request without its id.
	var m map[string]json.RawMessage
	json.Unmarshal(b, &m)
	return string(m["method"]) + string(m["params"])
}

func run(e *Env, c burst) error {
	dir := e.Scratch()
	args, _ := c.Files.Install(e)
	var names []string
	for i := range c.Files {
		names = append(names, filepath.Join(dir, c.Files.Name(i)))
	}
	cmd := filepath.Join(dir, "client")
	os.Symlink(Bin("stub"), cmd)
	args = append(args, "-emacsclient", cmd)
	for _, s := range c.Schemes {
		args = append(args, "-scheme", s)
	}
	for _, a := range c.Emacs {
		args = append(args, "-emacsarg", a)
	}
	// Each request alone.
	stub := e.NewStub()
	alone := map[string]string{}
	aloneCalls := map[string][]string{}
	var frames [][]byte
	var expectedCalls []string
	for i, r := range c.Requests {
		f := r.frame(i, names)
		frames = append(frames, f)
		k := key(f)
		if _, ok := alone[k]; !ok {
			stub.Reset()
			rs, _, err := RunFrames(Spec{Path: Bin("burl_backend"), Args: args, Env: []string{stub.Env()}}, [][]byte{f})
			if err != nil {
				return Errf("alone: %w", err)
			}
			resp := rs[fmt.Sprint(i)]
			if resp == nil {
				return Errf("alone: no response to %s", f)
			}
			alone[k] = canon(resp)
			for _, a := range stub.Calls() {
				aloneCalls[k] = append(aloneCalls[k], strings.Join(a[1:], "\x00"))
			}
			switch r.Kind {
			case "capture":
				if ok := strings.HasPrefix(r.Strs[0], "org-protocol:"); ok != (len(aloneCalls[k]) == 3) {
					return Errf("alone: unexpected commands %q for %s", aloneCalls[k], f)
				}
			case "visit":
				if ok := r.File >= 0; ok != (len(aloneCalls[k]) == 2) {
					return Errf("alone: unexpected commands %q for %s", aloneCalls[k], f)
				}
			}
		}
		expectedCalls = append(expectedCalls, aloneCalls[k]...)
	}
	sort.Strings(expectedCalls)
	if c.Sleep {
		plan := StubPlan{ByArg: map[string]StubOutcome{}}
		for _, r := range c.Requests {
			if r.Kind == "capture" {
				plan.ByArg[r.Strs[0]] = StubOutcome{Sleep: 3, Out: "org-protocol"}
			}
		}
		stub.SetPlan(plan)
	}
	for _, bin := range []string{"burl_backend", "burl_backend_race"} {
		stub.Reset()
		rs, x, err := RunFrames(Spec{Path: Bin(bin), Args: args,
			Env: []string{stub.Env(), "GORACE=halt_on_error=1 exitcode=66"}}, frames)
		if x != nil && strings.Contains(string(x.Stderr), "WARNING: DATA RACE") {
			s := string(x.Stderr)
			if i := strings.Index(s, "WARNING: DATA RACE"); len(s) > i+1500 {
				s = s[i : i+1500]
			}
			return Errf("data race: %s", s)
		}
		if err != nil {
			return Errf("%s: %w", bin, err)
		}
		for i, f := range frames {
			r := rs[fmt.Sprint(i)]
			if r == nil {
				return Errf("%s: no response to %s", bin, f)
			}
			if got := canon(r); got != alone[key(f)] {
				return Errf("%s: concurrent reply to %s is %s, alone it is %s", bin, f, got, alone[key(f)])
			}
		}
		if len(rs) != len(frames) {
			return Errf("%s: %d responses to %d requests", bin, len(rs), len(frames))
		}
		var calls []string
		for _, a := range stub.Calls() {
			calls = append(calls, strings.Join(a[1:], "\x00"))
		}
		sort.Strings(calls)
		if strings.Join(calls, "\n") != strings.Join(expectedCalls, "\n") {
			return Errf("%s: commands run %q, expected %q", bin, calls, expectedCalls)
		}
	}
	e.Nontrivial(len(frames) > 1)
	if len(expectedCalls) > 0 {
		e.Label("runs-commands")
	}
	return nil
}

func TestBurst(t *testing.T) {
	Check(t, Prop[burst]{Name: "burst", Gen: gen, Run: run})
}
