package c13

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type capture struct {
	Alias  string          `json:"alias"`
	Format string          `json:"format"`
	NoFmt  bool            `json:"noFormat,omitempty"`
	URL    string          `json:"url"`
	Error  json.RawMessage `json:"error,omitempty"` // absent if empty
	Body   json.RawMessage `json:"body,omitempty"`
	NoData bool            `json:"noData,omitempty"`
	Plan   []StubOutcome   `json:"plan"`
}

type history struct {
	Emacs    []string  `json:"emacs"`
	Files    bool      `json:"files"`
	Absent   bool      `json:"absent"` // no client command
	Captures []capture `json:"captures"`
}

func genURL(t *rapid.T) string {
	if Rare(t, "long url", 60) {
		// The limit of one argument of a command is 128 KiB.
		n := rapid.SampledFrom([]int{1000, 2048, 4096, 8192, 32768, 65536, 100000, 131000}).Draw(t, "url-n") + rapid.IntRange(-20, 20).Draw(t, "delta")
		return "org-protocol:/capture?body=" + strings.Repeat("b", n) + "z"
	}
	switch Pick(t, "url", 5, 2, 3) {
	case 0:
		return "org-protocol:/capture?template=" + rapid.SampledFrom([]string{"x", "é", "%20", "a b", "'quote'", "\"dq\"", "$(touch x)", "`id`", "\\", "日本", "a\nb", "(eval)", "", "-n", "--eval", "<>&|;"}).Draw(t, "tmpl") +
			rapid.SampledFrom([]string{"", "&url=https%3A%2F%2Fexample.org", "&body=" + strings.Repeat("long ", 200), "#"}).Draw(t, "tail")
	case 1:
		return "org-protocol:" + rapid.StringN(0, 20, 60).Draw(t, "rest")
	}
	return rapid.SampledFrom([]string{"", "org-protocol", "Org-Protocol:/x", "ORG-PROTOCOL:/x", " org-protocol:/x", "\torg-protocol:/x", "https://example.org/", "file:///etc/passwd", "/etc/passwd", "--eval", "(kill-emacs)", "x-org-protocol:/x", "org-protocol/:", "-org-protocol:x", "org-protocol;x", "org-protoco:", "a.org", "+1", "\norg-protocol:/x", "https://e.org/org-protocol:/x"}).Draw(t, "badurl")
}

func gen(t *rapid.T) history {
	c := history{Files: Pick(t, "files", 1, 1) == 1}
	c.Absent = Pick(t, "absent", 12, 1) == 1
	k := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 9}).Draw(t, "userargs")
	for i := 0; i < k; i++ {
		c.Emacs = append(c.Emacs, rapid.SampledFrom([]string{"--socket-name=/tmp/s", "-n", "--eval", "a b", "é'\"", "+7", "--", "-c", "$HOME", "org-protocol:/fake"}).Draw(t, "arg"))
	}
	if Rare(t, "many args", 100) {
		for n := rapid.IntRange(10, 300).Draw(t, "args-n"); n > 0; n-- {
			c.Emacs = append(c.Emacs, fmt.Sprintf("--arg%d", n))
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "captures")
	for i := 0; i < n; i++ {
		v := capture{Alias: rapid.SampledFrom([]string{"linkremark.capture", "burl.capture", "capture"}).Draw(t, "alias")}
		v.Format = "org-protocol"
		switch Pick(t, "format", 8, 1, 1) {
		case 1:
			v.Format = rapid.SampledFrom([]string{"", "org", "object", "Org-Protocol", "org-protocol ", "org-protocol\n", "org"}).Draw(t, "badformat")
		case 2:
			v.NoFmt = true
			v.Format = ""
		}
		v.URL = strings.ToValidUTF8(genURL(t), "?")
		if Pick(t, "error", 7, 1, 2) == 1 {
			v.Error = json.RawMessage("null")
		} else if Pick(t, "error2", 7, 2) == 1 {
			v.Error = json.RawMessage(rapid.SampledFrom([]string{`"text"`, `""`, `false`, `true`, `0`, `{}`, `[]`, `{"message":"x"}`, `1.5`}).Draw(t, "errval"))
		}
		if Pick(t, "body", 2, 1) == 1 {
			v.Body = json.RawMessage(rapid.SampledFrom([]string{`"text"`, `null`, `{"a":[1]}`, `12`, `"org-protocol:/other"`}).Draw(t, "bodyval"))
		}
		v.NoData = Pick(t, "nodata", 20, 1) == 1
		nf := rapid.IntRange(0, 3).Draw(t, "planned")
		for j := 0; j < nf; j++ {
			o := StubOutcome{Out: rapid.SampledFrom([]string{"org-protocol\n", "org-protocol\n", "org-protocol\n", "org-protocol", "nil\n", "", " org-protocol", "Org-protocol"}).Draw(t, "out")}
			if Pick(t, "fail", 4, 1) == 1 {
				o.Exit = rapid.SampledFrom([]int{1, 2, 9, 127, 255}).Draw(t, "exit")
				o.Err = rapid.SampledFrom([]string{"", "emacsclient: error\n", "*ERROR*: \"quoted\" é"}).Draw(t, "err")
			}
			if Pick(t, "noserver", 6, 1) == 1 {
				o = StubOutcome{Exit: 9, NoServer: true}
			}
			if Rare(t, "chatty", 25) {
				o.OutN = rapid.SampledFrom([]int{0, 100, 5000, 70000, 300000}).Draw(t, "out-n")
				o.ErrN = rapid.SampledFrom([]int{0, 100, 5000, 70000, 300000}).Draw(t, "err-n")
			}
			v.Plan = append(v.Plan, o)
		}
		c.Captures = append(c.Captures, v)
	}
	return c
}

func run(e *Env, c history) error {
	stub := e.NewStub()
	cmd := filepath.Join(e.Scratch(), "client")
	if !c.Absent {
		os.Symlink(Bin("stub"), cmd)
	}
	spec := Spec{Path: Bin("burl_backend"), Env: append(EmacsEnv(e.Scratch()), stub.Env(), stub.AltEditor(c.Emacs)), Args: []string{"-emacsclient=" + cmd}}
	for _, a := range c.Emacs {
		spec.Args = append(spec.Args, "-emacsarg="+a)
	}
	if c.Files {
		spec.Args = append(spec.Args, "-org", e.Write("a.org", []byte("* A\n")))
	}
	s := StartSession(spec)
	defer s.Kill()
	for i, v := range c.Captures {
		stub.Reset()
		stub.SetPlan(StubPlan{Calls: v.Plan})
		param := map[string]interface{}{"version": "0.2"}
		if !v.NoFmt {
			param["format"] = v.Format
		}
		url := v.URL
		if v.NoData {
			url = ""
		} else {
			data := map[string]interface{}{"url": v.URL, "title": "org-protocol:/title"}
			if len(v.Body) > 0 {
				data["body"] = v.Body
			}
			param["data"] = data
		}
		if len(v.Error) > 0 {
			param["error"] = v.Error
		}
		r, err := s.Call(v.Alias, param)
		if err != nil {
			return err
		}
		calls := stub.Calls()
		where := fmt.Sprintf("capture %d %s (plan %s)", i, Quote(param), Quote(v.Plan))
		if v.Format != "org-protocol" {
			e.Label("bad-format")
			if !r.Failed() || len(calls) != 0 {
				return Errf("%s: should be refused: reply %s, commands %q", where, r.Result, calls)
			}
			continue
		}
		var reply struct {
			Preview *bool
			Status  string
		}
		if !r.Failed() {
			if err := Unmarshal(r.Result, &reply); err != nil {
				return err
			}
		}
		if len(v.Error) > 0 && string(v.Error) != "null" {
			e.Label("preview")
			if r.Failed() || reply.Status != "preview" || reply.Preview == nil || !*reply.Preview || len(calls) != 0 {
				return Errf("%s: should be just a preview: reply %s, error %s, commands %q", where, r.Result, r.ErrText(), calls)
			}
			continue
		}
		if !strings.HasPrefix(url, "org-protocol:") {
			e.Label("bad-url")
			if !r.Failed() || len(calls) != 0 {
				return Errf("%s: URL should be refused: reply %s, commands %q", where, r.Result, calls)
			}
			continue
		}
		if strings.Contains(url, "\x00") {
			// Can not be an argument of a command.
			if !r.Failed() {
				return Errf("%s: URL with NUL should be refused: reply %s", where, r.Result)
			}
			continue
		}
		if c.Absent {
			e.Label("no-client")
			if !r.Failed() {
				return Errf("%s: the client is not available, reply is %s", where, r.Result)
			}
			continue
		}
		outcome := func(n int) StubOutcome {
			if n < len(v.Plan) {
				return v.Plan[n]
			}
			return StubOutcome{Out: "org-protocol\n"}
		}
		bad := -1
		for n := 0; n < 3; n++ {
			o := outcome(n)
			if o.Exit != 0 || n == 0 && !strings.HasPrefix(o.Out+o.Err, "org-protocol") {
				bad = n
				break
			}
		}
		want := 3
		if bad >= 0 {
			want = bad + 1
		}
		if len(calls) != want {
			return Errf("%s: %d commands instead of %d: %q", where, len(calls), want, calls)
		}
		if err := stub.CheckWhere("", EmacsEnv(e.Scratch())); err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
		nu := len(c.Emacs)
		var common []string
		for n, call := range calls {
			a := call[1:]
			if len(a) < nu || !reflect.DeepEqual(append([]string{}, a[:nu]...), append([]string{}, c.Emacs...)) {
				return Errf("%s: user's arguments are not passed: %q", where, a)
			}
			switch n {
			case 0:
				if len(a) < nu+2 || a[len(a)-2] != "--eval" || !strings.Contains(a[len(a)-1], "org-protocol") {
					return Errf("%s: first command does not check org-protocol: %q", where, a)
				}
				common = a[:len(a)-2]
				for _, x := range common[nu:] {
					if x == url || x == "--eval" {
						return Errf("%s: unexpected argument of the first command: %q", where, a)
					}
				}
			case 1:
				if len(a) != len(common)+2 || a[len(a)-2] != "--eval" || !strings.Contains(a[len(a)-1], "frame") ||
					!reflect.DeepEqual(a[:len(common)], common) {
					return Errf("%s: second command does not ensure a frame: %q", where, a)
				}
			case 2:
				if !reflect.DeepEqual(a, append(append([]string{}, common...), url)) {
					return Errf("%s: URL is not handed over as the only extra argument: %q", where, a)
				}
			}
		}
		if bad < 0 {
			e.Label("success")
			if r.Failed() || reply.Status != "success" || reply.Preview == nil || *reply.Preview {
				return Errf("%s: all commands succeeded: reply %s, error %s", where, r.Result, r.ErrText())
			}
		} else {
			e.Label(fmt.Sprintf("failure-of-command-%d", bad+1))
			if !r.Failed() {
				return Errf("%s: command %d failed, reply is %s", where, bad+1, r.Result)
			}
			if x := stub.Started(); x != "" {
				return Errf("%s: no server, %s is started by %q", where, x, calls)
			}
			if outcome(bad).NoServer {
				e.Label("no-server")
			}
			if outcome(bad).NoServer && DashDash(c.Emacs) {
				// All following arguments are files for the client.
				continue
			}
			if (outcome(bad).Exit == 9) != strings.Contains(r.ErrText(), "server is not running") {
				return Errf("%s: exit status %d, error is %q", where, outcome(bad).Exit, r.ErrText())
			}
		}
	}
	return s.CloseClean()
}

func TestCapture(t *testing.T) {
	Check(t, Prop[history]{Name: "capture", Gen: gen, Run: run})
}

func TestSlow(t *testing.T) {
	Check(t, Prop[SlowCase]{Name: "slow", Weight: 0.0005, Gen: func(t *rapid.T) SlowCase { return DrawSlow(t, []string{"capture"}, false) }, Run: RunSlow})
}
