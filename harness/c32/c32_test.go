package c32

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

//go:embed runner.js
var runnerSource []byte

func TestMain(m *testing.M) { MainOf(m) }

type node struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
}

var current *node

// ask passes a case to the runner.
func ask(c, reply interface{}) error {
	if current == nil {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "runner-*.js")
		if err != nil {
			Infra("%v", err)
		}
		f.Write(runnerSource)
		f.Close()
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		n := &node{cmd: exec.Command("node", f.Name(), filepath.Join(repo, "examples", "webextensions_addon")), lines: make(chan []byte, 10)}
		n.cmd.Stderr = os.Stderr
		n.in, _ = n.cmd.StdinPipe()
		out, _ := n.cmd.StdoutPipe()
		if err := n.cmd.Start(); err != nil {
			Infra("node: %v", err)
		}
		go func() {
			r := bufio.NewReaderSize(out, 1<<16)
			for {
				l, err := r.ReadBytes('\n')
				if err != nil {
					close(n.lines)
					return
				}
				n.lines <- l
			}
		}()
		current = n
	}
	b, err := json.Marshal(c)
	if err != nil {
		Infra("%v", err)
	}
	current.in.Write(append(b, '\n'))
	select {
	case l, ok := <-current.lines:
		if !ok {
			Infra("node has ended")
		}
		var fatal struct{ Fatal string }
		if json.Unmarshal(l, &fatal) == nil && fatal.Fatal != "" {
			return Errf("the add-on fails: %s", fatal.Fatal)
		}
		if err := json.Unmarshal(l, reply); err != nil {
			Infra("runner: %v: %s", err, Short(l))
		}
		return nil
	case <-time.After(HangLimit):
		current.cmd.Process.Kill()
		current = nil
		return Hang("calls are not settled")
	}
}

type state struct {
	State   string          `json:"state"`
	Value   json.RawMessage `json:"value"`
	Message string          `json:"message"`
}

// --- The client with a stand-in of the application

type op struct {
	Op          string          `json:"op"` // call, reply, raw, disconnect
	Sync        bool            `json:"sync,omitempty"`
	Method      string          `json:"method"`
	Arg         json.RawMessage `json:"arg,omitempty"`
	FailPost    *string         `json:"failPost,omitempty"`
	FailConnect *string         `json:"failConnect,omitempty"`
	To          int             `json:"to"`
	Result      json.RawMessage `json:"result,omitempty"`
	Error       json.RawMessage `json:"error,omitempty"`
	Message     json.RawMessage `json:"message,omitempty"`
}

func str(s string) *string { return &s }

type clientCase struct {
	Kind  string `json:"kind"`
	Debug bool   `json:"debug"`
	Ops   []op   `json:"ops"`
}

var values = []string{`0`, `false`, `""`, `[]`, `{}`, `1`, `-1.5`, `true`, `"text"`, `"й🙂"`, `{"urls":[]}`, `{"error":"x","result":0,"id":0}`, `[0]`, `1e300`, `[[null]]`}

func genClient(t *rapid.T) clientCase {
	c := clientCase{Kind: "model", Debug: rapid.Bool().Draw(t, "debug")}
	n := rapid.IntRange(1, 25).Draw(t, "ops")
	posted := 0
	for i := 0; i < n; i++ {
		o := op{Sync: Pick(t, "sync", 2, 1) == 1}
		switch Pick(t, "op", 5, 6, 2, 1) {
		case 0:
			o.Op = "call"
			o.Method = rapid.SampledFrom([]string{"hello", "example.Sqrt", "", "toString"}).Draw(t, "method")
			o.Arg = json.RawMessage(rapid.SampledFrom(values).Draw(t, "arg"))
			switch Pick(t, "fail", 10, 1, 1) {
			case 1:
				o.FailPost = str("can not clone")
			case 2:
				o.FailConnect = str("no such application")
			}
			posted++
		case 1:
			o.Op = "reply"
			if posted > 0 {
				o.To = rapid.IntRange(0, posted-1).Draw(t, "to")
			}
			switch Pick(t, "kind", 5, 3, 1, 1) {
			case 0:
				o.Result = json.RawMessage(rapid.SampledFrom(values).Draw(t, "result"))
				if rapid.Bool().Draw(t, "explicit") {
					o.Error = json.RawMessage(`null`)
				}
			case 1:
				o.Error = json.RawMessage(Quote(rapid.SampledFrom([]string{"failure", "e", "0", "ошибка", " "}).Draw(t, "error")))
				if rapid.Bool().Draw(t, "explicit") {
					o.Result = json.RawMessage(`null`)
				}
			case 2:
				// Not specified: null as a result
				o.Result = json.RawMessage(`null`)
				o.Error = json.RawMessage(`null`)
			}
		case 2:
			o.Op = "raw"
			o.Message = json.RawMessage(rapid.SampledFrom([]string{`null`, `{}`, `{"id":null,"result":1}`, `{"id":1000000,"result":1}`, `{"id":-1,"error":"x"}`, `{"id":"0","result":1}`, `{"id":[0],"result":1}`, `"text"`, `0`, `[]`, `{"result":1}`, `{"id":true,"error":"x"}`, `{"id":0.5,"result":1}`}).Draw(t, "message"))
		case 3:
			o.Op = "disconnect"
			if rapid.Bool().Draw(t, "with-error") {
				s := rapid.SampledFrom([]string{"crashed", "No such native application"}).Draw(t, "reason")
				o.Error = json.RawMessage(Quote(s))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func same(a, b json.RawMessage) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// falsy results are known to be rejected.
const falsyFinding = "the RPC client of the example add-on rejects replies whose result is 0, false or an empty string as invalid"

func falsy(v json.RawMessage) bool {
	var x interface{}
	if json.Unmarshal(v, &x) != nil {
		return false
	}
	return x == 0.0 || x == false || x == ""
}

func knownRejection(e *Env, v json.RawMessage, s state) error {
	if !falsy(v) || s.State != "error" || !strings.HasPrefix(s.Message, "invalid RPC response ") {
		return Errf("another failure")
	}
	e.Label("known finding")
	return KnownFinding(falsyFinding)
}

func runClient(e *Env, c clientCase) error {
	var r struct {
		Steps []struct {
			States []state
			Posted int
			Ports  int
		}
		Posted []struct {
			Port int
			Text string
			Live bool
		}
		Final  []state
		Errors []string
	}
	if err := ask(c, &r); err != nil {
		return err
	}
	if len(r.Errors) != 0 {
		return Errf("exceptions in handlers: %q", r.Errors)
	}
	type call struct {
		want    string // pending, ok, error, settled (in some way)
		value   json.RawMessage
		message *string
		port    int
		op      op
	}
	var calls []*call
	var posted []*call
	connected := false
	port := -1
	check := func(where string, got []state) error {
		if len(got) != len(calls) {
			return Errf("%s: %d calls", where, len(got))
		}
		for i, s := range got {
			w := calls[i]
			bad := s.State != w.want
			if w.want == "settled" {
				bad = s.State == "pending"
			} else if !bad && w.want == "ok" {
				bad = !same(s.Value, w.value)
			} else if !bad && w.want == "error" && w.message != nil {
				bad = s.Message != *w.message
			}
			if bad && w.want == "ok" && knownRejection(e, w.value, s) == nil {
				bad = false
			}
			if bad {
				m := "any"
				if w.message != nil {
					m = *w.message
				}
				return Errf("%s: call %d is %s %s %q, expected %s %s %q", where, i, s.State, s.Value, s.Message, w.want, w.value, m)
			}
		}
		return nil
	}
	hits := 0
	for i, o := range c.Ops {
		switch o.Op {
		case "call":
			k := &call{want: "pending", op: o}
			calls = append(calls, k)
			if !connected && o.FailConnect != nil {
				k.want, k.message = "error", o.FailConnect
				e.Label("no-application")
				break
			}
			if !connected {
				connected = true
				port++
			}
			if o.FailPost != nil {
				k.want, k.message = "error", o.FailPost
				e.Label("not-sent")
				break
			}
			k.port = port
			posted = append(posted, k)
		case "reply":
			if o.To >= len(posted) || !connected || posted[o.To].port != port || posted[o.To].want != "pending" {
				break
			}
			k := posted[o.To]
			hits++
			switch {
			case len(o.Error) > 0 && string(o.Error) != "null":
				var m string
				json.Unmarshal(o.Error, &m)
				k.want, k.message = "error", &m
			case len(o.Result) > 0 && string(o.Result) != "null":
				k.want, k.value = "ok", o.Result
			case len(o.Result) > 0:
				k.want = "settled"
			default:
				k.want = "error"
			}
		case "disconnect":
			if !connected {
				break
			}
			connected = false
			var m *string
			if len(o.Error) > 0 {
				m = new(string)
				json.Unmarshal(o.Error, m)
			}
			for _, k := range posted {
				if k.want == "pending" {
					k.want, k.message = "error", m
					e.Label("lost")
				}
			}
		}
		if r.Steps[i].Posted != len(posted) || r.Steps[i].Ports != port+1 {
			return Errf("after op %d: %d messages are sent to %d connections, expected %d and %d", i, r.Steps[i].Posted, r.Steps[i].Ports, len(posted), port+1)
		}
		if !o.Sync {
			if err := check(fmt.Sprintf("after op %d %s", i, Quote(o)), r.Steps[i].States); err != nil {
				return err
			}
		}
	}
	if err := check("at the end", r.Final); err != nil {
		return err
	}
	ids := map[string]bool{}
	for i, p := range r.Posted {
		var m map[string]json.RawMessage
		if err := json.Unmarshal([]byte(p.Text), &m); err != nil {
			return Errf("message %d: %s", i, p.Text)
		}
		id := string(m["id"])
		want := posted[i].op
		if id == "" || id == "null" || ids[id] || !same(m["method"], json.RawMessage(Quote(want.Method))) || !same(m["params"], json.RawMessage("["+string(want.Arg)+"]")) {
			return Errf("message %d is %s, expected %s %s", i, p.Text, want.Method, want.Arg)
		}
		if !p.Live || p.Port != posted[i].port {
			return Errf("message %d is sent to connection %d, expected %d", i, p.Port, posted[i].port)
		}
		ids[id] = true
	}
	e.Nontrivial(hits > 0 && len(posted) > 1)
	return nil
}

func TestClient(t *testing.T) {
	Check(t, Prop[clientCase]{Name: "client", Gen: genClient, Run: runClient})
}

// --- The client with the real backend

type realCall struct {
	Method string      `json:"method"`
	Arg    interface{} `json:"arg"`
}

type round struct {
	Calls []realCall `json:"calls"`
	Kill  bool       `json:"kill,omitempty"`
}

type realCase struct {
	Kind    string   `json:"kind"`
	Command []string `json:"command"`
	Rounds  []round  `json:"rounds"`
}

func genReal(t *rapid.T) realCase {
	c := realCase{Kind: "real"}
	for i := rapid.IntRange(1, 4).Draw(t, "rounds"); i > 0; i-- {
		r := round{Kill: Pick(t, "kill", 4, 1) == 1}
		for j := rapid.IntRange(1, 8).Draw(t, "calls"); j > 0; j-- {
			switch Pick(t, "method", 4, 2, 1) {
			case 0:
				x := rapid.SampledFrom([]float64{0, 1, 2, -2, 4, 0.5, 1e300, 5e-324, -1e-9, 3, 1e15 + 0.5}).Draw(t, "x")
				if Pick(t, "any", 1, 1) == 1 {
					x = rapid.Float64Range(-10, 1e9).Draw(t, "any-x")
				}
				r.Calls = append(r.Calls, realCall{"example.Sqrt", x})
			case 1:
				r.Calls = append(r.Calls, realCall{"example.Sleep", rapid.SampledFrom([]int{0, 1, 2, 5, -3}).Draw(t, "ms")})
			case 2:
				r.Calls = append(r.Calls, realCall{rapid.SampledFrom([]string{"example.None", "none", "Sqrt", ""}).Draw(t, "unknown"), 1})
			}
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

func runReal(e *Env, c realCase) error {
	c.Command = []string{Bin("example_backend")}
	var r struct {
		Rounds [][]state
		Ports  int
		Codes  []*int
	}
	if err := ask(c, &r); err != nil {
		return err
	}
	for i, x := range c.Rounds {
		for j, k := range x.Calls {
			s := r.Rounds[i][j]
			where := fmt.Sprintf("round %d call %d %s(%v): %s %s %q", i, j, k.Method, k.Arg, s.State, s.Value, s.Message)
			if s.State == "pending" {
				return Errf("%s: not settled", where)
			}
			arg, _ := k.Arg.(float64)
			if n, ok := k.Arg.(int); ok {
				arg = float64(n)
			}
			fail := k.Method != "example.Sqrt" && k.Method != "example.Sleep" || k.Method == "example.Sqrt" && arg < 0
			if s.State == "error" && x.Kill {
				e.Label("killed")
				continue
			}
			if s.State == "error" && !fail {
				want := arg
				if k.Method == "example.Sqrt" {
					want = math.Sqrt(arg)
				}
				if v, _ := json.Marshal(want); knownRejection(e, v, s) == nil {
					continue
				}
			}
			if (s.State == "error") != fail {
				return Errf("%s: wrong outcome", where)
			}
			if fail {
				if k.Method == "example.Sqrt" && s.Message != "square root of negative number" {
					return Errf("%s: wrong error", where)
				}
				continue
			}
			var got float64
			if json.Unmarshal(s.Value, &got) != nil {
				return Errf("%s: not a number", where)
			}
			want := arg
			if k.Method == "example.Sqrt" {
				want = math.Sqrt(arg)
			}
			if got != want {
				return Errf("%s: expected %v", where, want)
			}
		}
	}
	kills := 0
	for _, x := range c.Rounds {
		if x.Kill {
			kills++
		}
	}
	for _, code := range r.Codes {
		if code == nil {
			kills--
		} else if *code != 0 {
			return Errf("the backend has ended with status %d", *code)
		}
	}
	if kills != 0 {
		return Errf("%d more backends are killed", -kills)
	}
	e.Nontrivial(true)
	return nil
}

func TestReal(t *testing.T) {
	Check(t, Prop[realCase]{Name: "real", Weight: 0.1, Gen: genReal, Run: runReal})
}

// --- Menu of the add-on

type menuCase struct {
	Kind    string   `json:"kind"`
	Command []string `json:"command"`
	Clicks  []int    `json:"clicks"`
}

func genMenu(t *rapid.T) menuCase {
	c := menuCase{Kind: "menu", Clicks: []int{}}
	for i := rapid.IntRange(0, 12).Draw(t, "clicks"); i > 0; i-- {
		k := rapid.IntRange(0, 1).Draw(t, "item")
		if Rare(t, "sleep", 30) {
			k = 2
		}
		c.Clicks = append(c.Clicks, k)
	}
	return c
}

func runMenu(e *Env, c menuCase) error {
	c.Command = []string{Bin("example_backend")}
	var r struct {
		Titles []string
		Codes  []*int
		Ports  []string
		Logs   [][]interface{}
	}
	if err := ask(c, &r); err != nil {
		return err
	}
	if !reflect.DeepEqual(r.Titles, []string{"sqrt(2)", "sqrt(-2)", "sleep()"}) {
		return Errf("items of menu: %q", r.Titles)
	}
	results := map[float64]int{}
	errors := 0
	for _, l := range r.Logs {
		for _, a := range l[1:] {
			switch x := a.(type) {
			case float64:
				if l[0] == "log" && strings.Contains(fmt.Sprint(l[1]), "result") {
					results[x]++
				}
			case string:
				if l[0] == "error" && strings.Contains(x, "square root of negative number") {
					errors++
				}
			}
		}
	}
	want := map[int]int{}
	for _, k := range c.Clicks {
		want[k]++
	}
	// An error may be mentioned more than once in a record.
	if results[math.Sqrt2] != want[0] || (errors > 0) != (want[1] > 0) || errors < want[1] || results[1500] != want[2] {
		return Errf("clicks %v, log %v", c.Clicks, r.Logs)
	}
	if len(c.Clicks) > 0 && (len(r.Ports) != 1 || r.Ports[0] != "io.github.maxnikulin.burl_webextensions_example") {
		return Errf("connections: %q", r.Ports)
	}
	for _, code := range r.Codes {
		if code == nil || *code != 0 {
			return Errf("the backend has failed")
		}
	}
	e.Nontrivial(len(c.Clicks) > 1)
	return nil
}

func TestMenu(t *testing.T) {
	Check(t, Prop[menuCase]{Name: "menu", Weight: 0.05, Gen: genMenu, Run: runMenu})
}
