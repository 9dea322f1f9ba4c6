package c23

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/rpc"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type reply struct {
	Result json.RawMessage `json:"result,omitempty"`
	Error  *string         `json:"error,omitempty"`
	Size   int             `json:"size,omitempty"`
	Sleep  int             `json:"sleep,omitempty"` // milliseconds before the reply
}

type plan struct {
	Replies []reply `json:"replies"`
	Batch   int     `json:"batch"`
	Chunk   int     `json:"chunk"`
	After   int     `json:"after"`
	Status  int     `json:"status"`
	Signal  int     `json:"signal"`
	Linger  int     `json:"linger"`
}

func ok(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

var words = []string{"a", "https://example.org/", "доклад", "a b", "-x", "--", "", "{}", "\"q\"", "\\", "<&>", "\n", "\t", "0", "é", "a,b", "$HOME", "*", "'", "\u2028"}

func drawWord(t *rapid.T, label string) string {
	if Pick(t, label+"-kind", 3, 1) == 1 {
		return strings.ToValidUTF8(strings.ReplaceAll(rapid.StringN(0, 20, -1).Draw(t, label), "\x00", ""), "")
	}
	return rapid.SampledFrom(words).Draw(t, label)
}

// drawJSON: numbers are exactly represented by float64.
func drawJSON(t *rapid.T, depth int) interface{} {
	k := Pick(t, "json", 3, 2, 1, 1, 2, 2)
	if depth <= 0 && k > 3 {
		k -= 4
	}
	switch k {
	case 0:
		return drawWord(t, "string")
	case 1:
		return float64(rapid.IntRange(-1<<52, 1<<52).Draw(t, "int"))
	case 2:
		return rapid.Bool().Draw(t, "bool")
	case 3:
		return nil
	case 4:
		n := rapid.IntRange(0, 4).Draw(t, "items")
		a := make([]interface{}, n)
		for i := range a {
			a[i] = drawJSON(t, depth-1)
		}
		return a
	}
	n := rapid.IntRange(0, 4).Draw(t, "fields")
	o := map[string]interface{}{}
	for i := 0; i < n; i++ {
		o[drawWord(t, "key")] = drawJSON(t, depth-1)
	}
	return o
}

func sameJSON(a []byte, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func drawReply(t *rapid.T) reply {
	switch Pick(t, "reply", 4, 2, 1) {
	case 1:
		s := drawWord(t, "error")
		if s == "" {
			s = "failed"
		}
		return reply{Error: &s}
	case 2:
		return reply{Size: rapid.SampledFrom([]int{1, 100, 4090, 4096, 65530, 65536, 70000, 1 << 20, 3 << 20}).Draw(t, "size")}
	}
	v := drawJSON(t, 3)
	if v == nil {
		v = true // null is not a result of JSON-RPC 1.0
	}
	b, err := json.Marshal(v)
	ok(err)
	return reply{Result: b}
}

func (r *reply) expected(n int) []byte {
	if r.Size > 0 {
		b := make([]byte, r.Size)
		for i := range b {
			b[i] = byte('a' + (i+n)%26)
		}
		return []byte(`"` + string(b) + `"`)
	}
	return r.Result
}

// ---- command line client

type cliCase struct {
	Backend []string `json:"backend"` // extra arguments of the backend
	Sub     []string `json:"sub"`     // subcommand with arguments
	Wrong   string   `json:"wrong,omitempty"`
	Plan    plan     `json:"plan"`
}

func genCli(t *rapid.T) cliCase {
	c := cliCase{Plan: plan{Replies: []reply{drawReply(t)}, Chunk: rapid.SampledFrom([]int{0, 1, 7, 5000}).Draw(t, "chunk"), Linger: rapid.SampledFrom([]int{0, 0, 0, 20}).Draw(t, "linger")}}
	notSep := func(s string) string {
		if s == "--" {
			return "x"
		}
		return s
	}
	for i := Pick(t, "extra", 3, 1, 1); i > 0; i-- {
		c.Backend = append(c.Backend, notSep(drawWord(t, "arg")))
	}
	list := func(min, max int) (r []string) {
		for i := rapid.IntRange(min, max).Draw(t, "n"); i > 0; i-- {
			r = append(r, drawWord(t, "value"))
		}
		return
	}
	switch Pick(t, "sub", 2, 2, 2, 2, 2, 3) {
	case 0:
		c.Sub = []string{"hello"}
		if rapid.Bool().Draw(t, "json") {
			v := drawJSON(t, 3)
			if v == nil {
				v = "x"
			}
			b, _ := json.Marshal(v)
			c.Sub = append(c.Sub, string(b))
		}
	case 1:
		c.Sub = []string{"capture", drawWord(t, "uri")}
	case 2:
		c.Sub = append([]string{"mentions"}, list(1, 4)...)
	case 3:
		c.Sub = append([]string{"set"}, list(1, 4)...)
	case 4:
		c.Sub = []string{"visit"}
		file := []string{rapid.SampledFrom([]string{"-file", "--file"}).Draw(t, "flag"), drawWord(t, "file")}
		if Pick(t, "form", 1, 1) == 1 {
			file = []string{file[0] + "=" + file[1]}
		}
		var line []string
		if Pick(t, "line", 1, 2) == 1 {
			line = []string{rapid.SampledFrom([]string{"-line", "--line"}).Draw(t, "flag"), fmt.Sprint(rapid.IntRange(-10, 1000000).Draw(t, "line"))}
		}
		if Pick(t, "order", 1, 1) == 1 {
			line, file = nil, append(line, file...)
		}
		c.Sub = append(append(c.Sub, file...), line...)
	case 5:
		c.Wrong = rapid.SampledFrom([]string{"subcommand", "capture0", "capture2", "hello2", "hello-json", "visit-flag", "visit-line", "no-separator", "nothing-after", "no-command", "separator-first", "absent-command"}).Draw(t, "wrong")
		switch c.Wrong {
		case "subcommand":
			c.Sub = append([]string{rapid.SampledFrom([]string{"", "Hello", "linkremark.hello", "hell", "url", "-x", "search", "--"}).Draw(t, "name")}, list(0, 2)...)
		case "capture0":
			c.Sub = []string{"capture"}
		case "capture2":
			c.Sub = append([]string{"capture"}, list(2, 4)...)
		case "hello2":
			c.Sub = []string{"hello", "{}", drawWord(t, "more")}
		case "hello-json":
			c.Sub = []string{"hello", rapid.SampledFrom([]string{"", "{", "{} {}", "x", "'a'", "[1,]"}).Draw(t, "bad")}
		case "visit-flag":
			c.Sub = []string{"visit", rapid.SampledFrom([]string{"-x", "--lineno=1", "-file", "-h"}).Draw(t, "bad")}
		case "visit-line":
			c.Sub = []string{"visit", "-file", "a", "-line", rapid.SampledFrom([]string{"x", "", "1.5", "99999999999999999999"}).Draw(t, "bad")}
		default:
			c.Sub = []string{"hello"}
		}
	}
	return c
}

// wantRequest is the documented request of a subcommand.
func wantRequest(sub []string) (method string, params interface{}) {
	switch sub[0] {
	case "mentions":
		return "urlMentions", map[string]interface{}{"variants": sub[1:]}
	case "set":
		return "linkSet", map[string]interface{}{"prefix": sub[1:]}
	case "visit":
		p := map[string]interface{}{"file": "", "lineNo": 0}
		a := sub[1:]
		for i := 0; i < len(a); i++ {
			k, v, eq := strings.Cut(strings.TrimLeft(a[i], "-"), "=")
			if !eq {
				i++
				v = a[i]
			}
			if k == "line" {
				p["lineNo"] = json.Number(v)
			} else {
				p["file"] = v
			}
		}
		return "visit", p
	case "capture":
		return "capture", nil
	}
	return "hello", nil
}

func runCli(e *Env, c cliCase) error {
	dir := e.Scratch()
	b, err := json.Marshal(c.Plan)
	ok(err)
	pf := e.Write("plan", b)
	rec := filepath.Join(dir, "rec")
	ok(os.Mkdir(rec, 0755))
	backend := append([]string{Bin("peer"), pf, rec}, c.Backend...)
	args := append(append(append([]string(nil), backend...), "--"), c.Sub...)
	switch c.Wrong {
	case "no-separator":
		args = append(append([]string(nil), backend...), c.Sub...)
	case "nothing-after":
		args = append(append([]string(nil), backend...), "--")
	case "no-command":
		args = nil
	case "separator-first":
		args = []string{"--", "--", "hello"}
	case "absent-command":
		args = []string{"./absent", "--", "hello"}
	}
	x, err := RunProc(Spec{Path: Bin("burl_client"), Args: args, Dir: dir})
	if err != nil {
		return err
	}
	where := fmt.Sprintf("%q: %s stdout %s stderr %s", args, x.Status(), Short(x.Stdout), x.Tail())
	if x.Crashed() {
		return Errf("%s", where)
	}
	request, _ := os.ReadFile(filepath.Join(rec, "request0"))
	if c.Wrong != "" {
		if x.Code == 0 || len(bytes.TrimSpace(x.Stderr)) == 0 || len(x.Stdout) > 0 {
			return Errf("wrong usage should be reported: %s", where)
		}
		if request != nil {
			return Errf("wrong usage, a request is sent: %s; %s", Short(request), where)
		}
		e.Label("wrong usage")
		e.Nontrivial(true)
		return nil
	}
	// The request.
	if request == nil {
		return Errf("no request is sent; %s", where)
	}
	if _, err := os.Stat(filepath.Join(rec, "request1")); err == nil {
		return Errf("more than one request is sent; %s", where)
	}
	var q struct {
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := Unmarshal(request, &q); err != nil || len(q.Params) != 1 {
		return Errf("request %s; %s", Short(request), where)
	}
	method, params := wantRequest(c.Sub)
	if q.Method != "linkremark."+method && q.Method != "burl."+method && (q.Method != method || method == "visit" || method == "urlMentions" || method == "linkSet") {
		return Errf("request %s; %s", Short(request), where)
	}
	switch c.Sub[0] {
	case "hello":
		if len(c.Sub) > 1 {
			if !sameJSON(q.Params[0], []byte(c.Sub[1])) {
				return Errf("request %s; %s", Short(request), where)
			}
			break
		}
		var p struct {
			Formats []struct{ Format, Version string } `json:"formats"`
		}
		if Unmarshal(q.Params[0], &p) != nil {
			return Errf("request %s; %s", Short(request), where)
		}
		found := false
		for _, f := range p.Formats {
			found = found || f.Format == "org-protocol" && f.Version != ""
		}
		if !found {
			return Errf("request %s; %s", Short(request), where)
		}
	case "capture":
		var p struct {
			Format, Version string
			Error           interface{}
			Data            struct{ Url string }
		}
		if err := Unmarshal(q.Params[0], &p); err != nil || p.Format != "org-protocol" || p.Error != nil || p.Data.Url != c.Sub[1] {
			return Errf("request %s; %s", Short(request), where)
		}
	default:
		var got map[string]interface{}
		if err := Unmarshal(q.Params[0], &got); err != nil {
			return Errf("request %s; %s", Short(request), where)
		}
		if got["options"] == nil {
			delete(got, "options")
		}
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(params)
		if !sameJSON(g, w) {
			return Errf("request %s, expected %s; %s", Short(request), w, where)
		}
	}
	// Arguments of the backend.
	var a []string
	ab, err := os.ReadFile(filepath.Join(rec, "args"))
	ok(err)
	ok(json.Unmarshal(ab, &a))
	if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", backend[1:]) {
		return Errf("arguments of the backend are %q; %s", a, where)
	}
	// The reply.
	r := c.Plan.Replies[0]
	if r.Error != nil {
		if x.Code == 0 || !bytes.Contains(x.Stderr, []byte(*r.Error)) || len(x.Stdout) > 0 {
			return Errf("error reply %q; %s", *r.Error, where)
		}
		e.Label("error reply")
	} else {
		if x.Code != 0 {
			return Errf("%s", where)
		}
		if !sameJSON(x.Stdout, r.expected(0)) {
			return Errf("result %s; %s", Short(r.expected(0)), where)
		}
		e.Label("result")
	}
	e.Label(c.Sub[0])
	e.Nontrivial(true)
	return nil
}

func TestClient(t *testing.T) {
	Check(t, Prop[cliCase]{Name: "client", Gen: genCli, Run: runCli})
}

// ---- the client and the real backend

type realCase struct {
	Files Files      `json:"files"`
	Subs  [][]string `json:"subs"`
	Full  bool       `json:"full"` // repeated with output that can not be written
}

func genReal(t *rapid.T) realCase {
	c := realCase{}
	bases := DrawBases(t, false)[:1]
	c.Files = DrawFiles(t, DocOpts{Bases: bases, MaxLines: 25, Deep: true}, 0, 3, "mixed")
	c.Full = Pick(t, "full", 3, 1) == 1
	for i := rapid.IntRange(1, 4).Draw(t, "subs"); i > 0; i-- {
		switch Pick(t, "sub", 1, 4, 3, 1, 1) {
		case 0:
			s := []string{"hello"}
			if rapid.Bool().Draw(t, "json") {
				s = append(s, rapid.SampledFrom([]string{`{"formats":[]}`, `{"formats":[{"format":"org-protocol","version":"7"}]}`, `[]`, `"x"`, `{}`}).Draw(t, "query"))
			}
			c.Subs = append(c.Subs, s)
		case 1:
			s := []string{"mentions"}
			for k := rapid.IntRange(0, 3).Draw(t, "urls"); k > 0; k-- {
				s = append(s, DrawURL(t, bases, "txt"))
			}
			c.Subs = append(c.Subs, s)
		case 2:
			s := []string{"set"}
			for k := rapid.IntRange(0, 18).Draw(t, "prefixes"); k > 0; k-- {
				s = append(s, rapid.SampledFrom([]string{"http", "https:", "mid", "doi:10", "https:" + bases[0], "ftp", "", "1"}).Draw(t, "prefix"))
			}
			c.Subs = append(c.Subs, s)
		case 3:
			c.Subs = append(c.Subs, []string{"visit", "-file", "/nonexistent/absent", "-line", "3"})
		case 4:
			c.Subs = append(c.Subs, []string{"capture", rapid.SampledFrom([]string{"http://x", "org-protocol", ""}).Draw(t, "uri")})
		}
	}
	return c
}

func runReal(e *Env, c realCase) error {
	args, _ := c.Files.Install(e)
	args = append(args, "-emacsclient", "/nonexistent/emacsclient")
	s := StartSession(Spec{Path: Bin("burl_backend"), Args: args, Dir: e.Scratch()})
	defer s.Kill()
	for _, sub := range c.Subs {
		method, params := wantRequest(sub)
		switch sub[0] {
		case "hello":
			params = json.RawMessage(`{"formats":[{"format":"org-protocol","version":"0.2"}]}`)
			if len(sub) > 1 {
				params = json.RawMessage(sub[1])
			}
		case "capture":
			params = map[string]interface{}{"format": "org-protocol", "version": "0.2", "data": map[string]interface{}{"url": sub[1], "title": "", "body": nil}}
		}
		r, err := s.Call("linkremark."+method, params)
		if err != nil {
			return err
		}
		full := append(append([]string{Bin("burl_backend")}, args...), "--")
		full = append(full, sub...)
		x, err := RunProc(Spec{Path: Bin("burl_client"), Args: full, Dir: e.Scratch()})
		if err != nil {
			return err
		}
		where := fmt.Sprintf("%q: %s stdout %s stderr %s", sub, x.Status(), Short(x.Stdout), x.Tail())
		if r.Failed() {
			if x.Code == 0 || !bytes.Contains(x.Stderr, []byte(r.ErrText())) || len(x.Stdout) > 0 {
				return Errf("error reply %s; %s", r.ErrText(), where)
			}
			e.Label("error")
			continue
		}
		if x.Code != 0 {
			return Errf("reply %s; %s", Short(r.Result), where)
		}
		if sub[0] == "set" {
			// No order is promised.
			if !sameSet(r.Result, x.Stdout) {
				return Errf("reply %s; %s", Short(r.Result), where)
			}
		} else if !sameJSON(r.Result, x.Stdout) {
			return Errf("reply %s; %s", Short(r.Result), where)
		}
		e.Label("result " + sub[0])
		if c.Full {
			x, err := RunProc(Spec{Path: Bin("burl_client"), Args: full, Dir: e.Scratch(), Stdout: "/dev/full"})
			if err != nil {
				return err
			}
			if x.Crashed() || x.Code == 0 || len(x.Stderr) == 0 {
				return Errf("%q: %s, though the result can not be written; stderr %s", sub, x.Status(), x.Tail())
			}
			e.Label("output error")
		}
	}
	e.Nontrivial(true)
	return nil
}

func sameSet(a, b []byte) bool {
	var x, y struct{ Urls []string }
	if Unmarshal(a, &x) != nil || Unmarshal(b, &y) != nil || len(x.Urls) != len(y.Urls) {
		return false
	}
	m := map[string]int{}
	for _, u := range x.Urls {
		m[u]++
	}
	for _, u := range y.Urls {
		m[u]--
	}
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return true
}

func TestReal(t *testing.T) {
	Check(t, Prop[realCase]{Name: "real", Weight: 0.3, Gen: genReal, Run: runReal})
}

// ---- library client

type call struct {
	Size   int  `json:"size"`   // of the parameter
	Before bool `json:"before"` // wait for everything sent before
}

type libCase struct {
	Plan  plan   `json:"plan"`
	Calls []call `json:"calls"`
	Again bool   `json:"again"` // a call after closing
}

func genLib(t *rapid.T) libCase {
	c := libCase{}
	n := rapid.IntRange(0, 12).Draw(t, "calls")
	for i := 0; i < n; i++ {
		c.Plan.Replies = append(c.Plan.Replies, drawReply(t))
		c.Calls = append(c.Calls, call{
			Size:   rapid.SampledFrom([]int{0, 10, 1000, 4080, 5000, 70000, 300000}).Draw(t, "size"),
			Before: Pick(t, "before", 2, 1) == 1,
		})
	}
	c.Plan.Batch = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 20}).Draw(t, "batch")
	c.Plan.Chunk = rapid.SampledFrom([]int{0, 1, 7, 5000}).Draw(t, "chunk")
	c.Plan.Linger = rapid.SampledFrom([]int{0, 0, 0, 30}).Draw(t, "linger")
	switch Pick(t, "exit", 3, 3, 1) {
	case 1:
		c.Plan.Status = rapid.IntRange(1, 255).Draw(t, "status")
	case 2:
		c.Plan.Signal = rapid.SampledFrom([]int{int(syscall.SIGTERM), int(syscall.SIGKILL)}).Draw(t, "signal")
	}
	if n > 0 && Pick(t, "early", 4, 1) == 1 {
		c.Plan.After = rapid.IntRange(1, n).Draw(t, "after")
	}
	c.Again = rapid.Bool().Draw(t, "again")
	return c
}

type outcome struct {
	result json.RawMessage
	err    error
}

func runLib(e *Env, c libCase) error {
	dir := e.Scratch()
	b, err := json.Marshal(c.Plan)
	ok(err)
	pf := e.Write("plan", b)
	rec := filepath.Join(dir, "rec")
	ok(os.Mkdir(rec, 0755))
	cl, err := webextensions.NewClientCommand([]string{Bin("peer"), pf, rec, "x y"})
	if err != nil {
		return Errf("NewClientCommand: %w", err)
	}
	pid := cl.Command.Process.Pid
	finished := make(chan struct{})
	defer close(finished)
	stuck := make(chan struct{})
	go func() {
		select {
		case <-finished:
		case <-time.After(HangLimit):
			close(stuck)
			syscall.Kill(pid, syscall.SIGKILL)
		}
	}()
	out := make([]outcome, len(c.Calls))
	var wg sync.WaitGroup
	wait := func() error {
		all := make(chan struct{})
		go func() { wg.Wait(); close(all) }()
		select {
		case <-all:
			return nil
		case <-stuck:
		}
		select {
		case <-all:
			return nil
		case <-time.After(5 * time.Second):
			return Hang("calls are not completed although the backend has ended")
		}
	}
	for i, x := range c.Calls {
		if x.Before {
			if err := wait(); err != nil {
				return err
			}
		}
		wg.Add(1)
		a := cl.Go("any.method", map[string]interface{}{"N": i, "data": strings.Repeat("p", x.Size)}, &out[i].result, make(chan *rpc.Call, 1))
		go func(i int) {
			defer wg.Done()
			out[i].err = (<-a.Done).Error
		}(i)
	}
	if err := wait(); err != nil {
		return err
	}
	delivered := 0
	for i := range c.Calls {
		r := &c.Plan.Replies[i]
		o := &out[i]
		var se rpc.ServerError
		switch {
		case r.Error != nil && o.err != nil && errors.As(o.err, &se):
			if o.err.Error() != *r.Error {
				return Errf("call %d: error %q, expected %q", i, o.err, *r.Error)
			}
			delivered++
			e.Label("error")
		case r.Error == nil && o.err == nil:
			if !sameJSON(o.result, r.expected(i)) {
				return Errf("call %d: result %s, expected %s", i, Short(o.result), Short(r.expected(i)))
			}
			delivered++
			e.Label("result")
		case c.Plan.After > 0 && o.err != nil && !errors.As(o.err, &se):
			e.Label("lost")
		default:
			return Errf("call %d: result %s, error %v; the reply is %s", i, Short(o.result), o.err, Short(r.expected(i)))
		}
	}
	if c.Plan.After > 0 && delivered != c.Plan.After {
		return Errf("%d replies have been sent, %d have been delivered", c.Plan.After, delivered)
	}
	if !c.Again && len(c.Calls) > 0 && c.Plan.After == 0 {
		if err := syscall.Kill(pid, 0); err != nil {
			return Errf("the backend has gone before it is closed: %v", err)
		}
	}
	err = cl.Close()
	select {
	case <-stuck:
		return Hang("closing of the client")
	default:
	}
	// The process is ended and its status is known.
	if k := syscall.Kill(pid, 0); k == nil {
		return Errf("the process is running after Close() = %v", err)
	}
	var ee *exec.ExitError
	switch {
	case c.Plan.Status == 0 && c.Plan.Signal == 0:
		if err != nil {
			return Errf("Close() = %v, exit status is 0", err)
		}
	case !errors.As(err, &ee):
		return Errf("Close() = %v, exit status should be %d or signal %d", err, c.Plan.Status, c.Plan.Signal)
	default:
		ws := ee.Sys().(syscall.WaitStatus)
		if c.Plan.Signal > 0 {
			if !ws.Signaled() || int(ws.Signal()) != c.Plan.Signal {
				return Errf("Close() = %v, signal should be %d", err, c.Plan.Signal)
			}
		} else if ws.ExitStatus() != c.Plan.Status {
			return Errf("Close() = %v, exit status should be %d", err, c.Plan.Status)
		}
	}
	if c.Plan.After == 0 {
		if _, err := os.Stat(filepath.Join(rec, "end")); err != nil {
			return Errf("the backend has not been ended by the end of input")
		}
	}
	if c.Again {
		var x json.RawMessage
		if err := cl.Call("any.method", 1, &x); err == nil {
			return Errf("a call of a closed client has succeeded: %s", x)
		}
	}
	e.Nontrivial(len(c.Calls) > 1)
	return nil
}

func TestLibrary(t *testing.T) {
	Check(t, Prop[libCase]{Name: "library", Weight: 0.5, Gen: genLib, Run: runLib})
}

// ---- the example

type exampleCase struct {
	Status int  `json:"status"`
	Real   bool `json:"real"`
	R1     int  `json:"r1"`
	E2     string
	Bad    string `json:"bad,omitempty"` // the backend can not be started: none, absent, directory, not-exec
}

func genExample(t *rapid.T) exampleCase {
	if Pick(t, "start", 3, 1) == 1 {
		return exampleCase{Bad: rapid.SampledFrom([]string{"none", "absent", "directory", "not-exec", "empty"}).Draw(t, "bad"), R1: rapid.IntRange(0, 3).Draw(t, "args")}
	}
	return exampleCase{Status: rapid.IntRange(0, 255).Draw(t, "status"), Real: Pick(t, "real", 3, 1) == 1,
		R1: rapid.IntRange(-1000, 1000).Draw(t, "r1"), E2: "e" + drawWord(t, "e2")}
}

func runExample(e *Env, c exampleCase) error {
	dir := e.Scratch()
	if c.Bad != "" {
		var args []string
		switch c.Bad {
		case "absent":
			args = []string{filepath.Join(dir, "absent")}
		case "directory":
			args = []string{dir}
		case "not-exec":
			args = []string{e.Write("data", []byte("not a program\n"))}
		case "empty":
			args = []string{""}
		}
		for i := 0; i < c.R1 && len(args) > 0; i++ {
			args = append(args, "x")
		}
		if cl, err := webextensions.NewClientCommand(args); err == nil {
			cl.Close()
			return Errf("no error from NewClientCommand(%q)", args)
		}
		x, err := RunProc(Spec{Path: Bin("example_client"), Args: args, Dir: dir})
		if err != nil {
			return err
		}
		if x.Crashed() || x.Code == 0 || len(x.Stderr) == 0 || len(x.Stdout) != 0 {
			return Errf("example client with arguments %q: %s, stdout %q, stderr %s", args, x.Status(), x.Stdout, x.Tail())
		}
		e.Label("not started")
		return nil
	}
	args := []string{Bin("example_backend")}
	want := "sqrt: query 2 result 1.4142135623730951\nsqrt: query -2 error square root of negative number\n"
	if c.Real {
		c.Status = 0
	} else {
		// One reply for both calls.
		b, err := json.Marshal(plan{Replies: []reply{{Result: json.RawMessage(fmt.Sprint(c.R1))}}, Status: c.Status})
		ok(err)
		pf := e.Write("plan", b)
		rec := filepath.Join(dir, "rec")
		ok(os.Mkdir(rec, 0755))
		args = []string{Bin("peer"), pf, rec}
		want = fmt.Sprintf("sqrt: query 2 result %v\nsqrt: query -2 result %v\n", float64(c.R1), float64(c.R1))
	}
	x, err := RunProc(Spec{Path: Bin("example_client"), Args: args, Dir: dir})
	if err != nil {
		return err
	}
	if x.Crashed() || (x.Code == 0) != (c.Status == 0) || (c.Status != 0 && len(x.Stderr) == 0) || string(x.Stdout) != want {
		return Errf("backend status %d: %s, stdout %q, expected %q, stderr %s", c.Status, x.Status(), x.Stdout, want, x.Tail())
	}
	e.Nontrivial(c.Status != 0)
	return nil
}

func TestExample(t *testing.T) {
	Check(t, Prop[exampleCase]{Name: "example", Weight: 0.04, Gen: genExample, Run: runExample})
}

// ---- slow backends

// slowCase: backends that take a long time to reply or to exit.
type slowCase struct {
	Lib []libCase `json:"lib"`
	Cli []cliCase `json:"cli"`
}

func genSlow(t *rapid.T) (c slowCase) {
	for _, d := range []int{6, 11, 21, 31, 36} {
		l := genLib(t)
		l.Plan.After = 0
		if len(l.Calls) == 0 {
			l.Calls = []call{{Size: 300000}}
			l.Plan.Replies = []reply{drawReply(t)}
		}
		if rapid.Bool().Draw(t, "linger") {
			l.Plan.Linger = 1000 * d
		} else {
			l.Plan.Replies[rapid.IntRange(0, len(l.Calls)-1).Draw(t, "slow reply")].Sleep = 1000 * d
		}
		c.Lib = append(c.Lib, l)
		x := genCli(t)
		for x.Wrong != "" {
			x = genCli(t)
		}
		if Pick(t, "linger", 2, 1) == 1 {
			x.Plan.Linger = 1000 * d
		} else {
			x.Plan.Replies[0].Sleep = 1000 * d
		}
		c.Cli = append(c.Cli, x)
	}
	return
}

func runSlow(e *Env, c slowCase) error {
	result := make(chan error, len(c.Lib)+len(c.Cli))
	sub := func(name string) *Env {
		d := filepath.Join(e.Scratch(), name)
		ok(os.Mkdir(d, 0755))
		return &Env{Dir: d}
	}
	for i, x := range c.Lib {
		x, e := x, sub(fmt.Sprintf("lib%d", i))
		go func() { result <- runLib(e, x) }()
	}
	for i, x := range c.Cli {
		x, e := x, sub(fmt.Sprintf("cli%d", i))
		go func() { result <- runCli(e, x) }()
	}
	var first error
	for i := 0; i < cap(result); i++ {
		if err := <-result; err != nil && first == nil {
			first = err
		}
	}
	e.Nontrivial(true)
	return first
}

func TestSlow(t *testing.T) {
	Check(t, Prop[slowCase]{Name: "slow", Weight: 0.0005, Gen: genSlow, Run: runSlow})
}
