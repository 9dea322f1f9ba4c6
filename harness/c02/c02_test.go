package c02

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/rpc"
	"net/rpc/jsonrpc"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

// JSON whitespace inserted at a place of the request.
type ws struct {
	Lead  string `json:"lead,omitempty"`
	Mid   string `json:"mid,omitempty"`
	Trail string `json:"trail,omitempty"`
}

type request struct {
	ID     string `json:"id"` // JSON text
	Method string `json:"method"`
	Param  string `json:"param"` // JSON text
	Space  ws     `json:"space"`
	// The body is padded to this size by a member or by white space, if it is
	// shorter.
	Size  int    `json:"size,omitempty"`
	PadBy string `json:"padBy,omitempty"`
}

func drawSpace(t *rapid.T, label string) string {
	switch Pick(t, label, 6, 3, 1) {
	case 1:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{" ", "\n", "\t", "\r", "\r\n"}), 1, 4).Draw(t, label+"-v"), "")
	case 2:
		return strings.Repeat(rapid.SampledFrom([]string{" ", "\n", "\r\n"}).Draw(t, label+"-c"), rapid.IntRange(1, 2000).Draw(t, label+"-n"))
	}
	return ""
}

func (r *request) body() []byte {
	m := r.Space.Mid
	members := []string{`"id":` + m + r.ID, `"method":` + m + jstr(r.Method), `"params":` + m + `[` + m + r.Param + m + `]`}
	make := func(members []string, trail string) string {
		return r.Space.Lead + "{" + m + strings.Join(members, m+","+m) + m + "}" + trail
	}
	s := make(members, r.Space.Trail)
	if n := r.Size - len(s); n > 0 {
		switch r.PadBy {
		case "trail":
			s += strings.Repeat(" ", n)
		case "lead":
			s = strings.Repeat("\n", n) + s
		default:
			empty := make(append(members, `"x":""`), r.Space.Trail)
			if k := r.Size - len(empty); k >= 0 {
				s = make(append(members, `"x":"`+strings.Repeat("p", k)+`"`), r.Space.Trail)
			}
		}
	}
	return []byte(s)
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func drawID(t *rapid.T, i int) string {
	switch Pick(t, "id-kind", 4, 2, 1, 1) {
	case 0:
		return fmt.Sprint(i)
	case 1:
		return jstr(fmt.Sprintf("%s-%d", rapid.SampledFrom([]string{"id", "ключ", "a\"b", "<&>\u2028", strings.Repeat("long", 200), "\x00"}).Draw(t, "id"), i))
	case 2:
		return fmt.Sprintf(rapid.SampledFrom([]string{"-%d", "%d.5", "9007199254740993%d", "%de10", "123456789012345678901234567890%d"}).Draw(t, "id"), i+1)
	}
	return fmt.Sprintf(rapid.SampledFrom([]string{`[%d]`, `{"k":%d}`, `{"a":[1,{"b":null}],"n":%d}`, `[true,"x",%d]`}).Draw(t, "id"), i)
}

// A size at or near a boundary of decoder buffers.
func drawSize(t *rapid.T) int {
	if Rare(t, "huge", 1500) {
		// Limits of browsers and other round numbers.
		base := rapid.SampledFrom([]int{1 << 20, 1 << 20, 1 << 16, 1 << 18, 1 << 21, 1 << 22, 1 << 24}).Draw(t, "huge-base")
		return base + rapid.IntRange(-100, 10000).Draw(t, "off")
	}
	switch Pick(t, "size-kind", 3, 4, 1) {
	case 0:
		return 0
	case 1:
		base := rapid.SampledFrom([]int{512, 1024, 1536, 3584, 7680, 2048, 4096, 8192, 15872}).Draw(t, "boundary")
		return base + rapid.IntRange(-3, 3).Draw(t, "off")
	}
	return rapid.IntRange(0, 40000).Draw(t, "size")
}

func drawEnvelope(t *rapid.T, r *request, i int) {
	r.ID = drawID(t, i)
	r.Space = ws{drawSpace(t, "lead"), "", drawSpace(t, "trail")}
	if Pick(t, "mid?", 4, 1) == 1 {
		r.Space.Mid = rapid.SampledFrom([]string{" ", "\n", "\t ", "\r\n"}).Draw(t, "mid")
	}
	r.Size = drawSize(t)
	r.PadBy = rapid.SampledFrom([]string{"member", "trail", "lead"}).Draw(t, "padBy")
}

// drawLong sometimes makes a long session of the requests: short ones are
// repeated with other ids.
func drawLong(t *rapid.T, rs []request) []request {
	if !Rare(t, "long", 100) {
		return rs
	}
	var short []request
	for _, r := range rs {
		if len(r.body()) <= 5000 && len(r.Param) < 5 || r.Method != "T.Gen" {
			short = append(short, r)
		}
	}
	if len(short) == 0 {
		return rs
	}
	n := rapid.IntRange(100, 3000).Draw(t, "long-n")
	for i := 0; len(rs) < n; i++ {
		r := short[i%len(short)]
		if r.Size > 10000 {
			r.Size = 0
		}
		if i%2 == 0 {
			r.ID = fmt.Sprint(1000 + i)
		} else {
			r.ID = fmt.Sprintf(`"long %d"`, i)
		}
		rs = append(rs, r)
	}
	return rs
}

// The service of the in-process server.
type service struct {
	eof   chan struct{}
	mu    sync.Mutex
	calls map[string]int
}

func (s *service) note(k string) {
	s.mu.Lock()
	s.calls[k]++
	s.mu.Unlock()
}

// Echo returns its text.
func (s *service) Echo(in string, out *string) error {
	*out = in
	return nil
}

// Fail returns its text as an error.
func (s *service) Fail(in string, out *string) error { return errors.New("E" + in) }

// Gen returns a text of a given length.
func (s *service) Gen(n int, out *string) error {
	*out = strings.Repeat("g", n)
	return nil
}

type unencodable struct{}

func (unencodable) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot be encoded") }

// Odd has results that can not be represented in JSON.
func (s *service) Odd(in int, out *interface{}) error {
	switch in % 4 {
	case 0:
		*out = math.NaN()
	case 1:
		*out = []interface{}{"a", make(chan int)}
	case 2:
		*out = map[string]interface{}{"a": unencodable{}}
	case 3:
		*out = map[string]interface{}{"a": json.RawMessage(strings.Repeat("[", 10100) + strings.Repeat("]", 10100))}
	}
	return nil
}

// Late finishes only after the input is closed.
func (s *service) Late(in string, out *string) error {
	<-s.eof
	*out = "late " + in
	return nil
}

type serverCase struct {
	Requests []request `json:"requests"`
	Chunks   []int     `json:"chunks"`
}

var texts = []string{"", "a", "null", "Привет", "\"\\/\b\f\n\r\t", "<script>&amp;\u2028", strings.Repeat("longer text ", 100), "\U0001F600", "{}"}

func drawText(t *rapid.T) string {
	if Pick(t, "text", 3, 1) == 1 {
		return strings.Repeat("t", rapid.IntRange(0, 3000).Draw(t, "length"))
	}
	return rapid.SampledFrom(texts).Draw(t, "text-v")
}

func genServer(t *rapid.T) serverCase {
	c := serverCase{}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		var r request
		drawEnvelope(t, &r, i)
		switch Pick(t, "method", 5, 2, 2, 1, 1, 1) {
		case 5:
			r.Method, r.Param = "T.Odd", fmt.Sprint(rapid.IntRange(0, 3).Draw(t, "odd"))
		case 0:
			r.Method, r.Param = "T.Echo", jstr(drawText(t))
		case 1:
			r.Method, r.Param = "T.Fail", jstr(drawText(t))
		case 2:
			r.Method, r.Param = "T.Gen", fmt.Sprint(drawSize(t))
		case 3:
			r.Method, r.Param = "T.Late", jstr(drawText(t))
		case 4:
			r.Method, r.Param = rapid.SampledFrom([]string{"T.None", "none", "N.Echo", "T.echo"}).Draw(t, "unknown"), jstr(drawText(t))
		}
		c.Requests = append(c.Requests, r)
	}
	c.Requests = drawLong(t, c.Requests)
	c.Chunks = DrawChunks(t, "chunks")
	return c
}

func canonJSON(b []byte) string {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return string(b)
	}
	return o.String()
}

// expectation: result, or error (nil: any text)
func (r *request) expect() (result *string, errText *string) {
	var s string
	json.Unmarshal([]byte(r.Param), &s)
	switch r.Method {
	case "T.Echo":
		return &s, nil
	case "T.Fail":
		s = "E" + s
		return nil, &s
	case "T.Late":
		s = "late " + s
		return &s, nil
	case "T.Gen":
		var n int
		json.Unmarshal([]byte(r.Param), &n)
		s = strings.Repeat("g", n)
		return &s, nil
	}
	return nil, nil
}

// compareAll checks responses against requests of the in-process service.
func compareAll(reqs []request, rs []*Response) error {
	byID := map[string]*Response{}
	for _, r := range rs {
		if byID[string(r.ID)] != nil {
			return Errf("two responses with id %s", r.ID)
		}
		byID[string(r.ID)] = r
	}
	for i := range reqs {
		q := &reqs[i]
		r := byID[canonJSON([]byte(q.ID))]
		if r == nil {
			return Errf("request %d of %d bytes with id %s (%s) has no response", i, len(q.body()), q.ID, q.Method)
		}
		result, errText := q.expect()
		if result == nil {
			if !r.Failed() {
				return Errf("request %d (%s): result %s instead of an error", i, q.Method, Short(r.Result))
			}
			if errText != nil && r.ErrText() != *errText {
				return Errf("request %d (%s): error %q, expected %q", i, q.Method, r.ErrText(), *errText)
			}
			if errText == nil && r.ErrText() == "" {
				return Errf("request %d (%s): empty error text", i, q.Method)
			}
			continue
		}
		if r.Failed() {
			return Errf("request %d (%s): error %q", i, q.Method, r.ErrText())
		}
		var s *string
		if json.Unmarshal(r.Result, &s) != nil || s == nil || *s != *result {
			return Errf("request %d (%s): result %s, expected %s", i, q.Method, Short(r.Result), Short([]byte(*result)))
		}
	}
	if len(rs) != len(reqs) {
		return Errf("%d responses to %d requests", len(rs), len(reqs))
	}
	return nil
}

// watch tells the handlers that no more requests will come.
type watch struct {
	rpc.ServerCodec
	eof chan struct{}
	err error
}

func (w *watch) ReadRequestHeader(r *rpc.Request) error {
	err := w.ServerCodec.ReadRequestHeader(r)
	if err != nil && w.err == nil {
		w.err = err
		close(w.eof)
	}
	return err
}

func runServer(e *Env, c serverCase) error {
	var in []byte
	near := false
	for i := range c.Requests {
		b := c.Requests[i].body()
		near = near || len(b) > 500
		in = append(in, Frame(b)...)
	}
	svc := &service{eof: make(chan struct{}), calls: map[string]int{}}
	src := &ChunkReader{R: bytes.NewReader(in), Sizes: c.Chunks}
	sink := &Sink{FailAt: -1}
	srv := rpc.NewServer()
	srv.RegisterName("T", svc)
	done := make(chan struct{})
	codec := &watch{ServerCodec: webextensions.NewServerCodecSplit(src, sink, jsonrpc.NewServerCodec), eof: svc.eof}
	go func() {
		defer close(done)
		srv.ServeCodec(codec)
	}()
	select {
	case <-done:
	case <-time.After(HangLimit):
		return Hang("serve loop does not finish")
	}
	rs, err := ParseResponses(sink.B)
	if err != nil {
		return err
	}
	if codec.err != io.EOF {
		return Errf("serving is ended by %v instead of the end of input, %d responses to %d requests", codec.err, len(rs), len(c.Requests))
	}
	if !src.Closed || !sink.Closed {
		return Errf("connection is not closed at the end")
	}
	e.Nontrivial(len(c.Requests) > 1 || near)
	if near {
		e.Label("large")
	}
	if len(c.Requests) > 90 {
		e.Label("long")
	}
	return compareAll(c.Requests, rs)
}

func TestServer(t *testing.T) {
	Check(t, Prop[serverCase]{Name: "server-codec", Gen: genServer, Run: runServer})
}

// Client codec against server codec.
type call struct {
	Method string `json:"m"`
	Text   string `json:"t,omitempty"`
	N      int    `json:"n,omitempty"`
}

type clientCase struct {
	Calls []call `json:"calls"`
	// Number of concurrent callers.
	Callers int   `json:"callers"`
	Up      []int `json:"up"`
	Down    []int `json:"down"`
	UpW     []int `json:"upw"`
	DownW   []int `json:"downw"`
}

func genClient(t *rapid.T) clientCase {
	c := clientCase{}
	n := rapid.IntRange(1, 20).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := call{}
		switch Pick(t, "method", 4, 4, 2, 1) {
		case 0:
			k.Method, k.Text = "T.Echo", drawText(t)
			if Pick(t, "echo-size", 1, 1) == 1 {
				k.Method, k.N = "T.EchoN", drawSize(t)
			}
		case 1:
			k.Method, k.N = "T.Gen", drawSize(t)
			// The envelope of the response takes about 30 bytes.
			k.N = max(0, k.N-rapid.IntRange(0, 60).Draw(t, "envelope"))
		case 2:
			k.Method, k.Text = "T.Fail", drawText(t)
		case 3:
			k.Method = "T.None"
		}
		c.Calls = append(c.Calls, k)
	}
	c.Callers = rapid.IntRange(1, 8).Draw(t, "callers")
	if Rare(t, "long", 100) {
		first := len(c.Calls)
		for n := rapid.IntRange(100, 3000).Draw(t, "long-n"); len(c.Calls) < n; {
			k := c.Calls[len(c.Calls)-first]
			if k.N > 10000 {
				k.N %= 10000
			}
			c.Calls = append(c.Calls, k)
		}
		c.Callers = rapid.IntRange(1, 400).Draw(t, "many-callers")
	}
	c.Up, c.Down = DrawChunks(t, "up"), DrawChunks(t, "down")
	c.UpW, c.DownW = DrawChunks(t, "upw"), DrawChunks(t, "downw")
	return c
}

type svc2 struct{ service }

func (s *svc2) EchoN(in string, out *string) error { *out = in; return nil }

func runClient(e *Env, c clientCase) error {
	srv := rpc.NewServer()
	srv.RegisterName("T", &svc2{service{calls: map[string]int{}}})
	upR, upW := io.Pipe()
	downR, downW := io.Pipe()
	served := make(chan struct{})
	go func() {
		defer close(served)
		srv.ServeCodec(webextensions.NewServerCodecSplit(
			&ChunkReader{R: upR, Sizes: c.Up}, &ChunkWriter{W: downW, Sizes: c.DownW}, jsonrpc.NewServerCodec))
	}()
	client := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(
		&ChunkReader{R: downR, Sizes: c.Down}, &ChunkWriter{W: upW, Sizes: c.UpW}, jsonrpc.NewClientCodec))
	errs := make(chan error, c.Callers)
	for k := 0; k < c.Callers; k++ {
		go func(k int) {
			for i := k; i < len(c.Calls); i += c.Callers {
				q := c.Calls[i]
				var want, got string
				var arg interface{}
				wantErr := ""
				switch q.Method {
				case "T.Echo":
					arg, want = q.Text, q.Text
				case "T.EchoN":
					want = string(Fill(5, q.N, i))
					arg = want
				case "T.Gen":
					arg, want = q.N, strings.Repeat("g", q.N)
				case "T.Fail":
					arg, wantErr = q.Text, "E"+q.Text
				case "T.None":
					arg, wantErr = q.Text, "*"
				}
				err := client.Call(q.Method, arg, &got)
				if wantErr == "*" {
					if _, ok := err.(rpc.ServerError); !ok || err.Error() == "" {
						errs <- Errf("call %d of unknown method: error %v", i, err)
						return
					}
					continue
				}
				if wantErr != "" {
					if _, ok := err.(rpc.ServerError); !ok || err.Error() != wantErr {
						errs <- Errf("call %d (%s): error %v, expected %q", i, q.Method, err, wantErr)
						return
					}
					continue
				}
				if err != nil {
					errs <- Errf("call %d (%s, %d): %v", i, q.Method, q.N, err)
					return
				}
				if got != want {
					errs <- Errf("call %d (%s, %d): got %s, expected %s", i, q.Method, q.N, Short([]byte(got)), Short([]byte(want)))
					return
				}
			}
			errs <- nil
		}(k)
	}
	limit := time.After(HangLimit)
	var first error
	for k := 0; k < c.Callers; k++ {
		select {
		case err := <-errs:
			if first == nil {
				first = err
			}
		case <-limit:
			return Hang("a call does not return")
		}
	}
	if first != nil {
		client.Close()
		return first
	}
	if err := client.Close(); err != nil {
		return Errf("Close: %v", err)
	}
	select {
	case <-served:
	case <-limit:
		return Hang("server does not finish after the client is closed")
	}
	return nil
}

func TestClient(t *testing.T) {
	Check(t, Prop[clientCase]{Name: "client-codec", Weight: 0.5, Gen: genClient, Run: runClient})
}

// Real executables.
type processCase struct {
	Bin      string    `json:"bin"`
	Requests []request `json:"requests"`
	// Portions of the input; after each one the sender may pause.
	Chunks []int `json:"chunks"`
	Pause  bool  `json:"pause"`
}

func genProcess(t *rapid.T) processCase {
	c := processCase{Bin: rapid.SampledFrom([]string{"example_backend", "burl_backend"}).Draw(t, "bin")}
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		var r request
		drawEnvelope(t, &r, i)
		if c.Bin == "example_backend" {
			switch Pick(t, "method", 4, 2, 1) {
			case 0:
				r.Method = "example.Sqrt"
				r.Param = fmt.Sprint(rapid.IntRange(-5, 1000).Draw(t, "x"))
			case 1:
				r.Method = "example.Sleep"
				r.Param = fmt.Sprint(rapid.IntRange(0, 4).Draw(t, "ms"))
			case 2:
				r.Method, r.Param = "example.None", "1"
			}
		} else {
			switch Pick(t, "method", 3, 2, 2, 2, 1) {
			case 0:
				r.Method = "linkremark.hello"
				r.Param = `{"formats":[{"format":"org-protocol","version":` + jstr(drawText(t)) + `}]}`
			case 1: // no notes are configured
				r.Method, r.Param = "linkremark.urlMentions", `{"variants":[`+jstr(drawText(t))+`]}`
			case 2:
				r.Method, r.Param = "linkremark.linkSet", `{"prefix":["http"]}`
			case 3:
				r.Method, r.Param = "linkremark.visit", `{"file":`+jstr(drawText(t))+`}`
			case 4:
				r.Method, r.Param = "unknown", "1"
			}
		}
		c.Requests = append(c.Requests, r)
	}
	c.Requests = drawLong(t, c.Requests)
	c.Chunks = DrawChunks(t, "chunks")
	c.Pause = Pick(t, "pause", 2, 1) == 1
	return c
}

func runProcess(e *Env, c processCase) error {
	var in []byte
	for i := range c.Requests {
		in = append(in, Frame(c.Requests[i].body())...)
	}
	s := StartSession(Spec{Path: Bin(c.Bin), Ahead: len(c.Requests) + 16})
	defer s.Kill()
	for rest, i := in, 0; len(rest) > 0; i++ {
		n := min(c.Chunks[i%len(c.Chunks)], len(rest))
		if n == 0 {
			continue
		}
		if i > 60 {
			n = len(rest)
		}
		s.SendRaw(rest[:n])
		rest = rest[n:]
		if c.Pause && i < 20 {
			time.Sleep(300 * time.Microsecond)
		}
	}
	s.CloseInput()
	rs, err := s.Rest()
	if err != nil {
		return err
	}
	byID := map[string]*Response{}
	for _, r := range rs {
		if byID[string(r.ID)] != nil {
			return Errf("two responses with id %s", r.ID)
		}
		byID[string(r.ID)] = r
	}
	for i := range c.Requests {
		q := &c.Requests[i]
		r := byID[canonJSON([]byte(q.ID))]
		if r == nil {
			return Errf("request %d of %d bytes with id %s (%s) has no response", i, len(q.body()), q.ID, q.Method)
		}
		var want interface{}
		fail := false
		switch q.Method {
		case "example.Sqrt":
			var x float64
			json.Unmarshal([]byte(q.Param), &x)
			if fail = x < 0; !fail {
				want = math.Sqrt(x)
			}
		case "example.Sleep":
			json.Unmarshal([]byte(q.Param), &want)
		case "linkremark.hello":
			var p struct{ Formats []struct{ Version string } }
			json.Unmarshal([]byte(q.Param), &p)
			if fail = p.Formats[0].Version == ""; !fail {
				var res struct{ Format, Version string }
				json.Unmarshal(r.Result, &res)
				if res.Format != "org-protocol" || res.Version != p.Formats[0].Version {
					return Errf("request %d: reply %s to %s", i, Short(r.Result), q.Param)
				}
				continue
			}
		case "linkremark.linkSet": // empty set or an error without files
			if r.Failed() {
				fail = true
			} else {
				continue
			}
		default:
			fail = true
		}
		if fail != r.Failed() || (fail && r.ErrText() == "") {
			return Errf("request %d (%s %s): result %s, error %s", i, q.Method, q.Param, Short(r.Result), r.Error)
		}
		if !fail {
			var got interface{}
			json.Unmarshal(r.Result, &got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return Errf("request %d (%s %s): result %s, expected %v", i, q.Method, q.Param, Short(r.Result), want)
			}
		}
	}
	if len(rs) != len(c.Requests) {
		return Errf("%d responses to %d requests", len(rs), len(c.Requests))
	}
	e.Label(c.Bin)
	return nil
}

func TestProcess(t *testing.T) {
	Check(t, Prop[processCase]{Name: "process", Weight: 0.1, Gen: genProcess, Run: runProcess})
}
