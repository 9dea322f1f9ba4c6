package c03

import (
	"fmt"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

// The codec with handlers that finish when the harness says so.
type op struct {
	// "req": send request N; "finish": let these requests finish together;
	// "quick": a request which is answered at once.
	Op  string `json:"op"`
	N   []int  `json:"n,omitempty"`
	Len int    `json:"len,omitempty"` // length of the result
}

type holdCase struct {
	Ops    []op  `json:"ops"`
	Chunks []int `json:"chunks"`
}

// genFlood: far more requests in progress than any reasonable pool of workers.
func genFlood(t *rapid.T) holdCase {
	c := holdCase{}
	m := rapid.IntRange(65, 1500).Draw(t, "flood")
	c.Ops = append(c.Ops, op{Op: "req", N: seq(m), Len: rapid.IntRange(0, 700).Draw(t, "len")},
		op{Op: "quick", Len: drawLen(t)})
	// The last one is the first to finish, then some one by one, others together.
	open := seq(m)
	for n := rapid.IntRange(0, 8).Draw(t, "singles"); n >= 0; n-- {
		j := len(open) - 1
		if n > 0 {
			j = rapid.IntRange(0, len(open)-1).Draw(t, "which")
		}
		c.Ops = append(c.Ops, op{Op: "finish", N: []int{open[j]}})
		open = append(open[:j:j], open[j+1:]...)
	}
	c.Ops = append(c.Ops, op{Op: "finish", N: open})
	c.Chunks = DrawChunks(t, "chunks")
	return c
}

func genHold(t *rapid.T) holdCase {
	if Rare(t, "flood?", 80) {
		return genFlood(t)
	}
	c := holdCase{}
	var open []int
	next := 0
	n := rapid.IntRange(3, 40).Draw(t, "ops")
	for i := 0; i < n; i++ {
		k := Pick(t, "op", 5, 1, 4)
		if len(open) == 0 && k == 2 {
			k = 0
		}
		switch k {
		case 0:
			m := rapid.IntRange(1, 6).Draw(t, "burst")
			for j := 0; j < m; j++ {
				c.Ops = append(c.Ops, op{Op: "req", N: []int{next}, Len: drawLen(t)})
				open = append(open, next)
				next++
			}
		case 1:
			c.Ops = append(c.Ops, op{Op: "quick", Len: drawLen(t)})
		case 2:
			m := 1
			if Pick(t, "together", 2, 1) == 1 {
				m = rapid.IntRange(1, len(open)).Draw(t, "m")
			}
			o := op{Op: "finish"}
			for ; m > 0; m-- {
				j := rapid.IntRange(0, len(open)-1).Draw(t, "which")
				o.N = append(o.N, open[j])
				open = append(open[:j], open[j+1:]...)
			}
			c.Ops = append(c.Ops, o)
		}
	}
	// The rest finishes together or one by one in reverse order.
	if len(open) > 0 {
		if rapid.Bool().Draw(t, "rest") {
			c.Ops = append(c.Ops, op{Op: "finish", N: open})
		} else {
			for j := len(open) - 1; j >= 0; j-- {
				c.Ops = append(c.Ops, op{Op: "finish", N: []int{open[j]}})
			}
		}
	}
	c.Chunks = DrawChunks(t, "chunks")
	return c
}

func drawLen(t *rapid.T) int {
	if Pick(t, "len-kind", 3, 1) == 0 {
		return rapid.IntRange(0, 700).Draw(t, "len")
	}
	return rapid.IntRange(0, 70000).Draw(t, "len")
}

type heldService struct{ gates map[int]chan struct{} }

type Arg struct{ N, Len int }

func text(a Arg) string { return fmt.Sprint(a.N, ":", string(Fill(5, a.Len, a.N))) }

func (s *heldService) Hold(a Arg, out *string) error {
	if g := s.gates[a.N]; g != nil {
		<-g
	}
	*out = text(a)
	return nil
}

// frameStream parses frames of a pipe as they come.
func frameStream(r io.Reader) chan interface{} {
	ch := make(chan interface{}, 4096)
	go func() {
		defer close(ch)
		h := make([]byte, 4)
		for {
			if _, err := io.ReadFull(r, h); err != nil {
				if err != io.EOF {
					ch <- Errf("incomplete header")
				}
				return
			}
			size := int(h[0]) | int(h[1])<<8 | int(h[2])<<16 | int(h[3])<<24
			if size > 1<<24 {
				ch <- Errf("header %q announces %d bytes", h, size)
				return
			}
			b := make([]byte, size)
			if n, err := io.ReadFull(r, b); err != nil {
				ch <- Errf("frame of %d bytes has %d", size, n)
				return
			}
			p, err := ParseResponse(b)
			if err != nil {
				ch <- err
				return
			}
			ch <- p
		}
	}()
	return ch
}

// expectSet waits for exactly these answers in any order.
func expectSet(ch chan interface{}, want map[string]string) error {
	for len(want) > 0 {
		select {
		case x, ok := <-ch:
			if !ok {
				return Errf("output is closed, still expected %d answers", len(want))
			}
			if err, ok := x.(error); ok {
				return err
			}
			r := x.(*Response)
			w, ok := want[string(r.ID)]
			if !ok {
				return Errf("response with id %s comes although the handler has not finished or it is answered already", r.ID)
			}
			if r.Failed() || string(r.Result) != Quoted(w) {
				return Errf("response %s: %s error %s, expected %s", r.ID, Short(r.Result), r.Error, Short([]byte(w)))
			}
			delete(want, string(r.ID))
		case <-time.After(HangLimit):
			var ids []string
			for k := range want {
				ids = append(ids, k)
			}
			return Hang("no response to requests %v while others are in progress", ids)
		}
	}
	return nil
}

func runHold(e *Env, c holdCase) error {
	svc := &heldService{map[int]chan struct{}{}}
	lens := map[int]int{}
	for _, o := range c.Ops {
		if o.Op == "req" {
			for _, n := range o.N {
				svc.gates[n] = make(chan struct{})
				lens[n] = o.Len
			}
		}
	}
	released := map[int]bool{}
	inR, inW := io.Pipe()
	outR, outW := io.Pipe()
	srv := rpc.NewServer()
	if err := srv.RegisterName("T", svc); err != nil {
		Infra("%v", err)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		srv.ServeCodec(webextensions.NewServerCodecSplit(&ChunkReader{R: inR, Sizes: c.Chunks},
			&ChunkWriter{W: outW, Sizes: c.Chunks}, jsonrpc.NewServerCodec))
	}()
	defer func() {
		for n, g := range svc.gates {
			if !released[n] {
				close(g)
			}
		}
		inW.Close()
		outR.Close()
		<-done
	}()
	ch := frameStream(outR)
	send := func(n, l int) error {
		sent := make(chan error, 1)
		go func() {
			_, err := inW.Write(Frame(Request(n, "T.Hold", Arg{n, l})))
			sent <- err
		}()
		select {
		case err := <-sent:
			if err != nil {
				return Errf("request %d is not accepted: %v", n, err)
			}
		case <-time.After(HangLimit):
			return Hang("request %d is not read while other ones are in progress", n)
		}
		return nil
	}
	quick := 1000000
	pending, max := 0, 0
	for _, o := range c.Ops {
		want := map[string]string{}
		switch o.Op {
		case "req":
			for _, n := range o.N {
				if err := send(n, o.Len); err != nil {
					return err
				}
				pending++
			}
			if pending > max {
				max = pending
			}
			if pending > 64 {
				e.Label("flood")
			}
		case "quick":
			quick++
			if err := send(quick, o.Len); err != nil {
				return err
			}
			want[fmt.Sprint(quick)] = text(Arg{quick, o.Len})
			if pending > 0 {
				e.Label("quick-while-pending")
			}
		case "finish":
			for _, n := range o.N {
				want[fmt.Sprint(n)] = text(Arg{n, lens[n]})
				released[n] = true
				close(svc.gates[n])
				pending--
			}
			if len(o.N) > 1 {
				e.Label("finish-together")
			}
		}
		if err := expectSet(ch, want); err != nil {
			return err
		}
	}
	inW.Close()
	for x := range ch {
		return Errf("extra output %v", x)
	}
	e.Nontrivial(max > 1)
	return nil
}

func TestHold(t *testing.T) {
	Check(t, Prop[holdCase]{Name: "codec", Gen: genHold, Run: runHold})
}

// The backend with Emacs commands that finish when the harness says so.
type backendCase struct {
	Held  []string `json:"held"`  // kinds of the held requests: visit, capture, frame (held earlier), mentions
	Order []int    `json:"order"` // order of their completion
	Quick []string `json:"quick"` // requests answered while the others are held
	Fifo  bool     `json:"fifo"`  // loading of a note file is held as well
	// A linkSet request is held in the same way, the file is replaced after
	// that by an ordinary one.
	FifoSet bool `json:"fifoSet,omitempty"`
}

func genBackend(t *rapid.T) backendCase {
	c := backendCase{}
	n := rapid.IntRange(1, 7).Draw(t, "n")
	if Rare(t, "many", 40) {
		n = rapid.IntRange(20, 80).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		c.Held = append(c.Held, rapid.SampledFrom([]string{"visit", "capture"}).Draw(t, "kind"))
	}
	switch Pick(t, "fifo", 2, 1, 1) {
	case 1:
		c.Fifo = true
	case 2:
		c.FifoSet = true
	}
	perm := rapid.Permutation(seq(n)).Draw(t, "order")
	c.Order = perm
	kinds := []string{"hello", "mentions", "linkSet", "unknown", "visit", "capture", "visit-refused", "linkSet-refused", "mentions-refused"}
	if c.FifoSet {
		kinds = append(kinds, "linkSet", "linkSet-refused", "mentions")
	}
	c.Quick = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 4).Draw(t, "quick")
	return c
}

func seq(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func runBackend(e *Env, c backendCase) error {
	dir := e.Scratch()
	stub := e.NewStub()
	args := []string{"-emacsclient", Bin("stub")}
	plan := StubPlan{Hold: map[string]string{}, ByArg: map[string]StubOutcome{}}
	gate := func(i int) string { return filepath.Join(dir, fmt.Sprintf("gate%d", i)) }
	note := func(i int) string { return filepath.Join(dir, fmt.Sprintf("note%d.txt", i)) }
	uri := func(i int) string { return fmt.Sprintf("org-protocol:/capture?n=%d", i) }
	for i, k := range c.Held {
		e.Write(fmt.Sprintf("note%d.txt", i), []byte(fmt.Sprintf("http://example.org/%d\n", i)))
		args = append(args, "-txt", note(i))
		if k == "visit" {
			plan.Hold[note(i)] = gate(i)
		} else {
			plan.Hold[uri(i)] = gate(i)
		}
	}
	e.Write("free.txt", []byte("http://example.org/free\n"))
	args = append(args, "-txt", filepath.Join(dir, "free.txt"))
	fifo := filepath.Join(dir, "fifo.txt")
	var hold *os.File
	if c.Fifo || c.FifoSet {
		if err := syscall.Mkfifo(fifo, 0644); err != nil {
			Infra("mkfifo: %v", err)
		}
		f, err := os.OpenFile(fifo, os.O_RDWR, 0)
		if err != nil {
			Infra("fifo: %v", err)
		}
		hold = f
		defer f.Close()
		args = append(args, "-txt", fifo)
	}
	stub.SetPlan(plan)
	s := StartSession(Spec{Path: Bin("burl_backend"), Args: args, Env: []string{stub.Env()}})
	defer s.Kill()
	defer func() {
		for i := range c.Held {
			os.WriteFile(gate(i), nil, 0644)
		}
	}()
	method := map[string]string{"visit": "linkremark.visit", "capture": "linkremark.capture"}
	if c.Fifo {
		s.Send(MentionsRequest("load", []string{"http://example.org/late"}, nil))
	}
	if c.FifoSet {
		s.Send(Request("set", "linkremark.linkSet", map[string]interface{}{"prefix": []string{"http:"}}))
		if err := waitOpen(s.Pid(), fifo); err != nil {
			return err
		}
		if err := os.Rename(e.Write("new.txt", []byte("http://example.org/new\n")), fifo); err != nil {
			Infra("%v", err)
		}
	}
	for i, k := range c.Held {
		if k == "visit" {
			s.Send(Request(i, method[k], map[string]interface{}{"file": note(i)}))
		} else {
			s.Send(Request(i, method[k], map[string]interface{}{"format": "org-protocol", "data": map[string]string{"url": uri(i)}}))
		}
	}
	get := func(id string) (*Response, error) {
		r, err := s.Recv()
		if err != nil {
			return nil, err
		}
		if string(r.ID) != id {
			return nil, Errf("response %s instead of %s", r.ID, id)
		}
		return r, nil
	}
	for j, k := range c.Quick {
		id := 1000 + j
		ok := true
		switch k {
		case "hello":
			s.Send(Request(id, "hello", map[string]interface{}{"formats": []interface{}{map[string]string{"format": "org-protocol", "version": "0.2"}}}))
		case "mentions":
			if c.Fifo { // waits for loading by definition
				continue
			}
			s.Send(MentionsRequest(id, []string{"http://example.org/free"}, nil))
		case "linkSet":
			if c.Fifo {
				continue
			}
			s.Send(Request(id, "linkremark.linkSet", map[string]interface{}{"prefix": []string{"http"}}))
		case "linkSet-refused":
			s.Send(Request(id, "linkremark.linkSet", map[string]interface{}{"prefix": []string{}}))
			ok = false
		case "mentions-refused":
			s.Send(MentionsRequest(id, []string{""}, nil))
			ok = false
		case "unknown":
			s.Send(Request(id, "linkremark.none", 1))
			ok = false
		case "visit":
			s.Send(Request(id, "linkremark.visit", map[string]interface{}{"file": filepath.Join(dir, "free.txt")}))
		case "visit-refused":
			s.Send(Request(id, "linkremark.visit", map[string]interface{}{"file": "/nonexistent"}))
			ok = false
		case "capture":
			s.Send(Request(id, "linkremark.capture", map[string]interface{}{"format": "org-protocol", "data": map[string]string{"url": "org-protocol:/free"}}))
		}
		r, err := get(fmt.Sprint(id))
		if err != nil {
			return Errf("%s while %d requests are in progress: %w", k, len(c.Held), err)
		}
		if r.Failed() == ok {
			return Errf("%s: error %s", k, r.Error)
		}
		if k == "linkSet" && c.FifoSet && (!strings.Contains(string(r.Result), `"http://example.org/new"`) || !strings.Contains(string(r.Result), `"http://example.org/free"`)) {
			return Errf("%s: %s", k, Short(r.Result))
		}
	}
	for n, i := range c.Order {
		if err := os.WriteFile(gate(i), nil, 0644); err != nil {
			Infra("%v", err)
		}
		r, err := get(fmt.Sprint(i))
		if err != nil {
			return Errf("%s %d is finished as number %d: %w", c.Held[i], i, n, err)
		}
		if r.Failed() {
			return Errf("%s %d: %s", c.Held[i], i, r.Error)
		}
	}
	if c.Fifo {
		// The backend opens the file at some moment, the content waits there.
		if _, err := hold.WriteString("http://example.org/late\n"); err != nil {
			Infra("fifo: %v", err)
		}
		// It must have been opened before the writing side is closed.
		if err := waitOpen(s.Pid(), fifo); err != nil {
			return err
		}
		hold.Close()
		r, err := get(`"load"`)
		if err != nil {
			return err
		}
		if r.Failed() || !strings.Contains(string(r.Result), "http://example.org/late") {
			return Errf("held mentions: %s %s", Short(r.Result), r.Error)
		}
		e.Label("held-loading")
	}
	if c.FifoSet {
		if _, err := hold.WriteString("http://example.org/late\n"); err != nil {
			Infra("fifo: %v", err)
		}
		hold.Close()
		r, err := get(`"set"`)
		if err != nil {
			return err
		}
		if r.Failed() || !strings.Contains(string(r.Result), `"http://example.org/late"`) || strings.Contains(string(r.Result), `"http://example.org/new"`) {
			return Errf("held linkSet: %s %s", Short(r.Result), r.Error)
		}
		e.Label("held-linkSet")
	}
	if len(c.Held) > 10 {
		e.Label("many-held")
	}
	e.Nontrivial(len(c.Held) > 1 || c.Fifo || c.FifoSet)
	return s.CloseClean()
}

// waitOpen waits until the process has the file open.
func waitOpen(pid int, name string) error {
	end := time.Now().Add(HangLimit)
	for time.Now().Before(end) {
		fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
		for _, f := range fds {
			if l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name())); l == name {
				return nil
			}
		}
		time.Sleep(2 * time.Millisecond)
	}
	return Hang("%s is not opened", name)
}

func TestBackend(t *testing.T) {
	Check(t, Prop[backendCase]{Name: "backend", Weight: 0.15, Gen: genBackend, Run: runBackend})
}

// The example server: quick requests overtake sleeping ones.
type sleepCase struct {
	Long  int   `json:"long"`
	Quick []int `json:"quick"`
}

func runSleep(e *Env, c sleepCase) error {
	s := StartSession(Spec{Path: Bin("example_backend")})
	defer s.Kill()
	for i := 0; i < c.Long; i++ {
		s.Send(Request(fmt.Sprint("long", i), "example.Sleep", 10000000))
	}
	for _, q := range c.Quick {
		r, err := s.Call("example.Sqrt", q*q)
		if err != nil {
			return Errf("while %d requests are in progress: %w", c.Long, err)
		}
		if string(r.Result) != fmt.Sprint(q) {
			return Errf("Sqrt(%d): %s %s", q*q, r.Result, r.Error)
		}
	}
	return nil
}

func TestSleep(t *testing.T) {
	Check(t, Prop[sleepCase]{Name: "example", Weight: 0.05, Run: runSleep,
		Gen: func(t *rapid.T) sleepCase {
			long := rapid.IntRange(1, 20).Draw(t, "long")
			if Rare(t, "flood", 30) {
				long = rapid.IntRange(65, 1500).Draw(t, "long")
			}
			return sleepCase{long, rapid.SliceOfN(rapid.IntRange(0, 50), 1, 6).Draw(t, "quick")}
		}})
}
