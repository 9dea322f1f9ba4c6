package c30

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type request struct {
	Kind string `json:"kind"` // hello, mentions, set, capture, visit, unknown, bad
	Size int    `json:"size"` // of the parameter
	Wait bool   `json:"wait"` // for all replies before the next one
}

type leaveCase struct {
	Bin     string    `json:"bin"`
	Links   int       `json:"links"` // in the note file
	Log     string    `json:"log"`
	Sleep   int       `json:"sleep"` // of emacsclient, ms
	Before  []request `json:"before"`
	Pause   int       `json:"pause"`  // ms
	Unread  bool      `json:"unread"` // replies to requests After are not read
	After   []request `json:"after"`
	Leave   string    `json:"leave"`   // in, out, in+out, out+in, kill
	Cut     int       `json:"cut"`     // bytes of one more frame
	CutSize int       `json:"cutSize"` // body of that frame
}

func genRequests(t *rapid.T, label string, bin string, n int, wait bool) (l []request) {
	for i := rapid.IntRange(0, n).Draw(t, label); i > 0; i-- {
		r := request{Wait: wait && Pick(t, "wait", 1, 1) == 1}
		if bin == "burl_backend" {
			r.Kind = rapid.SampledFrom([]string{"hello", "mentions", "mentions", "set", "set", "capture", "visit", "unknown", "bad"}).Draw(t, "kind")
		} else {
			r.Kind = rapid.SampledFrom([]string{"sqrt", "sleep", "unknown", "bad"}).Draw(t, "kind")
		}
		r.Size = rapid.SampledFrom([]int{0, 0, 0, 100, 480, 4096, 20000, 70000}).Draw(t, "size")
		l = append(l, r)
	}
	return
}

func gen(t *rapid.T) leaveCase {
	c := leaveCase{Bin: rapid.SampledFrom([]string{"burl_backend", "burl_backend", "burl_backend", "example_backend"}).Draw(t, "bin")}
	c.Links = rapid.SampledFrom([]int{1, 3, 50, 1500}).Draw(t, "links")
	c.Log = rapid.SampledFrom([]string{"", "-", "file"}).Draw(t, "log")
	c.Sleep = rapid.SampledFrom([]int{0, 0, 5, 40}).Draw(t, "sleep")
	c.Before = genRequests(t, "before", c.Bin, 6, true)
	c.Pause = rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "pause")
	c.After = genRequests(t, "after", c.Bin, 8, false)
	c.Leave = rapid.SampledFrom([]string{"in", "in", "out", "in+out", "out+in", "term"}).Draw(t, "leave")
	c.Unread = c.Leave != "in" && Pick(t, "unread", 1, 1) == 1
	if Pick(t, "cut", 1, 1) == 1 && !strings.HasPrefix(c.Leave, "out") {
		c.CutSize = rapid.SampledFrom([]int{0, 1, 60, 511, 512, 513, 4096, 100000}).Draw(t, "cut-size")
		c.Cut = rapid.IntRange(1, c.CutSize+3).Draw(t, "cut-at")
	}
	return c
}

const link = "https://example.org/some/long/path/of/the/document/"

func (r *request) render(id int, note string) []byte {
	pad := strings.Repeat("p", r.Size)
	switch r.Kind {
	case "hello":
		return Request(id, "linkremark.hello", map[string]interface{}{"formats": []map[string]string{{"format": "org-protocol", "version": "0.2" + pad}}})
	case "mentions":
		return Request(id, "linkremark.urlMentions", map[string]interface{}{"variants": []string{link + "0", "https://a.b/" + pad}, "options": map[string]int{"countLimit": 100000}})
	case "set":
		return Request(id, "linkremark.linkSet", map[string]interface{}{"prefix": []string{"https", "mid:" + pad}})
	case "capture":
		return Request(id, "linkremark.capture", map[string]interface{}{"format": "org-protocol", "version": "0.2", "data": map[string]string{"url": "org-protocol:/capture?body=" + pad}})
	case "visit":
		return Request(id, "linkremark.visit", map[string]interface{}{"file": note, "lineNo": 1 + r.Size})
	case "sqrt":
		return Request(id, "example.Sqrt", r.Size)
	case "sleep":
		return Request(id, "example.Sleep", r.Size%7)
	case "bad":
		return Request(id, "linkremark.hello", []string{pad})
	}
	return Request(id, "unknown"+pad, 1)
}

// reader collects output.
type reader struct {
	mu  sync.Mutex
	buf bytes.Buffer
	new chan struct{}
	end chan struct{}
}

func (r *reader) run(f *os.File) {
	defer close(r.end)
	b := make([]byte, 65536)
	for {
		n, err := f.Read(b)
		r.mu.Lock()
		r.buf.Write(b[:n])
		r.mu.Unlock()
		select {
		case r.new <- struct{}{}:
		default:
		}
		if err != nil {
			return
		}
	}
}

// frames splits the output, rest is an incomplete frame.
func (r *reader) frames() (l [][]byte, rest int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	b := r.buf.Bytes()
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if len(b)-4 < n {
			break
		}
		l = append(l, b[4:4+n])
		b = b[4+n:]
	}
	return l, len(b)
}

func run(e *Env, c leaveCase) error {
	var note bytes.Buffer
	for i := 0; i < c.Links; i++ {
		fmt.Fprintf(&note, "* Heading %d\n[[%s%d]]\n", i, link, i%2*i)
	}
	file := e.Write("notes.org", note.Bytes())
	stub := e.NewStub()
	o := StubOutcome{Out: "org-protocol\n", Sleep: c.Sleep}
	plan := StubPlan{}
	for i := 0; i < 3*(len(c.Before)+len(c.After)); i++ {
		plan.Calls = append(plan.Calls, o)
	}
	stub.SetPlan(plan)
	cmd := exec.Command(Bin(c.Bin))
	cmd.Dir = e.Scratch()
	cmd.Env = append(BaseEnv(), stub.Env())
	if c.Bin == "burl_backend" {
		cmd.Args = append(cmd.Args, "-org", file, "-emacsclient", Bin("stub"))
		switch c.Log {
		case "-":
			cmd.Args = append(cmd.Args, "-log", "-")
		case "file":
			cmd.Args = append(cmd.Args, "-log", e.Scratch()+"/log")
		}
	}
	childIn, in, err := os.Pipe()
	if err != nil {
		Infra("%v", err)
	}
	out, childOut, err := os.Pipe()
	if err != nil {
		Infra("%v", err)
	}
	defer in.Close()
	defer out.Close()
	cmd.Stdin, cmd.Stdout = childIn, childOut
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.WaitDelay = 10 * time.Second
	for try := 0; ; try++ {
		if err = cmd.Start(); err == nil {
			break
		} else if try > 100 {
			Infra("start: %v", err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	childIn.Close()
	childOut.Close()
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	defer cmd.Process.Kill()
	rd := &reader{new: make(chan struct{}, 1), end: make(chan struct{})}
	reading := make(chan struct{})
	go func() {
		defer close(reading)
		rd.run(out)
	}()

	status := func(err error) string {
		tail := stderr.String()
		if len(tail) > 600 {
			tail = tail[len(tail)-600:]
		}
		return fmt.Sprintf("%v; stderr: %s", err, tail)
	}
	sent := 0
	await := func(what string) error {
		limit := time.After(HangLimit)
		for {
			l, _ := rd.frames()
			if len(l) >= sent {
				return nil
			}
			select {
			case <-rd.new:
			case err := <-ended:
				if l, _ := rd.frames(); len(l) < sent {
					return Errf("%s: the backend has ended: %s", what, status(err))
				}
				return Errf("%s: the backend has ended, its input is open: %s", what, status(err))
			case <-limit:
				return Hang("%s: %d replies of %d", what, len(l), sent)
			}
		}
	}
	// Writes are done from another goroutine, since the backend may stop reading.
	var queue = make(chan []byte, 100)
	written := make(chan struct{})
	go func() {
		defer close(written)
		for b := range queue {
			in.Write(b)
		}
	}()
	closed := false
	finish := func() {
		if !closed {
			closed = true
			close(queue)
		}
	}
	defer finish()
	for i := range c.Before {
		queue <- Frame(c.Before[i].render(sent, file))
		sent++
		if c.Before[i].Wait {
			if err := await(fmt.Sprintf("request %d", i)); err != nil {
				return err
			}
		}
	}
	if err := await("requests"); err != nil {
		return err
	}
	time.Sleep(time.Duration(c.Pause) * time.Millisecond)
	// Still in service.
	ping := request{Kind: "hello"}
	if c.Bin != "burl_backend" {
		ping.Kind = "sqrt"
	}
	queue <- Frame(ping.render(sent, file))
	sent++
	if err := await("after a pause"); err != nil {
		return err
	}
	select {
	case err := <-ended:
		return Errf("the backend has ended, its input is open: %s", status(err))
	default:
	}
	// The browser leaves.
	if c.Unread {
		// The reader is stopped, so some replies may stay in the pipe.
		out.SetReadDeadline(time.Now())
		<-reading
	}
	for i := range c.After {
		queue <- Frame(c.After[i].render(sent, file))
		sent++
	}
	if c.Cut > 0 {
		queue <- append(binary.LittleEndian.AppendUint32(nil, uint32(c.CutSize)), bytes.Repeat([]byte(" "), c.CutSize)...)[:c.Cut]
	}
	limit := time.After(HangLimit)
	closeIn := func() error {
		finish()
		if c.Unread {
			// Nobody reads, so only a part of requests may have been accepted.
			select {
			case <-written:
			case <-time.After(20 * time.Millisecond):
			}
		} else {
			select {
			case <-written:
			case <-limit:
				return Hang("requests are not read")
			}
		}
		in.Close()
		return nil
	}
	closeOut := func() {
		if !c.Unread {
			out.SetReadDeadline(time.Now())
			<-reading
		}
		out.Close()
	}
	switch c.Leave {
	case "in":
		if err := closeIn(); err != nil {
			return err
		}
	case "out":
		closeOut()
		// A reply that can not be delivered.
		queue <- Frame(ping.render(sent, file))
	case "in+out":
		if err := closeIn(); err != nil {
			return err
		}
		closeOut()
	case "out+in":
		closeOut()
		if err := closeIn(); err != nil {
			return err
		}
	case "term":
		cmd.Process.Signal(syscall.SIGTERM)
	}
	select {
	case err = <-ended:
	case <-limit:
		return Hang("the backend has not ended after leaving (%s)", c.Leave)
	}
	if strings.Contains(stderr.String(), "goroutine ") || strings.Contains(stderr.String(), "panic: ") {
		return Errf("crash: %s", status(err))
	}
	if c.Leave == "in" {
		if err != nil && c.Cut == 0 {
			return Errf("after the end of input: %s", status(err))
		}
		select {
		case <-rd.end:
		case <-limit:
			return Hang("output is not closed")
		}
	}
	in.Close()
	l, rest := rd.frames()
	seen := map[int]bool{}
	for _, f := range l {
		r, err := ParseResponse(f)
		if err != nil {
			return err
		}
		var id int
		if json.Unmarshal(r.ID, &id) != nil || id < 0 || id > sent || seen[id] {
			return Errf("unexpected reply %s", Short(f))
		}
		seen[id] = true
	}
	if c.Leave == "in" {
		if rest != 0 {
			return Errf("%d bytes of an incomplete reply at the end", rest)
		}
		if len(l) != sent {
			return Errf("%d replies to %d requests; %s", len(l), sent, status(err))
		}
	}
	e.Label(c.Leave)
	if c.Unread {
		e.Label("unread")
	}
	if c.Cut > 0 {
		e.Label("cut")
	}
	e.Nontrivial(len(c.After) > 0)
	return nil
}

func TestLeave(t *testing.T) {
	Check(t, Prop[leaveCase]{Name: "leave", Gen: gen, Run: run})
}

// Long pauses, several sessions at once.
type idle struct {
	Bin   string `json:"bin"`
	Log   bool   `json:"log"`
	First bool   `json:"first"` // a request before the pause
	Cut   int    `json:"cut"`   // bytes of the next frame are sent before the pause
	Pause int    `json:"pause"` // s
	// Number of requests whose replies are not read until the end of the pause.
	Unread int `json:"unread,omitempty"`
}

type idleCase struct {
	Sessions []idle `json:"sessions"`
}

func genIdle(t *rapid.T) (c idleCase) {
	for _, p := range []int{8, 16, 32, 32, 65, 65} {
		i := idle{Pause: p, Bin: rapid.SampledFrom([]string{"burl_backend", "burl_backend", "example_backend"}).Draw(t, "bin")}
		i.Log = rapid.Bool().Draw(t, "log")
		i.First = rapid.Bool().Draw(t, "first")
		i.Cut = rapid.SampledFrom([]int{0, 0, 0, 2, 4, 30}).Draw(t, "cut")
		if Pick(t, "unread", 2, 1) == 1 {
			i.Unread = rapid.SampledFrom([]int{1, 2, 20}).Draw(t, "unread-n")
		}
		c.Sessions = append(c.Sessions, i)
	}
	return
}

func runIdle(e *Env, c idleCase) error {
	var note bytes.Buffer
	fmt.Fprintf(&note, "* Heading\n%s0\n", link)
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&note, "* Heading %d\n[[mid:%0100d]]\n", i, i)
	}
	file := e.Write("notes.org", note.Bytes())
	result := make(chan error, len(c.Sessions))
	var sessions []*Session
	for _, i := range c.Sessions {
		spec := Spec{Path: Bin(i.Bin), Dir: e.Scratch()}
		if i.Bin == "burl_backend" {
			spec.Args = []string{"-org", file}
			if i.Log {
				spec.Args = append(spec.Args, "-log", "-")
			}
		}
		if i.Unread > 0 {
			spec.Lag = time.Duration(i.Pause) * time.Second
		}
		s := StartSession(spec)
		defer s.Kill()
		sessions = append(sessions, s)
		i := i
		go func() {
			result <- func() error {
				ping := []request{{Kind: "sqrt"}}
				if i.Bin == "burl_backend" {
					ping = []request{{Kind: "mentions"}, {Kind: "hello"}}
				}
				id := 0
				next := func() error {
					r, err := s.Recv()
					if err != nil {
						return fmt.Errorf("%+v, request %d: %w", i, id, err)
					}
					if string(r.ID) != fmt.Sprint(id) || r.Failed() {
						return Errf("%+v, request %d: %s %s", i, id, r.ID, r.ErrText())
					}
					id++
					return nil
				}
				if i.Unread > 0 {
					many := request{Kind: "sqrt"}
					if i.Bin == "burl_backend" {
						many.Kind = "set"
					}
					for k := 0; k < i.Unread; k++ {
						s.Send(many.render(1000+k, file))
					}
					time.Sleep(time.Duration(i.Pause) * time.Second)
					seen := map[string]bool{}
					for k := 0; k < i.Unread; k++ {
						r, err := s.Recv()
						if err != nil {
							return fmt.Errorf("%+v, %d replies of %d are read: %w", i, k, i.Unread, err)
						}
						if r.Failed() || many.Kind == "set" && len(r.Result) < 300000 || seen[string(r.ID)] {
							return Errf("%+v: %s %s %s", i, r.ID, Short(r.Result), r.ErrText())
						}
						seen[string(r.ID)] = true
					}
					return s.CloseClean()
				}
				if i.First {
					s.Send(ping[0].render(id, file))
					if err := next(); err != nil {
						return err
					}
				}
				b := Frame(ping[len(ping)-1].render(id, file))
				s.SendRaw(b[:i.Cut])
				if err := s.Quiet(time.Duration(i.Pause) * time.Second); err != nil {
					return fmt.Errorf("%+v: %w", i, err)
				}
				s.SendRaw(b[i.Cut:])
				if err := next(); err != nil {
					return err
				}
				s.Send(ping[0].render(id, file))
				if err := next(); err != nil {
					return err
				}
				return s.CloseClean()
			}()
		}()
	}
	var first error
	for range c.Sessions {
		if err := <-result; err != nil && first == nil {
			first = err
			for _, s := range sessions {
				s.Abort()
			}
		}
	}
	if first != nil {
		return first
	}
	e.Nontrivial(true)
	return nil
}

func TestIdle(t *testing.T) {
	Check(t, Prop[idleCase]{Name: "idle", Weight: 0.0003, Gen: genIdle, Run: runIdle})
}

func TestSlow(t *testing.T) {
	Check(t, Prop[SlowCase]{Name: "slow", Weight: 0.0003, Gen: func(t *rapid.T) SlowCase { return DrawSlow(t, []string{"visit", "capture"}, true) }, Run: RunSlow})
}
