package hx

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"pgregory.net/rapid"
)

// Commands of Emacs that take a long time: however long it is, the reply
// waits for their real outcome.

type Slow struct {
	Method string `json:"method"` // visit or capture
	Sleep  []int  `json:"sleep"`  // of commands, seconds
	Fail   int    `json:"fail"`   // number of the command that fails, or -1
	EOF    bool   `json:"eof"`    // the input ends while the request is pending
	Other  bool   `json:"other"`  // another request meanwhile
}

type SlowCase struct {
	Sessions []Slow `json:"sessions"`
}

func DrawSlow(t *rapid.T, methods []string, eof bool) (c SlowCase) {
	for _, d := range []int{6, 11, 21, 31, 31, 36} {
		s := Slow{Method: rapid.SampledFrom(methods).Draw(t, "method"), Fail: -1, EOF: eof}
		n := 2
		if s.Method == "capture" {
			n = 3
		}
		s.Sleep = make([]int, n)
		s.Sleep[rapid.IntRange(0, n-1).Draw(t, "slow command")] = d
		if Pick(t, "fail", 2, 1) == 1 {
			s.Fail = rapid.IntRange(0, n-1).Draw(t, "failing")
		}
		s.Other = rapid.Bool().Draw(t, "other")
		c.Sessions = append(c.Sessions, s)
	}
	return
}

func runSlow(s *Session, x Slow, file string) error {
	name := fmt.Sprintf("%+v", x)
	param := map[string]interface{}{"file": file, "lineNo": 1}
	if x.Method == "capture" {
		param = map[string]interface{}{"format": "org-protocol", "version": "0.2", "data": map[string]string{"url": "org-protocol:/x"}}
	}
	start := time.Now()
	s.Send(Request("slow", "linkremark."+x.Method, param))
	if x.Other {
		s.Send(Request("other", "hello", map[string]interface{}{"formats": []interface{}{}}))
		r, err := s.Recv()
		if err != nil {
			return fmt.Errorf("%s: another request: %w", name, err)
		}
		if string(r.ID) != `"other"` {
			return Errf("%s: reply %s %s %s, the other request is expected to be first", name, r.ID, r.Result, r.ErrText())
		}
	}
	if x.EOF {
		s.CloseInput()
	}
	sum := 0
	for i, d := range x.Sleep {
		sum += d
		if i == x.Fail {
			break
		}
	}
	r, err := s.Recv()
	if err != nil {
		return fmt.Errorf("%s: %w", name, err)
	}
	if string(r.ID) != `"slow"` || r.Failed() != (x.Fail >= 0) {
		return Errf("%s: reply %s %s %s", name, r.ID, r.Result, r.ErrText())
	}
	// The outcome can not be known earlier.
	if d := time.Since(start); d < time.Duration(sum)*time.Second-500*time.Millisecond {
		return Errf("%s: reply after %v", name, d)
	}
	return s.CloseClean()
}

func RunSlow(e *Env, c SlowCase) error {
	file := e.Write("notes.org", []byte("* Heading\nhttps://example.org/0\n"))
	result := make(chan error, len(c.Sessions))
	var sessions []*Session
	for i, x := range c.Sessions {
		stub := &Stub{filepath.Join(e.Scratch(), fmt.Sprintf("stub%d", i))}
		must(os.MkdirAll(stub.Dir, 0755))
		p := StubPlan{}
		for k, d := range x.Sleep {
			o := StubOutcome{Sleep: d * 1000, Out: "org-protocol\n"}
			if k == x.Fail {
				o.Exit = 1
			}
			p.Calls = append(p.Calls, o)
		}
		stub.SetPlan(p)
		s := StartSession(Spec{Path: Bin("burl_backend"), Dir: e.Scratch(), Env: []string{stub.Env()}, Args: []string{"-emacsclient", Bin("stub"), "-org", file}})
		defer s.Kill()
		sessions = append(sessions, s)
		x := x
		go func() { result <- runSlow(s, x, file) }()
	}
	var first error
	for range c.Sessions {
		if err := <-result; err != nil && first == nil {
			first = err
			for _, s := range sessions {
				s.Abort()
			}
		}
	}
	if first != nil {
		return first
	}
	e.Nontrivial(true)
	return nil
}
