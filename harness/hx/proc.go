package hx

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Spec describes a process to run.
type Spec struct {
	Path  string
	Args  []string
	Dir   string
	Env   []string // added to BaseEnv
	Stdin []byte
	// Without the inherited base environment.
	CleanEnv bool
	// Standard output of RunProc is this device.
	Stdout string
	// Number of frames a session receives ahead, if more than usual.
	Ahead int
	// Output of a session is not read before.
	Lag time.Duration
	// Limit of open files.
	NoFile int
}

type Exit struct {
	Stdout, Stderr []byte
	Code           int
	Signal         syscall.Signal // 0 if none
}

func (x *Exit) Status() string {
	if x.Signal != 0 {
		return "killed by " + x.Signal.String()
	}
	return fmt.Sprintf("exit status %d", x.Code)
}

// Crashed tells whether the process died of a Go panic or signal.
func (x *Exit) Crashed() bool {
	return x.Signal != 0 || (x.Code == 2 && (bytes.Contains(x.Stderr, []byte("panic:")) ||
		bytes.Contains(x.Stderr, []byte("fatal error:"))))
}

// Tail is the interesting part of standard error.
func (x *Exit) Tail() string {
	s := string(x.Stderr)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func BaseEnv() []string {
	return []string{"PATH=/usr/local/bin:/usr/bin:/bin", "LANG=C.UTF-8", "HOME=/nonexistent", "GOTRACEBACK=single"}
}

func command(s Spec) *exec.Cmd {
	cmd := exec.Command(s.Path, s.Args...)
	if s.NoFile > 0 {
		cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d || exit 99; exec \"$@\"", s.NoFile), "sh", s.Path}, s.Args...)...)
	}
	cmd.Dir = s.Dir
	if !s.CleanEnv {
		cmd.Env = BaseEnv()
	}
	cmd.Env = append(cmd.Env, s.Env...)
	return cmd
}

func start(cmd *exec.Cmd) {
	for try := 0; ; try++ {
		err := cmd.Start()
		if err == nil {
			return
		}
		if errors.Is(err, syscall.ETXTBSY) && try < 100 {
			time.Sleep(10 * time.Millisecond)
			continue
		}
		Infra("start %s: %v", cmd.Path, err)
	}
}

func exitOf(cmd *exec.Cmd, err error) *Exit {
	x := &Exit{}
	if cmd.ProcessState == nil {
		Infra("wait %s: %v", cmd.Path, err)
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		x.Signal = ws.Signal()
		x.Code = -1
	} else {
		x.Code = ws.ExitStatus()
	}
	return x
}

// RunProc runs a process to its end.
func RunProc(s Spec) (*Exit, error) {
	cmd := command(s)
	var out, errb bytes.Buffer
	cmd.Stdin = bytes.NewReader(s.Stdin)
	cmd.Stdout, cmd.Stderr = &out, &errb
	if s.Stdout != "" {
		f, err := os.OpenFile(s.Stdout, os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	cmd.WaitDelay = 10 * time.Second
	for try := 0; ; try++ {
		err := cmd.Start()
		if err == nil {
			break
		}
		if errors.Is(err, syscall.ETXTBSY) && try < 100 {
			time.Sleep(10 * time.Millisecond)
			c2 := command(s)
			c2.Stdin, c2.Stdout, c2.Stderr, c2.WaitDelay = bytes.NewReader(s.Stdin), cmd.Stdout, &errb, cmd.WaitDelay
			cmd = c2
			continue
		}
		Infra("start %s: %v", s.Path, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		x := exitOf(cmd, err)
		x.Stdout, x.Stderr = out.Bytes(), errb.Bytes()
		return x, nil
	case <-time.After(HangLimit):
		cmd.Process.Kill()
		<-done
		return nil, Hang("%s %q does not finish", s.Path, s.Args)
	}
}

// Session is an interactive native messaging session with a process.
type Session struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	frames chan frameOrErr
	errb   bytes.Buffer
	nextID int
	dead   bool
	exit   *Exit
}

type frameOrErr struct {
	body []byte
	err  error
}

func StartSession(s Spec) *Session {
	cmd := command(s)
	ses := &Session{cmd: cmd, frames: make(chan frameOrErr, max(1024, s.Ahead))}
	in, err := cmd.StdinPipe()
	must(err)
	out, w, err := os.Pipe()
	must(err)
	cmd.Stdout = w
	cmd.Stderr = &ses.errb
	cmd.WaitDelay = 10 * time.Second
	start(cmd)
	w.Close()
	ses.in = in
	go func() {
		defer out.Close()
		time.Sleep(s.Lag)
		for {
			var h [4]byte
			n, err := io.ReadFull(out, h[:])
			if err == io.EOF {
				ses.frames <- frameOrErr{nil, io.EOF}
				return
			}
			if err != nil {
				ses.frames <- frameOrErr{nil, fmt.Errorf("incomplete header at the end of output: %q", h[:n])}
				return
			}
			size := binary.LittleEndian.Uint32(h[:])
			body := &bytes.Buffer{}
			m, err := io.CopyN(body, out, int64(size))
			if err != nil {
				ses.frames <- frameOrErr{nil, fmt.Errorf("frame announces %d bytes but has %d: %s", size, m, Short(body.Bytes()))}
				return
			}
			ses.frames <- frameOrErr{body.Bytes(), nil}
		}
	}()
	return ses
}

// Send writes a frame; write errors show up as a missing response later.
func (s *Session) Send(body []byte) {
	s.in.Write(Frame(body))
}

func (s *Session) SendRaw(b []byte) { s.in.Write(b) }

// Recv returns the next response.
func (s *Session) Recv() (*Response, error) {
	select {
	case f := <-s.frames:
		if f.err != nil {
			x := s.wait()
			if x == nil {
				return nil, Hang("output is closed but the process does not finish")
			}
			return nil, fmt.Errorf("no response: %v; %s; stderr: %s", f.err, x.Status(), x.Tail())
		}
		return ParseResponse(f.body)
	case <-time.After(HangLimit):
		s.Kill()
		return nil, Hang("no response")
	}
}

// Quiet waits, it is an error if the process ends or writes something.
func (s *Session) Quiet(d time.Duration) error {
	select {
	case f := <-s.frames:
		if f.err != nil {
			x := s.wait()
			if x == nil {
				return Hang("output is closed but the process does not finish")
			}
			return fmt.Errorf("the end while the input is open: %v; %s; stderr: %s", f.err, x.Status(), x.Tail())
		}
		return fmt.Errorf("unexpected response: %s", Short(f.body))
	case <-time.After(d):
	}
	return nil
}

// Call sends a request and waits for its response (nothing else pending).
func (s *Session) Call(method string, param interface{}) (*Response, error) {
	s.nextID++
	id := s.nextID
	s.Send(Request(id, method, param))
	r, err := s.Recv()
	if err != nil {
		return nil, fmt.Errorf("%s: %w", method, err)
	}
	if string(r.ID) != fmt.Sprint(id) {
		return nil, fmt.Errorf("%s: response id %s, request id %d", method, r.ID, id)
	}
	return r, nil
}

// Ended is the status of a process that has been found finished.
func (s *Session) Ended() *Exit { return s.exit }

func (s *Session) wait() *Exit {
	if s.exit != nil {
		return s.exit
	}
	done := make(chan error, 1)
	go func() { done <- s.cmd.Wait() }()
	select {
	case err := <-done:
		s.exit = exitOf(s.cmd, err)
		s.exit.Stderr = s.errb.Bytes()
		return s.exit
	case <-time.After(HangLimit):
		s.cmd.Process.Kill()
		<-done
		s.exit = &Exit{Code: -1, Signal: syscall.SIGKILL}
		return nil
	}
}

// Close ends the input and returns the exit status; remaining frames are an
// error.
func (s *Session) Close() (*Exit, error) {
	s.in.Close()
	for {
		select {
		case f := <-s.frames:
			if f.err == io.EOF {
				x := s.wait()
				if x == nil {
					return nil, Hang("process does not finish after its input is closed")
				}
				return x, nil
			}
			if f.err != nil {
				s.wait()
				return nil, f.err
			}
			s.Kill()
			return nil, fmt.Errorf("unexpected extra output frame: %s", Short(f.body))
		case <-time.After(HangLimit):
			s.Kill()
			return nil, Hang("output is not closed after end of input")
		}
	}
}

// CloseInput ends the input.
func (s *Session) CloseInput() { s.in.Close() }

// Rest reads all responses up to the end of output and requires an orderly
// end of the process.
func (s *Session) Rest() (rs []*Response, err error) {
	s.in.Close()
	for {
		select {
		case f := <-s.frames:
			if f.err == io.EOF {
				x := s.wait()
				if x == nil {
					return rs, Hang("process does not finish after its input is closed")
				}
				if x.Code != 0 || x.Signal != 0 {
					return rs, fmt.Errorf("%s after end of input; stderr: %s", x.Status(), x.Tail())
				}
				return rs, nil
			}
			if f.err != nil {
				s.wait()
				return rs, f.err
			}
			r, err := ParseResponse(f.body)
			if err != nil {
				return rs, err
			}
			rs = append(rs, r)
		case <-time.After(HangLimit):
			s.Kill()
			return rs, Hang("output is not closed after end of input")
		}
	}
}

// CloseClean also requires an orderly end.
func (s *Session) CloseClean() error {
	x, err := s.Close()
	if err != nil {
		return err
	}
	if x.Code != 0 || x.Signal != 0 {
		return fmt.Errorf("%s after end of input; stderr: %s", x.Status(), x.Tail())
	}
	return nil
}

func (s *Session) Kill() {
	if s.exit == nil {
		s.cmd.Process.Kill()
		s.in.Close()
		s.wait()
	}
}

// Abort kills the process while another goroutine waits for its output.
func (s *Session) Abort() { s.cmd.Process.Kill() }

func (s *Session) Pid() int { return s.cmd.Process.Pid }

// RunFrames sends all frames at once and returns all responses by id.
func RunFrames(s Spec, bodies [][]byte) (map[string]*Response, *Exit, error) {
	var in []byte
	for _, b := range bodies {
		in = append(in, Frame(b)...)
	}
	s.Stdin = in
	x, err := RunProc(s)
	if err != nil {
		return nil, nil, err
	}
	rs, err := ParseResponses(x.Stdout)
	if err != nil {
		return nil, x, fmt.Errorf("%v; %s; stderr: %s", err, x.Status(), x.Tail())
	}
	m := map[string]*Response{}
	for _, r := range rs {
		if m[string(r.ID)] != nil {
			return nil, x, fmt.Errorf("two responses with id %s", r.ID)
		}
		m[string(r.ID)] = r
	}
	if x.Code != 0 || x.Signal != 0 {
		return m, x, fmt.Errorf("%s; stderr: %s", x.Status(), x.Tail())
	}
	return m, x, nil
}

// Quote is for messages.
func Quote(v interface{}) string {
	b, _ := json.Marshal(v)
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// Quoted is a JSON string.
func Quoted(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
