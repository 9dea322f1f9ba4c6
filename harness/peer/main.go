// Command peer is a backend with prescribed behaviour. Its first argument is a
// file with the plan, the second one is a directory for records.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"time"
)

type Plan struct {
	// Replies by the field "n" of the parameter, or the only one.
	Replies []Reply `json:"replies"`
	Batch   int     `json:"batch"`  // number of requests to collect before answering in reverse order
	Chunk   int     `json:"chunk"`  // size of written parts
	After   int     `json:"after"`  // exit after this number of replies if positive
	Status  int     `json:"status"` // exit status
	Signal  int     `json:"signal"` // or a signal
	Linger  int     `json:"linger"` // milliseconds between end of input and exit
}

type Reply struct {
	Result json.RawMessage `json:"result,omitempty"`
	Error  *string         `json:"error,omitempty"`
	Size   int             `json:"size,omitempty"`  // result is a string of this length
	Sleep  int             `json:"sleep,omitempty"` // milliseconds before the reply
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	check(err)
	var p Plan
	check(json.Unmarshal(b, &p))
	dir := os.Args[2]
	a, _ := json.Marshal(os.Args[1:])
	check(os.WriteFile(filepath.Join(dir, "args"), a, 0644))
	signal.Ignore(syscall.SIGPIPE)
	if p.Batch < 1 {
		p.Batch = 1
	}
	var mu sync.Mutex
	var pending [][]byte
	sent, got := 0, 0
	flush := func() {
		for i := len(pending) - 1; i >= 0; i-- {
			reply(&p, pending[i])
			sent++
			if p.After > 0 && sent >= p.After {
				leave(&p)
			}
		}
		pending = nil
	}
	// Do not wait forever for more requests.
	if p.Batch > 1 {
		go func() {
			last := -1
			for {
				time.Sleep(150 * time.Millisecond)
				mu.Lock()
				if len(pending) > 0 && last == got {
					flush()
				}
				last = got
				mu.Unlock()
			}
		}()
	}
	for {
		var h [4]byte
		if _, err := io.ReadFull(os.Stdin, h[:]); err != nil {
			break
		}
		body := make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(os.Stdin, body); err != nil {
			break
		}
		mu.Lock()
		check(os.WriteFile(filepath.Join(dir, fmt.Sprintf("request%d", got)), body, 0644))
		got++
		pending = append(pending, body)
		if len(pending) >= p.Batch {
			flush()
		}
		mu.Unlock()
	}
	mu.Lock()
	flush()
	time.Sleep(time.Duration(p.Linger) * time.Millisecond)
	os.WriteFile(filepath.Join(dir, "end"), nil, 0644)
	leave(&p)
}

func leave(p *Plan) {
	if p.Signal > 0 {
		signal.Reset()
		syscall.Kill(os.Getpid(), syscall.Signal(p.Signal))
		time.Sleep(time.Second)
	}
	os.Exit(p.Status)
}

func reply(p *Plan, body []byte) {
	var q struct {
		ID     json.RawMessage   `json:"id"`
		Params []json.RawMessage `json:"params"`
	}
	check(json.Unmarshal(body, &q))
	n := 0
	if len(p.Replies) > 1 && len(q.Params) > 0 {
		var x struct{ N int }
		json.Unmarshal(q.Params[0], &x)
		n = x.N
	}
	r := p.Replies[n]
	time.Sleep(time.Duration(r.Sleep) * time.Millisecond)
	out := map[string]interface{}{"id": q.ID, "result": nil, "error": nil}
	switch {
	case r.Error != nil:
		out["error"] = *r.Error
	case r.Size > 0:
		b := make([]byte, r.Size)
		for i := range b {
			b[i] = byte('a' + (i+n)%26)
		}
		out["result"] = string(b)
	default:
		out["result"] = r.Result
	}
	data, err := json.Marshal(out)
	check(err)
	frame := make([]byte, 4, 4+len(data))
	binary.LittleEndian.PutUint32(frame, uint32(len(data)))
	frame = append(frame, data...)
	for len(frame) > 0 {
		k := len(frame)
		if p.Chunk > 0 && p.Chunk < k && k < 100000 {
			k = p.Chunk
		}
		if _, err := os.Stdout.Write(frame[:k]); err != nil {
			return
		}
		frame = frame[k:]
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "peer:", err)
		os.Exit(97)
	}
}
