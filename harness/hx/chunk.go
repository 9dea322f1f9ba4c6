package hx

import (
	"errors"
	"io"
	"sync"

	"pgregory.net/rapid"
)

// DrawChunks draws a cyclic pattern of transfer sizes; 0 means a transfer of
// no bytes (at least one size is positive).
func DrawChunks(t *rapid.T, label string) []int {
	switch Pick(t, label, 3, 1, 4) {
	case 0:
		return []int{1 << 30}
	case 1:
		return []int{1}
	}
	c := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(1, 600),
		rapid.SampledFrom([]int{4, 511, 512, 513, 516, 1024, 1536, 4096})), 1, 8).Draw(t, label+"-sizes")
	for _, n := range c {
		if n > 0 {
			return c
		}
	}
	return append(c, 3)
}

// ChunkReader returns data in portions of given sizes.
type ChunkReader struct {
	R      io.Reader
	Sizes  []int
	i      int
	Closed bool
	Err    error // returned by Close
}

func (c *ChunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := 1 << 30
	if len(c.Sizes) > 0 {
		n = c.Sizes[c.i%len(c.Sizes)]
		c.i++
	}
	if n == 0 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	m, err := c.R.Read(p[:n])
	return m, err
}

func (c *ChunkReader) Close() error {
	c.Closed = true
	if cl, ok := c.R.(io.Closer); ok {
		cl.Close()
	}
	return c.Err
}

var ErrTransport = errors.New("injected transport error")

// Sink is a recording writer, which may fail after a number of bytes.
type Sink struct {
	mu     sync.Mutex
	B      []byte
	FailAt int // negative: never
	Closed bool
	Writes int
	Err    error // returned by Close
	// The next write fails without any effect.
	FailNext bool
}

func (s *Sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Writes++
	if s.FailNext {
		s.FailNext = false
		return 0, ErrTransport
	}
	if s.FailAt >= 0 && len(s.B)+len(p) > s.FailAt {
		n := s.FailAt - len(s.B)
		if n < 0 {
			n = 0
		}
		s.B = append(s.B, p[:n]...)
		return n, ErrTransport
	}
	s.B = append(s.B, p...)
	return len(p), nil
}

func (s *Sink) Close() error { s.Closed = true; return s.Err }

// ChunkWriter splits every write into portions.
type ChunkWriter struct {
	W     io.WriteCloser
	Sizes []int
	i     int
}

func (c *ChunkWriter) Write(p []byte) (done int, err error) {
	for len(p) > 0 {
		n := c.Sizes[c.i%len(c.Sizes)]
		c.i++
		if n > len(p) {
			n = len(p)
		}
		if n > 0 {
			m, err := c.W.Write(p[:n])
			done += m
			if err != nil {
				return done, err
			}
			p = p[n:]
		}
	}
	return
}

func (c *ChunkWriter) Close() error { return c.W.Close() }

// Fill makes a body of a given size.
func Fill(kind, size, seed int) []byte {
	b := make([]byte, size)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		switch kind {
		case 0:
			b[i] = byte(x >> 24)
		case 1:
			b[i] = 0
		case 2:
			b[i] = " \t\n\r"[x>>30]
		case 3:
			b[i] = "abcdefghij{}[]\":,0123456789 \n"[(x>>20)%29]
		case 4: // looks like small headers
			if i%4 == 0 {
				b[i] = byte(x>>24) % 9
			}
		case 5:
			b[i] = 'a' + byte((x>>20)%26)
		}
	}
	return b
}
