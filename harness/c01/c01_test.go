package c01

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"testing"

	"github.com/maxnikulin/burl/pkg/webextensions"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type msg struct {
	Size int   `json:"size"`
	Kind int   `json:"kind"`
	Seed int   `json:"seed"`
	In   []int `json:"in,omitempty"` // sizes of the writes into the frame
	// Bytes written and discarded before the message.
	Junk int `json:"junk,omitempty"`
	// How the consumer reads: sizes of its buffers; it stops Leave bytes
	// before the end.
	Buf   []int `json:"buf,omitempty"`
	Leave int   `json:"leave,omitempty"`
	Space bool  `json:"space,omitempty"` // what is left is white space
	// The transport refuses the frame, nothing of it is sent.
	Refused bool `json:"refused,omitempty"`
}

func (m *msg) body() []byte {
	b := Fill(m.Kind, m.Size, m.Seed)
	if m.Space && m.Leave > 0 {
		copy(b[m.Size-m.Leave:], Fill(2, m.Leave, m.Seed+1))
	}
	return b
}

type framing struct {
	Msgs   []msg  `json:"msgs"`
	Chunks []int  `json:"chunks"`
	Cut    int    `json:"cut"`              // bytes removed from the end of the stream
	Huge   uint32 `json:"huge,omitempty"`   // header appended to the stream
	FailAt int    `json:"failAt,omitempty"` // write error
	Both   bool   `json:"both"`             // through the combined object
}

func drawSize(t *rapid.T) int {
	if Rare(t, "big", 2000) {
		// All bytes of the header are used.
		return rapid.IntRange(1<<24-2, 1<<24+300).Draw(t, "size")
	}
	switch Pick(t, "size-kind", 2, 1, 5, 3) {
	case 0:
		return rapid.IntRange(0, 5).Draw(t, "size")
	case 1:
		return rapid.IntRange(0, 300000).Draw(t, "size")
	case 2:
		return rapid.IntRange(0, 300).Draw(t, "size")
	}
	return rapid.SampledFrom([]int{255, 256, 257, 511, 512, 513, 1023, 1024, 1536, 4095, 4096, 4097, 65535, 65536}).Draw(t, "size")
}

func genFraming(t *rapid.T) framing {
	c := framing{FailAt: -1, Cut: 0}
	n := rapid.IntRange(0, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		m := msg{Size: drawSize(t), Kind: rapid.IntRange(0, 4).Draw(t, "kind"), Seed: rapid.IntRange(0, 1000).Draw(t, "seed")}
		m.In = DrawChunks(t, "in")
		m.Buf = DrawChunks(t, "buf")
		if m.Size > 1000000 {
			m.In, m.Buf = []int{1 << 20}, []int{1 << 20}
		}
		if Pick(t, "junk", 6, 1) == 1 {
			m.Junk = rapid.IntRange(1, 50).Draw(t, "junk-size")
		}
		if Pick(t, "leave", 12, 1) == 1 && m.Size > 0 {
			m.Leave = rapid.IntRange(1, m.Size).Draw(t, "leave-size")
			if m.Space = rapid.Bool().Draw(t, "leave-space"); m.Space && Pick(t, "short", 1, 2) == 1 {
				m.Leave = min(m.Leave, 1+m.Seed%3)
			}
		}
		m.Refused = Pick(t, "refused", 12, 1) == 1
		c.Msgs = append(c.Msgs, m)
	}
	if Rare(t, "long", 60) {
		// A long history of short messages.
		var short []msg
		for _, m := range c.Msgs {
			if m.Size <= 5000 {
				short = append(short, m)
			}
		}
		c.Msgs = nil
		if len(short) > 0 {
			for r := rapid.IntRange(20, 700).Draw(t, "long-n"); len(c.Msgs) < r; {
				c.Msgs = append(c.Msgs, short...)
			}
		}
	}
	c.Chunks = DrawChunks(t, "chunks")
	for _, m := range c.Msgs {
		if m.Size > 1000000 {
			c.Chunks = []int{rapid.IntRange(1000, 1<<24).Draw(t, "big-chunk")}
		}
	}
	c.Both = rapid.Bool().Draw(t, "both")
	switch Pick(t, "end", 5, 4, 2, 1) {
	case 1:
		total := 0
		for _, m := range c.Msgs {
			total += 4 + m.Size
		}
		if total > 0 {
			if Pick(t, "near", 1, 1) == 1 {
				total = min(total, 8)
			}
			c.Cut = rapid.IntRange(1, total).Draw(t, "cut")
		}
	case 2:
		c.Huge = rapid.OneOf(
			rapid.Just(uint32(1<<30)), rapid.Just(uint32(1<<30+1)), rapid.Just(uint32(1<<31)), rapid.Just(^uint32(0)),
			rapid.Uint32Range(1<<30-3, ^uint32(0))).Draw(t, "huge")
	case 3:
		total := 0
		for _, m := range c.Msgs {
			total += 4 + m.Size
		}
		if total > 0 {
			c.FailAt = rapid.IntRange(0, total-1).Draw(t, "failAt")
		}
	}
	return c
}

// partial reads of the consumer
func consume(r io.Reader, m *msg) (got []byte, err error) {
	want := m.Size - m.Leave
	if m.Leave == 0 {
		i := 0
		space := make([]byte, m.Size+7)
		for zeros := 0; zeros < 1000+10*m.Size; {
			size := m.Buf[i%len(m.Buf)]
			i++
			if size == 0 {
				continue
			}
			p := space[:min(size, m.Size+7)]
			n, err := r.Read(p)
			got = append(got, p[:n]...)
			if err == io.EOF {
				return got, nil
			}
			if err != nil {
				return got, err
			}
			if n == 0 {
				zeros++
			}
			if len(got) > m.Size {
				return got, nil
			}
		}
		return got, errors.New("no progress of reading")
	}
	got = make([]byte, want)
	n, err := io.ReadFull(r, got)
	return got[:n], err
}

func runFraming(e *Env, c framing) error {
	sink := &Sink{FailAt: c.FailAt}
	var fw webextensions.FrameWriter
	if c.Both {
		fw = webextensions.NewSplitFrameReadWriteCloser(&ChunkReader{R: &bytes.Buffer{}}, sink)
	} else {
		fw = webextensions.NewFrameBufferedWriter(sink)
	}
	var wire []byte
	var bodies [][]byte
	var sent []msg
	for i := range c.Msgs {
		m := &c.Msgs[i]
		if m.Junk > 0 {
			fw.Write(bytes.Repeat([]byte{'J'}, m.Junk))
			fw.Discard()
		}
		if !fw.Empty() {
			return Errf("message %d: writer is not empty before the message", i)
		}
		b := m.body()
		for rest, k := b, 0; len(rest) > 0; k++ {
			n := min(m.In[k%len(m.In)], len(rest))
			// The caller may reuse its buffer.
			p := append([]byte(nil), rest[:n]...)
			w, err := fw.Write(p)
			if err != nil || w != n {
				return Errf("message %d: writing of %d bytes returns %d, %v", i, n, w, err)
			}
			for j := range p {
				p[j] = 'X'
			}
			rest = rest[n:]
		}
		if fw.Empty() != (len(b) == 0) {
			return Errf("message %d: Empty() is %v with %d bytes written", i, fw.Empty(), len(b))
		}
		if !bytes.Equal(sink.B, wire) {
			return Errf("message %d: something is sent before the frame is complete", i)
		}
		sink.FailNext = m.Refused
		err := fw.WriteFrame()
		if m.Refused {
			if err == nil {
				return Errf("message %d: transport failed but WriteFrame reports success", i)
			}
			if sink.FailNext || !bytes.Equal(sink.B, wire) {
				return Errf("message %d: something is sent after the transport failure", i)
			}
			e.Label("refused")
			continue
		}
		bodies = append(bodies, b)
		sent = append(sent, *m)
		frame := make([]byte, 4)
		binary.NativeEndian.PutUint32(frame, uint32(len(b)))
		frame = append(frame, b...)
		if c.FailAt >= 0 && len(wire)+len(frame) > c.FailAt {
			if err == nil {
				return Errf("message %d: transport failed at byte %d but WriteFrame reports success", i, c.FailAt)
			}
			if !bytes.Equal(sink.B, append(wire, frame...)[:c.FailAt]) {
				return Errf("message %d: wrong bytes before the transport failure", i)
			}
			e.Label("write-error")
			return nil
		}
		if err != nil {
			return Errf("message %d: WriteFrame: %v", i, err)
		}
		wire = append(wire, frame...)
		if !bytes.Equal(sink.B, wire) {
			return Errf("message %d of %d bytes: wire has %d bytes, expected %d: %s", i, len(b), len(sink.B), len(wire), Short(sink.B))
		}
	}

	stream := wire
	if c.Cut > 0 {
		stream = wire[:len(wire)-min(c.Cut, len(wire))]
		e.Label("cut")
	}
	if c.Huge > 0 {
		h := make([]byte, 4)
		binary.NativeEndian.PutUint32(h, c.Huge)
		stream = append(append([]byte(nil), stream...), h...)
		stream = append(stream, "rest of the stream"...)
		e.Label("huge")
	}
	src := &ChunkReader{R: bytes.NewReader(stream), Sizes: c.Chunks}
	var fr webextensions.FrameReader
	if c.Both {
		fr = webextensions.NewSplitFrameReadWriteCloser(src, &Sink{FailAt: -1})
	} else {
		fr = webextensions.NewFrameLimitedReader(src)
	}
	pos := 0
	left := false // the consumer has left some bytes of the previous message
	for i := 0; ; i++ {
		err := fr.ReadHeader()
		if left && err != nil {
			if m := sent[i-1]; i < len(sent) && m.Space && err != io.EOF && len(stream)-pos >= 4 {
				return Errf("message %d: %d bytes of white space left of the previous one: %v", i, m.Leave, err)
			}
			if err == io.EOF && !(pos == len(stream)) {
				return Errf("message %d: clean end of stream after unread bytes of the previous message", i)
			}
			e.Label("unread-refused")
			return nil
		}
		if pos == len(stream) {
			if err != io.EOF {
				return Errf("end of stream between frames after %d messages is reported as %v", i, err)
			}
			return nil
		}
		if len(stream)-pos < 4 {
			if err == nil || err == io.EOF {
				return Errf("stream cut inside of header %d (%d bytes of it): ReadHeader returns %v", i, len(stream)-pos, err)
			}
			e.Label("cut-header")
			return nil
		}
		if i == len(bodies) {
			// Only the appended header.
			if c.Huge > 1<<30 {
				if err == nil || err == io.EOF {
					return Errf("header %d announces %d bytes: ReadHeader returns %v", i, c.Huge, err)
				}
				return nil
			}
			if err != nil {
				return Errf("header %d announces %d bytes: %v", i, c.Huge, err)
			}
			b, err := io.ReadAll(fr)
			if !bytes.Equal(b, stream[pos+4:]) {
				return Errf("wrong part of the body: %s", Short(b))
			}
			if err == nil {
				err = fr.ReadHeader()
			}
			if err == nil || err == io.EOF {
				return Errf("body of %d bytes cut to %d: reported as %v", c.Huge, len(b), err)
			}
			return nil
		}
		if err != nil {
			return Errf("header %d: %v", i, err)
		}
		m := &sent[i]
		pos += 4
		got, err := consume(fr, m)
		want := bodies[i][:m.Size-m.Leave]
		if rest := len(stream) - pos; rest < len(want) || (m.Leave > 0 && rest < m.Size) {
			// Cut inside of the body.
			if len(want) > rest {
				want = want[:rest]
			}
			if !bytes.Equal(got, want) {
				return Errf("cut body %d: read %s, expected %s", i, Short(got), Short(want))
			}
			// The end is seen either here or with the next header.
			if err == nil || err == io.EOF || err == io.ErrUnexpectedEOF {
				err = fr.ReadHeader()
			}
			if err == nil || err == io.EOF {
				return Errf("body %d of %d bytes is cut to %d, reported as %v", i, m.Size, rest, err)
			}
			e.Label("cut-body")
			return nil
		}
		if err != nil {
			return Errf("body %d: %v", i, err)
		}
		if !bytes.Equal(got, want) {
			return Errf("body %d: read %d bytes %s, expected %d bytes %s", i, len(got), Short(got), len(want), Short(want))
		}
		left = m.Leave > 0
		if left {
			e.Label("unread")
		}
		pos += m.Size
	}
}

func TestFraming(t *testing.T) {
	Check(t, Prop[framing]{Name: "framing", Gen: genFraming, Run: runFraming,
		Classify: func(c framing) (bool, []string) {
			n := 0
			for _, m := range c.Msgs {
				n += m.Size
			}
			return n > 0 || c.Huge > 0, nil
		}})
}

// Both directions of a duplex connection, with closing.
type closing struct {
	Msgs   []msg `json:"msgs"`
	Chunks []int `json:"chunks"`
	Unsent int   `json:"unsent"`
	RErr   bool  `json:"rerr"`
	WErr   bool  `json:"werr"`
}

func genClosing(t *rapid.T) closing {
	c := closing{}
	n := rapid.IntRange(0, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, msg{Size: drawSize(t), Kind: rapid.IntRange(0, 4).Draw(t, "kind"),
			Seed: rapid.IntRange(0, 1000).Draw(t, "seed"), Buf: DrawChunks(t, "buf")})
	}
	c.Chunks = DrawChunks(t, "chunks")
	for i := range c.Msgs {
		if c.Msgs[i].Size > 1000000 {
			c.Chunks = []int{1 << 20}
			c.Msgs[i].Buf = c.Chunks
		}
	}
	if Pick(t, "unsent", 2, 1) == 1 {
		c.Unsent = rapid.IntRange(1, 100).Draw(t, "unsent-size")
	}
	c.RErr = Pick(t, "rerr", 3, 1) == 1
	c.WErr = Pick(t, "werr", 3, 1) == 1
	return c
}

func runClosing(e *Env, c closing) error {
	sink := &Sink{FailAt: -1}
	var stream []byte
	for i := range c.Msgs {
		stream = append(stream, Frame(c.Msgs[i].body())...)
	}
	src := &ChunkReader{R: bytes.NewReader(stream), Sizes: c.Chunks}
	if c.RErr {
		src.Err = errors.New("read side")
	}
	if c.WErr {
		sink.Err = errors.New("write side")
	}
	f := webextensions.NewSplitFrameReadWriteCloser(src, sink)
	// Echo: the directions are independent.
	for i := range c.Msgs {
		m := &c.Msgs[i]
		if err := f.ReadHeader(); err != nil {
			return Errf("header %d: %v", i, err)
		}
		b, err := consume(f, m)
		if err != nil || !bytes.Equal(b, m.body()) {
			return Errf("body %d: %v", i, err)
		}
		f.Write(b)
		if err := f.WriteFrame(); err != nil {
			return Errf("echo %d: %v", i, err)
		}
	}
	if !bytes.Equal(sink.B, stream) {
		return Errf("echo differs from the input")
	}
	if c.Unsent > 0 {
		f.Write(make([]byte, c.Unsent))
	}
	err := f.Close()
	if !src.Closed || !sink.Closed {
		return Errf("not closed: reader %v writer %v", src.Closed, sink.Closed)
	}
	if want := c.RErr || c.WErr || c.Unsent > 0; want != (err != nil) {
		return Errf("Close returns %v (errors of sides %v %v, unsent %d)", err, c.RErr, c.WErr, c.Unsent)
	}
	if !bytes.Equal(sink.B, stream) {
		return Errf("close sends something")
	}
	return nil
}

func TestClosing(t *testing.T) {
	Check(t, Prop[closing]{Name: "duplex-close", Weight: 0.2, Gen: genClosing, Run: runClosing})
}
