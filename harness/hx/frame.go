package hx

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
)

// Independent implementation of native messaging framing (little endian
// target).

func Frame(body []byte) []byte {
	b := make([]byte, 4, 4+len(body))
	binary.LittleEndian.PutUint32(b, uint32(len(body)))
	return append(b, body...)
}

// ParseFrames splits a complete stream; an error means that it is not a
// sequence of complete frames.
func ParseFrames(b []byte) (frames [][]byte, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return frames, fmt.Errorf("incomplete header at the end of output: %s", Short(b))
		}
		n := binary.LittleEndian.Uint32(b)
		if uint64(n) > uint64(len(b)-4) {
			return frames, fmt.Errorf("frame announces %d bytes, only %d follow: %s", n, len(b)-4, Short(b))
		}
		frames = append(frames, b[4:4+n])
		b = b[4+n:]
	}
	return
}

// Response is a parsed JSON-RPC response.
type Response struct {
	ID     json.RawMessage
	Result json.RawMessage
	Error  json.RawMessage
}

func (r *Response) Failed() bool { return len(r.Error) > 0 && string(r.Error) != "null" }

// ErrText is the error string of a failed response.
func (r *Response) ErrText() string {
	if !r.Failed() {
		return ""
	}
	var s string
	if json.Unmarshal(r.Error, &s) == nil {
		return s
	}
	return string(r.Error)
}

func compact(b []byte) string {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return string(b)
	}
	return o.String()
}

// ParseResponse checks that a frame is one JSON-RPC response object.
func ParseResponse(frame []byte) (*Response, error) {
	dec := json.NewDecoder(bytes.NewReader(frame))
	var m map[string]json.RawMessage
	if err := dec.Decode(&m); err != nil {
		return nil, fmt.Errorf("frame is not a JSON object: %v: %s", err, Short(frame))
	}
	if m == nil {
		return nil, fmt.Errorf("frame is not a JSON object: %s", Short(frame))
	}
	if rest := bytes.TrimSpace(frame[dec.InputOffset():]); len(rest) != 0 {
		return nil, fmt.Errorf("extra bytes after the JSON object in one frame: %s", Short(frame))
	}
	id, ok := m["id"]
	if !ok {
		return nil, fmt.Errorf("response without id: %s", Short(frame))
	}
	r := &Response{ID: json.RawMessage(compact(id)), Result: m["result"], Error: m["error"]}
	hasResult := len(r.Result) > 0 && string(r.Result) != "null"
	if hasResult && r.Failed() {
		return nil, fmt.Errorf("response with both result and error: %s", Short(frame))
	}
	return r, nil
}

// ParseResponses parses a complete output into responses.
func ParseResponses(out []byte) ([]*Response, error) {
	frames, err := ParseFrames(out)
	var rs []*Response
	for _, f := range frames {
		r, e := ParseResponse(f)
		if e != nil {
			return rs, e
		}
		rs = append(rs, r)
	}
	return rs, err
}

// Request renders a request.
func Request(id interface{}, method string, param interface{}) []byte {
	b, err := json.Marshal(map[string]interface{}{
		"id": id, "method": method, "params": []interface{}{param},
	})
	if err != nil {
		Infra("request: %v", err)
	}
	return b
}
