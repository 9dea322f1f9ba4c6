package c26

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type request struct {
	Method string          `json:"m"`
	Params json.RawMessage `json:"p"`
	Check  bool            `json:"c"` // the answer is compared
}

type history struct {
	Files   Files     `json:"files"`
	LFiles  []LFile   `json:"lfiles,omitempty"`
	Absent  bool      `json:"absent,omitempty"` // one more note file that can not be read
	Disable bool      `json:"disable,omitempty"`
	Schemes bool      `json:"schemes,omitempty"`
	Pool    []request `json:"pool"`
	Order   []int     `json:"order"`
	Mode    string    `json:"mode"` // one by one, together, pairs
	// Limit of files opened by the long session.
	NoFile int `json:"nofile,omitempty"`
}

func raw(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		Infra("%v", err)
	}
	return b
}

var refused = []request{
	{"linkremark.urlMentions", raw([]interface{}{map[string]interface{}{"variants": 5}}), true},
	{"linkremark.urlMentions", raw([]interface{}{map[string]interface{}{"variants": []string{}}}), true},
	{"linkremark.urlMentions", raw([]interface{}{map[string]interface{}{"variants": []string{""}}}), true},
	{"linkremark.urlMentions", raw([]interface{}{map[string]interface{}{"variants": []string{"https://example.org/a"}, "options": map[string]interface{}{"countLimit": "x"}}}), true},
	{"linkremark.urlMentions", raw([]interface{}{map[string]interface{}{"variants": []string{"https://example.org/a"}, "options": 3}}), true},
	{"linkremark.urlMentions", raw([]interface{}{nil}), true},
	{"linkremark.linkSet", raw([]interface{}{map[string]interface{}{"prefix": []string{"bad prefix"}}}), true},
	{"linkremark.linkSet", raw([]interface{}{map[string]interface{}{"prefix": "https"}}), true},
	{"linkremark.linkSet", raw([]interface{}{map[string]interface{}{}}), true},
	{"linkremark.hello", raw([]interface{}{map[string]interface{}{"formats": []interface{}{}}}), true},
	{"linkremark.hello", raw([]interface{}{map[string]interface{}{"formats": 1}}), true},
	{"linkremark.unknown", raw([]interface{}{map[string]interface{}{}}), false},
	{"linkremark.visit", raw([]interface{}{map[string]interface{}{"path": "/absent.org", "lineNo": 1}}), false},
	{"linkremark.capture", raw([]interface{}{map[string]interface{}{"format": "object", "version": "1"}}), false},
	{"linkremark.capture", raw([]interface{}{map[string]interface{}{"format": "org-protocol", "version": "0.2", "error": "preview", "data": map[string]string{"url": "org-protocol:/capture?url=x"}}}), false},
}

func genLimit(t *rapid.T) map[string]interface{} {
	switch Pick(t, "limit", 3, 6, 3, 2, 2) {
	case 1:
		return map[string]interface{}{"countLimit": rapid.IntRange(1, 12).Draw(t, "n")}
	case 2:
		return map[string]interface{}{"countLimit": rapid.IntRange(-3, 0).Draw(t, "n")}
	case 3:
		return map[string]interface{}{"countLimit": rapid.SampledFrom([]int{math.MaxInt, NoLimit, 1 << 62, math.MinInt, math.MaxInt32}).Draw(t, "n")}
	case 4:
		return map[string]interface{}{"countLimit": rapid.IntRange(12, 200).Draw(t, "n")}
	}
	return nil
}

func gen(t *rapid.T) history {
	c := history{}
	bases := DrawBases(t, false)
	max := 30
	if Pick(t, "big", 6, 1) == 1 {
		max = 200
	}
	kind := rapid.SampledFrom([]string{"org", "org", "mixed", "txt"}).Draw(t, "kind")
	c.Files = DrawFiles(t, DocOpts{Bases: bases, MaxLines: max, Deep: true}, 1, 5, kind)
	if Pick(t, "lfiles", 1, 1) == 1 {
		c.LFiles = append(c.LFiles, DrawLFile(t, 12))
	}
	c.Absent = Rare(t, "absent", 25)
	c.Disable = Rare(t, "disable", 25)
	c.Schemes = Rare(t, "schemes", 8)
	all := c.Files.AllURLs()
	q := "any"
	if kind != "org" {
		q = "txt"
	}
	for i := rapid.IntRange(1, 8).Draw(t, "pool"); i > 0; i-- {
		r := request{Check: true}
		switch Pick(t, "request", 8, 4, 1, 4) {
		case 0:
			r.Method = rapid.SampledFrom([]string{"linkremark.urlMentions", "burl.urlMentions"}).Draw(t, "method")
			var vs []string
			if len(all) > 0 && Pick(t, "all", 1, 2) == 1 {
				vs = all
				if len(vs) > 1 && Pick(t, "part", 1, 2) == 1 {
					a := rapid.IntRange(0, len(vs)-1).Draw(t, "a")
					b := rapid.IntRange(a, len(vs)-1).Draw(t, "b")
					vs = vs[a : b+1]
				}
			} else {
				for k := rapid.IntRange(1, 3).Draw(t, "variants"); k > 0; k-- {
					vs = append(vs, DrawURL(t, bases, q)+rapid.SampledFrom([]string{"", "", "#", "?"}).Draw(t, "tail"))
				}
			}
			p := map[string]interface{}{"variants": vs}
			if l := genLimit(t); l != nil {
				p["options"] = l
			}
			r.Params = raw([]interface{}{p})
		case 1:
			r.Method = rapid.SampledFrom([]string{"linkremark.linkSet", "burl.linkSet"}).Draw(t, "method")
			ps := []string{}
			for k := rapid.IntRange(0, 3).Draw(t, "prefixes"); k > 0; k-- {
				ps = append(ps, DrawPrefix(t, c.LFiles))
			}
			if len(bases) > 0 && Pick(t, "base", 1, 1) == 1 {
				ps = append(ps, "https:"+rapid.SampledFrom(bases).Draw(t, "base"))
			}
			r.Params = raw([]interface{}{map[string]interface{}{"prefix": ps}})
		case 2:
			r.Method = rapid.SampledFrom([]string{"hello", "linkremark.hello", "burl.hello"}).Draw(t, "method")
			r.Params = raw([]interface{}{map[string]interface{}{"formats": []map[string]string{{"format": "object", "version": "1"},
				{"format": "org-protocol", "version": rapid.SampledFrom([]string{"0.2", "0.3"}).Draw(t, "version")}}}})
		case 3:
			r = rapid.SampledFrom(refused).Draw(t, "refused")
		}
		c.Pool = append(c.Pool, r)
	}
	if Rare(t, "wide", 40) {
		// Many distinct requests.
		for i, u := range all {
			for j := 0; j < 3 && len(c.Pool) < 300; j++ {
				p := map[string]interface{}{"variants": all[i : i+1+j*(len(all)-i-1)/2]}
				if j > 0 {
					p["options"] = map[string]int{"countLimit": 1 + (i*7+j)%11}
				} else {
					p["variants"] = []string{u}
				}
				c.Pool = append(c.Pool, request{"linkremark.urlMentions", raw([]interface{}{p}), true})
			}
			if i%8 == 0 {
				c.Pool = append(c.Pool, request{"linkremark.linkSet", raw([]interface{}{map[string]interface{}{"prefix": []string{u}}}), true})
			}
		}
	}
	n := 14
	if Pick(t, "long", 8, 1) == 1 {
		n = 120
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, len(c.Pool)-1), 2, n).Draw(t, "order")
	if Rare(t, "marathon", 60) || len(c.Pool) > 20 {
		// All of the pool in turn again and again.
		step := rapid.IntRange(1, len(c.Pool)).Draw(t, "step")
		for n := rapid.IntRange(300, 4000).Draw(t, "marathon-n"); len(c.Order) < n; {
			c.Order = append(c.Order, (len(c.Order)*step+len(c.Order)/len(c.Pool))%len(c.Pool))
		}
	}
	c.Mode = rapid.SampledFrom([]string{"one by one", "together", "pairs"}).Draw(t, "mode")
	if c.Mode != "together" && Pick(t, "nofile", 1, 1) == 1 {
		c.NoFile = 48 + 2*(len(c.Files)+len(c.LFiles)) // two requests may have all files open
	}
	return c
}

func frame(id int, r request) []byte {
	return raw(map[string]interface{}{"id": id, "method": r.Method, "params": r.Params})
}

// normal makes replies comparable: sets of links have no order.
func normal(r *Response) (interface{}, error) {
	if r.Failed() {
		return "error: " + r.ErrText(), nil
	}
	var v interface{}
	if err := Unmarshal(r.Result, &v); err != nil {
		return nil, err
	}
	if m, ok := v.(map[string]interface{}); ok {
		if u, ok := m["urls"].([]interface{}); ok {
			sort.Slice(u, func(i, j int) bool { return fmt.Sprint(u[i]) < fmt.Sprint(u[j]) })
		}
	}
	return v, nil
}

func run(e *Env, c history) error {
	args, _ := c.Files.Install(e)
	for i := range c.LFiles {
		f := &c.LFiles[i]
		kind := "txt"
		if f.Org {
			kind = "org"
		}
		args = append(args, "-"+kind, e.Write(fmt.Sprintf("set%d.%s", i, kind), f.Render()))
	}
	if c.Absent {
		args = append(args, "-org", e.Scratch()+"/absent.org")
	}
	if c.Disable {
		args = append(args, "-disable-link-set")
	}
	if c.Schemes {
		args = append(args, "-scheme=", "-scheme=https", "-scheme=urn")
	}
	spec := Spec{Path: Bin("burl_backend"), Args: args}
	// Answers in fresh sessions.
	fresh := map[int]interface{}{}
	refusedSome, ok := false, false
	for _, i := range c.Order {
		r := c.Pool[i]
		if !r.Check || fresh[i] != nil {
			continue
		}
		rs, _, err := RunFrames(spec, [][]byte{frame(0, r)})
		if err != nil {
			return Errf("%s %s in a fresh session: %w", r.Method, Short(r.Params), err)
		}
		if rs["0"] == nil {
			return Errf("%s %s in a fresh session: no response", r.Method, Short(r.Params))
		}
		v, err := normal(rs["0"])
		if err != nil {
			return err
		}
		fresh[i] = v
		if rs["0"].Failed() {
			refusedSome = true
		} else {
			ok = true
		}
	}
	compare := func(n int, r *Response) error {
		i := c.Order[n]
		if !c.Pool[i].Check {
			return nil
		}
		what := fmt.Sprintf("request %d of the session (%s), %s %s", n, c.Mode, c.Pool[i].Method, Short(c.Pool[i].Params))
		if r == nil {
			return Errf("%s: no response", what)
		}
		v, err := normal(r)
		if err != nil {
			return Errf("%s: %w", what, err)
		}
		if !reflect.DeepEqual(v, fresh[i]) {
			return Errf("%s:\nreply %s\nin a fresh session %s", what, Short(raw(v)), Short(raw(fresh[i])))
		}
		return nil
	}
	e.Label(c.Mode)
	if len(c.Order) > 40 {
		e.Label("more than 40 requests")
	}
	if len(c.Order) > 1000 {
		e.Label("more than 1000 requests")
	}
	if len(c.Pool) > 60 {
		e.Label("more than 60 distinct requests")
	}
	if refusedSome {
		e.Label("with refused requests")
	}
	seen := map[int]bool{}
	repeated := false
	for _, i := range c.Order {
		if seen[i] && c.Pool[i].Check {
			repeated = true
		}
		seen[i] = true
	}
	if repeated {
		e.Label("with repeated requests")
	}
	e.Nontrivial(ok && len(seen) > 1)
	if c.Mode == "together" {
		var all [][]byte
		for n, i := range c.Order {
			all = append(all, frame(n, c.Pool[i]))
		}
		rs, _, err := RunFrames(spec, all)
		if err != nil {
			return err
		}
		for n := range c.Order {
			if err := compare(n, rs[fmt.Sprint(n)]); err != nil {
				return err
			}
		}
		return nil
	}
	if spec.NoFile = c.NoFile; c.NoFile > 0 {
		e.Label("few descriptors")
	}
	ses := StartSession(spec)
	defer ses.Kill()
	step := 1
	if c.Mode == "pairs" {
		step = 2
	}
	for n := 0; n < len(c.Order); n += step {
		k := n + step
		if k > len(c.Order) {
			k = len(c.Order)
		}
		for j := n; j < k; j++ {
			ses.Send(frame(j, c.Pool[c.Order[j]]))
		}
		got := map[string]*Response{}
		for j := n; j < k; j++ {
			r, err := ses.Recv()
			if err != nil {
				return Errf("after %d requests: %w", n, err)
			}
			got[string(r.ID)] = r
		}
		for j := n; j < k; j++ {
			if err := compare(j, got[fmt.Sprint(j)]); err != nil {
				return err
			}
		}
	}
	return ses.CloseClean()
}

func TestHistory(t *testing.T) {
	Check(t, Prop[history]{Name: "history", Gen: gen, Run: run})
}
