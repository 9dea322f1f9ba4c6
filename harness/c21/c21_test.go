package c21

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type query struct {
	Words     []string `json:"words"`
	Limit     *int     `json:"limit"`
	Tolerance *int     `json:"tolerance"`
}

type rankCase struct {
	Urls []string `json:"urls"`
	Perm []int    `json:"perm"`
	// Generated links around the given ones.
	Fill  int    `json:"fill,omitempty"`
	Text  string `json:"text,omitempty"`
	After bool   `json:"after,omitempty"`
	query
}

func genQuery(t *rapid.T, al string) query {
	q := query{}
	n := Pick(t, "words", 1, 4, 3, 1)
	for i := 0; i < n; i++ {
		q.Words = append(q.Words, strings.ReplaceAll(DrawWord(t, "word", al, 1, 8), " ", "_"))
	}
	if Pick(t, "limit", 1, 4) == 1 {
		v := rapid.IntRange(1, 12).Draw(t, "limit")
		if Rare(t, "large", 10) {
			v = rapid.IntRange(13, 99).Draw(t, "limit")
		}
		q.Limit = &v
	}
	if Pick(t, "tolerance", 1, 4) == 1 {
		v := rapid.IntRange(0, 7).Draw(t, "tolerance")
		q.Tolerance = &v
	}
	return q
}

func genUrl(t *rapid.T, al string, q *query) string {
	s := DrawWord(t, "before", al, 0, 4)
	for _, w := range q.Words {
		if Pick(t, "with", 1, 4) == 1 {
			s += Mutate(t, "edits", w, al, 4)
		}
		s += DrawWord(t, "between", al, 0, 3)
	}
	return s
}

func genRank(t *rapid.T) rankCase {
	al := DrawAlphabet(t)
	c := rankCase{query: genQuery(t, al)}
	max := rapid.SampledFrom([]int{3, 12, 40, 130}).Draw(t, "max")
	c.Urls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		s := genUrl(t, al, &c.query)
		if s == "" {
			s = "a"
		}
		return s
	}), 0, max).Draw(t, "urls")
	if len(c.Urls) > 1 && Pick(t, "duplicates", 2, 1) == 1 {
		for i := 0; i < len(c.Urls)/2; i++ {
			c.Urls[i] = c.Urls[len(c.Urls)-1-rapid.IntRange(0, 2).Draw(t, "same")%len(c.Urls)]
		}
	}
	if Rare(t, "many", 400) {
		c.Fill = rapid.IntRange(100, 6000).Draw(t, "fill")
		c.Text = genUrl(t, al, &c.query)
		c.After = rapid.Bool().Draw(t, "after")
	}
	c.Perm = rapid.Permutation(seq(len(c.Urls))).Draw(t, "permutation")
	return c
}

func seq(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

type ranked struct {
	Url string
	D   int
}

// expected is the definition of the result: best first.
func expected(urls []string, q query) []ranked {
	limit, tolerance := 10, 5
	if q.Limit != nil {
		limit = *q.Limit
	}
	if q.Tolerance != nil {
		tolerance = *q.Tolerance
	}
	var all []ranked
	for _, u := range urls {
		d := 0
		for _, w := range q.Words {
			d += SearchDistance(Lower(w), Lower(u))
		}
		if d <= tolerance {
			all = append(all, ranked{u, d})
		}
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.D != b.D {
			return a.D < b.D
		}
		if len(a.Url) != len(b.Url) {
			return len(a.Url) < len(b.Url)
		}
		return a.Url < b.Url
	})
	if len(all) > limit {
		all = all[:limit]
	}
	return all
}

func runRank(e *Env, c rankCase) error {
	if c.Fill > 0 {
		e.Label("many")
		c.Perm = append([]int{}, c.Perm...)
		var fill []string
		for i := 0; i < c.Fill; i++ {
			fill = append(fill, fmt.Sprintf("%s/%d", c.Text, i))
		}
		n := len(c.Urls)
		if c.After {
			c.Urls = append(append([]string{}, c.Urls...), fill...)
			for i := n; i < len(c.Urls); i++ {
				c.Perm = append(c.Perm, i)
			}
		} else {
			c.Urls = append(fill, c.Urls...)
			for i := range c.Perm {
				c.Perm[i] += c.Fill
			}
			for i := 0; i < c.Fill; i++ {
				c.Perm = append(c.Perm, i)
			}
		}
	}
	want := expected(c.Urls, c.query)
	perms := [][]int{seq(len(c.Urls)), c.Perm}
	for _, p := range perms {
		if len(p) != len(c.Urls) {
			continue
		}
		source := func(cb func(string) bool) {
			for _, i := range p {
				cb(c.Urls[i])
			}
		}
		var tol *burl_fuzzy.EditorDistance
		if c.Tolerance != nil {
			v := burl_fuzzy.EditorDistance(*c.Tolerance)
			tol = &v
		}
		var limit *int
		if c.Limit != nil {
			v := *c.Limit
			limit = &v
		}
		h := burl_fuzzy.ProcessUrlSource(append([]string(nil), c.Words...), source, limit, tol)
		var got []ranked
		for i := len(h) - 1; i >= 0; i-- {
			got = append(got, ranked{h[i].Word, int(h[i].Weight)})
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return Errf("%s order %v: found %q, expected %q", Quote(c.query), p, got, want)
		}
	}
	e.Nontrivial(len(want) > 1 && len(c.Words) > 0)
	if len(want) < len(c.Urls) {
		e.Label("some are not returned")
	}
	return nil
}

func TestRank(t *testing.T) {
	Check(t, Prop[rankCase]{Name: "rank", Gen: genRank, Run: runRank})
}

// The same through the RPC method of the backend.

type searchCase struct {
	Files   [][]string `json:"files"`
	Queries []query    `json:"queries"`
}

const urlChars = "abcABé/."

func genSearch(t *rapid.T) searchCase {
	c := searchCase{}
	n := rapid.IntRange(1, 5).Draw(t, "queries")
	for i := 0; i < n; i++ {
		c.Queries = append(c.Queries, genQuery(t, rapid.SampledFrom([]string{urlChars, "abc", "http:/"}).Draw(t, "alphabet")))
	}
	c.Files = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		return "http://" + strings.ReplaceAll(genUrl(t, urlChars, &c.Queries[0]), "_", "b") + "/x"
	}), 0, 25), 1, 3).Draw(t, "files")
	return c
}

func runSearch(e *Env, c searchCase) error {
	dir := e.Scratch()
	var all []string
	args := []string{"-log", ""}
	for i, urls := range c.Files {
		var b strings.Builder
		for j, u := range urls {
			if j%5 == 0 {
				fmt.Fprintf(&b, "* Heading %d\n", j)
			}
			fmt.Fprintf(&b, "text [[%s][description]] end\n", u)
			all = append(all, u)
		}
		name := fmt.Sprintf("f%d.org", i)
		ok(os.WriteFile(filepath.Join(dir, name), []byte(b.String()), 0644))
		args = append(args, "-org", name)
	}
	s := StartSession(Spec{Path: Bin("burl_backend_search"), Args: args, Dir: dir, Env: []string{"VERIF_RPC_SOCKET=" + filepath.Join(dir, "socket")}})
	defer s.Kill()
	// It is ready when it answers.
	if _, err := s.Call("hello", map[string]interface{}{"formats": []interface{}{}}); err != nil {
		return err
	}
	conn, err := net.DialTimeout("unix", filepath.Join(dir, "socket"), 10*time.Second)
	if err != nil {
		Infra("%v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	enc, dec := json.NewEncoder(conn), json.NewDecoder(conn)
	nt := false
	for i, q := range c.Queries {
		p := map[string]interface{}{"q": strings.Join(q.Words, "  ")}
		if q.Limit != nil {
			p["limit"] = *q.Limit
		}
		if q.Tolerance != nil {
			p["tol"] = *q.Tolerance
		}
		ok(enc.Encode(map[string]interface{}{"id": i, "method": "Burl.Search", "params": []interface{}{p}}))
		var r struct {
			Result []struct {
				Url string `json:"url"`
			} `json:"result"`
			Error interface{} `json:"error"`
		}
		if err := dec.Decode(&r); err != nil {
			return Errf("no response to %v: %w", p, err)
		}
		if len(all) == 0 && (r.Error != nil || len(r.Result) == 0) {
			continue // there is nothing to search
		}
		if r.Error != nil {
			return Errf("%v: error %v", p, r.Error)
		}
		var got, want []string
		for _, x := range r.Result {
			got = append(got, x.Url)
		}
		for _, x := range expected(all, q) {
			want = append(want, x.Url)
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return Errf("%v: found %q, expected %q", p, got, want)
		}
		nt = nt || len(want) > 1
	}
	e.Nontrivial(nt)
	return nil
}

func ok(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

func TestSearch(t *testing.T) {
	Check(t, Prop[searchCase]{Name: "search", Weight: 0.02, Gen: genSearch, Run: runSearch})
}
