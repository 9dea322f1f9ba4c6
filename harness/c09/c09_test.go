package c09

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type lookup struct {
	Stored  []string   `json:"stored"`
	Queries [][]string `json:"queries"`
}

func tailed(t *rapid.T, bases []string) string {
	s := rapid.SampledFrom([]string{"http:", "https:", "http:", "https:", "mid:", "doi:"}).Draw(t, "scheme")
	u := s + rapid.SampledFrom(bases).Draw(t, "base")
	switch Pick(t, "tail", 3, 4, 3) {
	case 1:
		// canonical order, any multiplicity
		u += strings.Repeat("/", rapid.IntRange(0, 3).Draw(t, "sl")) + strings.Repeat("?", rapid.IntRange(0, 2).Draw(t, "qm")) +
			strings.Repeat("&", rapid.IntRange(0, 3).Draw(t, "amp")) + strings.Repeat("#", rapid.IntRange(0, 2).Draw(t, "hash"))
	case 2:
		u += rapid.StringMatching(`[/?&#]{0,6}`).Draw(t, "rtail")
	}
	if Rare(t, "long tail", 150) {
		u += strings.Repeat("/", rapid.IntRange(0, 400).Draw(t, "sl")) + strings.Repeat("?", rapid.IntRange(0, 1).Draw(t, "qm")) + strings.Repeat("&", rapid.IntRange(0, 400).Draw(t, "amp"))
	}
	return u
}

func gen(t *rapid.T) lookup {
	c := lookup{}
	nb := rapid.IntRange(1, 3).Draw(t, "nbases")
	var bases []string
	for i := 0; i < nb; i++ {
		bases = append(bases, rapid.SampledFrom([]string{"//example.org", "//example.org/a", "//Example.org/a", "//example.org/A", "//example.org/a?b=1",
			"//example.org/a#b", "//example.org/é", "//example.org/http:", "//www.example.org/a", "//example.org/a b", "", "x", "//example.org/a/b?c&d#e", "//example.org:443/a", "//h/日本"}).Draw(t, "base"))
	}
	n := rapid.IntRange(1, 25).Draw(t, "stored")
	if Rare(t, "many", 200) {
		n = rapid.IntRange(100, 400).Draw(t, "stored-n")
	}
	for i := 0; i < n; i++ {
		u := tailed(t, bases)
		if strings.HasSuffix(u, ":") && strings.Count(u, ":") == 1 {
			u += "/" // not just a scheme
		}
		c.Stored = append(c.Stored, u)
	}
	k := rapid.IntRange(1, 6).Draw(t, "queries")
	for i := 0; i < k; i++ {
		var q []string
		m := rapid.IntRange(0, 4).Draw(t, "variants")
		if Rare(t, "many variants", 150) {
			m = rapid.IntRange(5, 150).Draw(t, "variants-n")
		}
		for j := 0; j < m; j++ {
			switch Pick(t, "variant", 8, 1, 1, 2) {
			case 0:
				q = append(q, tailed(t, bases))
			case 1:
				q = append(q, "")
			case 2:
				q = append(q, rapid.SampledFrom([]string{"http:", "https:", "https", "/", "#", "?", "http:http:", "HTTP://example.org", "httpss://example.org/a", "https:https://example.org/a", " "}).Draw(t, "odd"))
			case 3: // near miss of a stored one
				s := rapid.SampledFrom(c.Stored).Draw(t, "near")
				q = append(q, s+rapid.SampledFrom([]string{"", "/", "#", "?", "&", "x", " ", ".", "/?&#", "/index.html"}).Draw(t, "suffix"))
			}
		}
		if q == nil {
			q = []string{}
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

func urls(b []byte) ([]string, error) {
	tree, err := ParseTree(b)
	if err != nil {
		return nil, err
	}
	var r []string
	var walk func(n *RNode)
	walk = func(n *RNode) {
		if n == nil {
			return
		}
		for _, l := range n.Links {
			if l.URL != nil {
				r = append(r, *l.URL)
			}
		}
		for _, k := range n.Children {
			walk(k)
		}
	}
	walk(tree)
	sort.Strings(r)
	return r, nil
}

func run(e *Env, c lookup) error {
	b := strings.Builder{}
	set := map[string]bool{}
	for _, u := range c.Stored {
		set[u] = true
		fmt.Fprintf(&b, "- [[%s]]\n", u)
	}
	b.WriteString("[[https://always.example/]]\n")
	file := e.Write("n.org", []byte(b.String()))
	ask := func(qs [][]string) (map[string]*Response, error) {
		var reqs [][]byte
		for i, q := range qs {
			reqs = append(reqs, MentionsRequest(i, q, Ptr(NoLimit)))
		}
		rs, _, err := RunFrames(Spec{Path: Bin("burl_backend"), Args: []string{"-org", file}}, reqs)
		return rs, err
	}
	rs, err := ask(c.Queries)
	if err != nil {
		return err
	}
	hits, misses := 0, 0
	for i, q := range c.Queries {
		r := rs[fmt.Sprint(i)]
		if r == nil {
			return Errf("no response to %q", q)
		}
		nonEmpty := false
		for _, v := range q {
			nonEmpty = nonEmpty || v != ""
		}
		if !nonEmpty {
			if !r.Failed() {
				return Errf("query %q without non-empty variants is answered: %s", q, Short(r.Result))
			}
			e.Label("empty-query")
			continue
		}
		if r.Failed() {
			return Errf("query %q: error %s", q, r.ErrText())
		}
		got, err := urls(r.Result)
		if err != nil {
			return err
		}
		var want []string
		for u := range set {
			if MatchesAny(q, u) {
				want = append(want, u)
			} else {
				misses++
			}
		}
		sort.Strings(want)
		hits += len(want)
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		if string(g) != string(w) {
			return Errf("query %q matches %s, expected %s of stored %q", q, g, w, c.Stored)
		}
	}
	e.Nontrivial(hits > 0 && misses > 0)
	return nil
}

func TestLookup(t *testing.T) {
	Check(t, Prop[lookup]{Name: "equivalence", Gen: gen, Run: run})
}
