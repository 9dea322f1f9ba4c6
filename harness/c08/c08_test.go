package c08

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type query struct {
	Variants []string `json:"v"`
	Limit    *int     `json:"limit"` // nil: not given
}

type limited struct {
	Files   Files   `json:"files"`
	Queries []query `json:"queries"`
}

// Many matches in many sections.
func gen(t *rapid.T) limited {
	c := limited{}
	bases := DrawBases(t, false)
	max := 40
	if Pick(t, "big", 6, 1) == 1 {
		max = 250
	}
	kind := rapid.SampledFrom([]string{"org", "org", "mixed"}).Draw(t, "kind")
	c.Files = DrawFiles(t, DocOpts{Bases: bases, MaxLines: max}, 1, 6, kind)
	all := c.Files.AllURLs()
	n := rapid.IntRange(1, 6).Draw(t, "queries")
	for i := 0; i < n; i++ {
		q := query{}
		if len(all) > 0 && Pick(t, "all", 1, 3) == 1 {
			q.Variants = all
		} else {
			q.Variants = []string{DrawURL(t, bases, "any")}
		}
		switch Pick(t, "limit", 2, 8, 2, 2, 2) {
		case 1:
			q.Limit = Ptr(rapid.IntRange(1, 30).Draw(t, "n"))
		case 2:
			q.Limit = Ptr(rapid.IntRange(-10, 0).Draw(t, "neg"))
		case 3:
			q.Limit = Ptr(rapid.SampledFrom([]int{math.MaxInt, math.MaxInt / 2, math.MaxInt / 3, 1 << 62, 1<<62 + 1, math.MaxInt32, math.MinInt, -math.MaxInt / 2}).Draw(t, "huge"))
		case 4:
			q.Limit = Ptr(rapid.IntRange(1, 400).Draw(t, "many"))
		}
		c.Queries = append(c.Queries, q)
	}
	return c
}

// Wide shapes without repeated URLs: exact number of shown links.
func genDistinct(t *rapid.T) limited {
	c := limited{}
	n := 0
	nf := rapid.IntRange(1, 4).Draw(t, "files")
	var all []string
	for f := 0; f < nf; f++ {
		d := Doc{Org: true}
		level := 0
		k := rapid.IntRange(0, 25).Draw(t, "sections")
		if Rare(t, "many sections", 150) {
			k = rapid.IntRange(100, 1500).Draw(t, "sections-n")
		}
		for i := 0; i <= k; i++ {
			if i > 0 {
				level = rapid.IntRange(1, level+1).Draw(t, "level")
				d.Lines = append(d.Lines, Line{Level: level, Gap: " ", Pieces: []Piece{{K: "w", Text: "H"}}})
			}
			m := 0
			switch Pick(t, "size", 3, 4, 1) {
			case 1:
				m = rapid.IntRange(1, 3).Draw(t, "few")
			case 2:
				m = rapid.IntRange(4, 40).Draw(t, "lot")
			}
			for j := 0; j < m; j++ {
				u := fmt.Sprintf("https://example.org/%d", n)
				n++
				all = append(all, u)
				d.Lines = append(d.Lines, Line{Pieces: []Piece{{K: "b", Text: u, Pre: "- "}}})
			}
		}
		c.Files = append(c.Files, d)
	}
	if len(all) == 0 {
		all = []string{"https://example.org/"}
	}
	q := rapid.IntRange(1, 5).Draw(t, "queries")
	for i := 0; i < q; i++ {
		l := rapid.IntRange(0, n+3).Draw(t, "limit")
		if Pick(t, "small", 1, 1) == 0 {
			l = rapid.IntRange(1, 20).Draw(t, "small")
		}
		qq := query{all, &l}
		if Pick(t, "default", 6, 1) == 1 {
			qq.Limit = nil
		}
		c.Queries = append(c.Queries, qq)
	}
	return c
}

// Numbers of matches and limits that are far from ordinary ones.
type section struct {
	Level    int `json:"level"` // 0: the text before headings
	Links    int `json:"links"`
	Distinct int `json:"distinct"`
}

type crowd struct {
	Files  [][]section `json:"files"`
	Limits []int       `json:"limits"`
}

func genCrowd(t *rapid.T) crowd {
	c := crowd{}
	total := 0
	// Either a lot of different links or a lot of copies of several ones.
	var draw func() section
	if Pick(t, "copies", 1, 1) == 1 {
		draw = func() section {
			s := section{Distinct: rapid.IntRange(1, 4).Draw(t, "distinct")}
			if s.Links = rapid.IntRange(s.Distinct, 20).Draw(t, "links"); Pick(t, "a lot", 2, 1) == 1 {
				s.Links = rapid.SampledFrom([]int{256, 4096, 32768, 46341, 50000, 65536}).Draw(t, "lot") + rapid.IntRange(-2, 2).Draw(t, "more")
			}
			return s
		}
	} else {
		draw = func() section {
			n := rapid.IntRange(1, 10).Draw(t, "links")
			if Pick(t, "a lot", 2, 1) == 1 {
				n = rapid.SampledFrom([]int{100, 128, 256, 400, 512}).Draw(t, "lot") + rapid.IntRange(-1, 60).Draw(t, "more")
			}
			return section{Links: n, Distinct: n}
		}
	}
	for f := rapid.IntRange(1, 2).Draw(t, "files"); f > 0; f-- {
		var l []section
		level := 0
		for k := rapid.IntRange(1, 3).Draw(t, "sections"); k > 0; k-- {
			s := draw()
			if len(l) > 0 || Pick(t, "heading", 1, 1) == 1 {
				level = rapid.IntRange(1, level+1).Draw(t, "level")
				s.Level = level
			}
			total += s.Links
			l = append(l, s)
		}
		c.Files = append(c.Files, l)
	}
	for k := rapid.IntRange(1, 3).Draw(t, "limits"); k > 0; k-- {
		l := rapid.IntRange(1, total+1).Draw(t, "limit")
		if Pick(t, "near", 1, 1) == 1 {
			l = total - rapid.IntRange(0, 20).Draw(t, "less")
		}
		c.Limits = append(c.Limits, l)
	}
	return c
}

func runCrowd(e *Env, c crowd) error {
	l := limited{}
	var all []string
	for _, f := range c.Files {
		d := Doc{Org: true}
		for _, s := range f {
			if s.Level > 0 {
				d.Lines = append(d.Lines, Line{Level: s.Level, Gap: " ", Pieces: []Piece{{K: "w", Text: "H"}}})
			}
			n := len(all)
			for i := 0; i < s.Distinct; i++ {
				all = append(all, fmt.Sprintf("https://example.org/%d", n+i))
			}
			for i := 0; i < s.Links; i++ {
				d.Lines = append(d.Lines, Line{Pieces: []Piece{{K: "b", Text: all[n+i%s.Distinct], Pre: "- "}}})
			}
			if s.Distinct > 500 {
				e.Label("distinct>500")
			}
			if s.Links > 46340 {
				e.Label("links>46340")
			}
		}
		l.Files = append(l.Files, d)
	}
	for i := range c.Limits {
		l.Queries = append(l.Queries, query{all, &c.Limits[i]})
	}
	return run(e, l)
}

func TestCrowd(t *testing.T) {
	Check(t, Prop[crowd]{Name: "limit-crowd", Weight: 0.01, Gen: genCrowd, Run: runCrowd})
}

func run(e *Env, c limited) error {
	args, model := c.Files.Install(e)
	var reqs [][]byte
	for i, q := range c.Queries {
		reqs = append(reqs, MentionsRequest(i, q.Variants, q.Limit))
	}
	rs, _, err := RunFrames(Spec{Path: Bin("burl_backend"), Args: args}, reqs)
	if err != nil {
		return err
	}
	cut := false
	for i, q := range c.Queries {
		r := rs[fmt.Sprint(i)]
		if r == nil {
			return Errf("no response to the query %d", i)
		}
		if !model.AnyLinks() {
			continue
		}
		limit := 8
		if q.Limit != nil {
			limit = *q.Limit
		}
		if r.Failed() {
			return Errf("limit %d, query %q: error %s", limit, q.Variants, r.ErrText())
		}
		tree, err := ParseTree(r.Result)
		if err != nil {
			return err
		}
		want := model.Prune(func(u string) bool { return MatchesAny(q.Variants, u) })
		if err := CompareLimited(want, tree, limit); err != nil {
			return Errf("limit %d, %d matches, query %q: %w\nreply: %s", limit, want.Total(), q.Variants, err, Short(r.Result))
		}
		if want.Total() > 0 {
			if limit < want.Total() {
				cut = true
				e.Label("limit<matches")
			} else {
				e.Label("limit>=matches")
			}
			if want.Total() != want.Distinct() {
				e.Label("repeated-urls")
			}
		}
	}
	e.Nontrivial(cut)
	return nil
}

func TestLimit(t *testing.T) {
	Check(t, Prop[limited]{Name: "limit", Gen: gen, Run: run})
}

func TestDistinct(t *testing.T) {
	Check(t, Prop[limited]{Name: "limit-distinct", Gen: genDistinct, Run: run})
}
