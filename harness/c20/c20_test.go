package c20

import (
	"strings"
	"testing"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"
	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type pairCase struct {
	Query []byte `json:"query"`
	Text  []byte `json:"text"`
	Brute bool   `json:"brute"`
}

func gen(t *rapid.T) pairCase {
	al := DrawAlphabet(t)
	c := pairCase{}
	var q, s string
	switch Pick(t, "shape", 4, 3, 1, 1) {
	case 0: // everything is tried
		q = DrawWord(t, "query", al, 1, 7)
		s = DrawWord(t, "text", al, 1, 9)
		c.Brute = true
	case 1: // the text has something similar
		q = DrawWord(t, "query", al, 1, 25)
		s = DrawWord(t, "before", al, 0, 15) + Mutate(t, "edits", q, al, 5) + DrawWord(t, "after", al, 0, 15)
	case 2:
		q = DrawWord(t, "query", al, 1, 120)
		s = Mutate(t, "edits", q, al, 30)
	case 3:
		q = rapid.StringN(1, 12, -1).Draw(t, "query")
		s = rapid.StringN(1, 30, -1).Draw(t, "text")
		if Pick(t, "invalid", 4, 1) == 1 {
			q += "\xff\xc0"
			s = "\xfe" + s
		}
	}
	if s == "" {
		s = "a"
	}
	if Rare(t, "huge query", 400) {
		// Distances that do not fit into 15 or 16 bits.
		n := rapid.SampledFrom([]int{255, 256, 4096, 32766, 32767, 32768, 40000, 65536, 70000}).Draw(t, "length")
		n += rapid.IntRange(-2, 3).Draw(t, "more")
		q = strings.Repeat(q, n/len([]rune(q))+1)
		q = string([]rune(q)[:n])
		s = string([]rune(s)[:1]) + DrawWord(t, "short text", al, 0, 5)
		c.Brute = false
	}
	if Rare(t, "far", 200) {
		// The best place is far from the start of a long text.
		q = DrawWord(t, "query", al, 2, 12)
		n := rapid.SampledFrom([]int{60, 124, 250, 500, 1018, 2040}).Draw(t, "offset") + rapid.IntRange(0, 12).Draw(t, "more")
		filler := rapid.SampledFrom([]string{"\u00b7", "_", string(al[:1])}).Draw(t, "filler")
		s = strings.Repeat(filler, n) + Mutate(t, "edits", q, al, 2) + DrawWord(t, "after", al, 0, 5)
		c.Brute = false
	}
	c.Query, c.Text = []byte(q), []byte(s)
	return c
}

func run(e *Env, c pairCase) error {
	q, s := string(c.Query), string(c.Text)
	ql, sl := Lower(q), Lower(s)
	want := SearchDistance(ql, sl)
	if c.Brute {
		if b := SubstringDistance(ql, sl); b != want {
			Infra("oracles disagree on %q in %q: %d, %d", q, s, b, want)
		}
		e.Label("brute force")
	}
	got := int(burl_fuzzy.SearchDistanceDL(q, s))
	if got != want {
		return Errf("distance of %s in %s is %d, expected %d", Short([]byte(q)), Short([]byte(s)), got, want)
	}
	if len(ql) > 1000 {
		e.Label("huge query")
	}
	if got2 := int(burl_fuzzy.EditorDistanceRunes(ql, sl)); got2 != want {
		return Errf("distance of characters of %q in %q is %d, expected %d", q, s, got2, want)
	}
	if (got == 0) != strings.Contains(string(sl), string(ql)) {
		return Errf("distance of %q in %q is %d but substring %v", q, s, got, got != 0)
	}
	if got < 0 || got > len(ql) {
		return Errf("distance of %q in %q is %d", q, s, got)
	}
	if len(q) > 1 && len(s) > 1 {
		// More text never makes it worse.
		if x := int(burl_fuzzy.SearchDistanceDL(q, s+"b")); x > got {
			return Errf("distance of %q in %q is %d, in a longer text %d", q, s, got, x)
		}
	}
	e.Nontrivial(got > 0 && got < len(ql))
	return nil
}

func TestDistance(t *testing.T) {
	Check(t, Prop[pairCase]{Name: "distance", Gen: gen, Run: run})
}
