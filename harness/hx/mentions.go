package hx

import (
	"fmt"

	"pgregory.net/rapid"
)

// MentionsCase: note files and queries without limit.
type MentionsCase struct {
	Files   Files      `json:"files"`
	Queries [][]string `json:"queries"`
}

const NoLimit = 1 << 20

func MentionsRequest(id interface{}, variants []string, limit *int) []byte {
	p := map[string]interface{}{"variants": variants}
	if limit != nil {
		p["options"] = map[string]int{"countLimit": *limit}
	}
	return Request(id, "linkremark.urlMentions", p)
}

func Ptr(n int) *int { return &n }

// AllURLs of a set of files.
func (fs Files) AllURLs() []string {
	var all []string
	seen := map[string]bool{}
	for i := range fs {
		for _, u := range fs[i].Model("").AllURLs() {
			if !seen[u] {
				seen[u] = true
				all = append(all, u)
			}
		}
	}
	return all
}

// GenMentions draws files of one kind ("org", "txt", "mixed") and queries.
func GenMentions(t *rapid.T, kind string) MentionsCase {
	c := MentionsCase{}
	bases := DrawBases(t, kind == "org")
	max := 14
	if Pick(t, "big", 12, 1) == 1 {
		max = 120
	}
	c.Files = DrawFiles(t, DocOpts{Bases: bases, MaxLines: max, Deep: true}, 1, 4, kind)
	q := "any"
	if kind != "org" {
		q = "txt"
	}
	n := rapid.IntRange(1, 4).Draw(t, "queries")
	for i := 0; i < n; i++ {
		var vs []string
		k := rapid.IntRange(1, 3).Draw(t, "variants")
		for j := 0; j < k; j++ {
			u := DrawURL(t, bases, q)
			if q == "txt" && Pick(t, "qtail", 2, 1) == 1 {
				u += rapid.SampledFrom([]string{"?", "#", "?#", "&", "/?&#"}).Draw(t, "qt")
			}
			vs = append(vs, u)
		}
		c.Queries = append(c.Queries, vs)
	}
	if all := c.Files.AllURLs(); len(all) > 0 {
		c.Queries = append(c.Queries, all)
	}
	return c
}

// RunMentions asks one session all queries at once.
func RunMentions(e *Env, c MentionsCase) error {
	args, model := c.Files.Install(e)
	var reqs [][]byte
	for i, q := range c.Queries {
		reqs = append(reqs, MentionsRequest(i, q, Ptr(NoLimit)))
	}
	rs, _, err := RunFrames(Spec{Path: Bin("burl_backend"), Args: args}, reqs)
	if err != nil {
		return err
	}
	matched := 0
	for i, q := range c.Queries {
		n, err := CheckMentions(rs[fmt.Sprint(i)], model, q)
		if err != nil {
			return err
		}
		matched += n
	}
	e.Nontrivial(matched > 0)
	deep, skipped := 0, false
	for i := range c.Files {
		l, s := c.Files[i].MaxLevel()
		if l > deep {
			deep = l
		}
		skipped = skipped || s
	}
	if skipped {
		e.Label("skipped-level")
	}
	if deep > 10 {
		e.Label("level>10")
	}
	if matched > 20 {
		e.Label("matches>20")
	}
	if matched > 1000 {
		e.Label("matches>1000")
	}
	if len(c.Files) > 1 {
		e.Label("several-files")
	}
	if len(c.Files) > 10 {
		e.Label("many-files")
	}
	return nil
}

// CheckMentions compares an unlimited answer with the model.
func CheckMentions(r *Response, model *MNode, q []string) (matched int, err error) {
	if r == nil {
		return 0, Errf("no response to the query %q", q)
	}
	if !model.AnyLinks() {
		// Nothing is claimed for files without any links at all.
		return 0, nil
	}
	if r.Failed() {
		return 0, Errf("query %q: error %s", q, r.ErrText())
	}
	reply, err := ParseTree(r.Result)
	if err != nil {
		return 0, Errf("query %q: %v", q, err)
	}
	want := model.Prune(func(u string) bool { return MatchesAny(q, u) })
	if err := CompareFull(want, reply); err != nil {
		return 0, Errf("query %q: %w\nreply: %s", q, err, Short(r.Result))
	}
	return want.Total(), nil
}

func ParseTree(b []byte) (*RNode, error) {
	var reply *RNode
	if err := Unmarshal(b, &reply); err != nil {
		return nil, fmt.Errorf("%v: %s", err, Short(b))
	}
	return reply, nil
}
