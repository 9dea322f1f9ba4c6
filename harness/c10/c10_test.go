package c10

import (
	"fmt"
	"os"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type step struct {
	Prefix []string `json:"prefix"`
	// New contents of a file before the request.
	File *int   `json:"file,omitempty"`
	New  *LFile `json:"new,omitempty"`
}

type history struct {
	Files    []LFile `json:"files"`
	Steps    []step  `json:"steps"`
	Disabled bool    `json:"disabled"`
	Together bool    `json:"together"` // all requests at once, no rewriting
	// Same size and time of all contents of each file.
	Alike bool `json:"alike,omitempty"`
	// Rewritten files are new ones with the same names.
	Replace bool `json:"replace,omitempty"`
}

func gen(t *rapid.T) history {
	c := history{}
	n := rapid.IntRange(0, 4).Draw(t, "files")
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, DrawLFile(t, 12))
	}
	c.Disabled = Pick(t, "disabled", 14, 1) == 1
	c.Together = Pick(t, "together", 1, 1) == 0
	if !c.Together {
		c.Alike = Pick(t, "alike", 2, 1) == 1
		c.Replace = Pick(t, "replace", 2, 1) == 1
	}
	k := rapid.IntRange(1, 6).Draw(t, "steps")
	for i := 0; i < k; i++ {
		s := step{Prefix: []string{}}
		m := 0
		switch Pick(t, "count", 1, 20, 3, 1) {
		case 1:
			m = rapid.IntRange(1, 3).Draw(t, "n")
		case 2:
			m = rapid.IntRange(4, 16).Draw(t, "n")
		case 3:
			m = rapid.IntRange(17, 20).Draw(t, "n")
		}
		for j := 0; j < m; j++ {
			p := DrawPrefix(t, c.Files)
			if m > 3 && !ValidPrefix(p) {
				p = "ftp:" + fmt.Sprint(j)
			}
			s.Prefix = append(s.Prefix, p)
		}
		if !c.Together && n > 0 && Pick(t, "rewrite", 1, 1) == 0 {
			j := rapid.IntRange(0, n-1).Draw(t, "which")
			f := DrawLFile(t, 8)
			f.Org = c.Files[j].Org
			// The kind of the file is fixed: text files have only plain links.
			if !f.Org {
				for _, l := range f.Lines {
					for x := range l {
						if l[x].K != "w" && l[x].K != "p" {
							l[x] = LPiece{K: "w", Text: "w", Pre: " ", Post: " "}
						}
					}
				}
			}
			s.File, s.New = &j, &f
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func check(r *Response, files []LFile, disabled bool, prefixes []string) (n int, err error) {
	if r == nil {
		return 0, Errf("no response to %q", prefixes)
	}
	want, ok := ExpectedLinks(files, prefixes)
	if !ok || disabled {
		if !r.Failed() {
			return 0, Errf("prefixes %q (disabled: %v) should be refused, reply %s", prefixes, disabled, Short(r.Result))
		}
		return 0, nil
	}
	if r.Failed() {
		return 0, Errf("prefixes %q: error %s", prefixes, r.ErrText())
	}
	var reply struct{ Urls []string }
	if err := Unmarshal(r.Result, &reply); err != nil {
		return 0, err
	}
	got := map[string]bool{}
	for _, u := range reply.Urls {
		if got[u] {
			return 0, Errf("prefixes %q: %q is repeated", prefixes, u)
		}
		got[u] = true
		if !want[u] {
			return 0, Errf("prefixes %q: unexpected %q", prefixes, u)
		}
	}
	for u := range want {
		if !got[u] {
			g := reply.Urls
			sort.Strings(g)
			return 0, Errf("prefixes %q: missing %q; got %q", prefixes, u, g)
		}
	}
	return len(want), nil
}

func run(e *Env, c history) error {
	var args, names []string
	sizes := make([]int, len(c.Files))
	contents := func(i int, f *LFile) []byte {
		b := f.Render()
		if c.Alike {
			for len(b) < sizes[i] {
				b = append(b, '\n')
			}
		}
		return b
	}
	date := time.Unix(1600000000, 0)
	for i := range c.Files {
		sizes[i] = len(c.Files[i].Render())
		for _, s := range c.Steps {
			if s.File != nil && *s.File == i && len(s.New.Render()) > sizes[i] {
				sizes[i] = len(s.New.Render())
			}
		}
	}
	if c.Disabled {
		args = append(args, "-disable-link-set")
	}
	for i := range c.Files {
		f := &c.Files[i]
		kind := "txt"
		if f.Org {
			kind = "org"
		}
		p := e.Write(fmt.Sprintf("n%d.%s", i, kind), contents(i, f))
		if c.Alike {
			if err := os.Chtimes(p, date, date); err != nil {
				Infra("%v", err)
			}
		}
		names = append(names, p)
		args = append(args, "-"+kind, p)
	}
	spec := Spec{Path: Bin("burl_backend"), Args: args}
	found, refused := 0, 0
	if c.Together {
		var reqs [][]byte
		for i, s := range c.Steps {
			reqs = append(reqs, Request(i, "linkremark.linkSet", map[string]interface{}{"prefix": s.Prefix}))
		}
		rs, _, err := RunFrames(spec, reqs)
		if err != nil {
			return err
		}
		for i, s := range c.Steps {
			n, err := check(rs[fmt.Sprint(i)], c.Files, c.Disabled, s.Prefix)
			if err != nil {
				return err
			}
			found += n
		}
	} else {
		ses := StartSession(spec)
		defer ses.Kill()
		files := append([]LFile{}, c.Files...)
		for _, s := range c.Steps {
			if s.File != nil {
				files[*s.File] = *s.New
				name := names[*s.File]
				if c.Replace {
					name += ".new"
				}
				if err := WriteFile(name, contents(*s.File, s.New)); err != nil {
					return err
				}
				if c.Alike {
					if err := os.Chtimes(name, date, date); err != nil {
						Infra("%v", err)
					}
					e.Label("alike")
				}
				if c.Replace {
					if err := os.Rename(name, names[*s.File]); err != nil {
						Infra("%v", err)
					}
				}
				e.Label("rewritten")
			}
			r, err := ses.Call("burl.linkSet", map[string]interface{}{"prefix": s.Prefix})
			if err != nil {
				return err
			}
			n, err := check(r, files, c.Disabled, s.Prefix)
			if err != nil {
				return err
			}
			found += n
		}
		if err := ses.CloseClean(); err != nil {
			return err
		}
	}
	for _, s := range c.Steps {
		if _, ok := ExpectedLinks(nil, s.Prefix); !ok {
			refused++
		}
	}
	if refused > 0 {
		e.Label("refused")
	}
	if found > 0 {
		e.Label("found")
	}
	e.Nontrivial(found > 0)
	return nil
}

func TestLinkSet(t *testing.T) {
	Check(t, Prop[history]{Name: "link-set", Gen: gen, Run: run})
}
