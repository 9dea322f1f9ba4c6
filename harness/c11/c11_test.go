package c11

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type defect struct {
	Kind string `json:"kind"` // "", missing, dir, long, dangling, loop
	At   int    `json:"at"`   // line before which the long one is inserted
	Len  int    `json:"len"`
}

type request struct {
	Set      bool     `json:"set"`
	Variants []string `json:"v,omitempty"`
	Prefix   []string `json:"p,omitempty"`
}

type incomplete struct {
	Files    Files     `json:"files"`
	Defects  []defect  `json:"defects"`
	Requests []request `json:"requests"`
	Together bool      `json:"together"`
}

func drawFiles(t *rapid.T, o DocOpts, max int) Files {
	files := DrawFiles(t, o, 1, max, "mixed")
	for i := range files {
		// A no-break space and a quote inside a word are delimiters for mentions but not for linkSet.
		for _, l := range files[i].Lines {
			for j := range l.Pieces {
				if p := &l.Pieces[j]; p.Pre == "\u00a0" {
					p.Pre, p.Post = " ", " "
				} else if p.Post == "\"x " {
					p.Post = "\" "
				}
			}
		}
	}
	return files
}

func drawRequests(t *rapid.T, files Files, bases []string) (rs []request) {
	all := files.AllURLs()
	n := rapid.IntRange(1, 5).Draw(t, "requests")
	for i := 0; i < n; i++ {
		r := request{Set: Pick(t, "set", 2, 1) == 1}
		if r.Set {
			r.Prefix = []string{"http", "https"}
			if Pick(t, "one", 1, 1) == 1 {
				r.Prefix = []string{"https:"}
			}
		} else if len(all) > 0 && Pick(t, "all", 1, 2) == 1 {
			r.Variants = all
		} else {
			r.Variants = []string{DrawURL(t, bases, "txt")}
		}
		rs = append(rs, r)
	}
	return
}

func gen(t *rapid.T) incomplete {
	c := incomplete{}
	bases := DrawBases(t, false)
	c.Files = drawFiles(t, DocOpts{Bases: bases, MaxLines: 15}, 5)
	any := false
	for i := range c.Files {
		d := defect{}
		switch Pick(t, "defect", 6, 1, 1, 4, 1, 1) {
		case 1:
			d.Kind = "missing"
		case 2:
			d.Kind = "dir"
		case 3:
			d.Kind = "long"
			d.At = rapid.IntRange(0, len(c.Files[i].Lines)).Draw(t, "at")
			d.Len = rapid.SampledFrom([]int{60000, 65000, 65520, 65534, 65535, 65536, 65537, 66000, 70000, 100000, 131072, 200000, 1 << 20}).Draw(t, "len") + rapid.IntRange(-2, 2).Draw(t, "delta")
		case 4:
			d.Kind = "dangling"
		case 5:
			d.Kind = "loop"
		}
		any = any || d.Kind != ""
		c.Defects = append(c.Defects, d)
	}
	c.Requests = drawRequests(t, c.Files, bases)
	c.Together = Pick(t, "together", 1, 1) == 0
	return c
}

func frames(rs []request) (reqs [][]byte) {
	for i, r := range rs {
		if r.Set {
			reqs = append(reqs, Request(i, "burl.linkSet", map[string]interface{}{"prefix": r.Prefix}))
		} else {
			reqs = append(reqs, MentionsRequest(i, r.Variants, Ptr(NoLimit)))
		}
	}
	return
}

// complete tells whether an answer without error has all links.
func complete(r request, resp *Response, model *MNode) error {
	if !r.Set {
		_, err := CheckMentions(resp, model, r.Variants)
		return err
	}
	var reply struct{ Urls []string }
	if err := Unmarshal(resp.Result, &reply); err != nil {
		return err
	}
	got := map[string]bool{}
	for _, u := range reply.Urls {
		got[u] = true
	}
	for _, u := range model.AllURLs() {
		for _, p := range r.Prefix {
			if strings.HasPrefix(u, strings.TrimSuffix(p, ":")+":") && !got[u] {
				return Errf("%q is missing without any error", u)
			}
		}
	}
	return nil
}

func run(e *Env, c incomplete) error {
	model := Group()
	var args []string
	broken := 0
	for i := range c.Files {
		name := c.Files.Name(i)
		p := filepath.Join(e.Scratch(), name)
		d := c.Files[i]
		df := c.Defects[i]
		switch df.Kind {
		case "missing":
		case "dir":
			os.Mkdir(p, 0755)
		case "dangling":
			os.Symlink("nowhere", p)
		case "loop":
			os.Symlink(name, p)
		case "long":
			long := Line{Pieces: []Piece{{K: "w", Text: strings.Repeat("x", df.Len)}}}
			lines := append([]Line{}, d.Lines[:df.At]...)
			lines = append(append(lines, long), d.Lines[df.At:]...)
			d.Lines = lines
			e.Write(name, d.Render())
			if df.Len > 65536 {
				broken++
			}
		default:
			e.Write(name, d.Render())
		}
		if df.Kind != "" {
			e.Label(df.Kind)
			if df.Kind != "long" {
				broken++
			}
		}
		if d.Org {
			args = append(args, "-org", p)
		} else {
			args = append(args, "-txt", p)
		}
		model.Children = append(model.Children, d.Model(p))
	}
	reqs := frames(c.Requests)
	spec := Spec{Path: Bin("burl_backend"), Args: args}
	check := func(i int, resp *Response) error {
		r := c.Requests[i]
		if resp == nil {
			return Errf("no response to the request %d", i)
		}
		if resp.Failed() {
			e.Label("error-reply")
			if broken == 0 && model.AnyLinks() {
				long := false
				for _, d := range c.Defects {
					long = long || d.Kind == "long"
				}
				if !long {
					return Errf("request %d: error %s though all files are good", i, resp.ErrText())
				}
			}
			return nil
		}
		e.Label("complete-reply")
		// The answer has to be complete as if there was no problem; links of
		// a file that has no contents at all can not be required.
		for j, d := range c.Defects {
			if d.Kind != "" && d.Kind != "long" {
				return Errf("request %d: no error, file %s is %s", i, c.Files.Name(j), d.Kind)
			}
		}
		return complete(r, resp, model)
	}
	if c.Together {
		rs, _, err := RunFrames(spec, reqs)
		if err != nil {
			return err
		}
		for i := range reqs {
			if err := check(i, rs[fmt.Sprint(i)]); err != nil {
				return err
			}
		}
	} else {
		s := StartSession(spec)
		defer s.Kill()
		for i := range reqs {
			s.Send(reqs[i])
			r, err := s.Recv()
			if err != nil {
				return err
			}
			if err := check(i, r); err != nil {
				return err
			}
		}
		if err := s.CloseClean(); err != nil {
			return err
		}
	}
	e.Nontrivial(broken > 0)
	return nil
}

func TestIncomplete(t *testing.T) {
	Check(t, Prop[incomplete]{Name: "unreadable-files", Gen: gen, Run: run})
}

// Reading of the files fails: every call of the system for a file returns an
// error or, in the case of read, less than asked.
type faulty struct {
	Files    Files     `json:"files"`
	Requests []request `json:"requests"`
	Faults   []choice  `json:"faults"`
}

type choice struct {
	Call  int  `json:"call"` // modulo number of calls
	Errno int  `json:"errno"`
	Short int  `json:"short,omitempty"`
	Stays bool `json:"stays"` // the later calls for this file fail as well
}

func genFaulty(t *rapid.T) faulty {
	c := faulty{}
	bases := DrawBases(t, false)
	max := 10
	if Pick(t, "large", 1, 1) == 1 {
		max = 150
	}
	c.Files = drawFiles(t, DocOpts{Bases: bases, MaxLines: max}, 4)
	c.Requests = drawRequests(t, c.Files, bases)
	for n := rapid.IntRange(1, 6).Draw(t, "faults"); n > 0; n-- {
		f := choice{Call: rapid.IntRange(0, 60).Draw(t, "call"), Stays: rapid.Bool().Draw(t, "stays")}
		f.Errno = int(rapid.SampledFrom([]syscall.Errno{syscall.EIO, syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.ESTALE, syscall.EMFILE, syscall.EINTR, syscall.EAGAIN}).Draw(t, "errno"))
		if Pick(t, "short?", 4, 1) == 1 {
			f.Short = rapid.IntRange(1, 5000).Draw(t, "short")
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func runFaulty(e *Env, c faulty) error {
	args, model := c.Files.Install(e)
	var in []byte
	for _, b := range frames(c.Requests) {
		in = append(in, Frame(b)...)
	}
	trace := func(faults ...Fault) (*TraceReport, error) {
		r, err := Trace(TracePlan{Path: Bin("burl_backend"), Args: args, Dir: e.Scratch(), Root: e.Scratch(), Faults: faults, Stdin: in})
		if err != nil {
			return nil, err
		}
		if r.Code != 0 || r.Signal != 0 {
			return nil, Errf("status %d, signal %d: %s%s", r.Code, r.Signal, Short(r.Stderr), r)
		}
		rs, err := ParseResponses(r.Stdout)
		if err != nil {
			return nil, err
		}
		byID := map[string]*Response{}
		for _, x := range rs {
			byID[string(x.ID)] = x
		}
		for i, q := range c.Requests {
			x := byID[fmt.Sprint(i)]
			if x == nil {
				return nil, Errf("no response to the request %d%s", i, r)
			}
			if x.Failed() {
				if !r.Injected() && model.AnyLinks() {
					return nil, Errf("request %d: error %s though all files are good", i, x.ErrText())
				}
				e.Label("error-reply")
				continue
			}
			e.Label("complete-reply")
			if err := complete(q, x, model); err != nil {
				return nil, Errf("request %d: %w%s", i, err, r)
			}
		}
		return r, nil
	}
	r, err := trace()
	if err != nil {
		return err
	}
	if len(r.Calls) == 0 {
		return nil
	}
	injected := false
	for _, f := range c.Faults {
		k := f.Call % len(r.Calls)
		call := r.Calls[k]
		faults := []Fault{{K: k, Action: "errno", N: f.Errno, Name: call.Name}}
		if f.Short > 0 && call.Name == "read" {
			faults[0].Action, faults[0].N = "short", f.Short
		} else if f.Stays && syscall.Errno(f.Errno) != syscall.EINTR {
			for j := k + 1; j < len(r.Calls)+20; j++ {
				if j >= len(r.Calls) {
					faults = append(faults, Fault{K: j, Action: "errno", N: f.Errno, Name: "read"})
				} else if r.Calls[j].Path == call.Path {
					faults = append(faults, Fault{K: j, Action: "errno", N: f.Errno, Name: r.Calls[j].Name})
				}
			}
		}
		r, err := trace(faults...)
		if err != nil {
			return err
		}
		if r.Injected() {
			injected = true
			e.Label(faults[0].Action + " " + call.Name)
		}
	}
	e.Nontrivial(injected && model.AnyLinks())
	return nil
}

func TestFaulty(t *testing.T) {
	Check(t, Prop[faulty]{Name: "read-faults", Weight: 0.15, Gen: genFaulty, Run: runFaulty})
}
