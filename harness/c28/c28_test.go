package c28

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type noteFile struct {
	Name []byte `json:"name"`
	Org  bool   `json:"org"`
	Doc  Doc    `json:"doc"`
}

// config of the backend, notes are numbers of files.
type config struct {
	Notes   []int    `json:"notes"`
	Disable bool     `json:"disable"`
	Log     string   `json:"log"` // "", "-", name of a file
	Args    []string `json:"args"`
	Scheme  []string `json:"scheme"`
	Client  bool     `json:"client"` // -emacsclient is given, otherwise found in PATH
}

type step struct {
	Config   int  `json:"config"`
	Force    bool `json:"force"`
	Relative bool `json:"relative"`
	Cwd      int  `json:"cwd"`
	Serve    bool `json:"serve"` // the host is started after this step
}

type installCase struct {
	Files   []noteFile `json:"files"`
	Configs []config   `json:"configs"`
	Steps   []step     `json:"steps"`
	Browser string     `json:"browser"`
	Name    string     `json:"name"`    // -backend
	ToDir   bool       `json:"toDir"`   // manifest is given as a directory
	Wrapper []byte     `json:"wrapper"` // name
	Queries [][]string `json:"queries"`
	Prefix  []string   `json:"prefix"`
	Visit   []int      `json:"visit"`
}

func gen(t *rapid.T) installCase {
	c := installCase{}
	bases := DrawBases(t, false)
	for i := rapid.IntRange(1, 3).Draw(t, "files"); i > 0; i-- {
		f := noteFile{Org: rapid.Bool().Draw(t, "org")}
		f.Name = []byte(fmt.Sprintf("n%d", i))
		if Pick(t, "odd name", 1, 1) == 1 {
			f.Name = append(f.Name, DrawFileName(t, "name")...)
		}
		f.Doc = DrawDoc(t, DocOpts{Org: f.Org, Bases: bases, MaxLines: 8})
		c.Files = append(c.Files, f)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "configs"); i > 0; i-- {
		f := config{Log: rapid.SampledFrom([]string{"", "-", "-", "log.txt", "log it's"}).Draw(t, "log")}
		f.Notes = rapid.SliceOfNDistinct(rapid.IntRange(0, len(c.Files)-1), 0, len(c.Files), func(i int) int { return i }).Draw(t, "notes")
		f.Disable = Pick(t, "disable", 3, 1) == 1
		if Pick(t, "emacs args", 1, 1) == 1 {
			for k := rapid.IntRange(1, 3).Draw(t, "args"); k > 0; k-- {
				f.Args = append(f.Args, rapid.SampledFrom([]string{"-s", "server name", "--socket-name=a b", "it's", "$HOME", "\"", "*", "é"}).Draw(t, "arg"))
			}
		}
		if Pick(t, "schemes", 1, 1) == 1 {
			f.Scheme = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ftp", "info:", "news"}), 1, 2, func(s string) string { return s }).Draw(t, "scheme")
		}
		f.Client = Pick(t, "client", 1, 2) == 1
		c.Configs = append(c.Configs, f)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "steps"); i > 0; i-- {
		c.Steps = append(c.Steps, step{rapid.IntRange(0, len(c.Configs)-1).Draw(t, "config"), rapid.Bool().Draw(t, "force"),
			rapid.Bool().Draw(t, "relative"), rapid.IntRange(0, 5).Draw(t, "cwd"), i == 1 || rapid.Bool().Draw(t, "serve")})
	}
	c.Browser = rapid.SampledFrom([]string{"firefox", "chrome"}).Draw(t, "browser")
	c.Name = rapid.SampledFrom([]string{"", "burl", "org.example.burl_1"}).Draw(t, "backend")
	c.ToDir = rapid.Bool().Draw(t, "to directory")
	c.Wrapper = []byte("wrapper")
	if Pick(t, "odd wrapper", 2, 1) == 1 {
		// The path of the wrapper has to be valid text in the manifest.
		c.Wrapper = []byte("w " + rapid.SampledFrom([]string{"it's", "é", "\"q\"", "$x", "a\\b", "<&>", "-", "% d", "😀"}).Draw(t, "wrapper"))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "queries"); i > 0; i-- {
		c.Queries = append(c.Queries, []string{DrawURL(t, bases, "txt")})
	}
	c.Prefix = rapid.SliceOfN(rapid.SampledFrom([]string{"http", "https", "mid:", "doi", "ftp", "https://example.org/", "bad one"}), 1, 3).Draw(t, "prefix")
	c.Visit = rapid.SliceOfN(rapid.IntRange(0, len(c.Files)-1), 1, 2).Draw(t, "visit")
	return c
}

func infra(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

// options of the backend; dir of paths is relative to cwd if it is not empty.
func (c *installCase) options(f *config, dir, cwd string) (args []string) {
	path := func(p string) string {
		if cwd == "" {
			return p
		}
		r, err := filepath.Rel(cwd, p)
		infra(err)
		return r
	}
	if f.Log != "-" {
		l := f.Log
		if l != "" {
			l = path(filepath.Join(dir, "log", l))
		}
		args = append(args, "-log="+l)
	}
	if f.Disable {
		args = append(args, "-disable-link-set")
	}
	if f.Client {
		args = append(args, "-emacsclient", filepath.Join(dir, "other client"))
	}
	for _, a := range f.Args {
		args = append(args, "-emacsarg="+a)
	}
	for _, s := range f.Scheme {
		args = append(args, "-scheme", s)
	}
	for _, n := range f.Notes {
		kind := "-txt"
		if c.Files[n].Org {
			kind = "-org"
		}
		args = append(args, kind, path(c.path(dir, n)))
	}
	return
}

func (c *installCase) path(dir string, n int) string {
	return filepath.Join(dir, "notes", string(c.Files[n].Name))
}

// requests of a session.
func (c *installCase) requests(dir string) (r [][]byte) {
	r = append(r, Request(0, "hello", json.RawMessage(`{"formats":[{"format":"object","version":"1"},{"format":"org-protocol","version":"0.2"}]}`)))
	for _, q := range c.Queries {
		r = append(r, MentionsRequest(len(r), q, nil))
	}
	r = append(r, Request(len(r), "linkremark.linkSet", map[string]interface{}{"prefix": c.Prefix}))
	for _, n := range c.Visit {
		// The name may have bytes that JSON can not pass, then visit is refused in both cases.
		r = append(r, Request(len(r), "linkremark.visit", map[string]interface{}{"file": c.path(dir, n), "lineNo": n}))
	}
	r = append(r, Request(len(r), "linkremark.capture", json.RawMessage(`{"format":"org-protocol","version":"0.2","data":{"url":"org-protocol:/capture?url=x","title":"t"}}`)))
	return append(r, Request(len(r), "none", 1))
}

func normal(r *Response) string {
	var v struct {
		Urls []string `json:"urls"`
	}
	res := string(r.Result)
	if Unmarshal(r.Result, &v) == nil && v.Urls != nil {
		sort.Strings(v.Urls)
		res = Quote(v.Urls)
	}
	return res + " " + string(r.Error)
}

// talk runs requests one by one.
func talk(spec Spec, reqs [][]byte) (replies []string, stderr string, err error) {
	s := StartSession(spec)
	defer s.Kill()
	for i, q := range reqs {
		s.Send(q)
		r, err := s.Recv()
		if err != nil {
			return nil, "", err
		}
		if string(r.ID) != fmt.Sprint(i) {
			return nil, "", Errf("response %s to request %d", r.ID, i)
		}
		replies = append(replies, normal(r))
	}
	x, err := s.Close()
	if err != nil {
		return nil, "", err
	}
	if x.Code != 0 || x.Signal != 0 {
		return nil, "", Errf("%s: %s", x.Status(), x.Tail())
	}
	return replies, string(x.Stderr), nil
}

func read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil && !os.IsNotExist(err) {
		Infra("%v", err)
	}
	return string(b)
}

func run(e *Env, c installCase) error {
	dir := filepath.Join(e.Scratch(), "d")
	cwds := []string{dir, filepath.Join(dir, "cwd", "deep"), filepath.Join(dir, "notes"), filepath.Join(dir, "log"), filepath.Join(dir, "out"), filepath.Join(dir, "hosts")}
	for _, d := range []string{"notes", "cwd/deep", "bin", "out", "log", "hosts"} {
		infra(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	for i := range c.Files {
		infra(os.WriteFile(c.path(dir, i), c.Files[i].Doc.Render(), 0644))
	}
	infra(os.Symlink(Bin("stub"), filepath.Join(dir, "bin", "emacsclient")))
	infra(os.Symlink(Bin("stub"), filepath.Join(dir, "other client")))
	name := c.Name
	if name == "" {
		name = "io.github.maxnikulin.burl"
	}
	manifest := filepath.Join(dir, "hosts", name+".json")
	wrapper := filepath.Join(dir, "out", string(c.Wrapper))
	installed := -1
	keys := make([]string, len(c.Configs))
	for i := range c.Configs {
		// What a wrapper depends on.
		keys[i] = fmt.Sprintf("%q", c.options(&c.Configs[i], dir, ""))
	}
	served := 0
	for k, st := range c.Steps {
		cwd := cwds[st.Cwd]
		f := &c.Configs[st.Config]
		rel := ""
		if st.Relative {
			rel = cwd
		}
		given := func(p string) string {
			if !st.Relative {
				return p
			}
			r, err := filepath.Rel(cwd, p)
			infra(err)
			return r
		}
		args := []string{"-manifest-" + c.Browser}
		if c.ToDir {
			args = append(args, given(filepath.Join(dir, "hosts"))+"/")
		} else {
			args = append(args, given(manifest))
		}
		args = append(args, "-wrapper", given(wrapper))
		if c.Name != "" {
			args = append(args, "-backend", c.Name)
		}
		if st.Force {
			args = append(args, "-force")
		}
		args = append(args, c.options(f, dir, rel)...)
		x, err := RunProc(Spec{Path: Bin("burl_backend"), Args: args, Dir: cwd})
		if err != nil {
			return err
		}
		if x.Crashed() {
			return Errf("%q: %s %s", args, x.Status(), x.Tail())
		}
		same := installed >= 0 && keys[installed] == keys[st.Config]
		if installed < 0 || st.Force || same {
			if x.Code != 0 {
				return Errf("step %d: %q: %s %s", k, args, x.Status(), x.Tail())
			}
			if same {
				e.Label("repeated")
			} else if installed >= 0 {
				e.Label("replaced")
			}
			installed = st.Config
		} else {
			if x.Code == 0 {
				return Errf("step %d: another configuration is installed, but %q is successful", k, args)
			}
			e.Label("kept")
		}
		if !st.Serve {
			continue
		}
		// A browser reads the manifest and starts the executable.
		var m struct {
			Name, Path, Type string
			Extensions       []string `json:"allowed_extensions"`
			Origins          []string `json:"allowed_origins"`
		}
		if err := Unmarshal([]byte(read(manifest)), &m); err != nil {
			return Errf("step %d: manifest: %w", k, err)
		}
		var browser []string
		if c.Browser == "firefox" {
			if len(m.Extensions) == 0 {
				return Errf("step %d: no extensions in the manifest", k)
			}
			browser = []string{manifest, m.Extensions[0]}
		} else {
			if len(m.Origins) == 0 {
				return Errf("step %d: no origins in the manifest", k)
			}
			browser = []string{m.Origins[0]}
		}
		if m.Name != name || m.Type != "stdio" || !filepath.IsAbs(m.Path) {
			return Errf("step %d: manifest %+v", k, m)
		}
		cur := &c.Configs[installed]
		logFile := ""
		if cur.Log != "" && cur.Log != "-" {
			logFile = filepath.Join(dir, "log", cur.Log)
		}
		var replies [2][]string
		var stderr, calls, logs [2]string
		for j := 0; j < 2; j++ {
			stub := &Stub{Dir: filepath.Join(dir, fmt.Sprintf("stub%d-%d", k, j))}
			infra(os.MkdirAll(stub.Dir, 0755))
			stub.SetPlan(StubPlan{Calls: []StubOutcome{{Out: "org-protocol\n"}}})
			spec := Spec{Path: m.Path, Args: browser, Dir: cwds[(st.Cwd+1)%len(cwds)], CleanEnv: true,
				Env: []string{"PATH=" + dir + "/bin:/usr/bin:/bin", stub.Env()}}
			if j == 1 {
				spec.Path, spec.Args = Bin("burl_backend"), c.options(cur, dir, "")
			}
			old := read(logFile0(logFile))
			replies[j], stderr[j], err = talk(spec, c.requests(dir))
			if err != nil {
				return Errf("step %d: %q: %w", k, spec.Path, err)
			}
			logs[j] = strings.TrimPrefix(read(logFile0(logFile)), old)
			calls[j] = fmt.Sprintf("%q", stub.Calls())
		}
		for i := range replies[1] {
			if replies[0][i] != replies[1][i] {
				return Errf("step %d: %s: installed host replies %s, expected %s", k, c.requests(dir)[i], replies[0][i], replies[1][i])
			}
		}
		if calls[0] != calls[1] {
			return Errf("step %d: installed host runs %s, expected %s", k, calls[0], calls[1])
		}
		if (stderr[0] == "") != (stderr[1] == "") {
			return Errf("step %d: standard error of the installed host %q, expected %q", k, stderr[0], stderr[1])
		}
		if (logs[0] == "") != (logs[1] == "") {
			return Errf("step %d: log of the installed host %q, expected %q", k, logs[0], logs[1])
		}
		if strings.Contains(strings.Join(replies[0], ""), `"lineNo"`) {
			e.Label("mentions")
		}
		served++
	}
	e.Nontrivial(served > 0 && len(c.Configs[installed].Notes) > 0)
	return nil
}

func logFile0(p string) string {
	if p == "" {
		return "/nonexistent/log"
	}
	return p
}

func TestInstalled(t *testing.T) {
	Check(t, Prop[installCase]{Name: "installed", Gen: gen, Run: run})
}
