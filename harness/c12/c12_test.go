package c12

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type visit struct {
	Source int           `json:"source"` // index of a configured file
	Mangle string        `json:"mangle"`
	Raw    string        `json:"raw,omitempty"`
	Line   *int          `json:"line"`
	Plan   []StubOutcome `json:"plan"`
	Alias  string        `json:"alias"`
}

type history struct {
	Names    []string `json:"names"` // configured files, relative to the scratch
	Relative bool     `json:"relative"`
	Emacs    []string `json:"emacs"` // user arguments
	CmdName  string   `json:"cmd"`
	Visits   []visit  `json:"visits"`
}

func genName(t *rapid.T) string {
	if Rare(t, "long name", 40) {
		return strings.Repeat("directory with a long name/", rapid.IntRange(0, 100).Draw(t, "dirs")) + strings.Repeat("n", rapid.IntRange(100, 251).Draw(t, "name-n")) + ".org"
	}
	return rapid.SampledFrom([]string{"a.org", "b.txt", "with space.org", "ünï.org", "quote'\".txt", "a$b;c.org", "-dash.org", "+12", "日本.org", "x\ny.org", "a.orgg", "sub/a.org", "*.org", "%41.org", "a\\b.txt"}).Draw(t, "name")
}

func gen(t *rapid.T) history {
	c := history{}
	n := rapid.IntRange(0, 4).Draw(t, "files")
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, genName(t))
	}
	if n > 0 && Rare(t, "many files", 60) {
		for n = rapid.IntRange(20, 400).Draw(t, "files-n"); len(c.Names) < n; {
			c.Names = append(c.Names, fmt.Sprintf("%d%s", len(c.Names), genName(t)))
		}
	}
	c.Relative = Pick(t, "relative", 3, 1) == 1
	k := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 9}).Draw(t, "userargs")
	for i := 0; i < k; i++ {
		c.Emacs = append(c.Emacs, rapid.SampledFrom([]string{"--socket-name=/tmp/s", "-n", "--eval", "a b", "é'\"", "+7", "--", "-c", "--create-frame", "$HOME"}).Draw(t, "arg"))
	}
	if Rare(t, "many args", 100) {
		for n := rapid.IntRange(10, 300).Draw(t, "args-n"); n > 0; n-- {
			c.Emacs = append(c.Emacs, fmt.Sprintf("--arg%d", n))
		}
	}
	c.CmdName = rapid.SampledFrom([]string{"", "", "emacs client", "e'mä\"cs", "absent"}).Draw(t, "cmd")
	m := rapid.IntRange(1, 5).Draw(t, "visits")
	for i := 0; i < m; i++ {
		v := visit{Alias: rapid.SampledFrom([]string{"linkremark.visit", "burl.visit"}).Draw(t, "alias")}
		if n > 0 && Pick(t, "allowed", 1, 2) == 1 {
			v.Source = rapid.IntRange(0, n-1).Draw(t, "source")
			if Pick(t, "mangled", 3, 2) == 1 {
				v.Mangle = rapid.SampledFrom([]string{"dot", "dotdot", "slashes", "trail", "space", "leading-space", "upper", "newline", "base", "nul", "dir", "prefix", "suffix", "file-uri", "tramp", "symlink", "hardlink", "line"}).Draw(t, "mangle")
			}
		} else {
			v.Source = -1
			v.Raw = rapid.SampledFrom([]string{"", "/etc/passwd", "secret.org", "/", ".", "+12", "--eval=(x)", "-f", "~/.bashrc", "/ssh:host:/x", "*", "a.org"}).Draw(t, "raw")
		}
		if Pick(t, "haveline", 1, 5) == 1 {
			v.Line = Ptr(rapid.SampledFrom([]int{0, 1, 2, 7, 100, 123456, -1, -100, 1 << 40, 1<<63 - 1, -1 << 63}).Draw(t, "line"))
		}
		nf := rapid.IntRange(0, 2).Draw(t, "planned")
		for j := 0; j < nf; j++ {
			o := StubOutcome{Out: rapid.SampledFrom([]string{"org-protocol", "", "nil", "#<frame bURL>\n"}).Draw(t, "out")}
			if Pick(t, "fail", 3, 2) == 1 {
				o.Exit = rapid.SampledFrom([]int{1, 2, 9, 127, 255}).Draw(t, "exit")
				o.Err = rapid.SampledFrom([]string{"", "emacsclient: error\n", "*ERROR*: \"quoted\" é"}).Draw(t, "err")
			}
			if Pick(t, "noserver", 6, 1) == 1 {
				o = StubOutcome{Exit: 9, NoServer: true}
			}
			if Rare(t, "chatty", 25) {
				o.OutN = rapid.SampledFrom([]int{0, 100, 5000, 70000, 300000}).Draw(t, "out-n")
				o.ErrN = rapid.SampledFrom([]int{0, 100, 5000, 70000, 300000}).Draw(t, "err-n")
			}
			v.Plan = append(v.Plan, o)
		}
		c.Visits = append(c.Visits, v)
	}
	return c
}

func run(e *Env, c history) error {
	dir := filepath.Join(e.Scratch(), "notes")
	os.MkdirAll(dir, 0755)
	var args, names []string
	allowed := map[string]bool{}
	for _, n := range c.Names {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		WriteFile(p, []byte("* A\n"))
		if c.Relative {
			p = n
		}
		if strings.HasSuffix(n, ".org") {
			args = append(args, "-org", p)
		} else {
			args = append(args, "-txt", p)
		}
		names = append(names, p)
		allowed[p] = true
	}
	WriteFile(filepath.Join(dir, "secret.org"), []byte("secret\n"))
	stub := e.NewStub()
	spec := Spec{Path: Bin("burl_backend"), Dir: dir, Env: append(EmacsEnv(dir), stub.Env(), stub.AltEditor(c.Emacs))}
	if c.CmdName == "" {
		// Found through PATH.
		bin := filepath.Join(e.Scratch(), "bin")
		os.MkdirAll(bin, 0755)
		os.Symlink(Bin("stub"), filepath.Join(bin, "emacsclient"))
		spec.Env = append(spec.Env, "PATH="+bin+":/usr/bin:/bin")
	} else {
		p := filepath.Join(e.Scratch(), c.CmdName)
		if c.CmdName != "absent" {
			os.Symlink(Bin("stub"), p)
		}
		spec.Args = append(spec.Args, "-emacsclient", p)
	}
	for _, a := range c.Emacs {
		spec.Args = append(spec.Args, "-emacsarg", a)
	}
	spec.Args = append(spec.Args, args...)
	s := StartSession(spec)
	defer s.Kill()
	opened, refused := false, false
	for i, v := range c.Visits {
		path := v.Raw
		if v.Source >= 0 {
			p := names[v.Source]
			switch v.Mangle {
			case "":
				path = p
			case "dot":
				path = filepath.Dir(p) + "/./" + filepath.Base(p)
			case "dotdot":
				path = filepath.Dir(p) + "/x/../" + filepath.Base(p)
			case "slashes":
				path = filepath.Dir(p) + "//" + filepath.Base(p)
			case "trail":
				path = p + "/"
			case "space":
				path = p + " "
			case "leading-space":
				path = " " + p
			case "upper":
				path = strings.ToUpper(p)
			case "newline":
				path = p + "\n"
			case "base":
				path = filepath.Base(p)
			case "nul":
				path = p + "\x00"
			case "dir":
				path = filepath.Dir(p)
			case "prefix":
				path = p[:len(p)-1]
			case "suffix":
				path = p + "x"
			case "file-uri":
				path = "file://" + p
			case "tramp":
				path = "/sudo::" + p
			case "line":
				path = p + ":3"
			case "symlink":
				path = filepath.Join(dir, "link.org")
				os.Remove(path)
				os.Symlink(p, path)
			case "hardlink":
				path = filepath.Join(dir, "hard.org")
				os.Remove(path)
				os.Link(p, path)
			}
		}
		if strings.ToValidUTF8(path, "\ufffd") != path {
			path = strings.ToValidUTF8(path, "\ufffd")
		}
		ok := allowed[path]
		stub.Reset()
		stub.SetPlan(StubPlan{Calls: v.Plan})
		param := map[string]interface{}{"file": path}
		line := 0
		if v.Line != nil {
			line = *v.Line
			param["lineNo"] = line
		}
		r, err := s.Call(v.Alias, param)
		if err != nil {
			return err
		}
		calls := stub.Calls()
		where := fmt.Sprintf("visit %d of %q line %d (configured: %v, plan %v)", i, path, line, ok, Quote(v.Plan))
		if !ok {
			refused = true
			if !r.Failed() {
				return Errf("%s: not refused: %s", where, r.Result)
			}
			if len(calls) != 0 {
				return Errf("%s: refused, but commands were run: %q", where, calls)
			}
			continue
		}
		if c.CmdName == "absent" {
			e.Label("no-client")
			if !r.Failed() {
				return Errf("%s: the client is not available, reply is %s", where, r.Result)
			}
			continue
		}
		outcome := func(n int) StubOutcome {
			if n < len(v.Plan) {
				return v.Plan[n]
			}
			return StubOutcome{}
		}
		want := 2
		if outcome(0).Exit != 0 {
			want = 1
		}
		if len(calls) != want {
			return Errf("%s: %d commands were run instead of %d: %q", where, len(calls), want, calls)
		}
		ensure := calls[0][1:]
		nu := len(c.Emacs)
		if len(ensure) < nu+2 || !reflect.DeepEqual(append([]string{}, ensure[:nu]...), append([]string{}, c.Emacs...)) {
			return Errf("%s: user's arguments are not passed to ensure frame: %q", where, ensure)
		}
		if ensure[len(ensure)-2] != "--eval" || !strings.Contains(ensure[len(ensure)-1], "frame") {
			return Errf("%s: first command does not ensure a frame: %q", where, ensure)
		}
		common := ensure[:len(ensure)-2]
		for _, a := range common[nu:] {
			if a == path || strings.HasPrefix(a, "+") || a == "--eval" {
				return Errf("%s: unexpected argument of the first command: %q", where, ensure)
			}
		}
		if x := stub.Started(); x != "" {
			return Errf("%s: no server, %s is started by %q", where, x, calls)
		}
		failed, noServer := outcome(0).Exit, outcome(0).NoServer
		if want == 2 {
			expect := append([]string{}, common...)
			expect = append(expect, "--no-wait")
			if line > 0 {
				expect = append(expect, fmt.Sprintf("+%d", line))
			}
			expect = append(expect, path)
			if !reflect.DeepEqual(calls[1][1:], expect) {
				return Errf("%s: arguments are %q, expected %q", where, calls[1][1:], expect)
			}
			failed, noServer = outcome(1).Exit, outcome(1).NoServer
			opened = true
			at := ""
			if c.Relative {
				at = dir
			}
			if err := stub.CheckWhere(at, EmacsEnv(dir)); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
		}
		if failed == 0 {
			if r.Failed() || string(r.Result) != "true" {
				return Errf("%s: all commands succeeded, reply is %s error %s", where, r.Result, r.ErrText())
			}
			e.Label("success")
		} else {
			if !r.Failed() {
				return Errf("%s: command failed with status %d, reply is %s", where, failed, r.Result)
			}
			if noServer {
				e.Label("no-server")
			}
			if noServer && DashDash(c.Emacs) {
				// All following arguments are files for the client.
				continue
			}
			if (failed == 9) != strings.Contains(r.ErrText(), "server is not running") {
				return Errf("%s: command failed with status %d, error text is %q", where, failed, r.ErrText())
			}
			e.Label("failure")
		}
	}
	if refused {
		e.Label("refused")
	}
	e.Nontrivial(opened || refused && len(names) > 0)
	return s.CloseClean()
}

func TestVisit(t *testing.T) {
	Check(t, Prop[history]{Name: "visit", Gen: gen, Run: run})
}

func TestSlow(t *testing.T) {
	Check(t, Prop[SlowCase]{Name: "slow", Weight: 0.0005, Gen: func(t *rapid.T) SlowCase { return DrawSlow(t, []string{"visit"}, false) }, Run: RunSlow})
}
