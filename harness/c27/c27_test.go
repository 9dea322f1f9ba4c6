package c27

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) {
	// Modes of created files depend on the code under test only.
	syscall.Umask(0)
	MainOf(m)
}

type request struct {
	Method string `json:"method"`
	Param  string `json:"param"` // JSON, %D is the directory of notes
}

type serveCase struct {
	Notes    []string  `json:"notes"` // kinds of note files
	Disable  bool      `json:"disable"`
	Log      string    `json:"log"`               // "", "-", kind of the file
	Prev     string    `json:"prev"`              // previous content of the log
	PrevRep  int       `json:"prevRep,omitempty"` // it is repeated
	Mode     int       `json:"mode"`
	Relative bool      `json:"relative"`
	Twice    bool      `json:"twice"` // another -log option before
	Exits    []int     `json:"exits"` // outcomes of Emacs commands
	Requests []request `json:"requests"`
}

var contents = map[string]string{
	"links":    "* A\nhttps://example.org/a text\n** B\n[[https://example.org/b][b]] <mid:x@y>\n",
	"more":     "https://example.org/c http://example.org/a\n",
	"no links": "* Heading\ntext\n",
	"empty":    "",
	"too long": "https://example.org/a\n" + strings.Repeat("x", 70000) + "\nhttps://example.org/z\n",
}

func drawRequest(t *rapid.T) request {
	switch Pick(t, "request", 3, 3, 2, 2, 3, 3, 1) {
	case 0:
		u := rapid.SampledFrom([]string{"https://example.org/a", "http://example.org/a", "https://example.org/b", "mid:x@y", "", "x\ny"}).Draw(t, "url")
		return request{"linkremark.urlMentions", `{"variants":[` + Quoted(u) + `]}`}
	case 1:
		n := 1
		if Pick(t, "many", 2, 1) == 1 { // this is logged
			n = rapid.IntRange(15, 20).Draw(t, "prefixes")
		}
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, Quoted(rapid.SampledFrom([]string{"https", "http://example.org/", "mid:", "bad prefix", "é", "ftp:\nx"}).Draw(t, "prefix")))
		}
		return request{"linkremark.linkSet", `{"prefix":[` + strings.Join(ps, ",") + `]}`}
	case 2:
		return request{"hello", `{"formats":[{"format":"org-protocol","version":"0.2"}]}`}
	case 3:
		return request{rapid.SampledFrom([]string{"none", "Burl.Visit", "", "linkremark.x\ny"}).Draw(t, "unknown"), `{}`}
	case 4:
		f := rapid.SampledFrom([]string{"%D/n0", "%D/n0", "%D/n1", "/etc/passwd", "n0", "%D/new"}).Draw(t, "file")
		return request{"linkremark.visit", `{"file":"` + f + `","lineNo":1}`}
	case 5:
		u := rapid.SampledFrom([]string{"org-protocol:/capture?x=1", "org-protocol:/capture", "http://example.org/"}).Draw(t, "uri")
		return request{"linkremark.capture", `{"format":"org-protocol","version":"0.2","data":{"url":` + Quoted(u) + `,"title":"T","body":"B"}}`}
	}
	return request{"linkremark.urlMentions", rapid.SampledFrom([]string{`1`, `{"variants":7}`, `null`, `{"variants":["a"],"options":{"countLimit":"x"}}`}).Draw(t, "bad")}
}

func gen(t *rapid.T) serveCase {
	c := serveCase{Mode: -1}
	for i := rapid.IntRange(0, 3).Draw(t, "notes"); i > 0; i-- {
		c.Notes = append(c.Notes, rapid.SampledFrom([]string{"links", "links", "more", "no links", "empty", "too long", "absent", "directory"}).Draw(t, "note"))
	}
	c.Disable = Pick(t, "disable", 5, 1) == 1
	c.Log = rapid.SampledFrom([]string{"", "-", "new", "new", "existing", "existing", "link", "odd name", "directory", "no directory", "below file"}).Draw(t, "log")
	if c.Log == "existing" || c.Log == "link" {
		c.Prev = rapid.SampledFrom([]string{"", "earlier\n", "no end of line", strings.Repeat("0123456789\n", 1000)}).Draw(t, "prev")
		if Rare(t, "large", 60) && c.Prev != "" {
			size := rapid.SampledFrom([]int{1 << 20, 1 << 22, 5 << 20, 10000000, 10 << 20, 11 << 20}).Draw(t, "large-size")
			if Rare(t, "huge", 12) {
				size = 101 << 20
			}
			c.PrevRep = size / len(c.Prev)
		}
		c.Mode = rapid.SampledFrom([]int{0600, 0644, 0200, 0666}).Draw(t, "mode")
	}
	c.Relative = rapid.Bool().Draw(t, "relative")
	c.Twice = Pick(t, "twice", 5, 1) == 1
	for i := rapid.IntRange(0, 5).Draw(t, "exits"); i > 0; i-- {
		c.Exits = append(c.Exits, rapid.SampledFrom([]int{0, 0, 0, 9, 1}).Draw(t, "exit"))
	}
	for i := rapid.IntRange(1, 8).Draw(t, "requests"); i > 0; i-- {
		c.Requests = append(c.Requests, drawRequest(t))
	}
	if Rare(t, "long", 100) {
		var cheap []request
		for _, r := range c.Requests {
			if r.Method != "linkremark.visit" && r.Method != "linkremark.capture" {
				cheap = append(cheap, r)
			}
		}
		for n := rapid.IntRange(50, 1500).Draw(t, "long-n"); len(cheap) > 0 && len(c.Requests) < n; {
			c.Requests = append(c.Requests, cheap...)
		}
	}
	return c
}

func infra(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

// snapshot describes everything below a directory.
func snapshot(dir string) map[string]string {
	r := map[string]string{}
	infra(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		s := fmt.Sprintf("%v %v", i.Mode(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %d %q", len(b), Short(b))
			s += string(b)
		}
		if i.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			s += " -> " + l
		}
		r[p] = s
		return nil
	}))
	return r
}

func changed(a, b map[string]string) (r []string) {
	for p := range a {
		if a[p] != b[p] {
			r = append(r, p)
		}
	}
	for p := range b {
		if _, old := a[p]; !old {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return
}

var stamp = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// messages of the log without time.
func messages(log string) string { return stamp.ReplaceAllString(log, "") }

// normal form of a reply, URLs of a set have no order.
func normal(r *Response) string {
	var v struct {
		Urls []string `json:"urls"`
	}
	res := string(r.Result)
	if Unmarshal(r.Result, &v) == nil && v.Urls != nil {
		sort.Strings(v.Urls)
		res = Quote(v.Urls)
	}
	return res + " " + string(r.Error)
}

type outcome struct {
	replies []string
	stderr  string
	calls   string
	refused bool
	exit    *Exit
}

// session runs all requests one by one in a fresh directory for Emacs.
func session(e *Env, c *serveCase, dir, log string, args []string, n int) (*outcome, error) {
	stubDir := filepath.Join(e.Scratch(), fmt.Sprint("stub", n))
	infra(os.MkdirAll(stubDir, 0755))
	stub := &Stub{Dir: stubDir}
	plan := StubPlan{}
	for _, x := range c.Exits {
		plan.Calls = append(plan.Calls, StubOutcome{Exit: x, Out: "org-protocol\n", Err: fmt.Sprintf("status %d\n", x)})
	}
	plan.ByArg = map[string]StubOutcome{}
	stub.SetPlan(plan)
	full := append([]string{"-emacsclient", Bin("stub")}, args...)
	if c.Twice {
		full = append(full, "-log", "discarded")
	}
	full = append(full, "-log", log)
	s := StartSession(Spec{Path: Bin("burl_backend"), Args: full, Dir: filepath.Join(dir, "cwd"), CleanEnv: true,
		Env: []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + dir + "/home", "TMPDIR=" + dir + "/tmp", "XDG_STATE_HOME=" + dir + "/home", stub.Env()}})
	defer s.Kill()
	o := &outcome{}
	for i, r := range c.Requests {
		s.Send([]byte(fmt.Sprintf(`{"id":%d,"method":%s,"params":[%s]}`, i, Quoted(r.Method), strings.ReplaceAll(r.Param, "%D", dir+"/notes"))))
		p, err := s.Recv()
		if err != nil {
			if x := s.Ended(); i == 0 && x != nil && !x.Crashed() && x.Code > 0 {
				o.refused, o.exit = true, x
				o.stderr = string(x.Stderr)
				return o, nil
			}
			return nil, err
		}
		if string(p.ID) != fmt.Sprint(i) {
			return nil, Errf("response %s to request %d", p.ID, i)
		}
		o.replies = append(o.replies, normal(p))
	}
	x, err := s.Close()
	if err != nil {
		return nil, err
	}
	if x.Code != 0 || x.Signal != 0 {
		return nil, Errf("%s: %s", x.Status(), x.Tail())
	}
	o.exit, o.stderr = x, string(x.Stderr)
	o.calls = fmt.Sprintf("%q", stub.Calls())
	return o, nil
}

func run(e *Env, c serveCase) error {
	if c.PrevRep > 0 {
		c.Prev = strings.Repeat(c.Prev, c.PrevRep)
		e.Label("large earlier log")
	}
	if len(c.Requests) > 20 {
		e.Label("long session")
	}
	dir := filepath.Join(e.Scratch(), "d")
	for _, d := range []string{"notes", "cwd", "home", "tmp", "log"} {
		infra(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	var args []string
	for i, k := range c.Notes {
		p := filepath.Join(dir, "notes", fmt.Sprint("n", i))
		switch k {
		case "absent":
		case "directory":
			infra(os.Mkdir(p, 0755))
		default:
			infra(os.WriteFile(p, []byte(contents[k]), 0644))
		}
		args = append(args, []string{"-org", "-txt"}[i%2], p)
	}
	if c.Disable {
		args = append(args, "-disable-link-set")
	}
	log, target, refused := c.Log, "", false
	switch c.Log {
	case "", "-":
	case "new":
		log = filepath.Join(dir, "log", "log.txt")
		target = log
	case "odd name":
		log = filepath.Join(dir, "log", "лог %s\n-")
		target = log
	case "existing", "link":
		log = filepath.Join(dir, "log", "log.txt")
		target = log
		if c.Log == "link" {
			target = filepath.Join(dir, "log", "real")
			infra(os.Symlink("real", log))
		}
		infra(os.WriteFile(target, []byte(c.Prev), 0600))
		infra(os.Chmod(target, os.FileMode(c.Mode)))
	case "directory":
		log, refused = filepath.Join(dir, "log"), true
	case "no directory":
		log, refused = filepath.Join(dir, "log", "absent", "log"), true
	case "below file":
		infra(os.WriteFile(filepath.Join(dir, "log", "file"), nil, 0644))
		log, refused = filepath.Join(dir, "log", "file", "log"), true
	}
	given := log
	if c.Relative && log != "" && log != "-" {
		r, err := filepath.Rel(filepath.Join(dir, "cwd"), log)
		infra(err)
		given = r
	}
	before := snapshot(dir)
	got, err := session(e, &c, dir, given, args, 0)
	if err != nil {
		return err
	}
	after := snapshot(dir)
	if refused {
		if !got.refused {
			return Errf("log %q can not be opened, but requests are served", given)
		}
		if got.stderr == "" {
			return Errf("log %q can not be opened, no message", given)
		}
		if d := changed(before, after); len(d) > 0 {
			return Errf("log %q can not be opened, %q are changed", given, d)
		}
		e.Label("refused")
		e.Nontrivial(true)
		return nil
	}
	if got.refused {
		return Errf("log %q: %s: %s", given, got.exit.Status(), got.stderr)
	}
	for _, p := range changed(before, after) {
		if target == "" || (p != target && (p != filepath.Dir(target) || c.Log == "existing" || c.Log == "link")) {
			return Errf("log %q: %s is changed: %s", given, p, after[p])
		}
	}
	// The reference writes to standard error.
	want, err := session(e, &c, dir, "-", args, 1)
	if err != nil {
		return err
	}
	if d := changed(after, snapshot(dir)); len(d) > 0 {
		return Errf("log \"-\": %q are changed", d)
	}
	for i := range want.replies {
		if got.replies[i] != want.replies[i] {
			return Errf("%s %s: reply %s, but with logging to standard error %s", c.Requests[i].Method, c.Requests[i].Param, got.replies[i], want.replies[i])
		}
	}
	if got.calls != want.calls {
		return Errf("commands %s, but with logging to standard error %s", got.calls, want.calls)
	}
	if c.Log == "-" {
		if messages(got.stderr) != messages(want.stderr) {
			return Errf("standard error %q, in another session %q", got.stderr, want.stderr)
		}
	} else if got.stderr != "" {
		return Errf("log %q: standard error is not empty: %q", given, got.stderr)
	}
	if target != "" {
		b, err := os.ReadFile(target)
		if err != nil {
			return Errf("log %q: %w", given, err)
		}
		if !strings.HasPrefix(string(b), c.Prev) {
			return Errf("log %q: earlier content %q is lost: %q", given, Short([]byte(c.Prev)), Short(b))
		}
		if m := messages(string(b[len(c.Prev):])); m != messages(want.stderr) {
			return Errf("log %q: %q, but standard error has %q", given, m, messages(want.stderr))
		}
		i, err := os.Stat(target)
		infra(err)
		if c.Mode >= 0 && int(i.Mode().Perm()) != c.Mode {
			return Errf("mode of the log is changed from %o to %o", c.Mode, i.Mode().Perm())
		}
		if c.Mode < 0 && i.Mode().Perm() != 0600 {
			return Errf("mode of the created log is %o", i.Mode().Perm())
		}
		e.Label("file")
	}
	if want.stderr != "" {
		e.Label("something is logged")
	}
	e.Nontrivial(want.stderr != "")
	return nil
}

func TestServe(t *testing.T) {
	Check(t, Prop[serveCase]{Name: "serve", Gen: gen, Run: run})
}

// Several backends (for every browser profile) share one log file.

type sharedCase struct {
	Prev     string  `json:"prev"`
	Sessions [][]int `json:"sessions"` // sizes of messages
}

func genShared(t *rapid.T) sharedCase {
	c := sharedCase{Prev: rapid.SampledFrom([]string{"", "earlier\n"}).Draw(t, "prev")}
	for i := rapid.IntRange(2, 4).Draw(t, "sessions"); i > 0; i-- {
		c.Sessions = append(c.Sessions, rapid.SliceOfN(rapid.IntRange(1, 300), 1, 12).Draw(t, "messages"))
	}
	return c
}

func runShared(e *Env, c sharedCase) error {
	dir := e.Scratch()
	log := filepath.Join(dir, "log")
	if c.Prev != "" {
		e.Write("log", []byte(c.Prev))
	}
	e.Write("note.org", []byte(contents["links"]))
	var wg sync.WaitGroup
	errs := make([]error, len(c.Sessions))
	text := func(i, j int) string {
		return fmt.Sprintf("m%d-%d-", i, j) + strings.Repeat("x", c.Sessions[i][j]) + "."
	}
	for i := range c.Sessions {
		i := i
		wg.Add(1)
		s := StartSession(Spec{Path: Bin("burl_backend"), Args: []string{"-log", log, "-org", filepath.Join(dir, "note.org")}, Dir: dir})
		go func() {
			defer wg.Done()
			defer s.Kill()
			for j := range c.Sessions[i] {
				p := []string{text(i, j)}
				for len(p) < 17 {
					p = append(p, "x")
				}
				r, err := s.Call("linkremark.linkSet", map[string]interface{}{"prefix": p})
				if err != nil {
					errs[i] = err
					return
				}
				if !r.Failed() {
					errs[i] = Errf("17 prefixes: %s", Short(r.Result))
					return
				}
			}
			errs[i] = s.CloseClean()
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	b, err := os.ReadFile(log)
	infra(err)
	if !strings.HasPrefix(string(b), c.Prev) {
		return Errf("earlier content of the log is lost")
	}
	// What one session logs is not mixed with, or overwritten by, another one.
	logged := 0
	for i := range c.Sessions {
		for j := range c.Sessions[i] {
			logged += strings.Count(string(b), text(i, j))
		}
	}
	// A message is logged for every refused request or for none of them.
	total := 0
	for i := range c.Sessions {
		total += len(c.Sessions[i])
	}
	alone, err := RunProc(Spec{Path: Bin("burl_backend"), Args: []string{"-log", "-", "-org", filepath.Join(dir, "note.org")}, Dir: dir,
		Stdin: Frame(Request(1, "linkremark.linkSet", map[string]interface{}{"prefix": strings.Split(strings.Repeat("p", 16)+"unique", "")}))})
	if err != nil {
		return err
	}
	if len(alone.Stderr) == 0 {
		e.Label("not logged")
		return nil
	}
	if logged != total {
		return Errf("%d messages of %d are in the shared log", logged, total)
	}
	e.Nontrivial(true)
	return nil
}

func TestShared(t *testing.T) {
	Check(t, Prop[sharedCase]{Name: "shared", Weight: 0.1, Gen: genShared, Run: runShared})
}
