package c29

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

type lineCase struct {
	Args []string `json:"args"` // %D is the scratch directory
}

var boolNames = []string{"h", "help", "v", "V", "version", "disable-link-set", "force"}
var valueNames = []string{"log", "scheme", "emacsclient", "emacsarg", "txt", "org", "backend", "wrapper", "manifest-firefox", "manifest-chrome",
	"mozilla-extension", "chrome-extension"}

func isBool(n string) bool {
	for _, b := range boolNames {
		if b == n {
			return true
		}
	}
	return false
}

func isValue(n string) bool {
	for _, b := range valueNames {
		if b == n {
			return true
		}
	}
	return false
}

// meaning of a command line.
type meaning struct {
	help, version, install bool
	sources                int
	disable                bool
	schemes                int
	refused                string
	logs                   string
}

// lists with default values.
var initial = map[string]int{"scheme": 4, "emacsarg": 0, "mozilla-extension": 1, "chrome-extension": 1}

func parse(args []string) (m meaning) {
	m.logs = "-"
	values := map[string]string{}
	count := map[string]int{}
	for k, v := range initial {
		count[k] = v
	}
	added, reset := map[string]bool{}, map[string]bool{}
	i := 0
	for ; i < len(args); i++ {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		if a == "--" {
			i++
			break
		}
		n := strings.TrimPrefix(a[1:], "-")
		if n == "" || n[0] == '-' || n[0] == '=' {
			m.refused = "syntax of " + a
			return
		}
		v, has := "", false
		if j := strings.IndexByte(n, '='); j > 0 {
			n, v, has = n[:j], n[j+1:], true
		}
		switch {
		case isBool(n):
			on := true
			if has {
				switch v {
				case "1", "t", "T", "true", "TRUE", "True":
				case "0", "f", "F", "false", "FALSE", "False":
					on = false
				default:
					m.refused = "boolean " + a
					return
				}
			}
			switch n {
			case "h", "help":
				m.help = on
			case "v", "V", "version":
				m.version = on
			case "disable-link-set":
				m.disable = on
			}
		case isValue(n):
			if !has {
				i++
				if i >= len(args) {
					m.refused = "no value of " + a
					return
				}
				v = args[i]
			}
			if _, list := initial[n]; list {
				if v == "" {
					if added[n] && !reset[n] {
						m.refused = "late reset of " + n
						return
					}
					reset[n] = true
					count[n] = 0
				} else {
					added[n] = true
					count[n]++
				}
			} else if n == "txt" || n == "org" {
				m.sources++
			} else {
				values[n] = v
				if n == "log" {
					m.logs = v
				}
			}
		default:
			m.refused = "unknown " + a
			return
		}
	}
	m.sources += len(args) - i
	m.schemes = count["scheme"]
	m.install = values["wrapper"] != "" || values["manifest-firefox"] != "" || values["manifest-chrome"] != ""
	return
}

func gen(t *rapid.T) lineCase {
	c := lineCase{}
	// Few lines are wrong in more than one place.
	wrong := Pick(t, "wrong", 1, 1) == 1
	general := Pick(t, "general", 3, 1) == 1
	install := Pick(t, "install", 2, 1) == 1
	dashes := func(n string) string {
		return rapid.SampledFrom([]string{"-", "--"}).Draw(t, "dashes") + n
	}
	value := func(n string) string {
		switch n {
		case "log":
			return rapid.SampledFrom([]string{"", "-", "%D/log", "", "-", "%D/log", "%D/log", "%D/absent/log", "%D/a/log"}).Draw(t, "log")
		case "scheme":
			return rapid.SampledFrom([]string{"ftp", "ftp:", "info", ""}).Draw(t, "scheme")
		case "emacsarg":
			return rapid.SampledFrom([]string{"-s", "", "--x=y", "-org", "-h"}).Draw(t, "emacsarg")
		case "txt", "org":
			return rapid.SampledFrom([]string{"%D/a", "absent", "-", "-h"}).Draw(t, "note")
		case "wrapper":
			return "%D/wrapper"
		case "manifest-firefox", "manifest-chrome":
			return "%D/" + n + ".json"
		case "mozilla-extension", "chrome-extension":
			return rapid.SampledFrom([]string{"", "abc"}).Draw(t, "extension")
		case "emacsclient":
			return "/nonexistent"
		}
		return "name"
	}
	add := func(a ...string) { c.Args = append(c.Args, a...) }
	k := rapid.IntRange(0, 6).Draw(t, "options")
	bad := -1
	if wrong {
		bad = rapid.IntRange(0, k).Draw(t, "bad")
	}
	for i := 0; i <= k; i++ {
		if i == bad {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				add(dashes(rapid.SampledFrom([]string{"unknown", "x", "logs", "or", "orgs", "Help", "versions", "disable-linkset", "wrapper-", "emacs", "1", "é", "force-"}).Draw(t, "unknown")))
			case 1:
				add(dashes(rapid.SampledFrom(boolNames).Draw(t, "bool") + "=" + rapid.SampledFrom([]string{"", "yes", "2", "no", "TrUe", " true", "on"}).Draw(t, "value")))
			case 2:
				add(rapid.SampledFrom([]string{"---", "---h", "-=", "--=x", "-=h", "---log=x"}).Draw(t, "syntax"))
			case 3:
				n := rapid.SampledFrom([]string{"scheme", "emacsarg", "mozilla-extension", "chrome-extension"}).Draw(t, "list")
				add("-"+n+"=x", "-"+n+"=")
			case 4:
				add(dashes(rapid.SampledFrom([]string{"unknown=x", "port=1", "logfile=x"}).Draw(t, "unknown value")))
			case 5:
				// The last option without its value.
				add(dashes(rapid.SampledFrom(valueNames).Draw(t, "no value")))
				return c
			}
			continue
		}
		if i == k {
			break
		}
		var n string
		if general && Pick(t, "this", 1, 1) == 1 {
			n = rapid.SampledFrom([]string{"h", "help", "v", "V", "version"}).Draw(t, "general option")
		} else if install && Pick(t, "this", 1, 1) == 1 {
			n = rapid.SampledFrom([]string{"wrapper", "manifest-firefox", "manifest-chrome", "force", "backend", "mozilla-extension", "chrome-extension"}).Draw(t, "install option")
		} else {
			n = rapid.SampledFrom([]string{"log", "scheme", "emacsclient", "emacsarg", "txt", "org", "disable-link-set"}).Draw(t, "backend option")
		}
		if isBool(n) {
			a := dashes(n)
			if Pick(t, "explicit", 2, 1) == 1 {
				a += "=" + rapid.SampledFrom([]string{"true", "false", "1", "0", "T", "f", "TRUE", "False"}).Draw(t, "bool value")
			}
			add(a)
			continue
		}
		v := value(n)
		if Pick(t, "form", 1, 1) == 1 {
			add(dashes(n) + "=" + v)
		} else {
			add(dashes(n), v)
		}
	}
	switch Pick(t, "end", 3, 1, 1) {
	case 1:
		add("--")
		fallthrough
	case 2:
		for i := rapid.IntRange(0, 2).Draw(t, "positional"); i > 0; i-- {
			add(rapid.SampledFrom([]string{"%D/a", "absent.org", "-", "x", "-h", "--version", "-unknown"}).Draw(t, "argument"))
		}
	}
	return c
}

func list(dir string) (r []string) {
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			r = append(r, fmt.Sprintf("%s %v %d", p, i.Mode(), i.Size()))
		}
		return err
	})
	if err != nil {
		Infra("%v", err)
	}
	sort.Strings(r)
	return
}

func run(e *Env, c lineCase) error {
	dir := e.Scratch()
	e.Write("a", []byte("https://example.org/\n"))
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.ReplaceAll(a, "%D", dir))
	}
	m := parse(args)
	hello := `{"id":7,"method":"hello","params":[{"formats":[{"format":"org-protocol","version":"0.2"}]}]}`
	before := list(dir)
	x, err := RunProc(Spec{Path: Bin("burl_backend"), Args: args, Dir: dir, Stdin: Frame([]byte(hello))})
	if err != nil {
		return err
	}
	if x.Crashed() {
		return Errf("%q: %s %s", args, x.Status(), x.Tail())
	}
	created := strings.Join(list(dir), "\n") != strings.Join(before, "\n")
	show := fmt.Sprintf("%q: %s, stdout %q, stderr %q", args, x.Status(), Short(x.Stdout), x.Tail())
	refuse := func(why string) error {
		e.Label("refused")
		if x.Code == 0 {
			return Errf("%s: should be refused, %s", show, why)
		}
		if len(x.Stderr) == 0 || len(x.Stdout) > 0 {
			return Errf("%s: no message or some output, %s", show, why)
		}
		return nil
	}
	e.Nontrivial(len(args) > 1)
	if m.refused != "" {
		if err := refuse(m.refused); err != nil {
			return err
		}
		if created {
			return Errf("%s: files are created: %q", show, list(dir))
		}
		return nil
	}
	if m.help || m.version {
		e.Label("help or version")
		if x.Code != 0 || len(x.Stdout) == 0 || len(x.Stderr) > 0 {
			return Errf("%s: information to standard output is expected", show)
		}
		_, err := ParseFrames(x.Stdout)
		if err == nil {
			return Errf("%s: request is served", show)
		}
		out := string(x.Stdout)
		help := strings.Contains(out, "-manifest-firefox") && strings.Contains(out, "-org")
		if m.help && !m.version && !help {
			return Errf("%s: options are not described", show)
		}
		if m.version && !m.help && !strings.HasPrefix(out, "burl_backend ") {
			return Errf("%s: version is not printed", show)
		}
		if created {
			return Errf("%s: files are created: %q", show, list(dir))
		}
		return nil
	}
	noLog := strings.HasSuffix(m.logs, "/absent/log") || strings.HasSuffix(m.logs, "/a/log")
	if m.install && noLog {
		e.Label("install, no log")
		if err := refuse("no directory for the log"); err != nil {
			return err
		}
		if created {
			return Errf("%s: files are created: %q", show, list(dir))
		}
		return nil
	}
	if m.install {
		// Whether that is successful depends on other options.
		if _, err := ParseFrames(x.Stdout); err == nil && len(x.Stdout) > 0 {
			return Errf("%s: request is served though installation is requested", show)
		}
		if x.Code == 0 && !created {
			return Errf("%s: success, but nothing is created", show)
		}
		if x.Code != 0 && len(x.Stderr) == 0 {
			return Errf("%s: no message", show)
		}
		e.Label("install")
		return nil
	}
	if noLog {
		e.Label("no log")
		if created {
			return Errf("%s: files are created: %q", show, list(dir))
		}
		return refuse("the log can not be created")
	}
	if m.schemes == 0 {
		return refuse("no schemes")
	}
	e.Label("served")
	if x.Code != 0 {
		return Errf("%s: request is not served", show)
	}
	rs, err := ParseResponses(x.Stdout)
	if err != nil || len(rs) != 1 || string(rs[0].ID) != "7" || rs[0].Failed() {
		return Errf("%s: request is not served: %v", show, err)
	}
	if has := strings.Contains(string(rs[0].Result), `"visit"`); has != (m.sources > 0) {
		return Errf("%s: %d note files are given", show, m.sources)
	}
	if has := strings.Contains(string(rs[0].Result), `"linkSet"`); has != (m.sources > 0 && !m.disable) {
		return Errf("%s: linkSet, %d note files, disabled: %v", show, m.sources, m.disable)
	}
	if created != strings.HasPrefix(m.logs, "/") {
		return Errf("%s: files: %q", show, list(dir))
	}
	return nil
}

func TestCommandLine(t *testing.T) {
	Check(t, Prop[lineCase]{Name: "command line", Gen: gen, Run: run})
}
