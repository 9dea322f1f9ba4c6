package hx

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// LinkBin places an executable at a path (hard link or copy).
func LinkBin(name, path string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	src := Bin(name)
	if os.Link(src, path) == nil {
		return
	}
	in, err := os.Open(src)
	must(err)
	defer in.Close()
	out, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0755)
	must(err)
	_, err = io.Copy(out, in)
	must(err)
	must(out.Close())
}

// ReplaceBin atomically replaces an executable by another one.
func ReplaceBin(name, path string) {
	tmp := filepath.Join(filepath.Dir(path), ".verif-new")
	os.Remove(tmp)
	LinkBin(name, tmp)
	must(os.Rename(tmp, path))
}

// Source is a configured note file.
type Source struct{ Type, Path string }

// Config is the effective backend configuration.
type Config struct {
	Log        string
	Disable    bool
	Client     string
	EmacsArgs  []string
	Schemes    []string
	Sources    []Source
	EmptyAfter bool // an empty list value after additions: start-up error
}

var DefaultSchemes = []string{"doi", "http", "https", "mid"}

// ParseBackendArgs is a model of the command line of the backend.
func ParseBackendArgs(args []string) (*Config, error) {
	c := &Config{Log: "-", Client: "emacsclient"}
	c.Schemes = append(c.Schemes, DefaultSchemes...)
	appended := map[string]bool{}
	reset := map[string]bool{}
	list := func(l *[]string, name, value string) error {
		if value == "" {
			if appended[name] && !reset[name] {
				return fmt.Errorf("-%s: empty value after additions", name)
			}
			*l = nil
			reset[name] = true
			return nil
		}
		appended[name] = true
		*l = append(*l, value)
		return nil
	}
	i := 0
	for ; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			i++
			break
		}
		if len(a) < 2 || a[0] != '-' {
			break
		}
		name := strings.TrimPrefix(a[1:], "-")
		value, has := "", false
		if j := strings.IndexByte(name, '='); j > 0 {
			name, value, has = name[:j], name[j+1:], true
		}
		if name == "disable-link-set" {
			switch value {
			case "true", "1", "t", "T", "TRUE", "True":
				c.Disable = true
			case "false", "0", "f", "F", "FALSE", "False":
				c.Disable = false
			default:
				if has {
					return nil, fmt.Errorf("bad boolean %q", value)
				}
				c.Disable = true
			}
			continue
		}
		switch name {
		case "log", "emacsclient", "emacsarg", "scheme", "txt", "org":
		default:
			return nil, fmt.Errorf("unexpected option %q", a)
		}
		if !has {
			i++
			if i >= len(args) {
				return nil, fmt.Errorf("option %q needs a value", a)
			}
			value = args[i]
		}
		var err error
		switch name {
		case "log":
			c.Log = value
		case "emacsclient":
			c.Client = value
		case "emacsarg":
			err = list(&c.EmacsArgs, name, value)
		case "scheme":
			err = list(&c.Schemes, name, value)
		case "txt", "org":
			c.Sources = append(c.Sources, Source{name, value})
		}
		if err != nil {
			return nil, err
		}
	}
	for ; i < len(args); i++ {
		t := "txt"
		if strings.HasSuffix(args[i], ".org") {
			t = "org"
		}
		c.Sources = append(c.Sources, Source{t, args[i]})
	}
	return c, nil
}

var oddPieces = []string{"a", "b c", " ", "'", "\"", "$HOME", "$(id)", "`id`", "\\", "\\n", "\n", "\t", "*", "?", "[x]", "{a,b}", "~", "!", "#", "&", ";", "|",
	"<", ">", "(", ")", "=", "%s", "%", "%%q", "é", "файл", "😀", "\xff", "\xc3", "\x01", "\x1b", "\r", "\x7f", "-", "--", "\u00a0", "\u2028", "''", "'\\''", "\"\"", ",", "^", ":", "x=y", "-n", "\u200b"}

// DrawOdd draws a text with shell-special characters, without NUL.
func DrawOdd(t *rapid.T, label string, min int) []byte {
	n := rapid.IntRange(min, 4).Draw(t, label+"-pieces")
	var b []byte
	for i := 0; i < n; i++ {
		if Pick(t, label+"-kind", 6, 1) == 1 {
			for _, c := range rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, label+"-bytes") {
				if c != 0 {
					b = append(b, c)
				}
			}
		} else {
			b = append(b, rapid.SampledFrom(oddPieces).Draw(t, label)...)
		}
	}
	if len(b) == 0 && min > 0 {
		b = []byte("e")
	}
	return b
}

// DrawFileName draws a name of a file in a directory.
func DrawFileName(t *rapid.T, label string) []byte {
	var b []byte
	if Pick(t, label+"-plain", 1, 2) == 0 {
		b = []byte(rapid.SampledFrom([]string{"notes", "a", "file.x", "N1"}).Draw(t, label+"-name"))
	} else {
		b = DrawOdd(t, label, 1)
	}
	for i, c := range b {
		if c == '/' {
			b[i] = '_'
		}
	}
	if s := string(b); s == "." || s == ".." {
		b = append(b, 'd')
	}
	return b
}

// DrawLocale draws the locale setting of a process.
func DrawLocale(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"LC_ALL=C.UTF-8", "LC_ALL=C", "LC_ALL=POSIX", "LC_ALL=xx_XX.bad"}).Draw(t, label)
}
