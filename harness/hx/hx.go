// Package hx runs generated-case properties: journaling, counting, shrinking
// (by rapid), replay of saved cases, and evidence statistics.
package hx

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one generated-input property. A case is plain data, so it can be
// saved as JSON and replayed without the library.
type Prop[C any] struct {
	Name string // sub-check name, unique within the property
	// Number of cases relative to the base number of the tier.
	Weight float64
	Gen    func(t *rapid.T) C
	Run    func(env *Env, c C) error
	// Limit for a case, CaseLimit by default. A case that is still running is a hang.
	Limit time.Duration
	// Labels for the distribution and whether the case is non-trivial.
	Classify func(c C) (nontrivial bool, labels []string)
}

// Env is the environment of one case.
type Env struct {
	Dir   string // scratch directory of the case (created on demand by Scratch)
	N     int
	label []string
	nt    *bool
}

// Label adds a label known only after running the case.
func (e *Env) Label(l ...string) { e.label = append(e.label, l...) }

// Nontrivial marks the case as non-trivial from observation at run time.
func (e *Env) Nontrivial(v bool) { e.nt = &v }

func must(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

// Infra aborts the process: problem of the environment, not of the property.
func Infra(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", a...)
	os.Exit(3)
}

// HangError is reported when an operation that should take milliseconds did
// not finish within a very generous limit.
type HangError struct{ What string }

func (h *HangError) Error() string { return "no progress: " + h.What }

func Hang(format string, a ...interface{}) error {
	return &HangError{fmt.Sprintf(format, a...)}
}

// HangLimit is far above what any operation needs even on a busy machine.
const HangLimit = 60 * time.Second

func OutDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = filepath.Join(os.TempDir(), "verif-out")
		os.MkdirAll(d, 0755)
	}
	return d
}

func Bin(name string) string {
	d := os.Getenv("VERIF_BIN")
	if d == "" {
		Infra("VERIF_BIN is not set")
	}
	return filepath.Join(d, name)
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

type saved struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type subStats struct {
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []interface{}  `json:"samples"`
	Hashes      []string       `json:"hashes"`
	hashes      map[uint64]bool
}

var (
	mu       sync.Mutex
	allStats []*subStats
	known    []string
)

// KnownFinding records that a finding was reproduced. It is an error if it is not
// listed in the file of findings.
func KnownFinding(what string) error {
	b, _ := os.ReadFile(os.Getenv("VERIF_FINDINGS"))
	line := "known: property=" + propID() + " " + what
	listed := false
	for _, l := range strings.Split(string(b), "\n") {
		listed = listed || strings.TrimSpace(l) == line
	}
	if !listed {
		return Errf("%s", what)
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range known {
		if k == what {
			return nil
		}
	}
	known = append(known, what)
	return nil
}

func flush() {
	mu.Lock()
	defer mu.Unlock()
	for _, s := range allStats {
		s.Hashes = s.Hashes[:0]
		for h := range s.hashes {
			s.Hashes = append(s.Hashes, strconv.FormatUint(h, 36))
		}
		sort.Strings(s.Hashes)
	}
	b, _ := json.Marshal(map[string]interface{}{"subs": allStats, "known": known})
	os.WriteFile(filepath.Join(OutDir(), "stats.json"), b, 0644)
}

const minCases = 10
const shrinkTime = "20s"

func softDeadline() time.Time {
	if v := os.Getenv("VERIF_DEADLINE"); v != "" {
		sec, err := strconv.ParseInt(v, 10, 64)
		must(err)
		return time.Unix(sec, 0)
	}
	return time.Now().Add(24 * time.Hour)
}

// TestMain is to be called by every property package.
func testMain(m *testing.M) {
	flag.Parse()
	code := m.Run()
	flush()
	os.Exit(code)
}

var scratchBase string

func scratch() string {
	if scratchBase == "" {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "case-")
		must(err)
		scratchBase = d
	}
	return scratchBase
}

// Scratch returns an empty directory for the case; its absolute name does not
// depend on the case number, so cases are pure.
func (e *Env) Scratch() string {
	if e.Dir == "" {
		e.Dir = filepath.Join(scratch(), "w")
		os.RemoveAll(e.Dir)
		must(os.MkdirAll(e.Dir, 0755))
	}
	return e.Dir
}

func (e *Env) cleanup() {
	if e.Dir != "" {
		os.RemoveAll(e.Dir)
		e.Dir = ""
	}
}

// Write creates a file below the scratch directory and returns its path.
func (e *Env) Write(name string, content []byte) string {
	p := filepath.Join(e.Scratch(), name)
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, content, 0644))
	return p
}

func propID() string { return os.Getenv("VERIF_PROPERTY") }

func writeCase(name string, sub string, data []byte, msg string) {
	b, _ := json.MarshalIndent(saved{propID(), sub, msg, data}, "", " ")
	os.WriteFile(filepath.Join(OutDir(), name), b, 0644)
}

// Check runs one sub-check of the property.
func Check[C any](t *testing.T, p Prop[C]) {
	t.Helper()
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, p, f)
		return
	}
	st := &subStats{Sub: p.Name, Labels: map[string]int{}, hashes: map[uint64]bool{}}
	mu.Lock()
	allStats = append(allStats, st)
	mu.Unlock()
	base := 100
	if v := os.Getenv("VERIF_CHECKS"); v != "" {
		base, _ = strconv.Atoi(v)
	}
	w := p.Weight
	if w == 0 {
		w = 1
	}
	n := int(float64(base) * w)
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrinkTime)
	failed := false
	deadline := softDeadline()
	rapid.Check(t, func(rt *rapid.T) {
		// Out of time (busy machine): the remaining cases are skipped, the
		// evidence counts only what has been run.
		if !failed && st.Evaluations >= minCases && time.Now().After(deadline) {
			return
		}
		c := p.Gen(rt)
		data, err := json.Marshal(c)
		if err != nil {
			Infra("case is not serialisable: %v", err)
		}
		writeCase("current.json", p.Name, data, "")
		env := &Env{N: st.Evaluations}
		defer env.cleanup()
		ok := false
		defer func() {
			if !ok {
				failed = true
				if r := recover(); r != nil {
					writeCase("fail.json", p.Name, data, fmt.Sprint("panic: ", r))
					panic(r)
				}
			}
		}()
		guard := watch(p.Limit, func(what string) {
			writeCase("hang.json", p.Name, data, what)
			flush()
		})
		err = p.Run(env, c)
		guard.Stop()
		ok = true
		if !failed {
			st.Evaluations++
			nt, labels := true, []string(nil)
			if p.Classify != nil {
				nt, labels = p.Classify(c)
			}
			if env.nt != nil {
				nt = *env.nt
			}
			labels = append(labels, env.label...)
			for _, l := range labels {
				st.Labels[l]++
			}
			if nt {
				st.Nontrivial++
				h := fnv.New64a()
				h.Write([]byte(p.Name))
				h.Write(data)
				st.hashes[h.Sum64()] = true
				k := len(st.Samples)
				if k < 2 || (k < 4 && st.Nontrivial%37 == 0) {
					st.addSample(p.Name, data)
				}
			}
		}
		if err != nil {
			failed = true
			var hang *HangError
			if errors.As(err, &hang) {
				writeCase("hang.json", p.Name, data, err.Error())
				fmt.Fprintf(os.Stderr, "HANG: %v\n", err)
				flush()
				os.Exit(4)
			}
			writeCase("fail.json", p.Name, data, err.Error())
			rt.Fatalf("%v", err)
		}
	})
}

func (s *subStats) addSample(sub string, data []byte) {
	text := string(data)
	if len(text) > 1500 {
		text = text[:1500] + "..."
		s.Samples = append(s.Samples, map[string]string{"sub": sub, "case_truncated": text})
		return
	}
	s.Samples = append(s.Samples, map[string]interface{}{"sub": sub, "case": json.RawMessage(data)})
}

// CaseLimit is for a whole case that is executed in this process and is blocked
// in the code under test.
const CaseLimit = 200 * time.Second

func watch(limit time.Duration, report func(what string)) *time.Timer {
	if limit == 0 {
		limit = CaseLimit
	}
	return time.AfterFunc(limit, func() {
		what := "no progress: the case is not finished"
		report(what)
		buf := make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "HANG: %s\n%s\n", what, buf[:runtime.Stack(buf, true)])
		os.Exit(4)
	})
}

func replay[C any](t *testing.T, p Prop[C], file string) {
	b, err := os.ReadFile(file)
	must(err)
	var s saved
	must(json.Unmarshal(b, &s))
	if s.Sub != p.Name {
		return
	}
	var c C
	must(json.Unmarshal(s.Case, &c))
	env := &Env{}
	defer env.cleanup()
	defer watch(p.Limit, func(what string) { fmt.Println("REPLAY-FAIL", what) }).Stop()
	if err := p.Run(env, c); err != nil {
		fmt.Printf("REPLAY-FAIL %s\n", strings.ReplaceAll(err.Error(), "\n", "\n  "))
		t.Fatal("replay failed")
	}
	fmt.Println("REPLAY-OK")
}

// Errf makes a violation message.
func Errf(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// Short renders bytes for messages.
func Short(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Pick draws one of weighted alternatives.
func Pick(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

// MainOf is TestMain for packages that dot-import this one.
func MainOf(m *testing.M) { testMain(m) }

// WriteFile replaces the contents of a file.
func WriteFile(name string, data []byte) error {
	must(os.WriteFile(name, data, 0644))
	return nil
}

// Rare is true about once in n draws (the library prefers extreme values of
// ranges, hence a value from the middle).
func Rare(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n*5/8
}
