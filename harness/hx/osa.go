package hx

import (
	"strings"

	"pgregory.net/rapid"
)

func min3(a, b, c int) int {
	if b < a {
		a = b
	}
	if c < a {
		a = c
	}
	return a
}

// OSA is the number of insertions, deletions, substitutions and swaps of
// adjacent characters that turn all of a into all of b, no character is edited
// twice.
func OSA(a, b []rune) int {
	d := make([][]int, len(a)+1)
	for i := range d {
		d[i] = make([]int, len(b)+1)
		d[i][0] = i
	}
	for j := range d[0] {
		d[0][j] = j
	}
	for i := 1; i <= len(a); i++ {
		for j := 1; j <= len(b); j++ {
			s := 1
			if a[i-1] == b[j-1] {
				s = 0
			}
			v := min3(d[i-1][j]+1, d[i][j-1]+1, d[i-1][j-1]+s)
			if i > 1 && j > 1 && a[i-1] == b[j-2] && a[i-2] == b[j-1] && d[i-2][j-2]+1 < v {
				v = d[i-2][j-2] + 1
			}
			d[i][j] = v
		}
	}
	return d[len(a)][len(b)]
}

// SubstringDistance tries all substrings.
func SubstringDistance(q, t []rune) int {
	best := len(q)
	for i := 0; i <= len(t); i++ {
		for j := i; j <= len(t); j++ {
			if v := OSA(q, t[i:j]); v < best {
				best = v
			}
		}
	}
	return best
}

// SearchDistance is the same for longer strings: the start of the substring is free in
// the first row and its end is free in the last row.
func SearchDistance(q, t []rune) int {
	rows := make([][]int, len(q)+1)
	rows[0] = make([]int, len(t)+1)
	for i := 1; i <= len(q); i++ {
		rows[i] = make([]int, len(t)+1)
		rows[i][0] = i
		for j := 1; j <= len(t); j++ {
			s := 1
			if q[i-1] == t[j-1] {
				s = 0
			}
			v := min3(rows[i-1][j]+1, rows[i][j-1]+1, rows[i-1][j-1]+s)
			if i > 1 && j > 1 && q[i-1] == t[j-2] && q[i-2] == t[j-1] && rows[i-2][j-2]+1 < v {
				v = rows[i-2][j-2] + 1
			}
			rows[i][j] = v
		}
	}
	best := len(q)
	for _, v := range rows[len(q)] {
		if v < best {
			best = v
		}
	}
	return best
}

// Lower is the text as it is compared.
func Lower(s string) []rune { return []rune(strings.ToLower(s)) }

var alphabets = []string{"ab", "abc", "aAbB", "abcdefghijklmnopqrstuvwxyz0123456789:/.-", "aéÉßЖж日😀x", "AaÀàΣσς", "abc é"}

// DrawWord draws text from a small alphabet.
func DrawWord(t *rapid.T, label string, alphabet string, min, max int) string {
	r := []rune(alphabet)
	return string(rapid.SliceOfN(rapid.SampledFrom(r), min, max).Draw(t, label))
}

func DrawAlphabet(t *rapid.T) string { return rapid.SampledFrom(alphabets).Draw(t, "alphabet") }

// Mutate makes a few edits.
func Mutate(t *rapid.T, label string, s string, alphabet string, max int) string {
	r := []rune(s)
	al := []rune(alphabet)
	n := rapid.IntRange(0, max).Draw(t, label)
	for k := 0; k < n; k++ {
		i := rapid.IntRange(0, len(r)).Draw(t, "at")
		c := rapid.SampledFrom(al).Draw(t, "char")
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			r = append(r[:i], append([]rune{c}, r[i:]...)...)
		case 1:
			if i < len(r) {
				r = append(r[:i], r[i+1:]...)
			}
		case 2:
			if i < len(r) {
				r[i] = c
			}
		case 3:
			if i+1 < len(r) {
				r[i], r[i+1] = r[i+1], r[i]
			}
		case 4:
			if i < len(r) {
				x := string(r[i])
				if u := strings.ToUpper(x); u != x && len([]rune(u)) == 1 {
					r[i] = []rune(u)[0]
				}
			}
		}
	}
	return string(r)
}
