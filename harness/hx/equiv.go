package hx

import (
	"regexp"
	"strings"
)

// Reference relation of URL lookup: the redundant tail of the query is
// slashes, question mark, ampersands, number sign; any part of it at the end
// may be removed; http: and https: are equal.
var reTail = regexp.MustCompile(`^((?s:.*?))(/*\??&*#?)$`)

func Matches(query, stored string) bool {
	if query == "" {
		return false
	}
	cands := []string{query}
	if rest, ok := strings.CutPrefix(query, "http:"); ok {
		cands = append(cands, "https:"+rest)
	} else if rest, ok := strings.CutPrefix(query, "https:"); ok {
		cands = append(cands, "http:"+rest)
	}
	for _, c := range cands {
		if stored == c {
			return true
		}
		// stored is c without a part of the tail
		if rest, ok := strings.CutPrefix(c, stored); ok {
			m := reTail.FindStringSubmatch(c)
			if len(m[1]) <= len(stored) && strings.HasSuffix(m[2], rest) {
				return true
			}
		}
	}
	return false
}

func MatchesAny(queries []string, stored string) bool {
	for _, q := range queries {
		if Matches(q, stored) {
			return true
		}
	}
	return false
}
