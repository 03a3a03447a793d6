// Package props holds the harnesses: one or more functions per property, named
// after it. They use the public API of the code under test only. The symbolic
// executor runs them with the sv.* inputs as SMT variables; the same code runs
// natively to replay what the solver found.
package props

import (
	"strconv"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

func itoa(n int) string { return strconv.Itoa(n) }

func cloneStrs(a []string) []string { return append([]string(nil), a...) }
func cloneInts(a []int) []int       { return append([]int(nil), a...) }

// validUTF8 reports whether ranging over s never meets an invalid byte.
func validUTF8(s string) bool {
	ok := true
	for i, r := range s {
		if r == 0xFFFD && !(i+3 <= len(s) && s[i:i+3] == "\uFFFD") {
			ok = false
		}
	}
	return ok
}

// byteTok is a tokenizer for the harnesses: every byte but the space is a token.
type byteTok struct{}

func (byteTok) Tokenize(s string) []string {
	var r []string
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			r = append(r, s[i:i+1])
		}
	}
	return r
}

// wordTok splits at spaces.
type wordTok struct{}

func (wordTok) Tokenize(s string) []string {
	var r []string
	start := -1
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			if start >= 0 {
				r = append(r, s[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		r = append(r, s[start:])
	}
	return r
}

func has(tokens []string, t string) bool {
	r := false
	for _, x := range tokens {
		r = sv.Or(r, x == t)
	}
	return r
}

// hasAll: every q is among tokens.
func hasAll(tokens, qs []string) bool {
	r := true
	for _, q := range qs {
		r = sv.And(r, has(tokens, q))
	}
	return r
}

func rawsOf(rs []visigoth.SearchResult) []string {
	out := make([]string, len(rs))
	for i, r := range rs {
		out[i] = r.Document.Raw()
	}
	return out
}

func idsOf(rs []visigoth.SearchResult) []string {
	out := make([]string, len(rs))
	for i, r := range rs {
		out[i] = r.Document.ID()
	}
	return out
}

func hitsOf(rs []visigoth.SearchResult) []int {
	out := make([]int, len(rs))
	for i, r := range rs {
		out[i] = r.Hits
	}
	return out
}

func countStr(l []string, s string) int {
	n := 0
	for _, x := range l {
		n += sv.IteInt(x == s, 1, 0)
	}
	return n
}

func sameResults(a, b []visigoth.SearchResult) bool {
	return sv.And(sv.EqStrs(idsOf(a), idsOf(b)), sv.EqStrs(rawsOf(a), rawsOf(b)), sv.EqInts(hitsOf(a), hitsOf(b)))
}
