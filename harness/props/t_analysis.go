package props

import (
	"strings"

	"svharness/sv"

	snowball "github.com/kljensen/snowball/spanish"
	visigoth "github.com/sonirico/visigoth"
)

// ---- T01: tokenizer ----

// Runs of kept characters, from the definition: every maximal run, in order,
// byte for byte. An invalid byte decodes to U+FFFD, which is neither a letter
// nor a number.
func refRuns(s string, keep func(r rune) bool) []string {
	var out []string
	start := -1
	for i, r := range s {
		if keep(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			out = append(out, s[start:i])
			start = -1
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func alnum(r rune) bool { return sv.Or(sv.IsLetter(r), sv.IsNumber(r)) }

func checkRuns(s string, got []string) {
	want := refRuns(s, alnum)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, want), "tokens are the maximal runs of letters and numbers")
	for _, t := range got {
		sv.Assert(t != "", "no token is empty")
	}
}

// Every text of up to a few arbitrary bytes, valid UTF-8 or not.
func T01_bytes() {
	n := sv.Choose("len", sv.Bound("bytes", 4, 5)+1)
	s := sv.Str("s", n)
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

// Arbitrary characters around ASCII ones.
func T01_runes() {
	r1 := sv.Rune("r1", 0, 0x10FFFF)
	r2 := sv.Rune("r2", 0, 0x10FFFF)
	b := sv.StrIn("b", 1, 0x20, 0x7e)
	s := "x" + string(r1) + b + string(r2) + "9"
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

// A long text with many tokens; arbitrary bytes at its start, middle and end.
func T01_long() {
	a, m, z := sv.StrIn("a", 1, 0, 127), sv.StrIn("m", 1, 0, 127), sv.StrIn("z", 1, 0, 127)
	var sb strings.Builder
	sb.WriteString(a)
	for i := 0; i < 45; i++ {
		if i == 22 {
			sb.WriteString(m)
		}
		sb.WriteString("w" + itoa(i*i))
		if i%7 == 0 {
			sb.WriteString("ñÁ")
		}
		if i%5 == 0 {
			sb.WriteString("... ")
		} else {
			sb.WriteString("-")
		}
	}
	sb.WriteString("tail")
	for i := 0; i < 300; i++ {
		sb.WriteString("x")
	}
	sb.WriteString(z)
	s := sb.String()
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

// Very many tokens, and very long ones.
func T01_huge() {
	a, z := sv.StrIn("a", 1, 0, 127), sv.StrIn("z", 1, 0, 127)
	s := strings.Repeat("k,", 1100) + a + strings.Repeat("x", 5000) + z + "é" + strings.Repeat("ñ", 700)
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

// Caller-supplied predicates with arbitrary parameters.
func T01_custom() {
	k := sv.Choose("predicates", 4)
	lo := sv.Rune("lo", 0, 0x10FFFF)
	hi := sv.Rune("hi", 0, 0x10FFFF)
	eq := sv.Rune("eq", 0, 0x10FFFF)
	f1 := func(r rune) bool { return sv.And(lo <= r, r <= hi) }
	f2 := func(r rune) bool { return r == eq }
	f3 := func(r rune) bool { return sv.IsNumber(r) }
	s := sv.StrIn("s", sv.Bound("custom bytes", 3, 4), 0, 127)
	var ct visigoth.CleanTokenizer
	var keep func(r rune) bool
	switch k {
	case 0:
		ct = visigoth.NewCleanTokenizer()
		keep = func(r rune) bool { return false }
	case 1:
		ct = visigoth.NewCleanTokenizer(f1)
		keep = f1
	case 2:
		ct = visigoth.NewCleanTokenizer(f1, f2)
		keep = func(r rune) bool { return sv.Or(f1(r), f2(r)) }
	default:
		ct = visigoth.NewCleanTokenizer(f3, f2, f1)
		keep = func(r rune) bool { return sv.Or(f1(r), f2(r), f3(r)) }
	}
	got := ct.Tokenize(s)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, refRuns(s, keep)), "tokens are the maximal runs of characters that a predicate accepts")
}

// One tokenizer used for several texts; earlier results stay as they were.
func T01_reuse() {
	t := visigoth.NewKeepAlphanumericTokenizer()
	s1, s2 := sv.StrIn("s1", 2, 0, 255), sv.StrIn("s2", 2, 0, 255)
	got1 := t.Tokenize(s1 + " tail")
	keep1 := cloneStrs(got1)
	got2 := t.Tokenize("head " + s2)
	checkRuns("head "+s2, got2)
	sv.Assert(sv.EqStrs(got1, keep1), "tokens already returned do not change")
	checkRuns(s1+" tail", got1)
	for i := range got2 {
		got2[i] = "!"
	}
	checkRuns("head "+s2, t.Tokenize("head "+s2))
}

// ---- T02: lower case ----

func refLower(s string) string {
	r := ""
	for _, c := range s {
		r += string(sv.Lower(c))
	}
	return r
}

// in hands out tokens as a window into a larger array, so that writes beyond
// the list are seen too.
func window(tokens ...string) (list, whole []string) {
	whole = append(cloneStrs(tokens), "guard1", "guard2")
	return whole[:len(tokens)], whole
}

func checkUnchanged(whole []string, tokens ...string) {
	sv.Assert(sv.EqStrs(whole, append(cloneStrs(tokens), "guard1", "guard2")), "the list given to a filter is left unchanged")
}

// Tokens of arbitrary valid UTF-8 bytes.
func T02_bytes() {
	n := sv.Choose("len", sv.Bound("token bytes", 3, 4)+1)
	t := sv.Str("t", n)
	sv.Assume(validUTF8(t))
	list, whole := window("ÁRBOL", t, "x9Z")
	got := visigoth.NewLowerCaseTokenizer().Filter(list)
	sv.Observe("lower", t, got)
	sv.Assert(sv.EqStrs(got, []string{"árbol", refLower(t), "x9z"}), "each token is lower-cased on its own")
	checkUnchanged(whole, "ÁRBOL", t, "x9Z")
}

// Long tokens and long lists with arbitrary characters in them.
func T02_wide() {
	r := sv.Rune("r", 0, 0x10FFFF)
	sv.Assume(sv.Or(r < 0xD800, r > 0xDFFF))
	b := sv.StrIn("b", 1, 0, 127)
	long := strings.Repeat("LaRgO", 20)
	toks := []string{}
	want := []string{}
	for i := 0; i < 35; i++ {
		toks = append(toks, "T"+itoa(i))
		want = append(want, "t"+itoa(i))
	}
	toks = append(toks, "", long+string(r)+"Z", long+b, b, b, "É"+string(r))
	want = append(want, "", strings.Repeat("largo", 20)+string(sv.Lower(r))+"z", strings.Repeat("largo", 20)+refLower(b), refLower(b), refLower(b), "é"+string(sv.Lower(r)))
	list, whole := window(toks...)
	got := visigoth.NewLowerCaseTokenizer().Filter(list)
	sv.Observe("lower", got)
	sv.Assert(sv.EqStrs(got, want), "each token is lower-cased on its own")
	checkUnchanged(whole, toks...)
	for i := range got {
		got[i] = "changed"
	}
	checkUnchanged(whole, toks...)
}

// Very many tokens, and very long ones.
func T02_huge() {
	t := sv.StrIn("t", 1, 0, 127)
	var toks, want []string
	for i := 0; i < 1100; i++ {
		toks = append(toks, "K")
		want = append(want, "k")
	}
	toks = append(toks, t+strings.Repeat("X", 3000)+t, t)
	want = append(want, refLower(t)+strings.Repeat("x", 3000)+refLower(t), refLower(t))
	list, whole := window(toks...)
	got := visigoth.NewLowerCaseTokenizer().Filter(list)
	sv.Assert(sv.EqStrs(got, want), "each token is lower-cased on its own")
	checkUnchanged(whole, toks...)
}

// Any bytes: as many tokens come out as go in, and the others are not affected.
func T02_shape() {
	n := sv.Choose("tokens", 4)
	toks := []string{}
	for i := 0; i < n; i++ {
		toks = append(toks, sv.Str("t", sv.Choose("len", 2+1)))
	}
	list, whole := window(toks...)
	f := visigoth.NewLowerCaseTokenizer()
	got := f.Filter(list)
	sv.Assert(len(got) == n, "as many tokens come out as go in")
	checkUnchanged(whole, toks...)
	for i := range toks {
		one := f.Filter([]string{toks[i]})
		sv.Assert(got[i] == one[0], "a token's lower case does not depend on the other tokens")
	}
	sv.Observe("lower", toks, got)
}

// ---- T03: stop words ----

func checkStop(sw visigoth.StopWords, words []string, toks []string) {
	list, whole := window(toks...)
	got := visigoth.NewStopWordsFilter(sw).Filter(list)
	want := []string{}
	for _, t := range toks {
		if !has(words, t) {
			want = append(want, t)
		}
	}
	sv.Observe("kept", toks, got)
	sv.Assert(sv.EqStrs(got, want), "exactly the tokens outside the stop-word set remain, in order")
	checkUnchanged(whole, toks...)
	for i := range got {
		got[i] = "changed"
	}
	checkUnchanged(whole, toks...)
	sv.Assert(len(sw) <= len(words), "the stop-word set does not grow")
	for _, w := range words {
		_, ok := sw[w]
		sv.Assert(ok, "the stop-word set keeps its words")
	}
}

// Arbitrary words and tokens.
func T03_bytes() {
	nw := sv.Choose("words", 3)
	nt := sv.Choose("tokens", sv.Bound("tokens", 3, 4)+1)
	sw := visigoth.StopWords{}
	var words []string
	for i := 0; i < nw; i++ {
		w := sv.Str("w", sv.Choose("wlen", 2)+i)
		sw[w] = struct{}{}
		words = append(words, w)
	}
	toks := []string{}
	for i := 0; i < nt; i++ {
		toks = append(toks, sv.Str("t", sv.Choose("tlen", 2)+1))
	}
	checkStop(sw, words, toks)
}

// The Spanish list against arbitrary tokens, alone and among others.
func T03_spanish() {
	var words []string
	for w := range visigoth.SpanishStopWords {
		words = append(words, w)
	}
	t := sv.Str("t", sv.Choose("len", sv.Bound("token bytes", 7, 14)+1))
	checkStop(visigoth.SpanishStopWords, words, []string{"casa", "el", t, "perro", "de", "EL", t})
	sv.Assert(sv.Imp(has(words, t), len(visigoth.NewStopWordsFilter(visigoth.SpanishStopWords).Filter([]string{t, t})) == 0), "no stop word is let through")
}

// A long list: capacity and position effects.
func T03_wide() {
	t, w := sv.Str("t", 1), sv.Str("w", 1)
	var toks []string
	for i := 0; i < 40; i++ {
		toks = append(toks, "t"+itoa(i%9))
		if i%4 == 0 {
			toks = append(toks, t)
		}
	}
	checkStop(visigoth.StopWords{"t3": {}, w: {}, "t7": {}}, []string{"t3", w, "t7"}, toks)
}

// Very many tokens, many words and very long ones.
func T03_huge() {
	t, w := sv.Str("t", 1), sv.Str("w", 1)
	long := strings.Repeat("palabra", 300)
	sw := visigoth.StopWords{"k" + w: {}, long + w: {}}
	words := []string{"k" + w, long + w}
	for i := 0; i < 600; i++ {
		sw["s"+itoa(i)] = struct{}{}
		words = append(words, "s"+itoa(i))
	}
	var toks, want []string
	for i := 0; i < 1100; i++ {
		toks = append(toks, "k")
		want = append(want, "k")
	}
	toks = append(toks, "s599", "k"+t, long+t, "s600", long)
	list, whole := window(toks...)
	got := visigoth.NewStopWordsFilter(sw).Filter(list)
	if t != w {
		want = append(want, "k"+t, long+t)
	}
	sv.Assert(sv.EqStrs(got, append(want, "s600", long)), "exactly the tokens outside the stop-word set remain, in order")
	checkUnchanged(whole, toks...)
}

// ---- T04: pipeline ----

type mark struct{ s string }

func (m mark) Filter(ts []string) []string {
	r := []string{}
	for _, t := range ts {
		r = append(r, t+m.s)
	}
	return r
}

// dup doubles every token, drop removes tokens equal to its parameter.
type dup struct{}

func (dup) Filter(ts []string) []string {
	r := []string{}
	for _, t := range ts {
		r = append(r, t, t)
	}
	return r
}

// more adds a token, also to an empty list.
type more struct{ s string }

func (m more) Filter(ts []string) []string { return append(cloneStrs(ts), m.s) }

// count records how often it is used and with what.
type count struct{ calls *[]string }

func (c count) Filter(ts []string) []string {
	*c.calls = append(*c.calls, strings.Join(ts, "|"))
	return ts
}

type drop struct{ s string }

func (d drop) Filter(ts []string) []string {
	r := []string{}
	for _, t := range ts {
		if t != d.s {
			r = append(r, t)
		}
	}
	return r
}

// Harness filters in every order and number; the oracle is the definition.
func T04_stages() {
	k := sv.Choose("filters", sv.Bound("filters", 3, 4)+1)
	d := sv.StrIn("d", 1, 'a', 'z')
	var fs []visigoth.Filter
	for i := 0; i < k; i++ {
		switch sv.Choose("kind", 4) {
		case 0:
			fs = append(fs, mark{itoa(i)})
		case 1:
			fs = append(fs, more{itoa(i)})
		case 2:
			fs = append(fs, dup{})
		default:
			fs = append(fs, drop{d})
		}
	}
	s := sv.StrIn("s", 3, ' ', 'z')
	want := wordTok{}.Tokenize(s)
	for _, f := range fs {
		want = f.Filter(want)
	}
	got := visigoth.NewTokenizationPipeline(wordTok{}, fs...).Tokenize(s)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, want), "the tokenizer's output goes through every filter once, in order")
}

// Many filters, and how often each is called with what.
func T04_chain() {
	s, d := sv.StrIn("s", 2, ' ', 'z'), sv.StrIn("d", 1, 'a', 'z')
	n := []int{0, 1, 2, 5, 9, 17, 33}[sv.Choose("filters", 7)]
	var calls, want []string
	var fs []visigoth.Filter
	toks := wordTok{}.Tokenize(s)
	for i := 0; i < n; i++ {
		fs = append(fs, count{&calls})
		want = append(want, strings.Join(toks, "|"))
		switch i % 4 {
		case 0:
			fs = append(fs, drop{d})
		case 1:
			fs = append(fs, more{"m" + itoa(i)})
		case 2:
			fs = append(fs, mark{"x"})
		default:
			fs = append(fs, drop{"m1x"}, drop{"m1x"})
		}
		for _, f := range fs[len(want)+i+(i/4):] {
			toks = f.Filter(toks)
		}
	}
	p := visigoth.NewTokenizationPipeline(wordTok{}, fs...)
	spare := append(fs, dup{}) // growing the caller's list does not reach the pipeline
	_ = spare
	got := p.Tokenize(s)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, toks), "the tokenizer's output goes through every filter once, in order")
	sv.Assert(sv.EqStrs(calls, want), "every filter is applied exactly once to the output of the one before")
}

// The library's own filters, whose order matters.
func T04_filters() {
	s := sv.Str("s", sv.Bound("text bytes", 2, 3))
	s = "EL " + s + " Los"
	low, stop := visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.StopWords{"el": {}, "a": {}, "Los": {}})
	stem := visigoth.NewSpanishStemmer(false)
	var fs []visigoth.Filter
	switch sv.Choose("order", 5) {
	case 0:
		fs = []visigoth.Filter{low, stop}
	case 1:
		fs = []visigoth.Filter{stop, low}
	case 2:
		fs = []visigoth.Filter{stop}
	case 3:
		fs = []visigoth.Filter{stop, low, stop}
	case 4:
		fs = []visigoth.Filter{low, stem, low}
	}
	want := visigoth.NewKeepAlphanumericTokenizer().Tokenize(s)
	for _, f := range fs {
		want = f.Filter(want)
	}
	got := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), fs...).Tokenize(s)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, want), "the tokenizer's output goes through every filter once, in order")
}

func newPlainPipeline() *visigoth.TokenizationPipeline {
	return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(),
		visigoth.NewStopWordsFilter(visigoth.StopWords{"de": {}}))
}

func checkMemory(p *visigoth.TokenizationPipeline, before []string, s string) {
	var got1 []string
	for i, b := range before {
		g := p.Tokenize(b)
		if i == 0 {
			got1 = g
		}
	}
	keep1 := cloneStrs(got1)
	got := p.Tokenize(s)
	want := newPlainPipeline().Tokenize(s)
	sv.Observe("tokens", s, got)
	sv.Assert(sv.EqStrs(got, want), "the tokens do not depend on what was processed before")
	sv.Assert(sv.EqStrs(got1, keep1), "tokens already returned do not change")
	for i := range got {
		got[i] = "changed"
	}
	sv.Assert(sv.EqStrs(p.Tokenize(s), want), "changing a returned list does not change later results")
	sv.Assert(sv.EqStrs(got1, keep1), "tokens already returned do not change")
}

// Two arbitrary texts through one pipeline.
func T04_memory() {
	n1, n2 := sv.Choose("n1", sv.Bound("text bytes", 3, 4)), sv.Choose("n2", sv.Bound("text bytes", 3, 4))
	s1, s2 := sv.StrIn("s1", n1, 0, 127), sv.StrIn("s2", n2, 0, 127)
	checkMemory(newPlainPipeline(), []string{s1}, s2)
}

// Long texts that differ in few places, and many texts before.
func T04_history() {
	a, b := sv.StrIn("a", 1, 0, 127), sv.StrIn("b", 1, 0, 127)
	base := strings.Repeat("uno dos tres ", 12)
	var texts []string
	if sv.Choose("many", 2) == 1 {
		for i := 0; i < sv.Bound("texts before", 300, 1100); i++ {
			texts = append(texts, "texto "+itoa(i))
		}
	}
	texts = append(texts, a+base+"x"+"fin")
	switch sv.Choose("place", 3) {
	case 0:
		checkMemory(newPlainPipeline(), texts, b+base+"x"+"fin")
	case 1:
		checkMemory(newPlainPipeline(), texts, a+base+b+"fin")
	case 2:
		checkMemory(newPlainPipeline(), texts, a+base+"x"+"fin"+b)
	}
}

// ---- T05: stemming ----

func checkStem(flag bool, toks []string) {
	list, whole := window(toks...)
	other := visigoth.NewSpanishStemmer(sv.Not(flag)) // other filters have no influence
	before := other.Filter(cloneStrs(toks))
	beforeC := cloneStrs(before)
	got := visigoth.NewSpanishStemmer(flag).Filter(list)
	want := []string{}
	for _, t := range toks {
		want = append(want, snowball.Stem(t, sv.Not(flag)))
	}
	sv.Assert(sv.EqStrs(before, want), "each token becomes its own stem")
	sv.Assert(sv.EqStrs(before, beforeC), "tokens already returned do not change")
	want = nil
	for _, t := range toks {
		want = append(want, snowball.Stem(t, flag))
	}
	sv.Observe("stems", toks, got)
	sv.Assert(sv.EqStrs(got, want), "each token becomes its own stem")
	checkUnchanged(whole, toks...)
	for i := range got {
		got[i] = "changed"
	}
	checkUnchanged(whole, toks...)
}

// Short arbitrary lower-case tokens and their neighbours.
func T05_letters() {
	n := sv.Choose("len", sv.Bound("letters", 3, 4)+1)
	t := sv.StrIn("t", n, 'a', 'z')
	checkStem(sv.Choose("flag", 2) == 1, []string{t, "cantando", t, "", "los"})
}

// Words with an arbitrary ending.
func T05_endings() {
	stems := []string{"cant", "naci", "est"}
	w := stems[sv.Choose("word", len(stems))]
	e := sv.StrIn("e", sv.Bound("ending letters", 2, 3), 'a', 'z')
	checkStem(sv.Choose("flag", 2) == 1, []string{w + e, "niñas", w})
}

// Arbitrary bytes, upper case and accents.
func T05_bytes() {
	t := sv.Str("t", sv.Choose("len", sv.Bound("bytes", 2, 3)+1))
	checkStem(sv.Choose("flag", 2) == 1, []string{"Á" + t, t, "él"})
}

// Long lists with repeated and arbitrary tokens.
func T05_wide() {
	t := sv.StrIn("t", 1, 'a', 'z')
	var toks []string
	for i := 0; i < 36; i++ {
		toks = append(toks, "palabra"+itoa(i%7))
		if i%9 == 0 {
			toks = append(toks, "corre"+t, t)
		}
	}
	checkStem(sv.Choose("flag", 2) == 1, toks)
}

// Long words.
func T05_long() {
	t := sv.StrIn("t", 1, 'a', 'z')
	n := []int{9, 20, 33, 65, 140, 300}[sv.Choose("length", sv.Bound("long words", 5, 6))]
	checkStem(sv.Choose("flag", 2) == 1, []string{strings.Repeat("bk", n/2) + t, strings.Repeat("ka", n/2) + "nd" + t})
}

// Very many different words before: what a memory of them keeps does not matter.
func T05_history() {
	t := sv.StrIn("t", 1, 'a', 'z')
	f := visigoth.NewSpanishStemmer(true)
	n := sv.Bound("words before", 600, 1100)
	var toks []string
	for i := 0; i < n; i++ {
		toks = append(toks, "k"+itoa(i)+"os")
	}
	f.Filter(toks)
	toks = append([]string{"k" + t + "os", t, "k17os"}, toks[n-5:]...)
	got := f.Filter(toks)
	var want []string
	for _, w := range toks {
		want = append(want, snowball.Stem(w, true))
	}
	sv.Observe("stems", got)
	sv.Assert(sv.EqStrs(got, want), "each token becomes its own stem")
}

// ---- T06: regions ----

func refVowel(r rune) bool {
	return sv.Or(r == 'a', r == 'e', r == 'i', r == 'o', r == 'u', r == 'á', r == 'é', r == 'í', r == 'ó', r == 'ú', r == 'ü')
}

// refRegions computes the regions as positions in the list of letters.
func refRegions(vowel []bool) (r1, r2, rv int) {
	n := len(vowel)
	after := func(from int) int {
		for i := from; i+1 < n; i++ {
			if vowel[i] && !vowel[i+1] {
				return i + 2
			}
		}
		return n
	}
	r1 = after(0)
	r2 = after(r1)
	rv = n
	if n < 3 {
		return
	}
	switch {
	case !vowel[1]:
		for i := 2; i < n; i++ {
			if vowel[i] {
				rv = i + 1
				break
			}
		}
	case vowel[0]:
		for i := 2; i < n; i++ {
			if !vowel[i] {
				rv = i + 1
				break
			}
		}
	default:
		rv = 3
	}
	return
}

func checkRegions(w string) {
	var off []int
	var vow []bool
	for i, r := range w {
		off = append(off, i)
		vow = append(vow, refVowel(r))
	}
	off = append(off, len(w))
	b := []byte(w)
	g1, g2, gv := visigoth.R1R2RV(b)
	sv.Observe("regions", w, string(g1), string(g2), string(gv))
	r1, r2, rv := refRegions(vow)
	sv.Assert(string(g1) == w[off[r1]:], "R1 is the part after the first non-vowel that follows a vowel")
	sv.Assert(string(g2) == w[off[r2]:], "R2 is R1 of R1")
	sv.Assert(string(gv) == w[off[rv]:], "RV follows the definition")
	sv.Assert(string(b) == w, "the word is left unchanged")
}

// Words of plain letters.
func T06_letters() {
	n := sv.Choose("len", sv.Bound("letters", 7, 9)+1)
	checkRegions(sv.StrIn("w", n, 'a', 'z'))
}

// Words of any bytes that are valid UTF-8, which includes accented letters.
func T06_bytes() {
	n := sv.Choose("len", sv.Bound("bytes", 3, 4)+1)
	checkRegions(sv.Str("w", n))
}

// Accented letters at every place: each letter is plain or one of U+00C0..U+00FF.
func T06_accents() {
	n := sv.Choose("letters", sv.Bound("accented word letters", 4, 6)+1)
	w := ""
	for i := 0; i < n; i++ {
		if sv.Choose("accent", 2) == 1 {
			w += "\xc3" + sv.StrIn("l", 1, 0x80, 0xbf)
		} else {
			w += sv.StrIn("l", 1, 'a', 'z')
		}
	}
	checkRegions(w)
}

// Long words.
func T06_long() {
	a, b, c := sv.StrIn("a", 2, 'a', 'z'), sv.StrIn("b", 1, 'a', 'z'), sv.StrIn("c", 2, 'a', 'z')
	checkRegions(a + "nstr" + b + "cciónpqrstvwxyzbcdf" + c)
}

// Words longer than any fixed-size buffer.
func T06_huge() {
	a := sv.StrIn("a", 2, 'a', 'z')
	for _, n := range []int{30, 70, 140, 300} {
		checkRegions("str" + strings.Repeat("k", n) + a + strings.Repeat("aeí", n) + a + "x")
		checkRegions("aei" + strings.Repeat("ú", n) + a + strings.Repeat("k", n) + a + "x")
	}
}
