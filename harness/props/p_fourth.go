package props

import (
	"sort"
	"strings"

	"svharness/sv"

	snowball "github.com/kljensen/snowball/spanish"
	"github.com/sonirico/visigoth"
)

// sizes are list lengths around those at which implementations change.
var sizes = []int{1, 2, 3, 16, 17, 33, 64, 65, 70, 129, 255, 256, 257, 513, 701, 1024, 1025, 1100}

func someSize(name string) int {
	return sizes[sv.Choose(name, sv.Bound("list lengths", 18, 18))]
}

// ---- T01..T05: many words, twice ----

// spaced gives n words, their text and a place with an arbitrary one.
func spaced(n int, x, sep string) ([]string, string) {
	ws := make([]string, n)
	for i := range ws {
		ws[i] = "w" + itoa(i%50)
	}
	ws[n/2] = "m" + x
	ws[n-1] = "l" + x
	return ws, strings.Join(ws, sep)
}

func T01_many() {
	x, y := sv.StrIn("x", 1, 'a', 'z'), sv.StrIn("y", 1, 'A', 'Z')
	n := someSize("words")
	m := max(1, n+sv.Choose("more", 3)-1)
	a, ta := spaced(n, x, " ")
	b, tb := spaced(m, y, "-, ")
	t := visigoth.NewKeepAlphanumericTokenizer()
	ga := t.Tokenize(ta)
	sv.Assert(sv.EqStrs(ga, a), "the tokens are the runs of letters and numbers")
	gb := t.Tokenize(tb)
	sv.Assert(sv.EqStrs(gb, b), "the tokens are the runs of letters and numbers")
	sv.Assert(sv.EqStrs(ga, a), "tokens already returned do not change")
	for i := range gb {
		gb[i] = "!"
	}
	_ = append(gb[:0], "?")
	sv.Assert(sv.EqStrs(t.Tokenize(ta), a), "the tokens are the runs of letters and numbers")
	sv.Assert(sv.EqStrs(ga, a), "tokens already returned do not change")
}

// manyTokens filters two lists of similar size, one after the other.
func manyTokens(f visigoth.Filter, each func(string) []string) {
	x, y := sv.StrIn("x", 1, 'a', 'z'), sv.StrIn("y", 1, 'a', 'z')
	n := someSize("tokens")
	m := max(1, n+sv.Choose("more", 3)-1)
	a, _ := spaced(n, x, " ")
	b, _ := spaced(m, y, " ")
	var wa, wb []string
	for _, t := range a {
		wa = append(wa, each(t)...)
	}
	for _, t := range b {
		wb = append(wb, each(t)...)
	}
	la, wholeA := window(a...)
	lb, wholeB := window(b...)
	ga := f.Filter(la)
	sv.Assert(sv.EqStrs(ga, wa), "every token is filtered on its own, in order")
	gb := f.Filter(lb)
	sv.Assert(sv.EqStrs(gb, wb), "every token is filtered on its own, in order")
	sv.Assert(sv.EqStrs(ga, wa), "tokens already returned do not change")
	checkUnchanged(wholeA, a...)
	checkUnchanged(wholeB, b...)
	for i := range gb {
		gb[i] = "changed"
	}
	sv.Assert(sv.EqStrs(f.Filter(la), wa), "every token is filtered on its own, in order")
	sv.Assert(sv.EqStrs(ga, wa), "tokens already returned do not change")
	checkUnchanged(wholeA, a...)
	checkUnchanged(wholeB, b...)
}

func T02_many() {
	manyTokens(visigoth.NewLowerCaseTokenizer(), func(t string) []string { return []string{refLower(t)} })
}
func T03_many() {
	sw := visigoth.StopWords{"w3": {}, "w17": {}, "ma": {}, "lz": {}}
	manyTokens(visigoth.NewStopWordsFilter(sw), func(t string) []string {
		if has([]string{"w3", "w17", "ma", "lz"}, t) {
			return nil
		}
		return []string{t}
	})
}
func T05_many() {
	flag := sv.Choose("flag", 2) == 1
	manyTokens(visigoth.NewSpanishStemmer(flag), func(t string) []string { return []string{snowball.Stem(t, flag)} })
}

// dup2 is a filter that repeats every token.
type dup2 struct{}

func (dup2) Filter(ts []string) (r []string) {
	for _, t := range ts {
		r = append(r, t, t+"2")
	}
	return r
}

func T04_many() {
	x, y := sv.StrIn("x", 1, 'A', 'Z'), sv.StrIn("y", 1, 'a', 'z')
	n := someSize("words")
	m := max(1, n+sv.Choose("more", 3)-1)
	a, ta := spaced(n, x, " ")
	b, tb := spaced(m, y, " ")
	var p *visigoth.TokenizationPipeline
	kind := sv.Choose("filters", 3)
	switch kind {
	case 0:
		p = visigoth.NewTokenizationPipeline(wordTok{}, visigoth.NewLowerCaseTokenizer())
	case 1:
		p = visigoth.NewTokenizationPipeline(wordTok{}, visigoth.NewLowerCaseTokenizer(), dup2{}, visigoth.NewStopWordsFilter(visigoth.StopWords{"w4": {}, "mq2": {}}))
	case 2:
		p = visigoth.NewTokenizationPipeline(wordTok{}, dup2{}, dup2{})
	}
	want := func(ws []string) (r []string) {
		for _, w := range ws {
			switch kind {
			case 0:
				r = append(r, refLower(w))
			case 1:
				for _, t := range []string{refLower(w), refLower(w) + "2"} {
					if t != "w4" && t != "mq2" {
						r = append(r, t)
					}
				}
			case 2:
				r = append(r, w, w+"2", w+"2", w+"22")
			}
		}
		return r
	}
	sv.Order(1 + sv.Choose("order", 2))
	ga, wa := p.Tokenize(ta), want(a)
	sv.Assert(sv.EqStrs(ga, wa), "every stage is applied once, in order")
	gb, wb := p.Tokenize(tb), want(b)
	sv.Assert(sv.EqStrs(gb, wb), "every stage is applied once, in order")
	sv.Assert(sv.EqStrs(ga, wa), "tokens already returned do not change")
	for i := range gb {
		gb[i] = "changed"
	}
	sv.Assert(sv.EqStrs(p.Tokenize(ta), wa), "every stage is applied once, in order")
	sv.Assert(sv.EqStrs(ga, wa), "tokens already returned do not change")
}

// ---- T06: one buffer for several words ----

func T06_buffer() {
	a, b := sv.StrIn("a", sv.Bound("letters of two words", 3, 4), 'a', 'z'), sv.StrIn("b", 2, 'a', 'z')
	v := "ba" + b + "tinos"
	w := "x" + a + "el"
	r1 := func(s string) (string, string, string) {
		x, y, z := visigoth.R1R2RV([]byte(s))
		return string(x), string(y), string(z)
	}
	buf := []byte(v)
	g1, g2, gv := visigoth.R1R2RV(buf)
	h1, h2, hv := visigoth.R1R2RV(buf)
	sv.Assert(sv.And(string(g1) == string(h1), string(g2) == string(h2), string(gv) == string(hv)), "a word has the same regions whenever it is asked for")
	k1, k2, kv := string(g1), string(g2), string(gv)
	var x1, x2, xv string
	between := sv.Choose("another word between", 2) == 1
	if between {
		x1, x2, xv = r1(w)
	}
	sv.Assert(sv.And(string(g1) == k1, string(g2) == k2, string(gv) == kv), "regions do not change when those of another word are asked for")
	for i := range buf {
		buf[i] = 'u'
	}
	y1, y2, yv := r1(v)
	sv.Assert(sv.And(y1 == k1, y2 == k2, yv == kv), "a word has the same regions whenever it is asked for")
	if !between {
		x1, x2, xv = r1(w)
	}
	buf = append(buf[:0], w...)
	z1, z2, zv := visigoth.R1R2RV(buf)
	sv.Assert(sv.And(string(z1) == x1, string(z2) == x2, string(zv) == xv), "a word has the same regions whenever it is asked for")
	checkRegions(v)
	checkRegions(w)
}

// ---- X01, X03: unusual analysers and repeated documents ----

// splitTok yields what lies between spaces, empty tokens too.
type splitTok struct{}

func (splitTok) Tokenize(s string) []string { return strings.Split(s, " ") }

func X01_blank() {
	ix := visigoth.NewMemoryIndex("i", splitTok{})
	var docs [][]string
	for i := 0; i < 3; i++ {
		s := sv.StrIn("s", sv.Choose("bytes", sv.Bound("bytes", 3, 4)), ' ', 'z')
		if i == 1 {
			s = " a"
		}
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
		docs = append(docs, splitTok{}.Tokenize(s))
	}
	checkIndex(ix, docs, "", "a", sv.StrIn("q", 1, ' ', 'z'))
	n := len(refPostings(docs, ""))
	sv.Assert(len(ix.Search("", visigoth.LinearSearch)) == n, "a token's postings are the positions of the documents that contain it")
	sv.Assert(len(ix.Search("", visigoth.HitsSearch)) == n, "a token's postings are the positions of the documents that contain it")
}

// Documents that differ in nothing, in their statement or in their content only.
func X03_repeated() {
	ids, raws, sts := []string{sv.Str("i0", 1), sv.Str("i1", 1)}, []string{sv.Str("r0", 1), sv.Str("r1", 1)}, []string{"aa", "ab"}
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := sv.Bound("repeated documents", 5, 6)
	var want []visigoth.Doc
	var docs [][]string
	for k := 0; k < n; k++ {
		c := sv.Choose("document", 5)
		i, r, s := []int{0, 0, 0, 1, 1}[c], []int{0, 0, 1, 0, 1}[c], []int{0, 1, 0, 0, 1}[c]
		if k%2 == 0 {
			ix.Put(visigoth.NewDocRequestWith(ids[i], raws[r], sts[s]))
		} else {
			in := ix.Put(visigoth.NewDocRequestWith(ids[i], raws[r], sts[s]))
			sv.Assert(in == visigoth.Index(ix), "a put gives the index back")
		}
		want = append(want, visigoth.NewDoc(ids[i], raws[r]))
		docs = append(docs, byteTok{}.Tokenize(sts[s]))
	}
	checkIndex(ix, docs, "a", "b")
	for k, w := range want {
		if k < ix.Len() {
			d := ix.Document(k)
			sv.Assert(sv.And(d.ID() == w.ID(), d.Raw() == w.Raw()), "a document keeps its identifier and content")
		}
	}
	all := ix.Search("", visigoth.NoopAllSearch)
	sv.Assert(len(all) == n, "every document put is returned")
	for k, w := range want {
		if k < len(all) {
			sv.Assert(sv.And(all[k].Document.ID() == w.ID(), all[k].Document.Raw() == w.Raw()), "a result carries the document as it was put")
		}
	}
}

// ---- X02: many results ----

func X02_many() {
	q := sv.StrIn("q", 1, 'a', 'z')
	n := someSize("documents")
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	for i := 0; i < n; i++ {
		ix.Put(visigoth.NewDocRequestWith("d"+itoa(i%10), "raw"+itoa(i), "k"+q))
	}
	ix.Put(visigoth.NewDocRequestWith("e", "other", "o"))
	p := ix.Indexed("k")
	e := engines[sv.Choose("engine", 3)]
	rs := ix.Search("k", e.e)
	before := append([]visigoth.SearchResult(nil), rs...)
	if e.name == "all" {
		n++
	}
	sv.Assert(len(rs) == n, "every document is found")
	ix.Search("o", visigoth.HitsSearch)
	ix.Search("o", visigoth.LinearSearch)
	ix.Search(q+"k", visigoth.HitsSearch)
	ix.Search(q+"k", visigoth.LinearSearch)
	ix.Search("ok", visigoth.NoopAllSearch)
	ix.Put(visigoth.NewDocRequestWith("0", "late", "kk"+q))
	ix.Search("k", e.e)
	sv.Assert(sameResults(rs, before), "results do not change because of later puts or searches")
	for i := range p {
		sv.Assert(p[i] == i, "postings handed out do not change")
		p[i] = -1
	}
	for i := range rs {
		rs[i] = visigoth.SearchResult{}
	}
	_ = append(rs[:0], visigoth.SearchResult{Hits: 5})
	again := ix.Search("k", visigoth.LinearSearch)
	var got, want []string
	for _, r := range again {
		got = append(got, r.Document.Raw())
		sv.Assert(r.Hits == 1, "changing returned lists does not change later results")
	}
	for _, r := range before {
		if r.Document.Raw() != "other" {
			want = append(want, r.Document.Raw())
		}
	}
	want = append(want, "late")
	sort.Strings(got)
	sort.Strings(want)
	sv.Assert(sv.Or(q == "o", sv.EqStrs(got, want)), "changing returned lists does not change later results")
}

// ---- R02: many results ----

func R02_many() {
	n := []int{5, 90, 150, 400, 900}[sv.Choose("documents", sv.Bound("document counts", 4, 5))]
	sv.Order(1 + sv.Choose("order", 4))
	r, m := newRepo(), &model{}
	x := sv.Str("x", 1)
	names := []string{x, "i1", "i2"}
	for k, name := range names {
		for i := 0; i < n+k; i++ {
			d := mdoc{"id" + itoa(i%3), "doc" + itoa(i*3+k)}
			r.Put(name, visigoth.NewDocRequest(d.id, d.raw))
			m.put(name, d)
		}
		sv.Assert(r.Alias("al", name) == m.addAlias("al", name), "an alias is reported as added exactly when it is")
	}
	for _, name := range append(names, "al") {
		want, _ := m.raws(name)
		got, ok := drain(r, name, "", visigoth.NoopAllSearch)
		sv.Assert(ok, "a search succeeds exactly when the name stands for something")
		gs := rawsOf(got)
		sort.Strings(gs)
		ws := cloneStrs(want)
		sort.Strings(ws)
		sv.Assert(sv.EqStrs(gs, ws), "an alias gives the documents of every index it points at")
	}
}

// ---- J02: what is not a result ----

func J02_trailing() {
	space := []string{"", " ", "\n\t\r "}[sv.Choose("space", 3)]
	c := sv.Byte("c", 0, 255)
	sv.Assume(sv.And(c != ' ', c != '\n', c != '\t', c != '\r'))
	text := []string{`{"hits":3}`, `{}`, `{"doc":{"id":"a","raw":"b"},"hits":3}`, `{"doc":{}}`, `null`}[sv.Choose("text", 5)] + space + string([]byte{c}) + []string{"", "}"}[sv.Choose("more", 2)]
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("err", text, err != nil)
	sv.Assert(err != nil, "text after the result is an error")
}

func J02_types() {
	v := jsonValues[sv.Choose("value", len(jsonValues))]
	sv.Assume(v != "null")
	isNum, isStr, isObj := v[0] >= '0' && v[0] <= '9' || v[0] == '-', v[0] == '"', v[0] == '{'
	where := sv.Choose("where", 4)
	text := ""
	good := false
	switch where {
	case 0:
		text, good = `{"hits":`+v+`}`, isNum
	case 1:
		text, good = `{"doc":{"id":`+v+`}}`, isStr
	case 2:
		text, good = `{"doc":{"raw":`+v+`}}`, isStr
	case 3:
		text, good = `{"doc":`+v+`}`, isObj
	}
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("err", text, err != nil)
	sv.Assert(sv.Or(good, err != nil), "a member of the wrong type is an error")
}
