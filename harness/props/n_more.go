package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// ---- X04: indices of one builder are independent ----

func X04_puts() {
	var tok visigoth.Tokenizer = byteTok{}
	if sv.Choose("analyser", 2) == 1 {
		tok = visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())
	}
	build := visigoth.NewMemoryIndexBuilder(tok)
	names := []string{"one", "two", []string{"three", "one", ""}[sv.Choose("name", 3)]}
	var ix []*visigoth.MemoryIndex
	for _, n := range names {
		ix = append(ix, build(n).(*visigoth.MemoryIndex))
	}
	docs := make([][][]string, len(ix))
	raws := make([][]string, len(ix))
	var all []string
	for i := 0; i < sv.Bound("interleaved puts", 3, 4); i++ {
		k := sv.Choose("index", len(ix))
		s := sv.StrIn("t", 1+i%2, 'a', 'z')
		ix[k].Put(visigoth.NewDocRequest("d"+itoa(i), s))
		if sv.Choose("search", 2) == 1 {
			ix[(k+1)%len(ix)].Search(s, visigoth.HitsSearch)
			ix[(k+1)%len(ix)].Search(s, visigoth.LinearSearch)
		}
		t := tok.Tokenize(s)
		docs[k] = append(docs[k], t)
		raws[k] = append(raws[k], s)
		all = append(all, t...)
	}
	// one more is built late
	ix, docs, raws = append(ix, build("late").(*visigoth.MemoryIndex)), append(docs, nil), append(raws, nil)
	for k := range ix {
		checkIndex(ix[k], docs[k], all...)
		for _, t := range all[:1] {
			var want []string
			for j, d := range docs[k] {
				if has(d, t) {
					want = append(want, raws[k][j])
				}
			}
			sv.Assert(sv.EqStrs(rawsOf(ix[k].Search(t, visigoth.LinearSearch)), want), "a search sees the documents of its own index only")
			sv.Assert(len(ix[k].Search(t, visigoth.HitsSearch)) == len(want), "a search sees the documents of its own index only")
		}
		sv.Assert(sv.EqStrs(rawsOf(ix[k].Search(all[0], visigoth.NoopAllSearch)), raws[k]), "an index holds exactly the documents put into it")
	}
}

// Enough documents for lists to grow, put in turns.
func X04_wide() {
	build := visigoth.NewMemoryIndexBuilder(byteTok{})
	a, b := build("x").(*visigoth.MemoryIndex), build("x").(*visigoth.MemoryIndex)
	t := sv.StrIn("t", 2, 'a', 'z')
	var da, db [][]string
	for i := 0; i < sv.Bound("documents", 40, 150); i++ {
		s, u := "k"+t[i%2:i%2+1], "k"
		if i%3 == 0 {
			s, u = "m", "km"
		}
		a.Put(visigoth.NewDocRequest("d"+itoa(i%4), s))
		da = append(da, byteTok{}.Tokenize(s))
		if i%5 != 0 {
			b.Put(visigoth.NewDocRequest("d"+itoa(i%4), u))
			db = append(db, byteTok{}.Tokenize(u))
		}
	}
	checkIndex(a, da, "k", "m", t[:1], t[1:])
	checkIndex(b, db, "k", "m", t[:1], t[1:])
}

// ---- S07: any function can be the engine ----

// someResults: what an engine may return.
func someResults(label string) slices.Slice[visigoth.SearchResult] {
	var rs []visigoth.SearchResult
	n := sv.Choose(label+" results", 4)
	for i := 0; i < n; i++ {
		rs = append(rs, visigoth.SearchResult{Document: visigoth.NewDoc(sv.StrIn(label+"id", 1, 'a', 'z'), label+itoa(i)), Hits: sv.Int(label+"hits", -3, 3)})
	}
	return rs
}

func S07_index() {
	words := visigoth.NewKeepAlphanumericTokenizer()
	p := visigoth.NewTokenizationPipeline(words, visigoth.NewLowerCaseTokenizer())
	ix := visigoth.NewMemoryIndex("i", p)
	t := sv.StrIn("t", 1, 'a', 'z')
	docs := []string{"x " + t, "", "Y " + t + " x"}
	for i, s := range docs {
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
	}
	q := sv.StrIn("q", sv.Choose("query", 3), 'A', 'z')
	if sv.Choose("long", 2) == 1 {
		q += ", X x " + t
	}
	want := p.Tokenize(q)
	res := someResults("r")
	calls := 0
	got := ix.Search(q, func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		calls++
		sv.Observe("tokens", tokens)
		sv.Assert(sv.EqStrs(tokens, want), "the engine receives the analysed query")
		sv.Assert(in.Len() == len(docs), "the engine sees every document")
		for i := range docs {
			sv.Assert(in.Document(i).Raw() == docs[i], "the engine sees every document")
		}
		sv.Assert(sv.EqInts(in.Indexed("x"), []int{0, 2}) || t == "x", "the engine sees the postings")
		sv.Assert(sv.EqInts(in.Indexed(t), []int{0, 2}), "the engine sees the postings")
		return res
	})
	sv.Assert(calls == 1, "the engine is called once for a search")
	sv.Assert(sameResults(got, res), "what the engine returns is what the search returns")
}

func S07_repo() {
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(byteTok{}))
	n := 1 + sv.Choose("indices", 3)
	for i := 0; i < n; i++ {
		r.Put("i"+itoa(i), visigoth.NewDocRequest("d", "in"+itoa(i)))
		r.Alias("all", "i"+itoa(i))
	}
	q := sv.StrIn("q", sv.Choose("query", 3), 'a', 'z')
	rs := map[string]slices.Slice[visigoth.SearchResult]{}
	for i := 0; i < min(n, 2); i++ {
		rs["in"+itoa(i)] = someResults("r" + itoa(i))
	}
	calls := make([]int, n)
	seen := make([][]string, n)
	e := func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		raw := in.Document(0).Raw()
		calls[int(raw[2]-'0')]++
		seen[int(raw[2]-'0')] = tokens
		return rs[raw]
	}
	sv.Order(1 + sv.Choose("order", 4))
	single := sv.Choose("single", 2) == 1
	if single {
		got, ok := drain(r, "i0", q, e)
		sv.Assert(ok, "the search succeeds")
		sv.Assert(sameResults(got, rs["in0"]), "what the engine returns is what the search returns")
		sv.Assert(calls[0] == 1, "the engine is called once for an index")
		sv.Assert(sv.EqStrs(seen[0], byteTok{}.Tokenize(q)), "the engine receives the analysed query")
		return
	}
	got, ok := drain(r, "all", q, e)
	sv.Assert(ok, "the search succeeds")
	var want []visigoth.SearchResult
	for i := 0; i < n; i++ {
		sv.Assert(calls[i] == 1, "the engine is called once for an index")
		sv.Assert(sv.EqStrs(seen[i], byteTok{}.Tokenize(q)), "the engine receives the analysed query")
		want = append(want, rs["in"+itoa(i)]...)
	}
	sv.Assert(sameSet(rawsOf(got), rawsOf(want)), "what the engines return is what the search returns")
	for _, g := range got {
		for _, w := range want {
			sv.Assert(sv.Or(g.Document.Raw() != w.Document.Raw(), sv.And(g.Hits == w.Hits, g.Document.ID() == w.Document.ID())), "a result is handed on unchanged")
		}
	}
	if n == 1 {
		sv.Assert(sameResults(got, want), "what the engine returns is what the search returns")
	}
}

// ---- R07: any index implementation ----

type recIndex struct {
	name    string
	docs    []visigoth.DocRequest
	queries []string
	calls   int
	res     slices.Slice[visigoth.SearchResult]
}

func (x *recIndex) Put(d visigoth.DocRequest) visigoth.Index {
	x.docs = append(x.docs, d)
	return x
}

func (x *recIndex) Search(q string, e visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	x.queries = append(x.queries, q)
	x.calls = len(e(nil, nil))
	return x.res
}

func R07_custom() {
	var built []*recIndex
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		x := &recIndex{name: name}
		for i := 0; i < 2; i++ {
			x.res = append(x.res, visigoth.SearchResult{Document: visigoth.NewDoc(name, name+itoa(len(built))+itoa(i)), Hits: i})
		}
		built = append(built, x)
		return x
	})
	sv.Order(1 + sv.Choose("order", 4))
	a, b := sv.Str("a", 1), sv.Str("b", 1)
	sv.Assert(len(built) == 0, "nothing is built before the first put")
	check := func(x *recIndex, want []visigoth.DocRequest) {
		sv.Assert(len(x.docs) == len(want), "every document is put once into every index its name stands for")
		for i := range want {
			if i < len(x.docs) {
				g := x.docs[i]
				sv.Assert(sv.And(g.ID() == want[i].ID(), g.Raw() == want[i].Raw(), g.Statement() == want[i].Statement(), g.Mime() == want[i].Mime()), "a document is put as it was given")
			}
		}
	}
	c := sv.Str("c", 1)
	d1 := visigoth.NewDocRequestWith("id", "raw"+c, "statement"+c)
	d2 := visigoth.NewDocRequestWithMime("id"+c, "", visigoth.MimeJSON)
	r.Put(a, d1)
	sv.Assert(len(built) == 1 && built[0].name == a, "an index is built with the name of its first put")
	r.Put(b, d2)
	if a == b {
		sv.Assert(len(built) == 1, "an index is built once")
		check(built[0], []visigoth.DocRequest{d1, d2})
		return
	}
	sv.Assert(len(built) == 2 && built[1].name == b, "an index is built with the name of its first put")
	check(built[0], []visigoth.DocRequest{d1})
	check(built[1], []visigoth.DocRequest{d2})
	// an alias of both
	g := "alias"
	r.Alias(g, a)
	r.Alias(g, b)
	d3 := visigoth.NewDocRequestWith(c, "content", "words"+c)
	if sv.Choose("document", 2) == 1 {
		d3 = visigoth.NewDocRequestWithMime(c, "content", visigoth.MimeType(sv.Byte("mime", 0, 255)))
	}
	r.Put(g, d3)
	check(built[0], []visigoth.DocRequest{d1, d3})
	check(built[1], []visigoth.DocRequest{d2, d3})
	e := func([]string, visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		return make(slices.Slice[visigoth.SearchResult], 7)
	}
	q := sv.Str("q", sv.Choose("query", 2))
	got, ok := drain(r, g, q, e)
	sv.Assert(ok, "the search succeeds")
	var want []visigoth.SearchResult
	for _, x := range built {
		sv.Assert(sv.EqStrs(x.queries, []string{q}), "a query is handed on once and unchanged")
		sv.Assert(x.calls == 7, "the engine is handed on")
		want = append(want, x.res...)
	}
	sv.Assert(sameSet(rawsOf(got), rawsOf(want)), "what the indices return is what the search yields")
	got, ok = drain(r, a, q, e)
	sv.Assert(sv.And(ok, sameResults(got, built[0].res)), "what the index returns is what the search yields")
	// renaming keeps the index, dropping forgets it
	n := sv.Str("n", 2)
	sv.Assert(r.Rename(a, n), "renaming succeeds")
	r.Put(n, d1)
	check(built[0], []visigoth.DocRequest{d1, d3, d1})
	r.Put(a, d1)
	sv.Assert(len(built) == 3 && built[2].name == a, "a renamed index leaves its name free")
	check(built[2], []visigoth.DocRequest{d1})
	sv.Assert(r.Drop(n), "dropping succeeds")
	r.Put(n, d2)
	sv.Assert(len(built) == 4 && built[3].name == n, "a dropped index is not used again")
	check(built[3], []visigoth.DocRequest{d2})
	check(built[0], []visigoth.DocRequest{d1, d3, d1})
	r.Put(g, d1)
	check(built[1], []visigoth.DocRequest{d2, d3, d1})
	check(built[0], []visigoth.DocRequest{d1, d3, d1})
}

// ---- P01: the printed form ----

// ints renders positions the way lists of numbers are printed.
func ints(l []int) string {
	s := "["
	for i, n := range l {
		if i > 0 {
			s += " "
		}
		s += itoa(n)
	}
	return s + "]"
}

// printed: the lines that show an index.
func printed(name string, docs [][]string) []string {
	l := []string{"{", "\tname=" + name}
	var seen []string
	for _, d := range docs {
		for _, t := range d {
			if pos(seen, t) < 0 {
				seen = append(seen, t)
				p := refPostings(docs, t)
				l = append(l, "\t[token="+t+",length=("+itoa(len(p))+")]="+ints(p))
			}
		}
	}
	return append(l, "}")
}

func lines(s string) []string { return strings.Split(s, "\n") }

func P01_index() {
	name := sv.StrIn("name", sv.Choose("name length", 3), 'a', 'z')
	ix := visigoth.NewMemoryIndex(name, byteTok{})
	var docs [][]string
	n := sv.Choose("docs", 4)
	left := sv.Bound("tokens", 3, 4)
	for i := 0; i < n; i++ {
		k := sv.Choose("tokens", min(left, 2)+1)
		left -= k
		s := sv.StrIn("t", k, 'a', 'z')
		ix.Put(visigoth.NewDocRequest("d", s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	var got string
	shuffled(func() { got = ix.String() })
	sv.Observe("printed", sameSet(lines(got), printed(name, docs)))
	sv.Assert(sameSet(lines(got), printed(name, docs)), "the printed index shows its name and every token with its positions, once")
	for i := range docs {
		sv.Assert(ix.Document(i).ID() == "d", "printing changes nothing")
	}
	checkIndex(ix, docs, "a")
}

func P01_many() {
	t := sv.StrIn("t", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("many", byteTok{})
	var docs [][]string
	for i := 0; i < sv.Bound("documents", 25, 120); i++ {
		s := "k"
		if i%4 == 0 {
			s = "km" + t
		}
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	sv.Assert(sameSet(lines(ix.String()), printed("many", docs)), "the printed index shows its name and every token with its positions, once")
}

func P01_repo() {
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(byteTok{}))
	var want []string
	n := sv.Choose("indices", 4)
	for i := 0; i < n; i++ {
		name := "i" + itoa(i) + sv.StrIn("name", 1, 'a', 'z')
		s := sv.StrIn("t", i%2+1, 'a', 'z')
		r.Put(name, visigoth.NewDocRequest("d", s))
		want = append(want, printed(name, [][]string{byteTok{}.Tokenize(s)})...)
		if i == 1 {
			r.Alias("alias", name)
		}
	}
	var got string
	shuffled(func() { got = r.String() })
	ls := lines(got)
	sv.Assert(len(ls) > 0 && ls[len(ls)-1] == "", "the printed repository ends with a newline")
	sv.Assert(sameSet(ls[:len(ls)-1], want), "the printed repository shows every index once")
}

// ---- S07: long queries ----

// Queries of many words, with repetitions, through an index and an alias.
func S07_long() {
	t := sv.StrIn("t", 1, 'a', 'z')
	n := []int{9, 33, 65, 140, 520, 1100}[sv.Choose("words", sv.Bound("word counts", 5, 6))]
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, "w"+itoa(i%97))
	}
	ws = append(ws, t, "w1", t+strings.Repeat("largo", 60), t)
	q := strings.Join(ws, " ")
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(wordTok{}))
	r.Put("one", visigoth.NewDocRequest("1", q))
	r.Put("two", visigoth.NewDocRequest("2", q+" more"))
	r.Alias("all", "one")
	name := "one"
	calls, want := 0, 1
	if sv.Choose("alias", 2) == 1 {
		name, want = "all", 2
		r.Alias("all", "two")
	}
	sv.Order(1)
	e := func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		calls++
		sv.Assert(sv.EqStrs(tokens, ws), "the engine receives the analysed query")
		return visigoth.LinearSearch(tokens, in)
	}
	got, ok := drain(r, name, q, e)
	sv.Assert(ok, "the search succeeds")
	sv.Assert(calls == want, "the engine is called once for an index")
	sv.Assert(len(got) == want, "what the engines return is what the search returns")
}

// ---- J04: escapes ----

func hexDigit(name string) (string, int) {
	d := sv.StrIn(name, 1, '0', 'f')
	c := d[0]
	switch {
	case c <= '9':
		return d, int(c - '0')
	case c >= 'a':
		return d, int(c-'a') + 10
	}
	sv.Assume(sv.And(c >= 'A', c <= 'F'))
	return d, int(c-'A') + 10
}

func hex4(name string) (string, int) {
	s, v := "", 0
	for i := 0; i < 4; i++ {
		d, x := hexDigit(name)
		s += d
		v = v*16 + x
	}
	return s, v
}

func checkEscape(in, want string) {
	text := `{"doc":{"id":"a` + in + `z","raw":"` + in + `"},"hits":3}`
	if sv.Choose("alone", 2) == 1 {
		text = `{"hits":3,"doc":{"raw":"` + in + `","id":"a` + in + `z"}}`
	}
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("decoded", text, err == nil, r.Document.ID(), r.Document.Raw())
	sv.Assert(err == nil, "every escape is accepted")
	sv.Assert(sv.And(r.Document.ID() == "a"+want+"z", r.Document.Raw() == want, r.Hits == 3), "an escape stands for its character")
}

// Every character of the basic plane by its number, in any case of digits.
func J04_numbers() {
	s, v := hex4("x")
	sv.Assume(sv.Or(v < 0xD800, v > 0xDFFF))
	checkEscape(`\u`+s, string(rune(v)))
}

// Every pair of surrogates.
func J04_pairs() {
	a, b, c := "d8", "dC", ""
	n, m := 0, 0
	var x, y int
	var s string
	s, x = hexDigit("h")
	a, n = a+s, x
	s, y = hexDigit("h")
	a, n = a+s, n*16+y
	s, x = hexDigit("l")
	b, m = b+s, x
	s, y = hexDigit("l")
	b, m = b+s, m*16+y
	c = `\u` + a + `\u` + b
	checkEscape(c, string(rune(0x10000+n<<10+m)))
}

func J04_simple() {
	k := sv.Choose("escape", 8)
	x := sv.StrIn("x", 1, ' ', '~')
	sv.Assume(x != `"`)
	sv.Assume(x != `\`)
	e := []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[k]
	w := []string{`"`, `\`, `/`, "\b", "\f", "\n", "\r", "\t"}[k]
	checkEscape(x+e+e+x+e, x+w+w+x+w)
}

// Escapes in member names.
func J04_names() {
	name := []string{"doc", "hits", "id", "raw"}[sv.Choose("member", 4)]
	at := sv.Choose("letter", len(name))
	const hex = "0123456789abcdef"
	esc := name[:at] + `\u00` + string(hex[name[at]>>4]) + string(hex[name[at]&15]) + name[at+1:]
	s := sv.StrIn("s", 1, 'a', 'z')
	text := strings.Replace(`{"doc":{"id":"`+s+`","raw":"r"},"hits":3}`, `"`+name+`":`, `"`+esc+`":`, 1)
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("decoded", text, err == nil, r.Document.ID(), r.Document.Raw(), r.Hits)
	sv.Assert(err == nil, "every escape is accepted")
	sv.Assert(sv.And(r.Document.ID() == s, r.Document.Raw() == "r", r.Hits == 3), "an escaped name is the name")
}
