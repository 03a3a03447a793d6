package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// Texts, words, queries and sets of tens of thousands: sizes around the powers
// of two at which buffers, counters and limits tend to lie.

// vast is a size around 2^16, or one of the smaller powers.
func vast(more int) int {
	base := []int{1 << 16, 1 << 12, 1 << 15, 1 << 13, 1 << 14, 1 << 17}[sv.Choose("size", sv.Bound("sizes", 2, 6))]
	return base + more
}

// T01_vast: words at every place of long texts.
func T01_vast() {
	n := vast(50)
	shift := sv.Choose("shift", 11)
	pre, word := "", ""
	switch sv.Choose("words", sv.Bound("kinds of words", 2, 3)) {
	case 0:
		word = "abañdú7Z" // ten bytes, eleven with the space
	case 1:
		word = "abcdefghij"
	case 2:
		word = "世界語x" // ten bytes
	}
	want := []string{}
	if shift > 0 {
		pre = strings.Repeat("p", shift-1) + "."
		if shift > 1 {
			want = append(want, pre[:shift-1])
		}
	}
	k := n / 11
	for i := 0; i < k; i++ {
		want = append(want, word)
	}
	x := sv.StrIn("x", 1, 'a', 'z')
	want = append(want, x+"end")
	s := pre + strings.Repeat(word+" ", k) + x + "end"
	sv.Assert(sv.EqStrs(visigoth.NewKeepAlphanumericTokenizer().Tokenize(s), want), "tokens are the maximal runs of letters and numbers")
}

// T01_vastword: one word as long as that, and what separates words.
func T01_vastword() {
	n := vast([]int{-1, 0, 1, 50}[sv.Choose("more", 4)])
	x := sv.StrIn("x", 1, 'a', 'z')
	unit := []string{"q", "ñ", "世"}[sv.Choose("letter", 3)]
	w := strings.Repeat(unit, n/len(unit)) + x
	var s string
	want := []string{w}
	switch sv.Choose("text", 3) {
	case 0:
		s = w
	case 1:
		s, want = "a "+w+"! b", []string{"a", w, "b"}
	case 2:
		s, want = "a"+strings.Repeat([]string{" ", "¡", "、"}[len(unit)-1], n/len(unit))+x, []string{"a", x}
	}
	sv.Assert(sv.EqStrs(visigoth.NewKeepAlphanumericTokenizer().Tokenize(s), want), "tokens are the maximal runs of letters and numbers")
}

// vastList is many tokens, one of them arbitrary, or one long token.
func vastList() []string {
	x := sv.StrIn("x", 1, 'A', 'z')
	if sv.Bool("one token") {
		return []string{"A", strings.Repeat("Ñq", vast(0)/3) + x + "Z", "de"}
	}
	n := 5*(vast(0)/16) + 3
	l := make([]string, 0, n)
	for i := 0; i < n; i++ {
		l = append(l, []string{"Él", "CASA", "de", "x9"}[i%4])
	}
	l[n-2] = "Z" + x
	return l
}

func T02_vast() {
	l := vastList()
	keep := cloneStrs(l)
	got := visigoth.NewLowerCaseTokenizer().Filter(l)
	sv.Assert(len(got) == len(l), "every token is lower-cased on its own")
	low := map[string]string{"Él": "él", "CASA": "casa", "de": "de", "x9": "x9", "A": "a"}
	for i, t := range got {
		w, ok := low[keep[i]]
		if !ok {
			w = strings.ToLower(keep[i])
		}
		sv.Assert(t == w, "each token is lower-cased on its own")
	}
	sv.Assert(sv.EqStrs(l, keep), "the list given to a filter is left unchanged")
}

func T03_vast() {
	l := vastList()
	keep := cloneStrs(l)
	sw := visigoth.StopWords{"de": {}, "Él": {}}
	want := []string{}
	for _, t := range keep {
		if t != "de" && t != "Él" {
			want = append(want, t)
		}
	}
	sv.Assert(sv.EqStrs(visigoth.NewStopWordsFilter(sw).Filter(l), want), "exactly the tokens outside the stop-word set remain, in order")
	sv.Assert(sv.EqStrs(l, keep), "the list given to a filter is left unchanged")
}

// T03_sets: large stop-word sets of words of many lengths and scripts.
func T03_sets() {
	n := []int{260, 420, 1030, 2050}[sv.Choose("words", sv.Bound("sizes of sets", 3, 4))]
	kind := sv.Choose("kind of words", 3)
	sw := visigoth.StopWords{}
	var ws []string
	add := func(w string) {
		if _, ok := sw[w]; !ok {
			sw[w] = struct{}{}
			ws = append(ws, w)
		}
	}
	switch kind {
	case 0: // of one length, but for some
		for i := 0; i < n; i++ {
			add("w" + itoa(1000+i))
		}
		for i := 0; i < 24; i++ {
			add(strings.Repeat("ñ", i) + "w")
			add(strings.Repeat("世", i) + "z")
			add(strings.Repeat("v", 2*i+7))
		}
	case 1: // of many lengths
		for i := 0; i < n; i++ {
			add(itoa(i) + strings.Repeat("é", i%37) + "q")
		}
	case 2: // starting alike
		for i := 0; i < n; i++ {
			add("prefijo" + itoa(i))
		}
		add("Z" + letters(300))
		add("")
		add("ñ")
	}
	x := sv.StrIn("x", 1, 'a', 'z')
	toks := []string{"y" + x}
	want := []string{"y" + x}
	for _, w := range ws {
		toks = append(toks, w, w+"!", "!"+w)
		want = append(want, w+"!", "!"+w)
	}
	f := visigoth.NewStopWordsFilter(sw)
	sv.Assert(sv.EqStrs(f.Filter(toks), want), "exactly the tokens outside the stop-word set remain, in order")
	sv.Assert(len(sw) == len(ws), "the stop-word set does not change")
}

// T04_vast: long texts through a pipeline.
func T04_vast() {
	n := vast([]int{-1, 0, 1, 300}[sv.Choose("more", 4)])
	x := sv.StrIn("x", 1, 'a', 'z')
	var t visigoth.Tokenizer = wholeTok{}
	text := strings.Repeat("q", n) + x
	want := []string{text}
	switch sv.Choose("tokens", 3) {
	case 1:
		t = chunkTok{100}
		want = chunkTok{100}.Tokenize(text)
	case 2:
		text = strings.Repeat("ab de ", n/6) + x + "end"
		t = visigoth.NewKeepAlphanumericTokenizer()
		want = nil
		for i := 0; i < n/6; i++ {
			want = append(want, "ab")
		}
		want = append(want, x+"end")
	}
	p := visigoth.NewTokenizationPipeline(t, visigoth.NewStopWordsFilter(visigoth.StopWords{"de": {}}))
	sv.Assert(sv.EqStrs(p.Tokenize(text), want), "a pipeline gives the tokens of the whole text, filtered in order")
}

// markFilter shows what it was given and when.
type markFilter struct{ mark string }

func (m markFilter) Filter(l []string) []string {
	r := []string{m.mark + itoa(len(l))}
	for _, t := range l {
		r = append(r, t+m.mark)
	}
	return r
}

// tokFilter is a filter that tokenizes every token.
type tokFilter struct{ t visigoth.Tokenizer }

func (f tokFilter) Filter(l []string) []string {
	var r []string
	for _, t := range l {
		r = append(r, f.t.Tokenize(t)...)
	}
	return r
}

// bothKinds is a tokenizer and a filter.
type bothKinds struct{ markFilter }

func (b bothKinds) Tokenize(s string) []string { return []string{"<" + s + ">", b.mark} }

// T04_nested: pipelines of pipelines.
func T04_nested() {
	x := sv.StrIn("x", 2, 0x20, 0x7e)
	fs := func(label, marks string) (l []visigoth.Filter) {
		for i := 0; i < sv.Choose(label, 3); i++ {
			if i == 1 && sv.Bool("both kinds") {
				l = append(l, bothKinds{markFilter{marks[i : i+1]}})
				continue
			}
			l = append(l, markFilter{marks[i : i+1]})
		}
		return
	}
	apply := func(ts []string, l []visigoth.Filter) []string {
		for _, f := range l {
			ts = f.Filter(ts)
		}
		return ts
	}
	var t visigoth.Tokenizer = chunkTok{2}
	if sv.Bool("another tokenizer") {
		t = bothKinds{markFilter{"t"}}
	}
	text := "ab" + x + "c"
	f1, f2 := fs("filters", "12"), fs("filters around", "34")
	in := visigoth.NewTokenizationPipeline(t, f1...)
	want := apply(t.Tokenize(text), f1)
	var out *visigoth.TokenizationPipeline
	switch sv.Choose("nesting", 3) {
	case 0:
		out = visigoth.NewTokenizationPipeline(in, f2...)
		want = apply(want, f2)
	case 1: // as a filter of another
		out = visigoth.NewTokenizationPipeline(t, append([]visigoth.Filter{tokFilter{in}}, f2...)...)
		var w []string
		for _, s := range t.Tokenize(text) {
			w = append(w, apply(t.Tokenize(s), f1)...)
		}
		want = apply(w, f2)
	case 2: // thrice
		f3 := fs("filters outside", "56")
		out = visigoth.NewTokenizationPipeline(visigoth.NewTokenizationPipeline(in, f2...), f3...)
		want = apply(apply(want, f2), f3)
	}
	for i := 0; i < 2; i++ {
		sv.Assert(sv.EqStrs(out.Tokenize(text), want), "the filters are applied in order, each to the result of the one before")
	}
	sv.Assert(sv.EqStrs(in.Tokenize(text), apply(t.Tokenize(text), f1)), "a pipeline used in another one stays as it is")
}

// T05_vast: long words.
func T05_vast() {
	n := []int{64, 256, 500, 1000, 1024, 2048, 4096}[sv.Choose("letters", sv.Bound("sizes of words", 7, 7))] + sv.Choose("more", 3) - 1
	suf := []string{"ciones", "ándoselo", "s", "mente"}[sv.Choose("ending", 4)]
	fill := []string{"q", "a", "ñ"}[sv.Choose("letter", 3)]
	flag := sv.Bool("stop words")
	w := "canta" + strings.Repeat(fill, n/len(fill)) + "n" + suf
	x := sv.StrIn("x", 1, 'a', 'z')
	checkStem(flag, []string{"gatos", w, x + "s"})
}

// ---- queries of many tokens ----

// vastQuery is an index of documents with z, with m, with both, and a query of
// many z that ends with m or has it inside.
func vastQuery(name string, e visigoth.Engine) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	x := sv.StrIn("x", 1, 'a', 'y')
	for i, s := range []string{"z", "z" + x, x, "", "z" + x + "z"} {
		ix.Put(visigoth.NewDocRequest(itoa(i), s))
	}
	n := []int{255, 256, 1023, 1024, 4095, 4096, 65535, 65536}[sv.Choose("tokens", 8)] + sv.Choose("more", 2)
	q := strings.Repeat("z", n)
	both := sv.Choose("query", 3)
	switch both {
	case 1:
		q += x
	case 2:
		q = q[:n/2] + x + q[n/2:]
	}
	var ids []string
	for _, r := range ix.Search(q, e) {
		ids = append(ids, r.Document.ID())
	}
	if both > 0 {
		sv.Assert(sameSet(ids, []string{"1", "4"}), "a "+name+" search returns the documents that have every token")
	} else {
		sv.Assert(sameSet(ids, []string{"0", "1", "4"}), "a "+name+" search returns the documents that have every token")
	}
}

func S01_vast() { vastQuery("hits", visigoth.HitsSearch) }
func S02_vast() { vastQuery("linear", visigoth.LinearSearch) }

// Queries of many different tokens, in documents that lack one of them.
func manyClauses(name string, e visigoth.Engine) {
	n := []int{64, 100, 128, 256, 1024, 4096}[sv.Choose("tokens", sv.Bound("numbers of tokens", 5, 6))] + sv.Choose("more", 3)
	lack := []int{0, 1, n / 2, n - 2, n - 1}[sv.Choose("lacking", 5)]
	ix := visigoth.NewMemoryIndex("i", chunkTok{5})
	all := ""
	for i := 0; i < n; i++ {
		all += itoa(10000 + i)
	}
	x := sv.StrIn("x", 5, 'a', 'b')
	ix.Put(visigoth.NewDocRequest("lacks", all[:5*lack]+all[5*lack+5:]))
	ix.Put(visigoth.NewDocRequest("has", all))
	ix.Put(visigoth.NewDocRequest("more", x+all))
	ids := func(q string) (ids []string) {
		for _, r := range ix.Search(q, e) {
			ids = append(ids, r.Document.ID())
		}
		return
	}
	sv.Assert(sameSet(ids(all), []string{"has", "more"}), "a "+name+" search returns the documents that have every token")
	sv.Assert(sameSet(ids(x+all), []string{"more"}), "a "+name+" search returns the documents that have every token")
	sv.Assert(sameSet(ids(all+x), []string{"more"}), "a "+name+" search returns the documents that have every token")
}

func S01_clauses() { manyClauses("hits", visigoth.HitsSearch) }
func S02_clauses() { manyClauses("linear", visigoth.LinearSearch) }

// S07_vast: engines get all the tokens of a query.
func S07_vast() {
	n := []int{1023, 1024, 4096, 10000, 65535, 65536}[sv.Choose("tokens", 6)] + sv.Choose("more", 2)
	x := sv.StrIn("x", 1, 'a', 'y')
	size := []int{1, 3}[sv.Choose("bytes of a token", 2)]
	q := strings.Repeat("zyx"[:size], n) + strings.Repeat(x, size)
	var seen []string
	calls := 0
	e := func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		seen = tokens
		calls++
		return slices.Slice[visigoth.SearchResult]{{Document: ix.Document(0), Hits: calls}}
	}
	ix := visigoth.NewMemoryIndex("a", chunkTok{size})
	ix.Put(visigoth.NewDocRequest("d", "x"))
	got := ix.Search(q, e)
	sv.Assert(calls == 1, "the engine is called once for an index")
	sv.Assert(sv.EqStrs(seen, chunkTok{size}.Tokenize(q)), "an engine gets the tokens of the query")
	sv.Assert(len(got) == 1 && got[0].Document.ID() == "d" && got[0].Hits == 1, "what the engine returns is what the search returns")
}

// S07_results: engines that return very many results.
func S07_results() {
	n := []int{0, 255, 1000, 1024, 4097, 10001, 65537}[sv.Choose("results", sv.Bound("numbers of results", 6, 7))]
	x := sv.StrIn("x", 2, 0, 255)
	e := func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		out := make(slices.Slice[visigoth.SearchResult], 0, n)
		for i := 0; i < n; i++ {
			out = append(out, visigoth.SearchResult{Document: visigoth.NewDoc(x, "c"), Hits: i})
		}
		return out
	}
	ix := visigoth.NewMemoryIndex("a", byteTok{})
	got := ix.Search("q", e)
	sv.Assert(len(got) == n, "what the engine returns is what the search returns")
	for i, r := range got {
		if i%97 == 0 || i > n-3 {
			sv.Assert(r.Hits == i, "what the engine returns is what the search returns")
		}
	}
	if n > 0 {
		sv.Assert(got[n-1].Document.ID() == x, "what the engine returns is what the search returns")
	}
}

// ---- long contents and printed forms ----

// X03_vast: contents, identifiers and statements of up to some MiB.
func X03_vast() {
	n := []int{1 << 16, 1 << 20, 1 << 12, 1 << 17, 1 << 21}[sv.Choose("bytes", sv.Bound("sizes of contents", 3, 5))] + sv.Choose("more", 3) - 1
	x := sv.Str("x", 1)
	long := strings.Repeat("q", n) + x
	id, content, st := "d", "c", "s"
	var req visigoth.DocRequest
	switch sv.Choose("long", 5) {
	case 0:
		content, st = long, long
		req = visigoth.NewDocRequest(id, content)
	case 1:
		content = long
		req = visigoth.NewDocRequestWith(id, content, st)
	case 2:
		st = long
		req = visigoth.NewDocRequestWith(id, content, st)
	case 3:
		id = long
		req = visigoth.NewDocRequestWith(id, content, st)
	case 4:
		content = long
		req = visigoth.NewDocRequestWithMime(id, content, visigoth.MimeType(sv.Int("mime", 0, 255)))
		st = req.Statement()
	}
	sv.Assert(sv.And(req.ID() == id, req.Raw() == content, req.Statement() == st), "a request carries what it was made from")
	ix := visigoth.NewMemoryIndex("i", wholeTok{})
	ix.Put(req)
	d := ix.Document(0)
	sv.Assert(sv.And(d.ID() == id, d.Raw() == content), "a document keeps its identifier and content")
	for _, e := range engines[:2] {
		rs := ix.Search(st, e.e)
		sv.Assert(len(rs) == 1, "the statement decides which searches match")
		g := rs[0].GetDoc()
		sv.Assert(sv.And(g.ID() == id, g.Raw() == content), "a result carries the document as it was put")
	}
	c := visigoth.NewDoc(id, content)
	sv.Assert(sv.And(c.ID() == id, c.Raw() == content), "a document keeps its identifier and content")
}

// P01_vast: printed forms of tens of thousands of bytes.
func P01_vast() {
	n := vast(0)
	x := sv.StrIn("x", 1, 'a', 's')
	name := "i"
	var docs [][]string
	switch sv.Choose("long", 4) {
	case 0: // many tokens
		var d []string
		for i := 0; i < n/25; i++ {
			d = append(d, "t"+itoa(i))
		}
		docs = [][]string{d, {x}}
	case 1: // a long token
		docs = [][]string{{letters(n + 30)}, {x}}
	case 2: // many positions
		for i := 0; i < min(n/5, 2000); i++ {
			docs = append(docs, []string{"t"})
		}
		docs = append(docs, []string{x})
	case 3: // a long name
		name = letters(n)
		docs = [][]string{{x}, {"z"}}
	}
	ix := visigoth.NewMemoryIndex(name, wordTok{})
	for _, d := range docs {
		ix.Put(visigoth.NewDocRequest("d", strings.Join(d, " ")))
	}
	sv.Order(1)
	got := lines(ix.String())
	want := map[string]bool{}
	at := map[string][]int{}
	var toks []string
	for i, d := range docs {
		for _, t := range d {
			if t != x {
				if at[t] == nil {
					toks = append(toks, t)
				}
				at[t] = append(at[t], i)
			}
		}
	}
	last := len(docs) - 1
	if name != "i" {
		last = 0
	}
	for _, t := range toks {
		p := at[t]
		want["\t[token="+t+",length=("+itoa(len(p))+")]="+ints(p)] = true
	}
	want["{"], want["}"], want["\tname="+name] = true, true, true
	xs := []int{last}
	xline := "\t[token=" + x + ",length=(" + itoa(len(xs)) + ")]=" + ints(xs)
	seen := 0
	for _, l := range got {
		if want[l] {
			delete(want, l)
			continue
		}
		sv.Assert(l == xline, "the printed index shows its name and every token with its positions, once")
		seen++
	}
	sv.Assert(len(want) == 0 && seen == 1, "the printed index shows its name and every token with its positions, once")
}

// ---- C01: large states ----

// C01_large: every operation returns however large what it works on is.
func C01_large() {
	sv.Order(1)
	sv.Preempt(0)
	n := []int{17, 33, 65, 100, 129, 257, 513, 1025}[sv.Choose("indices", sv.Bound("numbers of indices", 8, 8))]
	r := newRepo()
	for i := 0; i < n; i++ {
		r.Put("x"+itoa(i), visigoth.NewDocRequest("d", "da"))
		sv.Assert(r.Alias("al", "x"+itoa(i)), "an alias is reported as added exactly when it is")
	}
	switch sv.Choose("operation", 6) {
	case 0:
		got, ok := drain(r, "al", "d", visigoth.HitsSearch)
		sv.Assert(ok && len(got) == n, "reading a stream ends")
	case 1: // left unread
		r.Search("al", "d", visigoth.LinearSearch)
		r.Search("x0", "d", visigoth.LinearSearch)
	case 2: // read in part
		s, err := r.Search("al", "d", visigoth.LinearSearch)
		sv.Assert(err == nil && s.Next(), "a search gives results")
		s.Close()
	case 3:
		r.Put("al", visigoth.NewDocRequest("e", "e"))
	case 4:
		r.UnAlias("al", "")
	case 5:
		for i := 0; i < n; i++ {
			r.Rename("x"+itoa(i), "y"+itoa(i))
			r.Drop("y" + itoa(i))
		}
	}
	sv.Go(func() {
		drain(r, "al", "d", visigoth.NoopAllSearch)
		r.Put("x0", visigoth.NewDocRequest("d", "da"))
	})
	sv.Go(func() {
		_ = r.String()
		r.List()
		r.ListAliases()
		r.Rename("x0", "x1")
		r.Drop("x1")
	})
	sv.Join()
	r.UnAlias("al", "")
	r.Put("fr", visigoth.NewDocRequest("d", "x"))
	sv.Assert(r.Has("fr"), "later operations return")
}

// ---- R06: many results not yet read ----

// R06_unread: streams that are read after further searches and changes.
func R06_unread() {
	sv.Order(1)
	n := []int{1, 9, 33, 65, 130, 260, 520, 1100}[sv.Choose("documents", sv.Bound("numbers of documents", 8, 8))]
	k := 1 + sv.Choose("indices", 3)
	r := newRepo()
	var raws [3][]string
	var all []string
	for i := 0; i < n; i++ {
		raw := "d" + itoa(i)
		r.Put("a"+itoa(i%k), visigoth.NewDocRequest("1", raw))
		raws[i%k] = append(raws[i%k], raw)
		all = append(all, raw)
	}
	for i := 0; i < k && i < n; i++ {
		r.Alias("z", "a"+itoa(i))
		r.Alias("y", "a"+itoa(i))
	}
	names := []string{"z", "a0", "y"}
	want := [][]string{all, raws[0], all}
	type stream interface {
		Next() bool
		Data() visigoth.SearchResult
	}
	var ss [3]stream
	first := sv.Choose("first", 2)
	for i, j := range []int{first, 1 - first, 2} {
		s, err := r.Search(names[j], "d", visigoth.NoopAllSearch)
		sv.Assert(err == nil, "the search succeeds")
		ss[i] = s
		want[i] = [][]string{all, raws[0], all}[j]
	}
	started := sv.Bool("started")
	var got [3][]string
	if started {
		sv.Assert(ss[0].Next(), "a stream gives the results of its search")
		got[0] = append(got[0], ss[0].Data().Document.Raw())
	}
	switch sv.Choose("then", 6) {
	case 0:
		r.Search("z", "d1", visigoth.HitsSearch)
		r.Search("a0", "d1", visigoth.LinearSearch)
	case 1:
		r.Put("z", visigoth.NewDocRequest("2", "e"))
		r.Search("z", "e", visigoth.NoopAllSearch)
	case 2:
		r.UnAlias("z", "")
		r.UnAlias("y", "")
		r.Put("b", visigoth.NewDocRequest("2", "e"))
		r.Alias("z", "b")
		r.Search("z", "e", visigoth.NoopAllSearch)
	case 3:
		r.Rename("a0", "b")
		r.Put("a0", visigoth.NewDocRequest("2", "e"))
		r.Search("a0", "e", visigoth.HitsSearch)
	case 4:
		for i := 0; i < k; i++ {
			r.Drop("a" + itoa(i))
		}
		r.Put("a0", visigoth.NewDocRequest("2", "e"))
		r.Search("a0", "", visigoth.NoopAllSearch)
	case 5:
		for i := 0; i < 40; i++ {
			r.Search("z", "d"+itoa(i), visigoth.NoopAllSearch)
			r.Search("a0", "d"+itoa(i), visigoth.HitsSearch)
		}
	}
	for more := true; more; {
		more = false
		for i := range ss {
			if len(got[i]) <= n && ss[i].Next() {
				got[i] = append(got[i], ss[i].Data().Document.Raw())
				more = true
			}
		}
	}
	for i := range ss {
		sv.Assert(sameLarge(got[i], want[i]), "a stream gives the results of its search, whatever happens later")
	}
}
