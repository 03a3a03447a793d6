package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// Failures of one part of the repository that show in a property anchored at
// another one.

// Whatever happens, aliases hold the associations that were made.
func R03_effects() {
	r, m := someState(7)
	o := name("name", 2)
	switch sv.Choose("operation", 4) {
	case 0:
		d := mdoc{"new", "document"}
		shuffled(func() { r.Put(o, visigoth.NewDocRequest(d.id, d.raw)) })
		m.put(o, d)
	case 1:
		shuffled(func() { r.Drop(o) })
		m.drop(o)
	case 2:
		n := sv.Str("new", 1)
		shuffled(func() { r.Rename(o, n) })
		m.rename(o, n)
	case 3:
		sv.Order(1)
		drain(r, o, "d", visigoth.HitsSearch)
		_ = r.String()
		r.List()
	}
	checkAliases(r.ListAliases(), m)
	for _, a := range m.al {
		sv.Assert(r.HasAlias(a.name), "an existing alias is reported as existing")
		for _, to := range a.to {
			sv.Assert(r.Has(to), "every index an alias points at exists")
		}
	}
	sv.Assert(r.HasAlias(o) == (m.alias(o) >= 0), "an alias is reported exactly when it exists")
}

// Streams of several searches that are read in turn.
func R02_streams() {
	r, m := newRepo(), &model{}
	sv.Order(1 + sv.Choose("order", 2))
	for i, n := range []string{"a", "b", "a", "c", "b", "a"} {
		d := mdoc{"d" + itoa(i), "raw" + itoa(i)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	for _, i := range []string{"c", "a"} {
		r.Alias("z", i)
		m.addAlias("z", i)
	}
	names := []string{"a", "b", "z", "a"}
	k := sv.Choose("first", len(names))
	l := sv.Choose("second", len(names))
	x, y := names[k], names[l]
	s, err := r.Search(x, "", visigoth.NoopAllSearch)
	t, terr := r.Search(y, "", visigoth.NoopAllSearch)
	sv.Assert(err == nil && terr == nil, "a search succeeds exactly when the name stands for something")
	if sv.Choose("more", 2) == 1 {
		r.Search("c", "r", visigoth.HitsSearch)
		r.Put("a", visigoth.NewDocRequest("later", "later"))
	}
	var got, tgot []string
	more, tmore := true, true
	for n := 0; (more || tmore) && n < 100; n++ {
		if more = more && s.Next(); more {
			got = append(got, s.Data().Document.Raw())
		}
		if tmore = tmore && t.Next(); tmore {
			tgot = append(tgot, t.Data().Document.Raw())
		}
	}
	sv.Assert(s.Err() == nil && t.Err() == nil, "a stream ends without error")
	want, _ := m.raws(x)
	sv.Assert(sameSet(got, want), "a stream yields every result exactly once")
	want, _ = m.raws(y)
	sv.Assert(sameSet(tgot, want), "a stream yields every result exactly once")
}

func recRepo(results int) (*visigoth.IndexRepo, *[]*recIndex) {
	var built []*recIndex
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		x := &recIndex{name: name}
		for i := 0; i < results; i++ {
			x.res = append(x.res, visigoth.SearchResult{Document: visigoth.NewDoc("d", name+"."+itoa(i)), Hits: i % 3})
		}
		built = append(built, x)
		return x
	})
	return r, &built
}

func sevenEngine([]string, visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
	return make(slices.Slice[visigoth.SearchResult], 7)
}

// sameBag is sameSet for long lists.
func sameBag(got, want []string) bool {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, g := range got {
		n[g]--
		if n[g] < 0 {
			return false
		}
	}
	return len(got) == len(want)
}

// Aliases of many indices, and many results.
func R07_wide() {
	c := sv.Choose("size", 10)
	n := []int{1, 2, 5, 9, 12, 17, 33, 70, 2, 3}[c]
	k := []int{5, 3, 2, 1, 2, 2, 1, 1, 1100, 1400}[c]
	sv.Order(1)
	r, built := recRepo(k)
	var want []string
	d := visigoth.NewDocRequestWith("id", "raw", sv.Str("s", 1))
	for i := 0; i < n; i++ {
		r.Put("i"+itoa(i), d)
		sv.Assert(len(*built) == i+1, "an index is built once")
		r.Alias("z", "i"+itoa(i))
		for _, x := range (*built)[i].res {
			want = append(want, x.Document.Raw())
		}
	}
	sv.Order(1 + sv.Choose("order", 2))
	q := "q" + sv.Str("q", 1)
	e := visigoth.NewDocRequestWithMime("2", "{}", visigoth.MimeJSON)
	switch sv.Choose("document", 3) {
	case 1:
		e = visigoth.NewDocRequestWith("2", "raw", "statement")
	case 2:
		e = visigoth.NewDocRequest("", "text")
	}
	r.Put("z", e)
	s, err := r.Search("z", q, sevenEngine)
	t, terr := r.Search("i0", q, sevenEngine)
	sv.Assert(err == nil && terr == nil, "the search succeeds")
	sv.Assert(len(*built) == n, "an index is built once")
	for i, x := range *built {
		sv.Assert(len(x.docs) == 2, "every document is put once into every index its name stands for")
		if len(x.docs) == 2 {
			sv.Assert(x.docs[0] == d && x.docs[1] == e, "a document is put as it was given")
		}
		qs := []string{q}
		if i == 0 {
			qs = []string{q, q}
		}
		sv.Assert(sv.EqStrs(x.queries, qs), "a query is handed on once and unchanged")
		sv.Assert(x.calls == 7, "the engine is handed on")
	}
	got, tgot := []string{}, []visigoth.SearchResult{}
	for s.Next() {
		got = append(got, s.Data().Document.Raw())
	}
	for t.Next() {
		tgot = append(tgot, t.Data())
	}
	sv.Assert(sameBag(got, want), "what the indices return is what the search yields")
	sv.Assert(sameResults(tgot, (*built)[0].res), "what the index returns is what the search yields")
}

// The same with memory indices and an engine that counts.
func S07_wide() {
	c := sv.Choose("size", 8)
	n := []int{2, 3, 9, 12, 33, 70, 2, 3}[c]
	k := []int{1, 2, 1, 2, 1, 1, 600, 1100}[c]
	sv.Order(1)
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(byteTok{}))
	for i := 0; i < n; i++ {
		r.Put("i"+itoa(i), visigoth.NewDocRequest("d", "i"+itoa(i)))
		r.Alias("z", "i"+itoa(i))
	}
	q := "b" + sv.StrIn("q", 1, 'a', 'z') + "b"
	calls := map[string]int{}
	toks := byteTok{}.Tokenize(q)
	same := sv.Choose("alike", 2) == 1
	order := true
	e := func(tokens []string, in visigoth.Indexer) (res slices.Slice[visigoth.SearchResult]) {
		raw := in.Document(0).Raw()
		calls[raw]++
		sv.Assert(sv.EqStrs(tokens, toks), "the engine receives the analysed query")
		for j := 0; j < k; j++ {
			w := raw
			if same {
				w = "all alike"
			}
			res = append(res, visigoth.SearchResult{Document: visigoth.NewDoc("d", w), Hits: j})
		}
		return
	}
	s, err := r.Search("z", q, e)
	t, terr := r.Search("i1", q, e)
	sv.Assert(err == nil && terr == nil, "the search succeeds")
	total := 0
	next := map[string]int{}
	for s.Next() {
		x := s.Data()
		if !same {
			order = order && next[x.Document.Raw()] == x.Hits
			next[x.Document.Raw()]++
		}
		total++
	}
	sv.Assert(total == n*k, "what the engines return is what the search returns")
	sv.Assert(order, "the results of one index keep the order of the engine")
	for i := 0; i < n; i++ {
		want := 1
		if i == 1 {
			want = 2
		}
		sv.Assert(calls["i"+itoa(i)] == want, "the engine is called once for an index")
	}
	for j := 0; j < k; j++ {
		sv.Assert(t.Next() && t.Data().Hits == j, "what the engine returns is what the search returns")
	}
	sv.Assert(!t.Next(), "what the engine returns is what the search returns")
}

// What one search returned stays as it was, and engines of one function with
// different parameters are different engines.
func S07_again() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	for i := 0; i < 5; i++ {
		ix.Put(visigoth.NewDocRequest(itoa(i), "raw"))
	}
	n := 0
	window := func(from, to int) visigoth.Engine {
		return func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
			n++
			return visigoth.NoopAllSearch(tokens, in)[from:to]
		}
	}
	q := sv.StrIn("q", 1, 'a', 'c')
	a := ix.Search("a", window(0, 2))
	b := ix.Search(q, window(1, 4))
	c := ix.Search("a", window(2, 3))
	d := ix.Search(q, window(1, 4))
	sv.Assert(n == 4, "the engine is called once for every search")
	sv.Assert(sv.EqStrs(idsOf(a), []string{"0", "1"}), "what the engine returns is what the search returns")
	sv.Assert(sv.EqStrs(idsOf(b), []string{"1", "2", "3"}), "what the engine returns is what the search returns")
	sv.Assert(sv.EqStrs(idsOf(c), []string{"2"}), "what the engine returns is what the search returns")
	sv.Assert(sv.EqStrs(idsOf(d), []string{"1", "2", "3"}), "what the engine returns is what the search returns")
}

// linesTok: tokens are lines, as they are: empty ones, blanks and punctuation.
type linesTok struct{}

func (linesTok) Tokenize(s string) []string { return strings.Split(s, "\n") }

// S01 and S02 through an index and its analyser, over collections and texts of
// several shapes.
func whole(e visigoth.Engine, linear bool) {
	kinds := sv.Choose("collection", 5)
	x := sv.StrIn("x", 1, 'a', 'c')
	ix := visigoth.NewMemoryIndex("i", linesTok{})
	var docs [][]string
	put := func(ws ...string) {
		docs = append(docs, ws)
		ix.Put(visigoth.NewDocRequest("d"+itoa(len(docs)%3), strings.Join(ws, "\n")))
	}
	var queries [][]string
	switch kinds {
	case 0: // words that come and go in pairs
		for i := 0; i < 40; i++ {
			put("p"+itoa(i), "q"+itoa(i), "r"+itoa(i/2))
			put("q"+itoa(i/3), "p"+itoa(i), x, "r"+itoa(i))
		}
		for i := 0; i < 40; i += 3 {
			queries = append(queries, []string{"p" + itoa(i), "q" + itoa(i)}, []string{"q" + itoa(i)}, []string{"r" + itoa(i)}, []string{"p" + itoa(i), x})
		}
	case 1: // a long text
		var ws []string
		for i := 0; i < 1500; i++ {
			ws = append(ws, "w"+itoa(i))
		}
		put("w3", "w1400")
		put(ws...)
		put(append([]string{"first"}, append(ws, x+"k")...)...)
		queries = [][]string{{"w3"}, {"w1400"}, {"w1400", "w3"}, {"w1499"}, {x + "k", "w0"}, {"ck", "first"}, {"w1023", "w1024", "w1025"}, ws[:300]}
	case 2: // odd tokens
		put("", "a", " ")
		put("")
		put("a\x00", "a", "\xff")
		put(" ", "a ", " a", "A")
		put("", "", "\xff", "%d", x)
		queries = [][]string{{""}, {"", "a"}, {" "}, {"\xff"}, {"a"}, {"A"}, {"a "}, {"\xff", ""}, {"%d", x}, {"", x}, {"a\x00"}}
	case 3: // repeated words
		put("a", "a", "b")
		put("b", "a", "b", "a")
		put("c", "b")
		queries = [][]string{{"a", "a"}, {"b", "b", "b"}, {x, x, "b"}, {"b", x, "b"}, {x, x, x, x}, {"a", "b", "a", "b"}, {"c", "c", "c", "b"}}
	case 4: // long words
		l := strings.Repeat("l", 5000)
		put(l, l+x)
		put(l+"a", "k")
		put(l[:300], l[:301], l[:4096], l[:4097], "k")
		queries = [][]string{{l}, {l + "a"}, {l + "a", "k"}, {l[:300]}, {l[:301], "k"}, {l[:4096]}, {l[:4097], l[:4096]}, {l[:255]}}
	}
	for _, q := range queries {
		res := ix.Search(strings.Join(q, "\n"), e)
		distinct := true
		for i, w := range q {
			distinct = sv.And(distinct, pos(q[:i], w) < 0)
		}
		want := 0
		for _, ws := range docs {
			all := true
			for _, w := range q {
				all = sv.And(all, has(ws, w))
			}
			want += sv.IteInt(all, 1, 0)
		}
		sv.Assert(len(res) == want, "exactly the documents with all words of the query are returned")
		for _, r := range res {
			sv.Assert(sv.Or(sv.Not(sv.Or(distinct, linear)), r.Hits == len(q)), "the number of hits is the number of query words")
			ws := strings.Split(r.Document.Raw(), "\n")
			if len(ws) < 100 {
				for _, w := range q {
					sv.Assert(has(ws, w), "only documents with all words of the query are returned")
				}
			}
		}
	}
}

func S01_whole() { whole(visigoth.HitsSearch, false) }
func S02_whole() { whole(visigoth.LinearSearch, true) }

// Two indices of one builder that grow in turn.
func X03_two() {
	b := visigoth.NewMemoryIndexBuilder(byteTok{})
	i, j := b("i"), b("j")
	n := []int{2, 9, 40, 140}[sv.Choose("documents", 4)]
	c := sv.Str("c", 2)
	for k := 0; k < n; k++ {
		i.Put(visigoth.NewDocRequestWith("i"+itoa(k), c+"i"+itoa(k), "same"))
		j.Put(visigoth.NewDocRequestWith("j"+itoa(k), "j"+itoa(k)+c, "same"))
		if k == 3 {
			b("k").Put(visigoth.NewDocRequest("k", "k"))
		}
	}
	is, js := i.Search("", visigoth.NoopAllSearch), j.Search("s", visigoth.HitsSearch)
	sv.Assert(len(is) == n && len(js) == n, "a document is stored for every put")
	for k, r := range is {
		sv.Assert(r.Document.ID() == "i"+itoa(k), "the identifier is the one that was put")
		sv.Assert(r.Document.Raw() == c+"i"+itoa(k), "the content is the one that was put")
	}
	for _, r := range js {
		sv.Assert(r.Document.Raw() == r.Document.ID()+c, "the content is the one that was put")
	}
}

// Goroutines that hash at the same time.
func E01_concurrent() {
	x, y := sv.Str("x", 2), sv.Str("y", 2)
	a, b := visigoth.NewDoc(x, "1"), visigoth.NewDoc(y, "2")
	var ha, hb visigoth.HashKey
	done := make(chan bool, 2)
	go func() {
		ha = a.Hash()
		done <- true
	}()
	go func() {
		hb = b.Hash()
		done <- true
	}()
	<-done
	<-done
	sv.Assert(ha == visigoth.NewDoc(x, "").Hash(), "equal identifiers have equal keys")
	sv.Assert(hb == visigoth.NewDoc(y, "3").Hash(), "equal identifiers have equal keys")
	sv.Assert((ha == hb) == (x == y), "keys are equal exactly when identifiers are")
}

// oddFilter returns nil, its own input, or a part of it.
type oddFilter int

func (o oddFilter) Filter(ts []string) (out []string) {
	switch o {
	case 0:
		return nil
	case 1: // nothing left is nil
		for _, t := range ts {
			if t != "x" {
				out = append(out, t)
			}
		}
		return
	case 2:
		return ts
	case 3:
		return ts[:len(ts)/2]
	case 4:
		if len(ts) == 0 {
			return nil
		}
		return ts[1:]
	case 5: // in place
		for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
			ts[i], ts[j] = ts[j], ts[i]
		}
		return ts
	case 6: // something out of nothing
		if len(ts) == 0 {
			return []string{"none"}
		}
		return ts
	}
	return append(ts, "more")
}

type oddTok struct{}

func (oddTok) Tokenize(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Fields(s)
}

func T04_odd() {
	var fs []visigoth.Filter
	n := 1 + sv.Choose("stages", sv.Bound("stages", 3, 4))
	for i := 0; i < n; i++ {
		fs = append(fs, oddFilter(sv.Choose("filter", 8)))
	}
	x := sv.StrIn("x", 1, 'w', 'y')
	text := []string{"", x, "a b x " + x, x + " x", "a " + x + " b a c d e f g"}[sv.Choose("text", 5)]
	want := oddTok{}.Tokenize(text)
	for _, f := range fs {
		want = f.Filter(want)
	}
	p := visigoth.NewTokenizationPipeline(oddTok{}, fs...)
	for i := 0; i < 2; i++ {
		sv.Assert(sv.EqStrs(p.Tokenize(text), want), "the tokenizer's output goes through every filter once, in order")
	}
}
