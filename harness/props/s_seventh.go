package props

import (
	"strings"

	"github.com/sonirico/vago/slices"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// Sizes and counts beyond the limits that a 16-bit number, a page, a pool or a
// buffer would set, with arbitrary parts in them.

var limits = []int{1000, 1024, 4096, 5000, 10000}

func someLimit(name string) int {
	return limits[sv.Choose(name, sv.Bound("sizes", 5, 5))] + 1 + sv.Choose("over", 2)
}

// fill is a text of n different words.
func fill(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("w" + itoa(i) + " ")
	}
	return b.String()
}

// ---- X01 ----

// A document of thousands of tokens with arbitrary ones at the end.
func X01_giantdoc() {
	n := someLimit("tokens")
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	ix.Put(visigoth.NewDocRequest("1", "k w0"))
	ix.Put(visigoth.NewDocRequestWith("2", "", fill(n)+"k "+x+" w1 "+x))
	ix.Put(visigoth.NewDocRequest("3", x))
	k := []int{0, 1}
	if x == "k" {
		k = []int{0, 1, 2}
	}
	sv.Assert(sv.EqInts(ix.Indexed("k"), k), "postings are the documents with the token")
	sv.Assert(sv.EqInts(ix.Indexed(x), k) || x != "k" && sv.EqInts(ix.Indexed(x), []int{1, 2}), "postings are the documents with the token")
	sv.Assert(sv.EqInts(ix.Indexed("w0"), []int{0, 1}), "postings are the documents with the token")
	for _, i := range []int{1, n / 2, n - 2, n - 1} {
		sv.Assert(sv.EqInts(ix.Indexed("w"+itoa(i)), []int{1}), "postings are the documents with the token")
	}
	sv.Assert(len(ix.Indexed("w"+itoa(n))) == 0, "postings are the documents with the token")
}

// More documents than a 16-bit number counts.
func bigIndex() (*visigoth.MemoryIndex, string, map[string][]int) {
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := 65536 + 40
	want := map[string][]int{}
	empty := visigoth.NewDocRequest("e", "")
	for i := 0; i < n; i++ {
		s := ""
		switch {
		case i%8192 == 5:
			s = "K"
		case i == 65536 || i == 0:
			s = "M"
		case i == 65535 || i == 32768:
			s = "N"
		case i == 65540:
			s = "K" + x
		case i == 4:
			s = "L" + x
		}
		if s == "" {
			ix.Put(empty)
			continue
		}
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
		for _, t := range (byteTok{}).Tokenize(s) {
			want[t] = append(want[t], i)
		}
	}
	return ix, x, want
}

func X01_giant() {
	ix, x, want := bigIndex()
	sv.Assert(ix.Len() == 65536+40, "the index holds one document per put")
	for _, t := range []string{"K", "L", "M", "N", x} {
		sv.Assert(sv.EqInts(ix.Indexed(t), want[t]), "postings are the documents with the token")
		for _, p := range want[t] {
			sv.Assert(ix.Document(p).ID() == "d"+itoa(p), "documents are held in put order")
		}
	}
}

func giantSearch(e visigoth.Engine) {
	ix, x, want := bigIndex()
	for _, q := range []string{"K", "M", "N", "K" + x, "L" + x, "KM", "LK", "MN"} {
		var docs []int
		for _, p := range want[q[:1]] {
			in := true
			for _, t := range (byteTok{}).Tokenize(q) {
				in = in && pos2(want[t], p)
			}
			if in {
				docs = append(docs, p)
			}
		}
		rs := ix.Search(q, e)
		sv.Assert(len(rs) == len(docs), "exactly the documents with every query token are returned")
		for _, p := range docs {
			sv.Assert(countStr(idsOf(rs), "d"+itoa(p)) == 1, "exactly the documents with every query token are returned")
		}
	}
}

func pos2(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func S01_giant() { giantSearch(visigoth.HitsSearch) }
func S02_giant() { giantSearch(visigoth.LinearSearch) }

// ---- S03, S04, S07, R02: many results ----

// farIndex has documents at positions that are far apart.
type farIndex struct {
	n    int
	post map[string][]int
}

func (f *farIndex) Len() int                    { return f.n }
func (f *farIndex) Indexed(k string) []int      { return cloneInts(f.post[k]) }
func (f *farIndex) Document(i int) visigoth.Doc { return visigoth.NewDoc("d", "r") }

func S04_giant() {
	n := []int{10001, 65537}[sv.Choose("documents", 2)]
	ix := &farIndex{n: n}
	rs := visigoth.NoopAllSearch([]string{sv.Str("q", 1)}, ix)
	sv.Assert(len(rs) == n, "every document is returned once")
	sv.Assert(len(visigoth.NoopZeroSearch([]string{sv.Str("q", 1)}, ix)) == 0, "the empty engine returns nothing")
}

func farResults(n int, x string) slices.Slice[visigoth.SearchResult] {
	var r slices.Slice[visigoth.SearchResult]
	for i := 0; i < n; i++ {
		id := "d" + itoa(i%100)
		if i == n-1 {
			id = x
		}
		r = append(r, visigoth.SearchResult{Document: visigoth.Doc{Name: id, Content: "c"}, Hits: i})
	}
	return r
}

func sameFar(got []visigoth.SearchResult, n int, x string) bool {
	if len(got) != n {
		return false
	}
	bad := 0
	for i := 0; i < n-1; i++ {
		if got[i].Hits != i {
			bad++
		}
	}
	return bad == 0 && sv.And(got[n-1].Document.Name == x, got[n-1].Hits == n-1)
}

func S07_giant() {
	n := someLimit("results")
	x := sv.Str("x", 1)
	e := func([]string, visigoth.Indexer) slices.Slice[visigoth.SearchResult] { return farResults(n, x) }
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	ix.Put(visigoth.NewDocRequest("1", "a"))
	sv.Assert(sameFar(ix.Search("a", e), n, x), "what the engine returns is what the search returns")
	r := newRepo()
	r.Put("a", visigoth.NewDocRequest("1", "a"))
	s, err := r.Search("a", "q", e)
	sv.Assert(err == nil, "the search succeeds")
	var got []visigoth.SearchResult
	for s.Next() {
		got = append(got, s.Data())
	}
	sv.Assert(sameFar(got, n, x), "a search yields exactly what the engine returned")
}

// Thousands of results of one index and of several under an alias.
func R02_giant() {
	sv.Order(1)
	n := someLimit("results")
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index { return farOne{name, n} })
	k := 1 + sv.Choose("indices", 3)
	for i := 0; i < k; i++ {
		r.Put("i"+itoa(i), visigoth.NewDocRequest("", ""))
		r.Alias("all", "i"+itoa(i))
	}
	s, err := r.Search("all", "q", visigoth.HitsSearch)
	sv.Assert(err == nil, "a search succeeds exactly when the name stands for something")
	seen := map[string]int{}
	twice := 0
	for s.Next() {
		d := s.Data()
		if seen[d.Document.Name] != d.Hits {
			twice++
		}
		seen[d.Document.Name]++
	}
	sv.Assert(twice == 0, "every result is returned exactly once")
	for i := 0; i < k; i++ {
		sv.Assert(seen["i"+itoa(i)] == n, "every result is returned exactly once")
	}
}

type farOne struct {
	name string
	n    int
}

func (f farOne) Put(visigoth.DocRequest) visigoth.Index { return f }
func (f farOne) Search(string, visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	r := make(slices.Slice[visigoth.SearchResult], f.n)
	for i := range r {
		r[i] = visigoth.SearchResult{Document: visigoth.Doc{Name: f.name}, Hits: i}
	}
	return r
}

// ---- T01..T06: words and lists beyond any reasonable size ----

// Tokenizers with many predicates.
func T01_predicates() {
	n := []int{4, 8, 9, 16, 17, 33, 65}[sv.Choose("predicates", 7)]
	x := sv.Rune("x", 0, 0x10ffff)
	var fns []func(rune) bool
	accepted := false
	for i := 0; i < n; i++ {
		c := rune('A' + i)
		fns = append(fns, func(r rune) bool { return r == c })
		accepted = sv.Or(accepted, x == c)
	}
	last := string(rune('A' + n - 1))
	tk := newClean(fns)
	sv.Assert(sv.EqStrs(tk.Tokenize(" "+last+" "+last+"A"), []string{last, last + "A"}), "a character is kept when a predicate accepts it")
	got := tk.Tokenize("A" + string(x) + "A")
	if accepted {
		sv.Assert(sv.EqStrs(got, []string{"A" + string(x) + "A"}), "a character is kept when a predicate accepts it")
	} else {
		sv.Assert(sv.EqStrs(got, []string{"A", "A"}), "a character is left out when no predicate accepts it")
	}
}

func newClean(fns []func(rune) bool) visigoth.CleanTokenizer {
	switch len(fns) {
	case 4:
		return visigoth.NewCleanTokenizer(fns[0], fns[1], fns[2], fns[3])
	case 8:
		return visigoth.NewCleanTokenizer(fns[0], fns[1], fns[2], fns[3], fns[4], fns[5], fns[6], fns[7])
	}
	// the type of the parameters has no exported name
	return cleanOf(visigoth.NewCleanTokenizer, fns)
}

func cleanOf[F ~func(rune) bool](f func(...F) visigoth.CleanTokenizer, fns []func(rune) bool) visigoth.CleanTokenizer {
	var l []F
	for _, fn := range fns {
		l = append(l, F(fn))
	}
	return f(l...)
}

// Long words of one kind of letters, followed by arbitrary ones.
func T06_giant() {
	n := []int{60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000}[sv.Choose("letters", 13)]
	w := strings.Repeat([]string{"b", "a", "ñ"}[sv.Choose("kind", 3)], n)
	if sv.Choose("start", 2) == 1 {
		w = "z" + w
	}
	checkRegions(w + sv.StrIn("x", 2, 'a', 'z') + "n" + sv.StrIn("y", 1, 'a', 'z'))
}

// ---- X03: long contents ----

func X03_giant() {
	n := []int{1 << 12, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 16, 70000}[sv.Choose("content bytes", 6)]
	x, y := sv.Str("x", 1), sv.Str("y", 1)
	raw := strings.Repeat("contenido ", 7001)[:n]
	raw = raw[:n/2] + x + raw[n/2:] + y
	id := "id" + y
	if sv.Choose("identifier", 2) == 1 {
		id = strings.Repeat("i", 300) + x
	}
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	ix.Put(visigoth.NewDocRequestWith(id, raw, "ab"))
	ix.Put(visigoth.NewDocRequestWith("2", "raw", "b"))
	for _, e := range []visigoth.Engine{visigoth.HitsSearch, visigoth.LinearSearch} {
		rs := ix.Search("a", e)
		sv.Assert(len(rs) == 1, "the statement decides which searches match")
		sv.Assert(sv.And(rs[0].Document.ID() == id, rs[0].Document.Raw() == raw), "a document is returned exactly as it was put")
	}
}

// ---- E01 ----

func E01_giant() {
	n := []int{500, 1000, 1024, 4096, 5000, 20000}[sv.Choose("length", 6)]
	base := strings.Repeat("identificador/", 1500)[:n]
	at := []int{0, 1, n / 4, n / 2, n - n/4, n - 1}[sv.Choose("place", 6)]
	x, y := sv.Str("x", 1), sv.Str("y", 1)
	sv.Assume(x != y)
	a, b := visigoth.NewDoc(base[:at]+x+base[at:], ""), visigoth.NewDoc(base[:at]+y+base[at:], "")
	sv.Assert(a.Hash() != b.Hash(), "different identifiers have different hash keys")
}

// ---- J01, J02 ----

func J01_giant() {
	n := []int{4096, 1<<15 - 1, 1 << 15, 1<<16 - 2, 1 << 16}[sv.Choose("content bytes", 5)]
	x, y := sv.StrIn("x", 1, 0, 0x7f), sv.StrIn("y", 1, 0, 0x7f)
	raw := strings.Repeat("contenido ", 6600)[:n]
	want := visigoth.SearchResult{Document: visigoth.NewDoc("id", raw[:n-1]+x+raw[n-1:]+y), Hits: 7}
	if sv.Choose("swap", 2) == 1 {
		want.Document.Name, want.Document.Content = want.Document.Content, "id"
	}
	b, err := want.MarshalJSON()
	sv.Assert(err == nil, "encoding succeeds")
	var got visigoth.SearchResult
	sv.Assert(got.UnmarshalJSON(b) == nil, "decoding an encoded result succeeds")
	sv.Assert(sv.And(got.Document.Name == want.Document.Name, got.Document.Content == want.Document.Content, got.Hits == 7), "decoding gives back what was encoded")
}

func J02_deep() {
	n := []int{10, 16, 33, 65, 129, 257, 1001}[sv.Choose("levels", 7)]
	x := sv.StrIn("x", 1, 'a', 'z')
	var v string
	switch sv.Choose("kind", 3) {
	case 0:
		v = strings.Repeat("[", n) + strings.Repeat("]", n)
	case 1:
		v = strings.Repeat(`{"k":`, n) + `"` + x + `"` + strings.Repeat("}", n)
	case 2:
		v = strings.Repeat(`[{"doc":`, n) + "1" + strings.Repeat("},2]", n)
	}
	in := []string{`{"hits":3,"` + x + `x":` + v + `,"doc":{"id":"i","raw":"r"}}`, `{"hits":3,"doc":{"` + x + `x":` + v + `,"id":"i","raw":"r"}}`}[sv.Choose("place", 2)]
	var got visigoth.SearchResult
	sv.Assert(got.UnmarshalJSON([]byte(in)) == nil, "unknown members are ignored")
	sv.Assert(sv.And(got.Hits == 3, got.Document.Name == "i", got.Document.Content == "r"), "unknown members are ignored")
}

// ---- P01 ----

// Long names and tokens, token lists with arbitrary places.
func P01_long() {
	n := []int{20, 33, 49, 65, 101, 129, 257}[sv.Choose("letters", 7)]
	x := sv.StrIn("x", 1, 'a', 'z')
	w := strings.Repeat("palabra", 40)[:n] + x
	v := strings.Repeat("palabra", 40)[:n] + "9"
	ix := visigoth.NewMemoryIndex("n"+w, wordTok{})
	ix.Put(visigoth.NewDocRequest("1", w))
	ix.Put(visigoth.NewDocRequest("2", v+" "+w))
	s := ix.String()
	sv.Assert(strings.Contains(s, "n"+w), "the printed index shows its name")
	sv.Assert(countSub(s, v) >= 1, "every token is shown")
	sv.Assert(countSub(s, w) >= 2, "every token is shown")
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(wordTok{}))
	r.Put("n"+w, visigoth.NewDocRequest("1", w))
	r.Put("n"+v, visigoth.NewDocRequest("1", w))
	p := r.String()
	sv.Assert(countSub(p, "n"+w) == 1, "each index is shown once")
	sv.Assert(countSub(p, "n"+v) == 1, "each index is shown once")
}

func countSub(s, sub string) int {
	n := 0
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			n++
		}
	}
	return n
}

// ---- S01, S02: the same question to several indices in turn ----

func turns(e visigoth.Engine) {
	a, b := visigoth.NewMemoryIndex("i", byteTok{}), visigoth.NewMemoryIndex("i", byteTok{})
	x, y := sv.StrIn("x", 1, 'a', 'c'), sv.StrIn("y", 1, 'a', 'c')
	q := sv.StrIn("q", 1, 'a', 'c')
	same := visigoth.NewDocRequest("1", "abc")
	n := sv.Choose("before", 2)
	for _, ix := range []*visigoth.MemoryIndex{a, b} {
		for i := 0; i < n; i++ {
			ix.Put(same)
		}
	}
	a.Put(visigoth.NewDocRequestWith("2", "r", x))
	b.Put(visigoth.NewDocRequestWith("2", "r", y))
	for _, ix := range []*visigoth.MemoryIndex{a, b} {
		for i := 0; i < n; i++ {
			ix.Put(same)
		}
	}
	ask := func(ix *visigoth.MemoryIndex, t string) {
		want := 2 * n
		if q == t {
			want++
		}
		sv.Assert(len(ix.Search(q, e)) == want, "exactly the documents with every query token are returned")
	}
	ask(a, x)
	ask(b, y)
	ask(a, x)
	a.Put(visigoth.NewDocRequestWith("3", "r", "z"))
	b.Put(visigoth.NewDocRequestWith("3", "r", "z"))
	ask(b, y)
	ask(a, x)
	sv.Assert(len(a.Search("z", e)) == 1, "exactly the documents with every query token are returned")
	sv.Assert(len(b.Search("z", e)) == 1, "exactly the documents with every query token are returned")
}

func S01_turns() { turns(visigoth.HitsSearch) }
func S02_turns() { turns(visigoth.LinearSearch) }

// ---- R01..R05, C01: one operation many times ----

// again repeats one kind of operation, with the state looked at now and then.
func again(last ...string) {
	sv.Order(1)
	r, m := newRepo(), &model{}
	pool := []string{"a", "b", "c", "z", "y", "_all", ""}
	put := func(n string) {
		d := mdoc{"d" + n, "raw" + n}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	alias := func(a, i string) {
		sv.Assert(r.Alias(a, i) == m.addAlias(a, i), "an alias is reported as added exactly when it is")
	}
	put("a")
	put("c")
	for _, a := range []string{"z", "_all", "a"} {
		alias(a, "a")
	}
	alias("y", "c")
	alias("y", "a")
	kind := sv.Choose("operation", 8)
	n := sv.Bound("repetitions", 300, 1100)
	for k := 0; k < n; k++ {
		switch kind {
		case 0: // create and drop
			put("b")
			sv.Assert(r.Drop("b") == m.drop("b"), "dropping succeeds exactly when the index exists")
		case 1: // associate and remove
			alias("z", "c")
			got := r.UnAlias("z", "c")
			want, _ := m.unAlias("z", "c")
			sv.Assert(got == want, "removing reports whether the alias existed")
		case 2: // whole aliases
			alias("w", "c")
			got := r.UnAlias("w", "")
			want, _ := m.unAlias("w", "")
			sv.Assert(got == want, "removing reports whether the alias existed")
		case 3: // there and back
			sv.Assert(r.Rename("a", "b") == m.rename("a", "b"), "renaming succeeds exactly when the index exists")
			sv.Assert(r.Rename("b", "a") == m.rename("b", "a"), "renaming succeeds exactly when the index exists")
		case 4: // what fails
			sv.Assert(sv.Not(r.Rename("no", "a")), "renaming succeeds exactly when the index exists")
			sv.Assert(sv.Not(r.Drop("no")), "dropping succeeds exactly when the index exists")
			sv.Assert(sv.Not(r.Alias("z", "no")), "an alias is reported as added exactly when it is")
			_, err := r.Search("no", "d", visigoth.HitsSearch)
			sv.Assert(err != nil, "a search succeeds exactly when the name stands for something")
		case 5: // searches
			_, err := r.Search("a", "raw", visigoth.HitsSearch)
			sv.Assert(err == nil, "a search succeeds exactly when the name stands for something")
			if k%8 == 0 {
				_, err = r.Search("y", "raw", visigoth.LinearSearch)
				sv.Assert(err == nil, "a search succeeds exactly when the name stands for something")
			}
		case 6: // listings
			sv.Assert(len(r.List()) == 2, "exactly the existing indices are listed, each once")
			sv.Assert(len(r.ListAliases().Aliases) == 4, "exactly the existing aliases are listed, each once")
			sv.Assert(r.Has("a") && r.HasAlias("z") && !r.Has("no"), "an index is reported exactly when it exists")
		case 7: // dropped under its aliases
			put("b")
			alias("y", "b")
			alias("x", "b")
			sv.Assert(r.Drop("b") == m.drop("b"), "dropping succeeds exactly when the index exists")
		}
		if k&(k+1) == 0 {
			checkListings(r, m)
		}
	}
	checkListings(r, m)
	step(r, m, pool, 999, last)
	checkState(r, m, pool...)
}

func R01_again() { again("put") }
func R02_again() { again("search") }
func R03_again() { again("alias", "unalias", "clear") }
func R04_again() { again("rename") }
func R05_again() { again("drop") }
func C01_again() { again("put", "search", "alias", "unalias", "clear", "rename", "drop") }

// Puts by the hundred into one index and under an alias.
func R01_hundreds() {
	sv.Order(1)
	r, m := newRepo(), &model{}
	x := sv.StrIn("x", 1, 'a', 'c')
	for i := 0; i < sv.Bound("puts", 600, 1500); i++ {
		n := []string{"a", "b", "z"}[i%3]
		if i == 300 {
			n = x
		}
		d := mdoc{"d", itoa(i)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
		if i == 1 {
			sv.Assert(r.Alias("z", "a") == m.addAlias("z", "a"), "an alias is reported as added exactly when it is")
			sv.Assert(r.Alias("z", "b") == m.addAlias("z", "b"), "an alias is reported as added exactly when it is")
		}
	}
	for _, n := range []string{"a", "b", "c"} {
		want, ok := m.raws(n)
		got, gok := drain(r, n, "", visigoth.NoopAllSearch)
		sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
		sv.Assert(sv.EqStrs(rawsOf(got), want), "an index holds exactly its documents, in put order")
	}
}
