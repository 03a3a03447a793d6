package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// Strings of many arbitrary bytes, wherever the code only compares and passes
// them on: code that gives some of them a meaning of their own is found by what
// it does with that one, whatever the meaning is.

// chunkTok makes a token of every n bytes.
type chunkTok struct{ n int }

func (c chunkTok) Tokenize(s string) []string {
	var r []string
	for ; len(s) > c.n; s = s[c.n:] {
		r = append(r, s[:c.n])
	}
	if s != "" {
		r = append(r, s)
	}
	return r
}

// ---- T01, T02: shapes of texts ----

// Any sequence of ASCII characters of a certain length.
func T01_ascii() {
	s := sv.StrIn("s", sv.Bound("characters", 7, 8), 0, 127)
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

// Longer ones, of which some characters are known.
func T01_patterns() {
	c := func(l string) string { return sv.StrIn(l, 1, 0x20, 0x7e) }
	a := c("a")
	b := c("b")
	d := c("d")
	s := []string{
		"w" + a + "w" + b + "w" + d + "com", // www.x.com, a@b.c
		"12" + a + "34" + b + "56" + d + "78",
		"http" + a + b + d + "host",
		"A" + a + "B" + b + "C" + d + "D" + a,
		a + "word" + b + "word" + d,
		"12" + a + "345" + b + "678" + d + "90",
		"n" + a + b + d + "o",
		a + a + a + b + b + b + d,
	}[sv.Choose("pattern", 8)]
	checkRuns(s, visigoth.NewKeepAlphanumericTokenizer().Tokenize(s))
}

func T02_ascii() {
	t := sv.StrIn("t", 1+sv.Choose("characters", sv.Bound("characters", 12, 20)), 0, 127)
	got := visigoth.NewLowerCaseTokenizer().Filter([]string{t, "A"})
	sv.Assert(sv.EqStrs(got, []string{refLower(t), "a"}), "each token is lower-cased on its own")
}

// Words of other scripts.
func T02_script() {
	lo := []int{0xC0, 0x370, 0x400, 0x530, 0x10A0, 0x1E00, 0x1F00, 0x2160, 0xFF00, 0x10400}[sv.Choose("script", 10)]
	n := sv.Bound("characters of a script", 3, 4)
	t, want := "", ""
	for i := 0; i < n; i++ {
		r := sv.Rune("r", lo, lo+0x8f)
		t += string(r)
		want += string(sv.Lower(r))
	}
	got := visigoth.NewLowerCaseTokenizer().Filter([]string{t, "A"})
	sv.Assert(sv.EqStrs(got, []string{want, "a"}), "each token is lower-cased on its own")
}

// ---- T03: arbitrary words of some length ----

func T03_any() {
	n := 2 + sv.Choose("token bytes", sv.Bound("token bytes", 6, 9))
	a, b := sv.Str("a", n), sv.Str("b", n)
	w := sv.Str("w", []int{n, n - 1, n + 1, 2*n + 1, 2 * n}[sv.Choose("word", 5)])
	checkStop(visigoth.StopWords{w: {}, "zz": {}}, []string{w, "zz"}, []string{a, b, a, "zz", b, b})
}

// ---- T05: words with something in front ----

func T05_prefix() {
	c := sv.Rune("c", 0, []int{0x7f, 0x24f}[sv.Choose("range", 2)])
	t := string(c) + []string{"casas", "0casas", "-naciones", "CANTANDO", "s"}[sv.Choose("word", 5)]
	checkStem(sv.Bool("stop words"), []string{t, "casas", t})
}

// ---- X01, S01, S02, S04, X03, E01: arbitrary words of some length ----

func anyWords() (*visigoth.MemoryIndex, []stored, []string) {
	n := 1 + sv.Choose("bytes of a word", sv.Bound("bytes of a word", 9, 14))
	a, b := sv.Str("a", n), sv.Str("b", n)
	m := letters(n)
	ix := visigoth.NewMemoryIndex("i", chunkTok{n})
	var docs []stored
	for i, s := range [][]string{{a}, {m, a}, {b, m}, {m}} {
		d := stored{id: itoa(i), raw: "raw" + itoa(i), toks: s}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, strings.Join(s, "")))
		docs = append(docs, d)
	}
	return ix, docs, []string{a, b, m}
}

func X01_any() {
	ix, docs, ws := anyWords()
	var l [][]string
	for _, d := range docs {
		l = append(l, d.toks)
	}
	checkIndex(ix, l, ws...)
}

func searchAny(name string, e visigoth.Engine) {
	ix, docs, ws := anyWords()
	a, b, m := ws[0], ws[1], ws[2]
	for _, q := range [][]string{{a}, {b}, {a, m}, {m, b}, {a, b}} {
		if name == "all" {
			checkNoop(ix, docs, q)
			continue
		}
		checkMatches(name, ix.Search(strings.Join(q, ""), e), docs, q)
	}
}

func S01_any() { searchAny("hits", visigoth.HitsSearch) }
func S02_any() { searchAny("linear", visigoth.LinearSearch) }
func S04_any() { searchAny("all", visigoth.NoopAllSearch) }

// Identifiers, contents and statements of many arbitrary bytes.
func X03_any() {
	n := 1 + sv.Choose("bytes", sv.Bound("bytes", 12, 20))
	id, content, st := sv.Str("id", n), sv.Str("content", n+3), sv.Str("statement", n)
	mime := visigoth.MimeType(sv.Int("mime", 0, 255))
	kind := sv.Choose("kind", 4)
	var req visigoth.DocRequest
	switch kind {
	case 0:
		req, st = visigoth.NewDocRequest(id, content), content
	case 1:
		req = visigoth.NewDocRequestWith(id, content, st)
	case 2:
		req, st = visigoth.NewDocRequestWithMime(id, content, mime), content
	case 3: // text around
		content = "text " + content + " text"
		req, st = visigoth.NewDocRequest(id, content), content
	}
	sv.Assert(sv.And(req.ID() == id, req.Raw() == content, req.Statement() == st), "a request carries what it was made from")
	ix := visigoth.NewMemoryIndex("i", wholeTok{})
	ix.Put(visigoth.NewDocRequest("other", letters(60)))
	ix.Put(req)
	d := ix.Document(1)
	sv.Assert(sv.And(d.ID() == id, d.Raw() == content), "a document keeps its identifier and content")
	for _, e := range engines[:3] {
		rs := ix.Search(st, e.e)
		k := len(rs) - 1
		sv.Assert(k >= 0, "the statement decides which searches match")
		sv.Assert(sv.And(rs[k].Document.ID() == id, rs[k].Document.Raw() == content), "a result carries the document as it was put")
		g, h := rs[k].GetDoc(), rs[k].Doc()
		sv.Assert(sv.And(g.ID() == id, h.ID() == id, g.Raw() == content, h.Raw() == content), "accessors give the document as it was put")
	}
}

// Equal identifiers of many arbitrary bytes, different contents.
func E01_any() {
	n := []int{5, 16, 40}[sv.Choose("bytes", 3)]
	id := sv.Str("id", n)
	a, b := visigoth.NewDoc(id, sv.Str("c", 6)), visigoth.NewDoc(id, "")
	sv.Assert(a.Hash() == b.Hash(), "equal identifiers have equal keys")
}

// E01_sought: identifiers of some more arbitrary bytes. Whether a digest of 64
// bits tells them apart is more than the solver can decide; that a shorter one
// does not it often finds.
func E01_sought() {
	n := []int{3, 4, 5, 6}[sv.Choose("bytes", 4)]
	pre := []string{"", "user-"}[sv.Choose("prefix", 2)]
	a, b := sv.Str("a", n), sv.Str("b", n)
	sv.Assume(a != b)
	sv.Seek(visigoth.NewDoc(pre+a, "x").Hash() != visigoth.NewDoc(pre+b, "x").Hash(), "different identifiers have different hash keys")
}

// ---- S07, R07: what is passed on ----

func S07_any() {
	q := sv.Str("q", 1+sv.Choose("bytes", sv.Bound("bytes", 12, 20)))
	n := []int{1, 5, 30}[sv.Choose("bytes of a token", 3)]
	var seen [][]string
	e := func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		seen = append(seen, cloneStrs(tokens))
		return slices.Slice[visigoth.SearchResult]{{Document: ix.Document(0), Hits: len(seen)}}
	}
	var got []visigoth.SearchResult
	if sv.Bool("through a repository") {
		r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(chunkTok{n}))
		r.Put("a", visigoth.NewDocRequest("d", "x"))
		got, _ = drain(r, "a", q, e)
	} else {
		ix := visigoth.NewMemoryIndex("a", chunkTok{n})
		ix.Put(visigoth.NewDocRequest("d", "x"))
		got = ix.Search(q, e)
	}
	sv.Assert(len(seen) == 1, "the engine is called once for an index")
	sv.Assert(sv.EqStrs(seen[0], chunkTok{n}.Tokenize(q)), "an engine gets the tokens of the query")
	sv.Assert(len(got) == 1 && got[0].Document.ID() == "d" && got[0].Hits == 1, "what the engine returns is what the search returns")
}

// chattyIndex has methods that a repository could take for an invitation.
type chattyIndex struct{ recIndex }

func (x *chattyIndex) Put(d visigoth.DocRequest) visigoth.Index {
	x.recIndex.Put(d)
	return x
}
func (x *chattyIndex) Len() int                                             { return 0 }
func (x *chattyIndex) Size() int                                            { return 0 }
func (x *chattyIndex) Count() int                                           { return 0 }
func (x *chattyIndex) Empty() bool                                          { return true }
func (x *chattyIndex) IsEmpty() bool                                        { return true }
func (x *chattyIndex) Closed() bool                                         { return true }
func (x *chattyIndex) ReadOnly() bool                                       { return true }
func (x *chattyIndex) Ready() bool                                          { return false }
func (x *chattyIndex) Has(string) bool                                      { return true }
func (x *chattyIndex) Contains(string) bool                                 { return true }
func (x *chattyIndex) Indexed(string) []int                                 { return nil }
func (x *chattyIndex) Document(int) visigoth.Doc                            { return visigoth.Doc{} }
func (x *chattyIndex) Name() string                                         { return "other" }
func (x *chattyIndex) String() string                                       { return "" }
func (x *chattyIndex) Error() string                                        { return "none" }
func (x *chattyIndex) Err() error                                           { return nil }
func (x *chattyIndex) Clone() visigoth.Index                                { return &chattyIndex{} }
func (x *chattyIndex) PutAll(...visigoth.DocRequest) visigoth.Index         { return x }
func (x *chattyIndex) PutBatch([]visigoth.DocRequest) visigoth.Index        { return x }
func (x *chattyIndex) SetName(string)                                       {}
func (x *chattyIndex) Rename(string)                                        {}
func (x *chattyIndex) Reset()                                               { x.docs = nil }
func (x *chattyIndex) Clear()                                               { x.docs = nil }
func (x *chattyIndex) Close() error                                         { x.docs, x.res = nil, nil; return nil }
func (x *chattyIndex) Flush() error                                         { return nil }
func (x *chattyIndex) Tokenize(string) []string                             { return nil }
func (x *chattyIndex) Equal(any) bool                                       { return true }
func (x *chattyIndex) Hash() visigoth.HashKey                               { return visigoth.HashKey{} }
func (x *chattyIndex) MarshalJSON() ([]byte, error)                         { return []byte("null"), nil }
func (x *chattyIndex) UnmarshalJSON([]byte) error                           { x.docs = nil; return nil }
func (x *chattyIndex) SearchAll(string) slices.Slice[visigoth.SearchResult] { return nil }

// R07_any: documents and queries of arbitrary bytes, indices of any kind.
func R07_any() {
	n := 1 + sv.Choose("bytes", sv.Bound("bytes", 9, 16))
	id, content, q, name := sv.Str("id", n), sv.Str("content", n), sv.Str("q", n), sv.Str("name", n)
	chatty := sv.Bool("chatty")
	var built []*recIndex
	var names []string
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		names = append(names, name)
		res := slices.Slice[visigoth.SearchResult]{{Document: visigoth.NewDoc(id, content), Hits: len(built)}}
		if chatty {
			x := &chattyIndex{recIndex{name: name, res: res}}
			built = append(built, &x.recIndex)
			return x
		}
		x := &recIndex{name: name, res: res}
		built = append(built, x)
		return x
	})
	d := visigoth.NewDocRequestWith(id, content, q)
	d.MimeType = visigoth.MimeType(sv.Int("mime", 0, 255))
	same := func(g visigoth.DocRequest) bool {
		return sv.And(g.ID() == id, g.Raw() == content, g.Statement() == q, g.Mime() == d.Mime())
	}
	sv.Assume(name != "b")
	sv.Assume(name != "al")
	sv.Assume(name != "c")
	r.Put(name, d)
	r.Put("b", d)
	sv.Assert(sv.EqStrs(names, []string{name, "b"}), "an index is built once for a new name, with that name")
	sv.Assert(r.Alias("al", name), "an alias is reported as added exactly when it is")
	sv.Assert(r.Alias("al", "b"), "an alias is reported as added exactly when it is")
	r.Put("al", d)
	sv.Assert(r.Rename("b", "c"), "renaming succeeds exactly when the index exists")
	r.Put("c", d)
	r.List()
	r.ListAliases()
	sv.Assert(len(built) == 2, "an index is built once for a new name, with that name")
	for i, k := range []int{2, 3} {
		sv.Assert(len(built[i].docs) == k, "every document is put once into every index its name stands for")
		for _, g := range built[i].docs {
			sv.Assert(same(g), "a document is put as it was given")
		}
	}
	got, ok := drain(r, name, q, visigoth.NoopZeroSearch)
	sv.Assert(ok && len(got) == 1, "a search yields what the index returns")
	sv.Assert(sv.And(got[0].Document.ID() == id, got[0].Document.Raw() == content, got[0].Hits == 0), "a search yields what the index returns")
	got, ok = drain(r, "al", q, visigoth.NoopZeroSearch)
	sv.Assert(ok && len(got) == 2 && got[0].Hits+got[1].Hits == 1, "a search yields what the indices return")
	for i, k := range []int{2, 1} {
		sv.Assert(len(built[i].queries) == k, "a query is passed on once to each index")
		for _, g := range built[i].queries {
			sv.Assert(g == q, "a query is passed on as it was given")
		}
	}
}

// ---- R01..R05: names of arbitrary bytes ----

func anyName(last ...string) {
	sv.Order(1)
	pool := []string{"i0", "i1", "al", "fr"}
	var w string
	switch k := sv.Choose("form", 3+sv.Bound("bytes of a name", 8, 12)); k {
	case 0:
		w = "i0" + sv.Str("w", 4)
	case 1:
		w = sv.Str("w", 4) + "i0"
	case 2:
		w = "al" + sv.Str("w", 2) + "i1"
	default:
		w = sv.Str("w", k-2)
	}
	role := sv.Choose("role", 4)
	pool[role] = w
	for i, n := range pool {
		if i != role {
			sv.Assume(n != w)
		}
	}
	b := bulk{newRepo(), &model{}}
	b.put(pool[0], "da")
	b.put(pool[1], "db")
	b.alias(pool[2], pool[0])
	if sv.Bool("another alias") {
		b.alias(pool[2], pool[1])
	}
	// the operation has the arbitrary name in it, or meets it
	step(b.r, b.m, pool, 0, last)
	checkState(b.r, b.m, append(pool, "i0", "i1", "al")...)
}

func R01_any() { anyName("put") }
func R02_any() { anyName("search") }
func R03_any() { anyName("alias", "unalias", "clear") }
func R04_any() { anyName("rename") }
func R05_any() { anyName("drop") }

// R05_removed: associations removed, added and removed again before a drop.
func R05_removed() {
	sv.Order(1)
	pool := []string{"i0", "i1", "al", "am"}
	b := bulk{newRepo(), &model{}}
	b.put("i0", "da")
	b.put("i1", "db")
	for i := 0; i < 2; i++ {
		for k := 0; k < 2; k++ {
			if sv.Bool("aliased") {
				b.alias(pool[2+i], pool[k])
			}
		}
	}
	for k := 0; k < sv.Bound("removals and renames", 2, 3); k++ {
		switch sv.Choose("operation", 3) {
		case 0:
			a, i := pool[2+sv.Choose("alias", 2)], pool[sv.Choose("index", 2)]
			got := b.r.UnAlias(a, i)
			want, known := b.m.unAlias(a, i)
			sv.Assert(!known || got == want, "removing reports whether the alias existed")
		case 1:
			b.alias(pool[2+sv.Choose("alias", 2)], pool[sv.Choose("index", 2)])
		case 2:
			o, n := sv.Choose("old", 2), []string{"zz", "i0", "a"}[sv.Choose("new", 3)]
			sv.Assert(b.r.Rename(pool[o], n) == b.m.rename(pool[o], n), "renaming succeeds exactly when the index exists")
		}
	}
	n := []string{"i0", "i1", "zz", "a"}[sv.Choose("dropped", 4)]
	sv.Assert(b.r.Drop(n) == b.m.drop(n), "dropping succeeds exactly when the index exists")
	checkState(b.r, b.m, append(pool, "zz", "a")...)
}

// ---- P01: names and tokens of arbitrary bytes ----

func P01_any() {
	n := 2 + sv.Choose("bytes", sv.Bound("bytes", 5, 6))
	name, tok := sv.StrIn("name", n, 0x21, 0x7e), sv.StrIn("tok", n, 0x21, 0x7e)
	if c := sv.Choose("character", 4); c > 0 { // others than ASCII, printable or not
		r := []string{"", "\u00ad", "\u200b", "\u2028"}[c]
		tok = tok[:2] + r + tok[2:]
		name = name[:2] + r + name[2:]
	}
	docs := [][]string{{tok}, {"other"}, {tok}}
	if !sv.Bool("through a repository") {
		ix := visigoth.NewMemoryIndex(name, wholeTok{})
		for i, d := range docs {
			ix.Put(visigoth.NewDocRequest(itoa(i), d[0]))
		}
		sv.Order(1)
		sv.Assert(sameSet(lines(ix.String()), printed(name, docs)), "the printed index shows its name and every token with its positions, once")
		return
	}
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(wholeTok{}))
	want := []string{""}
	for _, m := range []string{name, "another"} {
		for i, d := range docs {
			r.Put(m, visigoth.NewDocRequest(itoa(i), d[0]))
		}
		want = append(want, printed(m, docs)...)
	}
	sv.Order(1)
	sv.Assert(sameSet(lines(r.String()), want), "the printed repository shows each of its indices once")
}

// ---- J03, X01: positions far apart ----

func gapIndex(firsts int) (*visigoth.MemoryIndex, [][]string) {
	gap := []int{1, 64, 127, 128, 255, 256, 257, 512, 1024}[sv.Choose("gap", sv.Bound("gaps", 9, 9))]
	first := []int{0, 3, 255}[sv.Choose("first", firsts)]
	x := sv.StrIn("x", 1, 'a', 'j')
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs [][]string
	for i := 0; i <= first+2*gap+1; i++ {
		s := "z" // every other document has none of the words
		if i == first || i == first+gap || i == first+2*gap {
			s = x + "m"
		} else if i%2 == 1 {
			s = ""
		}
		ix.Put(visigoth.NewDocRequest(itoa(i), s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	return ix, docs
}

func X01_gap() {
	ix, docs := gapIndex(3)
	checkIndex(ix, docs, "a", "m")
	x := docs[len(docs)-2][0]
	checkIndex(ix, docs, x)
	for _, e := range []visigoth.Engine{visigoth.HitsSearch, visigoth.LinearSearch} {
		sv.Assert(len(ix.Search("m"+x, e)) == len(refPostings(docs, "m")), "searches find the documents wherever they are")
	}
}

func J03_gap() {
	ix, docs := gapIndex(sv.Bound("places of the first", 1, 3))
	two := roundTrip(ix, "i", byteTok{})
	x := docs[len(docs)-2][0]
	checkIndex(two, docs, "m", x)
}

// ---- C02: what goes on in the background ----

// C02_many: two threads that do everything hundreds of times.
func C02_many() {
	sv.Order(1)
	r := newRepo()
	n := sv.Bound("repetitions", 270, 1100)
	r.Put("i0", visigoth.NewDocRequest("d", "da"))
	r.Put("i1", visigoth.NewDocRequest("d", "db"))
	r.Alias("al", "i0")
	r.Alias("al", "i1")
	k := sv.Choose("what is done often", 6)
	often := func() {
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				if i < 140 {
					r.Put("i0", visigoth.NewDocRequest("d", "da"))
				}
			case 1:
				r.Search("i0", "d", visigoth.HitsSearch)
			case 2:
				r.Search("al", "d", visigoth.LinearSearch)
			case 3:
				r.List()
				r.ListAliases()
			case 4:
				r.Has("i0")
				r.HasAlias("al")
				r.Has("fr")
			case 5:
				r.Alias("al", "i1")
				r.UnAlias("fr", "i0")
				r.Rename("i0", "i0")
				r.Drop("fr")
			}
		}
	}
	seldom := func() {
		_ = r.String()
		r.List()
		r.ListAliases()
		drain(r, "al", "d", visigoth.HitsSearch)
		drain(r, "i0", "db", visigoth.LinearSearch)
		r.Put("i1", visigoth.NewDocRequest("e", "e"))
		r.Alias("am", "i1")
		r.Rename("i1", "i2")
		r.UnAlias("am", "")
		r.Drop("i2")
	}
	sv.DetectRaces()
	sv.Preempt(0)
	sv.Go(func() { often(); _ = r.String() })
	sv.Go(func() {
		seldom()
		if k != 0 {
			often()
		}
	})
	sv.Join()
	sv.Assert(r.Has("i0"), "all operations have returned")
}
