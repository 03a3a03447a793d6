package props

import (
	"sort"
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"
)

// ---- X01: two arbitrary words ----

// Whatever two different words a text has, both are indexed.
func X01_pairs() {
	n := 2 + 2*sv.Choose("bytes", sv.Bound("lengths", 3, 5))
	a, b := sv.StrIn("a", n, 0x21, 0xff), sv.StrIn("b", n, 0x21, 0xff)
	sv.Assume(a != b)
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	docs := [][]string{{a, b}, {b}, {b, a}}
	for i, d := range docs {
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), strings.Join(d, " ")))
	}
	checkIndex(ix, docs, a, b)
}

// ---- X04: many documents in several indices ----

func X04_blocks() {
	build := visigoth.NewMemoryIndexBuilder(byteTok{})
	t := sv.StrIn("t", 1, 'a', 'z')
	var ix []*visigoth.MemoryIndex
	for i := 0; i < 5; i++ {
		ix = append(ix, build("n"+itoa(i%3)).(*visigoth.MemoryIndex))
	}
	docs, raws := make([][][]string, 5), make([][]string, 5)
	put := func(k int, s string) {
		r := itoa(k) + "r" + itoa(len(raws[k]))
		ix[k].Put(visigoth.NewDocRequestWith("d"+itoa(k), r, s))
		docs[k] = append(docs[k], byteTok{}.Tokenize(s))
		raws[k] = append(raws[k], r)
	}
	block := []int{1, 2, 3, 9, 20, 70}[sv.Choose("block", sv.Bound("block sizes", 6, 6))]
	rounds := max(2, 12/block)
	down := sv.Choose("order of indices", 2) == 1
	for r := 0; r < rounds; r++ {
		for j := range ix {
			k := j
			if down {
				k = len(ix) - 1 - j
			}
			for i := 0; i < block+k; i++ {
				put(k, []string{"k", "m" + t, "k" + t}[(i+k+r)%3])
			}
		}
	}
	for k := range ix {
		checkIndex(ix[k], docs[k], "k", "m", t)
		sv.Assert(sv.EqStrs(rawsOf(ix[k].Search("", visigoth.NoopAllSearch)), raws[k]), "an index holds exactly the documents put into it")
		for i := range raws[k] {
			sv.Assert(ix[k].Document(i).ID() == "d"+itoa(k), "an index holds exactly the documents put into it")
		}
	}
}

// ---- S01, S02: postings of very different sizes ----

// skewed searches for a rare and a common word. The postings of the common one
// are regular, those of the rare one arbitrary.
func skewed(hits bool, e visigoth.Engine) {
	limit := []int{12, 40, 150}[sv.Choose("document positions", sv.Bound("sizes", 2, 3))]
	var common []int
	pattern := sv.Choose("pattern", 4)
	for i := 0; i < limit; i++ {
		switch pattern {
		case 1:
			if i%2 == 0 {
				continue
			}
		case 2:
			if i%7 < 5 {
				continue
			}
		case 3:
			if i > limit/4 && i < limit/2 {
				continue
			}
		}
		common = append(common, i)
	}
	var rare []int
	x := sv.Int("x", 0, limit-1)
	rare = append(rare, x)
	if sv.Choose("two", 2) == 1 {
		y := []int{limit - 1, limit - 2, limit / 2}[sv.Choose("second", 3)]
		sv.Assume(x < y)
		rare = append(rare, y)
	}
	ix := &stubIndex{n: limit, post: map[string][]int{"r": rare, "c": common}}
	q := []string{"r", "c"}
	if sv.Choose("common first", 2) == 1 {
		q = []string{"c", "r"}
	}
	var want []string
	for _, x := range rare {
		for _, y := range common {
			if x == y {
				want = append(want, itoa(y))
			}
		}
	}
	var got []string
	for _, r := range e(q, ix) {
		got = append(got, r.Document.Raw())
	}
	if hits {
		sort.Strings(got)
		sort.Strings(want)
	}
	sv.Assert(sv.EqStrs(got, want), "exactly the documents in both postings are returned")
}

func S01_skewed() { skewed(true, visigoth.HitsSearch) }
func S02_skewed() { skewed(false, visigoth.LinearSearch) }

// ---- S06, S07: arbitrary bytes ----

// A text with arbitrary bytes in it is found by itself.
func S06_bytes() {
	b := sv.Str("b", sv.Choose("bytes", sv.Bound("arbitrary bytes", 2, 3)+1))
	t := "zorro" + b + "quxes"
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", t))
	ix.Put(visigoth.NewDocRequest("2", "zorro"))
	for _, e := range []visigoth.Engine{visigoth.HitsSearch, visigoth.LinearSearch} {
		sv.Assert(countStr(rawsOf(ix.Search(t, e)), t) == 1, "a document is found by its own text")
	}
}

func S07_bytes() {
	words := visigoth.NewKeepAlphanumericTokenizer()
	q := []string{"", "ab", "A\xffb\u00ad\u200d\x00", " \tx"}[sv.Choose("before", 4)] + sv.Str("q", sv.Choose("bytes", sv.Bound("arbitrary bytes", 2, 3)+1)) + []string{"", "cd\xe2\x82"}[sv.Choose("after", 2)]
	var tok visigoth.Tokenizer = words
	if sv.Choose("analyser", 2) == 1 {
		tok = wholeTok{}
	}
	ix := visigoth.NewMemoryIndex("i", tok)
	ix.Put(visigoth.NewDocRequest("1", "x"))
	want := tok.Tokenize(q)
	ix.Search(q, func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		sv.Assert(sv.EqStrs(tokens, want), "the engine receives the analysed query")
		return nil
	})
	// what is put is analysed as it is, too
	ix.Put(visigoth.NewDocRequest("2", q))
	for _, w := range want {
		p := ix.Indexed(w)
		sv.Assert(len(p) > 0 && p[len(p)-1] == 1, "a text is analysed as it is")
	}
	ix.Put(visigoth.NewDocRequestWith("3", "content", q))
	for _, w := range want {
		p := ix.Indexed(w)
		sv.Assert(len(p) > 0 && p[len(p)-1] == 2, "a text is analysed as it is")
	}
}

// wholeTok makes every text one token.
type wholeTok struct{}

func (wholeTok) Tokenize(s string) []string { return []string{s} }

// ---- J01: several results ----

// Encodings and decoded results stay what they are while others are made.
func J01_several() {
	n := []int{0, 3, 200, 700, 5000}[sv.Choose("length", sv.Bound("lengths", 5, 5))]
	m := []int{0, 300, 6000}[sv.Choose("length of the second", sv.Bound("lengths of the second", 3, 3))]
	x := sv.StrIn("x", 1, 'a', 'z')
	a := visigoth.SearchResult{Document: visigoth.NewDoc("a"+x, strings.Repeat("a", n)+x), Hits: 1}
	b := visigoth.SearchResult{Document: visigoth.NewDoc("b", strings.Repeat("b", m)), Hits: 22}
	da, err := a.MarshalJSON()
	sv.Assert(err == nil, "encoding succeeds")
	was := string(da)
	db, err := b.MarshalJSON()
	sv.Assert(err == nil, "encoding succeeds")
	sv.Assert(string(da) == was, "an encoding stays as it is")
	var ra, rb visigoth.SearchResult
	sv.Assert(ra.UnmarshalJSON(da) == nil, "decoding succeeds")
	sv.Assert(rb.UnmarshalJSON(db) == nil, "decoding succeeds")
	for i := range db {
		db[i] = 'x'
	}
	b.MarshalJSON()
	sv.Assert(string(da) == was, "an encoding stays as it is")
	var rc visigoth.SearchResult
	sv.Assert(rc.UnmarshalJSON(da) == nil, "decoding succeeds")
	sv.Assert(sv.And(ra.Document.ID() == a.Document.ID(), ra.Document.Raw() == a.Document.Raw(), ra.Hits == 1), "a result survives")
	sv.Assert(sv.And(rb.Document.ID() == "b", rb.Document.Raw() == b.Document.Raw(), rb.Hits == 22), "a result survives")
	sv.Assert(sv.And(rc.Document.ID() == a.Document.ID(), rc.Document.Raw() == a.Document.Raw(), rc.Hits == 1), "a result survives")
}

// ---- P01: unusual tokens and names ----

func P01_odd() {
	odd := []string{"5%d", "%", "%s%v%!", "\\n", `"q"`, "", " ", "[token=x]", "a\x00b", "\xff\xfe", "ñandú", "日本", "<b>&amp;", "%[1]d", "%%", strings.Repeat("largo", 60), "{", "}", "\t", "x=1]=[3", "nil", "\u202e"}
	k := sv.Choose("token", len(odd))
	c := sv.StrIn("c", 1, ' ', '~')
	name := []string{"odd", odd[k]}[sv.Choose("name", 2)]
	ix := visigoth.NewMemoryIndex(name, wholeTok{})
	var docs [][]string
	for _, s := range []string{odd[k], "plain", odd[k], odd[k] + "x", c} {
		ix.Put(visigoth.NewDocRequest("d", s))
		docs = append(docs, []string{s})
	}
	sv.Assert(sameSet(lines(ix.String()), printed(name, docs)), "the printed index shows its name and every token with its positions, once")
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(wholeTok{}))
	r.Put(name, visigoth.NewDocRequest("d", odd[k]))
	sv.Assert(sameSet(lines(r.String()), append(printed(name, [][]string{{odd[k]}}), "")), "the printed repository shows every index once")
}

// ---- R07: index types ----

type mapIndex map[string][]string

func (m mapIndex) Put(d visigoth.DocRequest) visigoth.Index {
	m["docs"] = append(m["docs"], d.Raw())
	return m
}
func (m mapIndex) Search(q string, _ visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	return resultsOf(m["docs"])
}

type funcIndex func(*visigoth.DocRequest) []string

func (f funcIndex) Put(d visigoth.DocRequest) visigoth.Index { f(&d); return f }
func (f funcIndex) Search(q string, _ visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	return resultsOf(f(nil))
}

// twinIndex values are all equal: what they hold lies elsewhere.
type twinIndex struct{ docs *[]string }

func (t twinIndex) Put(d visigoth.DocRequest) visigoth.Index {
	*t.docs = append(*t.docs, d.Raw())
	return nil // nobody needs it
}
func (t twinIndex) Search(q string, _ visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	return resultsOf(*t.docs)
}

func resultsOf(raws []string) (r slices.Slice[visigoth.SearchResult]) {
	for _, s := range raws {
		r = append(r, visigoth.SearchResult{Document: visigoth.NewDoc("same", s), Hits: 1})
	}
	return r
}

// A repository needs nothing but the two methods of an index.
func R07_types() {
	kind := sv.Choose("index type", 4)
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		k := kind
		if k == 3 { // all of them
			k = int(name[len(name)-1] % 3)
		}
		switch k {
		case 0:
			return mapIndex{}
		case 1:
			var docs []string
			return funcIndex(func(d *visigoth.DocRequest) []string {
				if d != nil {
					docs = append(docs, d.Raw())
				}
				return docs
			})
		}
		return twinIndex{new([]string)}
	})
	sv.Order(1 + sv.Choose("order", 4))
	m := &model{}
	put := func(n string, k int) {
		d := mdoc{"same", "doc" + itoa(k)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	names := []string{sv.Str("a", 1) + "1", sv.Str("b", 1) + "2", "c3"}
	look := func() {
		for _, n := range append(cloneStrs(names), "al", "am", "new0") {
			got, gok := drain(r, n, "q", visigoth.HitsSearch)
			want, ok := m.raws(n)
			sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
			sv.Assert(sameSet(rawsOf(got), want), "what the indices return is what the search yields")
		}
	}
	for i, n := range names {
		put(n, i)
		sv.Assert(r.Alias("al", n) == m.addAlias("al", n), "an alias is reported as added exactly when it is")
	}
	put("al", 10)
	r.Alias("am", names[1])
	m.addAlias("am", names[1])
	put("am", 11)
	look()
	sv.Assert(r.Rename(names[0], "new0") == m.rename(names[0], "new0"), "renaming succeeds exactly when the index exists")
	put("al", 12)
	look()
	sv.Assert(r.Drop(names[1]) == m.drop(names[1]), "dropping succeeds exactly when the index exists")
	put("al", 13)
	look()
	put(names[1], 14)
	put(names[0], 15)
	look()
}

// ---- two arbitrary longer names or words ----

// pairs uses two different names of indices or of aliases.
func pairs(last ...string) {
	x, y := sv.StrIn("x", 6, 0x21, 0xff), sv.StrIn("y", 6, 0x21, 0xff)
	sv.Assume(x != y)
	pool := []string{x, y, "al"}
	r, m := newRepo(), &model{}
	put := func(n string, k int) {
		d := mdoc{"id", "doc" + itoa(k)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	alias := func(a, i string) {
		sv.Assert(r.Alias(a, i) == m.addAlias(a, i), "an alias is reported as added exactly when it is")
	}
	sv.Order(1)
	if sv.Choose("aliases", 2) == 1 {
		pool = []string{x, y, "i", "j"}
		put("i", 0)
		put("j", 1)
		alias(x, "i")
		alias(y, "j")
		alias(y, "i")
	} else {
		put(x, 0)
		put(y, 1)
		alias("al", x)
		alias("al", y)
		put("al", 2)
	}
	step(r, m, pool, 3, last)
	checkState(r, m, pool...)
}
func R01_pairs() { pairs("put") }
func R02_pairs() { pairs("search") }
func R03_pairs() { pairs("alias", "unalias", "clear") }
func R04_pairs() { pairs("rename") }
func R05_pairs() { pairs("drop") }

// pairWords searches for two different words.
func pairWords(name string, e visigoth.Engine) {
	a, b := sv.StrIn("a", 6, 0x21, 0xff), sv.StrIn("b", 6, 0x21, 0xff)
	sv.Assume(a != b)
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	var docs []stored
	for i, t := range [][]string{{a}, {b}, {a, b}, {b, "x", a}, {"x"}} {
		d := stored{id: "d" + itoa(i), raw: "raw" + itoa(i), toks: t}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, strings.Join(t, " ")))
		docs = append(docs, d)
	}
	for _, q := range [][]string{{a}, {b}, {a, b}, {b, a}, {"x", b, a}} {
		checkMatches(name, e(q, ix), docs, q)
	}
}
func S01_pairs() { pairWords("hits", visigoth.HitsSearch) }
func S02_pairs() { pairWords("linear", visigoth.LinearSearch) }
