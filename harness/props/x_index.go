package props

import (
	"sort"
	"strings"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// refPostings: the positions of the documents whose tokens include t.
func refPostings(docs [][]string, t string) []int {
	var r []int
	for i, d := range docs {
		if has(d, t) {
			r = append(r, i)
		}
	}
	return r
}

func checkIndex(ix *visigoth.MemoryIndex, docs [][]string, queries ...string) {
	sv.Assert(ix.Len() == len(docs), "one document per put")
	for _, q := range queries {
		got := ix.Indexed(q)
		sv.Observe("postings", q, got)
		sv.Assert(sv.EqInts(got, refPostings(docs, q)), "a token's postings are the positions of the documents that contain it")
	}
}

// ---- X01 ----

// A few documents of arbitrary one-byte tokens.
func X01_puts() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := sv.Choose("docs", 4)
	left := sv.Bound("tokens in all documents", 5, 7)
	var docs [][]string
	var all []string
	for i := 0; i < n; i++ {
		k := 0
		if left > 0 {
			k = sv.Choose("tokens", min(left, 3)+1)
		}
		left -= k
		s := sv.StrIn("t", k, 'a', 'z')
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
		docs = append(docs, byteTok{}.Tokenize(s))
		all = append(all, byteTok{}.Tokenize(s)...)
	}
	q := sv.StrIn("q", 1, 'a', 'z')
	checkIndex(ix, docs, q)
	checkIndex(ix, docs, append(all, "", "unknown")...)
	for i := 0; i < n; i++ {
		sv.Assert(ix.Document(i).ID() == "d"+itoa(i), "documents are kept in put order")
	}
}

// Long multi-byte tokens that share prefixes, repeated documents and identifiers.
func X01_words() {
	a, b := sv.Str("a", 1), sv.Str("b", 1)
	p := strings.Repeat("prefijo", 6)
	texts := []string{p + a + " x " + p + b, "x x x", "", p + b + " y " + p + b, p, "x x x"}
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	var docs [][]string
	for i, t := range texts {
		ix.Put(visigoth.NewDocRequest([]string{"same", "", "other"}[i%3], t))
		docs = append(docs, wordTok{}.Tokenize(t))
	}
	sv.Assume(a != " ")
	sv.Assume(b != " ")
	checkIndex(ix, docs, p+a, p+b, p, "x", "y", a, "", "prefijo")
}

// Many documents: growth of the document list and of long postings.
func X01_many() {
	t := sv.StrIn("t", 2, 'a', 'z')
	n := sv.Bound("many documents", 140, 300)
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs [][]string
	for i := 0; i < n; i++ {
		s := "k"
		if i%3 == 0 {
			s += "m"
		}
		if i == 7 || i == 33 {
			s += t
		}
		if i%10 == 9 {
			s = "mm" + s + "m"
		}
		ix.Put(visigoth.NewDocRequest("d"+itoa(i%5), s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	checkIndex(ix, docs, "k", "m", t[:1], t[1:], "q")
	sv.Assert(ix.Document(n-1).ID() == "d"+itoa((n-1)%5), "documents are kept in put order")
}

// A document with many tokens, some of them repeated far apart.
func X01_longdoc() {
	t := "w" + sv.StrIn("t", 1, '0', 'z')
	var sb strings.Builder
	for i := 0; i < 60; i++ {
		sb.WriteString("w" + itoa(i%37) + " ")
		if i%20 == 3 {
			sb.WriteString(t + " ")
		}
	}
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	var docs [][]string
	for _, s := range []string{"w1", sb.String(), t + " w36", sb.String()} {
		ix.Put(visigoth.NewDocRequest("d", s))
		docs = append(docs, wordTok{}.Tokenize(s))
	}
	checkIndex(ix, docs, t, "w0", "w1", "w36", "w37", "w3")
}

// More documents, and more tokens in one, than a byte counts.
func X01_huge() {
	t := sv.StrIn("t", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	n := sv.Bound("documents with one token", 1100, 4200)
	var want []int
	for i := 0; i < n; i++ {
		s := "k " + "w" + itoa(i)
		if i == 3 || i > 255 {
			s += " " + t
			want = append(want, i)
		}
		ix.Put(visigoth.NewDocRequest("d", s))
	}
	ix.Put(visigoth.NewDocRequest("d", strings.Repeat("z9 ", 1200)+strings.Repeat("k ", 300)+"y9"))
	k := make([]int, n+1)
	for i := range k {
		k[i] = i
	}
	for i := 0; i < n; i += 113 {
		sv.Assert(sv.EqInts(ix.Indexed("w"+itoa(i)), []int{i}), "a token's postings are the positions of the documents that contain it")
	}
	if t != "k" {
		sv.Assert(sv.EqInts(ix.Indexed(t), want), "a token's postings are the positions of the documents that contain it")
	}
	sv.Assert(sv.EqInts(ix.Indexed("k"), k), "a token's postings are the positions of the documents that contain it")
	sv.Assert(sv.And(sv.EqInts(ix.Indexed("z9"), k[n:]), sv.EqInts(ix.Indexed("y9"), k[n:])), "a token's postings are the positions of the documents that contain it")
}

// Puts through the builder behave alike, and the analyser of the index is used.
func X01_builder() {
	s1, s2 := sv.StrIn("s1", 2, ' ', 'z'), sv.StrIn("s2", 2, ' ', 'z')
	low := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())
	b := visigoth.NewMemoryIndexBuilder(low)
	x, y := b("x"), b("y")
	x.Put(visigoth.NewDocRequest("1", s1+" común")).Put(visigoth.NewDocRequest("2", "COMÚN "+s2))
	y.Put(visigoth.NewDocRequest("3", s2))
	docs := [][]string{low.Tokenize(s1 + " común"), low.Tokenize("COMÚN " + s2)}
	checkIndex(x.(*visigoth.MemoryIndex), docs, append(low.Tokenize(s1+" "+s2), "común", "COMÚN")...)
	checkIndex(y.(*visigoth.MemoryIndex), [][]string{low.Tokenize(s2)}, append(low.Tokenize(s1+" "+s2), "común")...)
}

// ---- X02 ----

type engineCase struct {
	name string
	e    visigoth.Engine
}

var engines = []engineCase{{"hits", visigoth.HitsSearch}, {"linear", visigoth.LinearSearch}, {"all", visigoth.NoopAllSearch}, {"zero", visigoth.NoopZeroSearch}}

// bufTok reuses one token buffer, as a tokenizer may.
type bufTok struct{ buf []string }

func (b *bufTok) Tokenize(s string) []string {
	b.buf = append(b.buf[:0], byteTok{}.Tokenize(s)...)
	return b.buf
}

func X02_postings() {
	a, b, q := sv.StrIn("a", 2, 'a', 'z'), sv.StrIn("b", 1, 'a', 'z'), sv.StrIn("q", 1, 'a', 'z')
	var ix *visigoth.MemoryIndex
	if sv.Choose("reusing tokenizer", 2) == 1 {
		ix = visigoth.NewMemoryIndex("i", &bufTok{})
	} else {
		ix = visigoth.NewMemoryIndex("i", byteTok{})
	}
	docs := [][]string{}
	put := func(s string) {
		ix.Put(visigoth.NewDocRequest("d"+itoa(len(docs)), s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	put(a)
	put("k" + a)
	if sv.Choose("third", 2) == 1 {
		put("k")
	}
	p := ix.Indexed(q)
	k := ix.Indexed("k")
	d := ix.Document(0)
	pc, kc := cloneInts(p), cloneInts(k)
	if sv.Choose("write at once", 2) == 1 {
		for i := range p {
			p[i] = 6
		}
		_ = append(p, 9, 9)
		if len(k) > 0 {
			k[0] = 5
		}
		_ = append(k[:0], 8)
		checkIndex(ix, docs, q, "k", a[:1], a[1:], b)
		pc, kc = cloneInts(p), cloneInts(k)
	}
	put("k" + b)
	put(b + a)
	sv.Assert(sv.EqInts(p, pc), "postings handed out do not change when documents are added")
	sv.Assert(sv.EqInts(k, kc), "postings handed out do not change when documents are added")
	sv.Assert(sv.And(d.ID() == "d0", d.Raw() == a), "documents handed out do not change")
	for i := range p {
		p[i] = 7
	}
	_ = append(p, 9, 9)
	_ = append(k[:0], 8)
	checkIndex(ix, docs, q, "k", a[:1], a[1:], b)
	put(q + "k")
	checkIndex(ix, docs, q, "k", a[:1], a[1:], b)
}

func X02_results() {
	t1, t2, q := sv.StrIn("t1", 1, 'a', 'z'), sv.StrIn("t2", 1, 'a', 'z'), sv.StrIn("q", 1, 'a', 'z')
	build := func() *visigoth.MemoryIndex {
		ix := visigoth.NewMemoryIndex("i", byteTok{})
		ix.Put(visigoth.NewDocRequest("b", "k"+t1))
		ix.Put(visigoth.NewDocRequest("c", "k"+t2))
		ix.Put(visigoth.NewDocRequest("a", t1+"k"+t2))
		return ix
	}
	ix := build()
	e := engines[sv.Choose("engine", 3)]
	toks := []string{q, "k", "spare"}[:2]
	if sv.Choose("one token", 2) == 1 {
		toks = []string{"k", "spare"}[:1]
	}
	before := cloneStrs(toks)
	var r1 []visigoth.SearchResult
	through := sv.Choose("through the index", 2) == 1
	if through {
		r1 = ix.Search(strings.Join(toks, " "), e.e)
	} else {
		r1 = e.e(toks, ix)
	}
	sv.Assert(sv.EqStrs(toks, before), "the token list given to an engine is not changed")
	r1c := append([]visigoth.SearchResult(nil), r1...)
	ix.Put(visigoth.NewDocRequest("0", "k"+q))
	other := engines[sv.Choose("engine", 3)]
	var r2 []visigoth.SearchResult
	if through {
		r2 = ix.Search("k", other.e)
	} else {
		r2 = other.e([]string{"k"}, ix)
	}
	r2c := append([]visigoth.SearchResult(nil), r2...)
	for _, x := range engines {
		ix.Search(t1, x.e)
		x.e([]string{t2}, ix)
		ix.Search("k "+q, x.e)
	}
	sv.Assert(sv.And(sameResults(r1, r1c), sameResults(r2, r2c)), "results do not change because of later puts or searches")
	for i := range toks {
		toks[i] = "changed"
	}
	sv.Assert(sameResults(r1, r1c), "results do not change with the token list")
	for i := range r1 {
		r1[i] = visigoth.SearchResult{Document: visigoth.NewDoc("zz", "k"), Hits: 77}
	}
	for i := range r2 {
		r2[i] = visigoth.SearchResult{Document: visigoth.NewDoc("zz", "k"), Hits: 77}
	}
	_ = append(r1, visigoth.SearchResult{})
	fresh := build()
	fresh.Put(visigoth.NewDocRequest("0", "k"+q))
	for _, x := range engines {
		sv.Assert(sameResults(x.e(before, ix), x.e(before, fresh)), "changing returned lists does not change later results")
		sv.Assert(sameResults(ix.Search("k"+q, x.e), x.e([]string{"k", q}, fresh)), "changing returned lists does not change later results")
	}
	sv.Observe("results", idsOf(r1c))
}

// Snapshots of a larger index, around the sizes at which slices grow.
func X02_growth() {
	q := sv.StrIn("q", 1, 'a', 'z')
	n := sv.Choose("size", sv.Bound("documents", 9, 20))
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	for i := 0; i < n; i++ {
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), "k"+q))
	}
	p := ix.Indexed(q)
	all := ix.Search("k", visigoth.NoopAllSearch)
	lin := ix.Search(q, visigoth.LinearSearch)
	want := make([]int, n)
	for i := range want {
		want[i] = i
	}
	_ = append(p, 1234)
	_ = append(all, visigoth.SearchResult{Hits: 5})
	ix.Put(visigoth.NewDocRequest("new", q))
	_ = append(p, 4321)
	for i := range all {
		all[i].Hits = 9
	}
	sv.Assert(sv.EqInts(p, want), "postings handed out do not change when documents are added")
	ix.Search("new", visigoth.LinearSearch)
	ix.Search("k", visigoth.HitsSearch)
	sv.Assert(len(lin) == n, "results do not change because of later puts")
	for i := range lin {
		sv.Assert(lin[i].Document.ID() == "d"+itoa(i), "results do not change because of later puts")
	}
	sv.Assert(sv.EqInts(ix.Indexed(q), append(want, n)), "appending to returned lists does not change the index")
	sv.Observe("p", p)
}

// ---- X03 ----

func request(kind int, id, content, statement string, mime int) (visigoth.DocRequest, string) {
	switch kind {
	case 0:
		return visigoth.NewDocRequest(id, content), content
	case 1:
		return visigoth.NewDocRequestWith(id, content, statement), statement
	}
	return visigoth.NewDocRequestWithMime(id, content, visigoth.MimeType(mime)), content
}

func X03_verbatim() {
	kind := sv.Choose("kind", 3)
	id, content := sv.Str("id", sv.Choose("idlen", 3)), sv.Str("content", sv.Choose("clen", sv.Bound("content bytes", 2, 3)+1))
	statement := ""
	if kind == 1 {
		statement = sv.Str("statement", sv.Choose("slen", 3))
	}
	mime := 0
	if kind == 2 {
		mime = sv.Int("mime", 0, 255)
	}
	req, st := request(kind, id, content, statement, mime)
	sv.Assert(sv.And(req.ID() == id, req.Raw() == content, req.Statement() == st), "a request carries what it was made from")
	if kind != 2 {
		mime = int(visigoth.MimeText)
	}
	sv.Assert(int(req.Mime()) == mime, "a request carries its mime type, which is text by default")
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	ix.Put(visigoth.NewDocRequest("first", "zzz"))
	ix.Put(req)
	d := ix.Document(1)
	sv.Observe("doc", d.ID(), d.Raw())
	sv.Assert(sv.And(d.ID() == id, d.Raw() == content), "a document keeps its identifier and content")
	q := sv.Str("q", 1)
	sv.Assume(q != " ")
	found := has(byteTok{}.Tokenize(st), q)
	for _, e := range engines[:3] {
		rs := ix.Search(q, e.e)
		n := 0
		for _, r := range rs {
			if r.Document.ID() == "first" && r.Document.Raw() == "zzz" {
				continue
			}
			n++
			sv.Assert(sv.And(r.Document.ID() == id, r.Document.Raw() == content), "a result carries the document as it was put")
			g := r.GetDoc()
			h := r.Doc()
			sv.Assert(sv.And(g.ID() == id, h.ID() == id, g.Raw() == content, h.Raw() == content, r.GetHits() == r.Hits), "accessors give the document as it was put")
		}
		if e.name == "all" {
			sv.Assert(n == 1, "the document is returned once")
		} else {
			sv.Assert(sv.Iff(found, n == 1), "the statement alone decides which searches match")
			sv.Assert(n <= 1, "the document is returned once")
		}
	}
}

// Long contents, through the full pipeline.
func X03_long() {
	x, y := sv.Str("x", 1), sv.Str("y", 2)
	content := strings.Repeat("Línea\tde TEXTO \"citado\"\r\n", 30) + x + "\x00" + y
	id := strings.Repeat("id/", 40) + y
	kind := sv.Choose("kind", 3)
	req, _ := request(kind, id, content, "solamente palabra", 2)
	p := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())
	ix := visigoth.NewMemoryIndex("i", p)
	ix.Put(req)
	for _, e := range engines[:2] {
		rs := ix.Search("Texto", e.e)
		ps := ix.Search("PALABRA", e.e)
		if kind == 1 {
			sv.Assert(sv.And(len(rs) == 0, len(ps) == 1), "the statement alone decides which searches match")
			rs = ps
		} else {
			sv.Assert(sv.And(len(rs) == 1, len(ps) == 0), "the content decides which searches match without a statement")
		}
		sv.Assert(sv.And(rs[0].Document.ID() == id, rs[0].Document.Raw() == content), "a result carries the document as it was put")
	}
}

// ---- S01, S02, S04, S05: engines over arbitrary small indices ----

type stored struct {
	id, raw string
	toks    []string
}

// someIndex puts up to three documents of arbitrary tokens; every document has
// a distinct content, identifiers may coincide.
func someIndex(tokens int) (*visigoth.MemoryIndex, []stored) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := sv.Choose("docs", 4)
	var docs []stored
	for i := 0; i < n; i++ {
		k := sv.Choose("tokens", min(tokens, 2)+1)
		tokens -= k
		st := sv.StrIn("t", k, 'a', 'z')
		d := stored{id: sv.StrIn("id", 1, '0', '9'), raw: "raw" + itoa(i), toks: byteTok{}.Tokenize(st)}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, st))
		docs = append(docs, d)
	}
	return ix, docs
}

func someQuery(max int) []string {
	k := sv.Choose("query tokens", max+1)
	q := []string{}
	for i := 0; i < k; i++ {
		q = append(q, sv.StrIn("q", 1, 'a', 'z'))
	}
	return q
}

func distinct(q []string) bool {
	r := true
	for i := range q {
		for j := 0; j < i; j++ {
			r = sv.And(r, q[i] != q[j])
		}
	}
	return r
}

func checkMatches(engine string, rs []visigoth.SearchResult, docs []stored, q []string) {
	if len(q) == 0 {
		sv.Assert(len(rs) == 0, "a query without tokens returns nothing")
		return
	}
	raws := rawsOf(rs)
	sv.Observe(engine, q, idsOf(rs), raws, hitsOf(rs))
	total := 0
	for _, d := range docs {
		want := sv.IteInt(hasAll(d.toks, q), 1, 0)
		sv.Assert(countStr(raws, d.raw) == want, "each document with all query tokens is returned exactly once, and no other")
		total += want
	}
	sv.Assert(len(rs) == total, "nothing else is returned")
	for _, r := range rs {
		ok := false
		for _, d := range docs {
			ok = sv.Or(ok, sv.And(d.raw == r.Document.Raw(), d.id == r.Document.ID()))
		}
		sv.Assert(ok, "a result carries a stored document")
		if engine == "hits" {
			sv.Assert(sv.Imp(distinct(q), r.Hits == len(q)), "the hits are the number of distinct query tokens")
		} else {
			sv.Assert(r.Hits == len(q), "the hits are the number of query tokens")
		}
	}
}

func S01_small() {
	ix, docs := someIndex(sv.Bound("tokens in all documents", 4, 6))
	q := someQuery(sv.Bound("query tokens", 2, 3))
	checkMatches("hits", visigoth.HitsSearch(q, ix), docs, q)
}

func S02_small() {
	ix, docs := someIndex(sv.Bound("tokens in all documents", 4, 6))
	q := someQuery(sv.Bound("query tokens", 2, 3))
	checkMatches("linear", visigoth.LinearSearch(q, ix), docs, q)
}

// twins puts documents that may be equal in everything and counts the results.
func twins(e visigoth.Engine) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	q := []string{"k", sv.StrIn("q", 1, 'a', 'z')}[:1+sv.Choose("two", 2)]
	want := 0
	var docs []stored
	for i := 0; i < sv.Bound("twins", 3, 4); i++ {
		c := sv.StrIn("raw", 1, 'a', 'z')
		d := stored{id: sv.StrIn("id", 1, '0', '9'), raw: "k" + c, toks: []string{"k", c}}
		ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		docs = append(docs, d)
		want += sv.IteInt(hasAll(d.toks, q), 1, 0)
	}
	rs := e(q, ix)
	sv.Observe("twins", idsOf(rs), rawsOf(rs))
	sv.Assert(len(rs) == want, "each document with all query tokens is returned exactly once, and no other")
	for _, d := range docs {
		n, w := 0, 0
		for _, r := range rs {
			n += sv.IteInt(sv.And(r.Document.ID() == d.id, r.Document.Raw() == d.raw), 1, 0)
		}
		for _, x := range docs {
			w += sv.IteInt(sv.And(x.id == d.id, x.raw == d.raw, hasAll(x.toks, q)), 1, 0)
		}
		sv.Assert(n == w, "each document with all query tokens is returned exactly once, and no other")
	}
}

func S01_twins() { twins(visigoth.HitsSearch) }
func S02_twins() { twins(visigoth.LinearSearch) }

// wideIndex has many documents with regular membership and a few arbitrary ones.
func wideIndex(n int) (*visigoth.MemoryIndex, []stored) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	x := sv.StrIn("x", 2, 'a', 'h')
	id := sv.StrIn("wid", 1, '0', '9')
	var docs []stored
	for i := 0; i < n; i++ {
		st := "a"
		if i%2 == 0 {
			st += "b"
		}
		if i%3 == 0 {
			st += "c"
		}
		if i%5 == 4 {
			st = "dd" + st
		}
		if i == 5 {
			st += x
		}
		if i == n-1 {
			st = x + st
		}
		d := stored{id: "d" + itoa((i*7)%10), raw: "raw" + itoa(i), toks: byteTok{}.Tokenize(st)}
		if i == 11 || i == 4 {
			d.id = id
		}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, st))
		docs = append(docs, d)
	}
	return ix, docs
}

func wideQuery() []string {
	k := sv.Choose("query", 3)
	q := []string{"a", sv.StrIn("q", 1, 'a', 'h')}
	switch k {
	case 1:
		q = append(q, "b")
	case 2:
		q = append([]string{"c", "b"}, q...)
	}
	return q
}

func S01_wide() {
	ix, docs := wideIndex(sv.Bound("documents", 70, 140))
	q := wideQuery()
	checkMatches("hits", visigoth.HitsSearch(q, ix), docs, q)
}

func S02_wide() {
	ix, docs := wideIndex(sv.Bound("documents", 70, 140))
	q := wideQuery()
	checkMatches("linear", visigoth.LinearSearch(q, ix), docs, q)
}

// Long queries.
func longQuery() (*visigoth.MemoryIndex, []stored, []string) {
	alpha := "abcdefghijklmnopqrstuvwxyz"
	miss := sv.StrIn("miss", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs []stored
	for i, st := range []string{alpha, alpha[:20], strings.ReplaceAll(alpha, "m", ""), alpha[3:]} {
		if i == 3 {
			st += miss
		}
		d := stored{id: "same", raw: "raw" + itoa(i), toks: byteTok{}.Tokenize(st)}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, st))
		docs = append(docs, d)
	}
	q := byteTok{}.Tokenize(alpha[3:20])
	return ix, docs, append(q, miss)
}

func S01_longquery() {
	ix, docs, q := longQuery()
	checkMatches("hits", visigoth.HitsSearch(q, ix), docs, q)
}

func S02_longquery() {
	ix, docs, q := longQuery()
	checkMatches("linear", visigoth.LinearSearch(q, ix), docs, q)
}

// Queries of more tokens, and results of more documents, than a byte counts.
func huge(e visigoth.Engine) {
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	x := sv.StrIn("x", 1, 'a', 'z')
	var all []string
	for i := 0; i < 260; i++ {
		all = append(all, "w"+itoa(i))
	}
	ix.Put(visigoth.NewDocRequest("p", strings.Join(all, " ")+" "+x))
	ix.Put(visigoth.NewDocRequest("p", strings.Join(all[:259], " ")))
	ix.Put(visigoth.NewDocRequest("p", strings.Join(all, " ")+" q"))
	many := sv.Bound("documents with one token", 1100, 4200)
	for i := 0; i < many; i++ {
		ix.Put(visigoth.NewDocRequest("r"+itoa(i%7), "k"))
	}
	rs := e(append(cloneStrs(all), "q"), ix)
	n := 1 + sv.IteInt(x == "q", 1, 0)
	sv.Assert(len(rs) == n, "each document with all query tokens is returned exactly once, and no other")
	for _, r := range rs {
		sv.Assert(r.Hits == 261, "the hits are the number of query tokens")
	}
	rs = e([]string{"k"}, ix)
	sv.Assert(len(rs) == many+sv.IteInt(x == "k", 1, 0), "each document with all query tokens is returned exactly once, and no other")
}

func S01_huge() { huge(visigoth.HitsSearch) }
func S02_huge() { huge(visigoth.LinearSearch) }

// stubIndex is an Indexer with arbitrary postings: the documents are numbers.
type stubIndex struct {
	n    int
	post map[string][]int
}

func (s *stubIndex) Len() int                    { return s.n }
func (s *stubIndex) Indexed(k string) []int      { return cloneInts(s.post[k]) }
func (s *stubIndex) Document(i int) visigoth.Doc { return visigoth.NewDoc("same", itoa(sv.Fix(i))) }

func arbitraryPostings(name string, max, limit int) []int {
	k := sv.Choose(name+" length", max+1)
	if k == 0 {
		return nil
	}
	var r []int
	for i := 0; i < k; i++ {
		v := sv.Int(name, 0, limit-1)
		if i > 0 {
			sv.Assume(r[i-1] < v)
		}
		r = append(r, v)
	}
	return r
}

func checkPostings(engine string, e visigoth.Engine, limit int) {
	pa := arbitraryPostings("a", sv.Bound("postings", 2, 3), limit)
	pb := arbitraryPostings("b", sv.Bound("postings", 2, 3), limit)
	ix := &stubIndex{n: limit, post: map[string][]int{"a": pa, "b": pb}}
	var want []int
	for _, x := range pa {
		for _, y := range pb {
			if x == y {
				want = append(want, x)
			}
		}
	}
	rs := e([]string{"a", "b"}, ix)
	var got []string
	for _, r := range rs {
		got = append(got, r.Document.Raw())
		sv.Assert(r.Hits == 2, "the hits are the number of query tokens")
	}
	var ws []string
	for _, x := range want {
		ws = append(ws, itoa(sv.Fix(x)))
	}
	if engine == "hits" { // the order of documents with one identifier is not specified
		sort.Strings(got)
		sort.Strings(ws)
	}
	sv.Observe("found", got)
	sv.Assert(sv.EqStrs(got, ws), "exactly the documents in both postings are returned")
}

func S01_postings() { checkPostings("hits", visigoth.HitsSearch, sv.Bound("document positions", 6, 9)) }
func S02_postings() {
	checkPostings("linear", visigoth.LinearSearch, sv.Bound("document positions", 8, 16))
}

// ---- S03: order ----

func lessEq(a, b string) bool { return sv.Not(sv.LessStr(b, a)) }

func checkOrder(ix *visigoth.MemoryIndex, q []string) {
	h1 := visigoth.HitsSearch(q, ix)
	for i := 1; i < len(h1); i++ {
		a, b := h1[i-1], h1[i]
		sv.Assert(a.Hits >= b.Hits, "results are ordered by hits")
		sv.Assert(sv.Imp(a.Hits == b.Hits, lessEq(a.Document.ID(), b.Document.ID())), "equal hits are ordered by identifier")
	}
	l1 := visigoth.LinearSearch(q, ix)
	last := -1
	for _, r := range l1 {
		pos := -1
		for i := 0; i < ix.Len(); i++ {
			if ix.Document(i).Raw() == r.Document.Raw() {
				pos = i
			}
		}
		sv.Assert(pos > last, "linear search keeps the order of the puts")
		last = pos
	}
	sv.Observe("order", rawsOf(h1), rawsOf(l1))
	sv.MapOrder(true)
	h2 := visigoth.HitsSearch(q, ix)
	l2 := visigoth.LinearSearch(q, ix)
	sv.MapOrder(false)
	sv.Assert(sameResults(h1, h2), "repeating a hits search gives the same sequence")
	sv.Assert(sameResults(l1, l2), "repeating a linear search gives the same sequence")
}

func S03_small() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := sv.Bound("documents", 3, 4)
	for i := 0; i < n; i++ {
		ix.Put(visigoth.NewDocRequestWith(sv.Str("id", sv.Choose("idlen", 2)+i%2), "raw"+itoa(i), "k"+"m"))
	}
	checkOrder(ix, []string{"k", "m"}[:1+sv.Choose("two", 2)])
}

// More documents than any insertion-sort threshold, identifiers in awkward orders.
func S03_wide() {
	x, y := sv.Str("x", 1), sv.Str("y", 1)
	n := sv.Bound("many documents", 40, 80)
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	shape := sv.Choose("shape", 5)
	for i := 0; i < n; i++ {
		id := ""
		switch shape {
		case 0:
			id = "d" + itoa(100-i)
		case 1:
			id = "d" + itoa((i*37)%29)
		case 2:
			id = strings.Repeat("p", i%4) + itoa(i%3)
		case 3:
			id = strings.Repeat("identificador", 6) + itoa((i*7)%13)
		default:
			id = "same"
		}
		if i == 3 {
			id = x
		}
		if i == n-2 {
			id = "d" + y
			if shape == 3 {
				id = strings.Repeat("identificador", 6) + y
			}
		}
		st := "k"
		if i%4 != 0 {
			st += "m"
		}
		ix.Put(visigoth.NewDocRequestWith(id, "raw"+itoa(i), st))
	}
	checkOrder(ix, []string{"k", "m", "k"}[:1+sv.Choose("tokens", 3)])
}

// Different hit counts, from an Indexer whose postings repeat documents.
func S03_ranks() {
	n := sv.Bound("ranked documents", 3, 4)
	rs := make(visigoth.SearchResults, n)
	for i := range rs {
		rs[i] = visigoth.SearchResult{Document: visigoth.NewDoc(sv.Str("id", 1), itoa(i)), Hits: sv.Int("hits", 0, 1000)}
	}
	sort.Sort(rs)
	for i := 1; i < len(rs); i++ {
		a, b := rs[i-1], rs[i]
		sv.Assert(a.Hits >= b.Hits, "results are ordered by hits")
		sv.Assert(sv.Imp(a.Hits == b.Hits, lessEq(a.Document.ID(), b.Document.ID())), "equal hits are ordered by identifier")
	}
	sv.Observe("ranked", rawsOf(rs))
}

// ---- S04 ----

func checkNoop(ix *visigoth.MemoryIndex, docs []stored, q []string) {
	all := visigoth.NoopAllSearch(q, ix)
	sv.Observe("all", idsOf(all))
	sv.Assert(len(all) == len(docs), "every document is returned once")
	for i, r := range all {
		sv.Assert(sv.And(r.Document.ID() == docs[i].id, r.Document.Raw() == docs[i].raw, r.Hits == 0), "documents come in put order with zero hits")
	}
	sv.Assert(len(visigoth.NoopZeroSearch(q, ix)) == 0, "the empty engine returns nothing")
}

func S04_small() {
	ix, docs := someIndex(sv.Bound("tokens in all documents", 3, 5))
	q := someQuery(2)
	checkNoop(ix, docs, q)
	st := sv.StrIn("search", sv.Choose("search bytes", 3), ' ', 'z')
	sv.Assert(sameResults(ix.Search(st, visigoth.NoopAllSearch), visigoth.NoopAllSearch(q, ix)), "the query does not matter")
	sv.Assert(len(ix.Search(st, visigoth.NoopZeroSearch)) == 0, "the empty engine returns nothing")
}

// Documents with the same identifier and content.
func S04_twins() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs []stored
	for i := 0; i < sv.Bound("twins", 3, 4); i++ {
		d := stored{id: sv.StrIn("id", 1, '0', '9'), raw: sv.StrIn("raw", sv.Choose("rawlen", 2), 'a', 'z')}
		ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		docs = append(docs, d)
	}
	checkNoop(ix, docs, []string{"a"})
}

func S04_wide() {
	ix, docs := wideIndex(sv.Bound("documents", 140, 300))
	checkNoop(ix, docs, wideQuery())
}

// ---- S05 ----

// state renders everything an index holds.
func sameIndex(a, b *visigoth.MemoryIndex, toks []string) bool {
	ok := a.Len() == b.Len()
	if !ok {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		x, y := a.Document(i), b.Document(i)
		ok = sv.And(ok, x.ID() == y.ID(), x.Raw() == y.Raw())
	}
	for _, t := range toks {
		ok = sv.And(ok, sv.EqInts(a.Indexed(t), b.Indexed(t)))
	}
	return ok
}

func S05_small() {
	t, u := sv.StrIn("t", 2, 'a', 'z'), sv.StrIn("u", 1, 'a', 'z')
	build := func() *visigoth.MemoryIndex {
		ix := visigoth.NewMemoryIndex("i", byteTok{})
		ix.Put(visigoth.NewDocRequestWith("b", "r0", t))
		ix.Put(visigoth.NewDocRequestWith("a", "r1", "k"+t[:1]))
		ix.Put(visigoth.NewDocRequestWith("b", "r2", u+"k"))
		return ix
	}
	ix, ref := build(), build()
	q := someQuery(sv.Bound("query tokens", 2, 3))
	toks := append([]string{t[:1], t[1:], u, "k"}, q...)
	for i := 0; i < sv.Bound("searches", 2, 3); i++ {
		e := engines[sv.Choose("engine", 4)]
		e.e(q, ix)
		ix.Search(strings.Join(q, " "), e.e)
	}
	sv.Assert(sameIndex(ix, ref, toks), "searching leaves the documents and postings as they were")
	ix.Put(visigoth.NewDocRequestWith("c", "r3", u+t))
	ref.Put(visigoth.NewDocRequestWith("c", "r3", u+t))
	sv.Assert(sameIndex(ix, ref, toks), "searching does not influence later puts")
	for _, e := range engines {
		sv.Assert(sameResults(e.e(q, ix), e.e(q, ref)), "searching does not influence later searches")
	}
	sv.Observe("after", ix.Indexed(u))
}

func S05_wide() {
	n := sv.Bound("documents", 20, 40)
	x := sv.StrIn("x", 1, 'a', 'f')
	build := func() *visigoth.MemoryIndex {
		ix := visigoth.NewMemoryIndex("i", byteTok{})
		for i := 0; i < n; i++ {
			st := "a"
			if i%2 == 0 {
				st += "b"
			}
			if i == 9 {
				st += x
			}
			ix.Put(visigoth.NewDocRequestWith("d"+itoa(n-i), "r"+itoa(i), st))
		}
		return ix
	}
	ix, ref := build(), build()
	q := []string{"b", "a", sv.StrIn("q", 1, 'a', 'f')}[:1+sv.Choose("tokens", 3)]
	for i := 0; i < 3; i++ {
		for _, e := range engines {
			e.e(q, ix)
		}
	}
	sv.Assert(sameIndex(ix, ref, append([]string{"a", "b", x}, q...)), "searching leaves the documents and postings as they were")
	for _, e := range engines {
		sv.Assert(sameResults(e.e(q, ix), e.e(q, ref)), "searching does not influence later searches")
	}
}
