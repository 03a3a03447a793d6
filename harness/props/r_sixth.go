package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/visigoth"
)

// ---- R01..R05: arbitrary names of a few letters ----

// anyNames has arbitrary names long enough for a name with a meaning.
func anyNames(last ...string) {
	l := 3 + sv.Choose("length", sv.Bound("name lengths", 6, 12))
	pool := []string{sv.Str("n0", l), sv.Str("n1", l), sv.Str("al", l+sv.Choose("longer", 2))}
	sv.Assume(pool[0] != pool[1])
	sv.Order(1)
	r, m := newRepo(), &model{}
	for i := 0; i < 2; i++ {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(pool[i], visigoth.NewDocRequest(d.id, d.raw))
		m.put(pool[i], d)
		sv.Assert(r.Alias(pool[2], pool[i]) == m.addAlias(pool[2], pool[i]), "an alias is reported as added exactly when it is")
	}
	step(r, m, pool, 0, last)
	checkState(r, m, pool...)
}

func R01_names() { anyNames("put") }
func R02_names() { anyNames("search") }
func R03_names() { anyNames("alias", "unalias", "clear") }
func R04_names() { anyNames("rename") }
func R05_names() { anyNames("drop") }

// ---- X03: identifiers and contents of many lengths ----

func X03_lengths() {
	n, k := 4+sv.Choose("identifier", 10), []int{0, 3, 5, 7, 8, 9, 12, 16, 17}[sv.Choose("content", sv.Bound("content lengths", 9, 9))]
	id, content := sv.Str("id", n), sv.Str("content", k)
	mime := sv.Int("mime", 0, 3)
	req := visigoth.NewDocRequest(id, content)
	switch sv.Choose("kind", 3) {
	case 1:
		req = visigoth.NewDocRequestWith(id, content, content)
	case 2:
		req = visigoth.NewDocRequestWithMime(id, content, visigoth.MimeType(mime))
	}
	sv.Assert(sv.And(req.ID() == id, req.Raw() == content, req.Statement() == content), "a request carries what it was made from")
	ix := visigoth.NewMemoryIndex("i", wholeTok{})
	ix.Put(visigoth.NewDocRequest("first", "zzz"))
	ix.Put(req)
	d := ix.Document(1)
	sv.Assert(sv.And(d.ID() == id, d.Raw() == content), "a document keeps its identifier and content")
	sv.Assume(content != "zzz")
	for _, e := range engines[:3] {
		rs := ix.Search(content, e.e)
		at := 0
		if e.name == "all" {
			at = 1
		}
		sv.Assert(len(rs) == at+1, "the document is returned once")
		if len(rs) == at+1 {
			sv.Assert(sv.And(rs[at].Document.ID() == id, rs[at].Document.Raw() == content), "a result carries the document as it was put")
		}
	}
}

// ---- S06: many words, many documents ----

func S06_many() {
	n := []int{2, 5, 9, 17, 33, 65, 129, 257}[sv.Choose("words", sv.Bound("word counts", 7, 8))]
	x := sv.StrIn("x", 1, 'a', 'z')
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, []string{"Zk", "tp", "Árb", "ñu"}[i%4]+itoa(i*3))
	}
	ws[n/2] = "zkw" + x + "p"
	text := strings.Join(ws, "; ")
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("9", "otro documento: "+ws[0]))
	ix.Put(visigoth.NewDocRequest("8", text+"!"))
	more := []int{0, 3, 70, 140}[sv.Choose("more documents", sv.Bound("more documents", 3, 4))]
	for i := 0; i < more; i++ {
		ix.Put(visigoth.NewDocRequest(itoa(i%10), "documento "+itoa(i)+" "+ws[n-1]))
	}
	ix.Put(visigoth.NewDocRequest("7", "final "+text+" final"))
	var q []string
	switch sv.Choose("query", 4) {
	case 0:
		q = ws
	case 1:
		for i := range ws {
			q = append(q, ws[n-1-i])
		}
	case 2:
		q = []string{ws[n-1], ws[n/2], ws[n-1]}
	case 3:
		for i := 0; i < n; i += 3 {
			q = append(q, strings.ToUpper(ws[i]), ws[0], strings.ToLower(ws[i]))
		}
	}
	query := strings.Join(q, " - ")
	checkFound(ix, 1, q, query)
	checkFound(ix, ix.Len()-1, q, query)
	sv.Assert(sameSet(idsOf(ix.Search(query, visigoth.HitsSearch)), idsOf(ix.Search(query, visigoth.LinearSearch))), "both engines return the same documents")
}

// Two arbitrary short words next to each other, in documents that share one.
func S06_pairs() {
	a, b := "k"+sv.StrIn("a", 1, 'a', 'z')+"t", "k"+sv.StrIn("b", 1, 'a', 'z')+"t"
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", a+" "+b))
	ix.Put(visigoth.NewDocRequest("2", b+", "+b))
	ix.Put(visigoth.NewDocRequest("3", "x"))
	checkFound(ix, 0, []string{a, b}, b+" "+a)
	checkFound(ix, 0, []string{a, a}, a+" "+strings.ToUpper(a))
	checkFound(ix, 1, []string{b}, b)
}

// ---- R01..R05: very long histories ----

func marathon(last ...string) {
	sv.Order(1 + sv.Choose("order", 2))
	x := sv.Str("x", 1)
	pool := []string{"a", "b", x, "d", "al", "am"}
	for _, n := range []string{"a", "b", "d"} {
		sv.Assume(x != n)
	}
	r, m := newRepo(), &model{}
	seed := uint32(sv.Choose("mixture", sv.Bound("mixtures", 2, 6)))*104729 + 777
	next := func(n int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>16) % n
	}
	for k := 0; k < sv.Bound("operations in a long history", 300, 800); k++ {
		d := mdoc{"s" + itoa(k), "step" + itoa(k)}
		i, j := next(len(pool)), next(len(pool))
		switch next(10) {
		case 0, 1, 2, 3:
			r.Put(pool[i], visigoth.NewDocRequest(d.id, d.raw))
			m.put(pool[i], d)
		case 4, 5:
			a := pool[4+next(2)]
			sv.Assert(r.Alias(a, pool[j]) == m.addAlias(a, pool[j]), "an alias is reported as added exactly when it is")
		case 6:
			got := r.UnAlias(pool[4+i%2], pool[j])
			want, known := m.unAlias(pool[4+i%2], pool[j])
			sv.Assert(sv.Or(sv.Not(known), got == want), "removing reports whether the alias existed")
		case 7:
			sv.Assert(r.Rename(pool[i], pool[j]) == m.rename(pool[i], pool[j]), "renaming succeeds exactly when the index exists")
		case 8:
			if next(4) == 0 {
				sv.Assert(r.Drop(pool[i]) == m.drop(pool[i]), "dropping succeeds exactly when the index exists")
			}
		case 9:
			drain(r, pool[i], "s", visigoth.HitsSearch)
		}
	}
	checkListings(r, m)
	step(r, m, pool, 999, last)
	checkState(r, m, pool...)
}

func R01_marathon() { marathon("put") }
func R02_marathon() { marathon("search") }
func R03_marathon() { marathon("alias", "unalias", "clear") }
func R04_marathon() { marathon("rename") }
func R05_marathon() { marathon("drop") }

// ---- S03: identifiers of many lengths, many results ----

func S03_lengths() {
	l := []int{1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}[sv.Choose("length", sv.Bound("identifier lengths", 18, 18))]
	base := strings.Repeat("identificador/", 8)[:l]
	x, y := sv.Str("x", 2), sv.Str("y", 1+sv.Choose("longer", 2))
	ids := []string{base + x, base + y, base, base + "b" + x}
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	for i, id := range ids {
		ix.Put(visigoth.NewDocRequestWith(id, "raw"+itoa(i), "km"))
	}
	checkOrder(ix, []string{"k"})
}

func S03_many() {
	n := someSize("documents")
	x := sv.Str("x", 1)
	shape := sv.Choose("shape", 4)
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	for i := 0; i < n; i++ {
		id := ""
		switch shape {
		case 0:
			id = "d" + itoa(n-i)
		case 1:
			id = "d" + itoa((i*37)%101)
		case 2:
			id = "same"
		case 3:
			id = itoa(i % 7)
		}
		if i == n/3 {
			id = x
		}
		ix.Put(visigoth.NewDocRequestWith(id, "raw", "k"))
	}
	rs := ix.Search("k", visigoth.HitsSearch)
	sv.Assert(len(rs) == n, "every document is found")
	for i := 1; i < len(rs); i++ {
		sv.Assert(lessEq(rs[i-1].Document.ID(), rs[i].Document.ID()), "equal hits are ordered by identifier")
	}
	sv.Assert(sameResults(rs, ix.Search("k", visigoth.HitsSearch)), "repeating a hits search gives the same sequence")
	ls := ix.Search("k", visigoth.LinearSearch)
	sv.Assert(len(ls) == n, "every document is found")
	for i, r := range ls {
		sv.Assert(r.Document.ID() == ix.Document(i).ID(), "linear search keeps the order of the puts")
	}
}

// ---- S04, S05: sizes ----

func S04_many() {
	n := someSize("documents")
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs []stored
	for i := 0; i < n; i++ {
		d := stored{id: "d" + itoa(i%9), raw: "k"[:i%2]}
		if i == n/2 {
			d = stored{id: x, raw: x}
		}
		ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		docs = append(docs, d)
	}
	for _, q := range [][]string{nil, {"k"}, {x, "q"}} {
		all := visigoth.NoopAllSearch(q, ix)
		sv.Assert(len(all) == n, "every document is returned once")
		for i, r := range all {
			sv.Assert(sv.And(r.Document.ID() == docs[i].id, r.Document.Raw() == docs[i].raw, r.Hits == 0), "documents come in put order with zero hits")
		}
		sv.Assert(len(visigoth.NoopZeroSearch(q, ix)) == 0, "the empty engine returns nothing")
	}
	sv.Assert(len(ix.Search("k", visigoth.NoopAllSearch)) == n, "every document is returned once")
	sv.Assert(len(ix.Search("k", visigoth.NoopZeroSearch)) == 0, "the empty engine returns nothing")
}

func S05_many() {
	n := someSize("documents")
	x := sv.StrIn("x", 1, 'a', 'c')
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs []stored
	for i := 0; i < n; i++ {
		s := "k"
		if i%3 == 1 {
			s = "mk"
		}
		if i == n/2 {
			s = x + "m"
		}
		d := stored{id: "d" + itoa(n-i), raw: "raw", toks: byteTok{}.Tokenize(s)}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, s))
		docs = append(docs, d)
	}
	for i := 0; i < 3; i++ {
		for _, e := range engines {
			ix.Search([]string{"km", "k", "m" + x}[i], e.e)
		}
	}
	sv.Assert(ix.Len() == n, "searching leaves the documents and postings as they were")
	for i, d := range docs {
		g := ix.Document(i)
		sv.Assert(sv.And(g.ID() == d.id, g.Raw() == d.raw), "searching leaves the documents and postings as they were")
	}
	var ds [][]string
	for _, d := range docs {
		ds = append(ds, d.toks)
	}
	for _, t := range []string{"k", "m", x, "none"} {
		sv.Assert(sv.EqInts(ix.Indexed(t), refPostings(ds, t)), "searching leaves the documents and postings as they were")
	}
}
