package props

import (
	"strings"

	"svharness/sv"

	"github.com/sonirico/visigoth"
)

// padTok makes every byte but the space a token of at least n bytes more, the
// byte being somewhere in it.
type padTok struct{ n int }

var padSizes = []int{3, 7, 8, 16, 33, 70, 260}

func somePad() padTok {
	return padTok{padSizes[sv.Choose("token length", sv.Bound("token lengths", 5, 7))]}
}

func (p padTok) pad(b string) string {
	s := strings.Repeat("largo", p.n/5+1)[:p.n]
	return s[:p.n*2/3] + b + s[p.n*2/3:]
}

func (p padTok) Tokenize(s string) []string {
	var r []string
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			r = append(r, p.pad(s[i:i+1]))
		}
	}
	return r
}

// ---- X01: documents put late, long tokens ----

func X01_later() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := []int{3, 8, 20, 64, 130}[sv.Choose("documents before", sv.Bound("documents before", 3, 5))]
	var docs [][]string
	put := func(s string) {
		ix.Put(visigoth.NewDocRequest("d", s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	for i := 0; i < n; i++ {
		put("ZY"[:1+i%2])
	}
	all := ""
	for i := 0; i < 3; i++ {
		k := []int{2, 2, 1}[i]
		s := sv.StrIn("t", sv.Choose("tokens", k+1), 'a', 'z') + []string{"", "Z", "W"}[i]
		put(s)
		all += s
	}
	checkIndex(ix, docs, append(byteTok{}.Tokenize(all), "Z", "Y", "X", "W")...)
}

// every token of a repository of long tokens, with every engine
func longTokens(letters int, check func(ix *visigoth.MemoryIndex, p padTok, docs []stored, q []string)) {
	p := somePad()
	a, b := sv.StrIn("a", letters, 'a', 'z'), sv.StrIn("b", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", p)
	var docs []stored
	for i, s := range []string{a, "k" + b, b + a[:1] + "k", ""} {
		d := stored{id: "d" + itoa(3-i), raw: "raw" + itoa(i), toks: p.Tokenize(s)}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, s))
		docs = append(docs, d)
	}
	q := p.Tokenize(sv.StrIn("q", 1, 'a', 'z') + "k"[:sv.Choose("two", 2)])
	switch sv.Choose("other", 4) {
	case 1:
		q[0] = q[0][:len(q[0])-1]
	case 2:
		q[0] += "s"
	case 3:
		q = append(q, a)
	}
	check(ix, p, docs, q)
}

func X01_long() {
	longTokens(2, func(ix *visigoth.MemoryIndex, p padTok, docs []stored, q []string) {
		var ds [][]string
		for _, d := range docs {
			ds = append(ds, d.toks)
			q = append(q, d.toks...)
		}
		checkIndex(ix, ds, q...)
	})
}

func S01_words() {
	longTokens(2, func(ix *visigoth.MemoryIndex, p padTok, docs []stored, q []string) {
		checkMatches("hits", visigoth.HitsSearch(q, ix), docs, q)
		checkMatches("hits", visigoth.HitsSearch(q, ix), docs, q)
	})
}

func S02_words() {
	longTokens(2, func(ix *visigoth.MemoryIndex, p padTok, docs []stored, q []string) {
		checkMatches("linear", visigoth.LinearSearch(q, ix), docs, q)
		checkMatches("linear", visigoth.LinearSearch(q, ix), docs, q)
	})
}

// what the exported fields of an index hold is as it was
func sameFields(ix *visigoth.MemoryIndex, docs []stored) {
	sv.Assert(len(ix.Docs) == len(docs), "searching leaves the documents and postings as they were")
	var ds [][]string
	for i, d := range docs {
		if i < len(ix.Docs) {
			sv.Assert(sv.And(ix.Docs[i].ID() == d.id, ix.Docs[i].Raw() == d.raw), "searching leaves the documents and postings as they were")
		}
		ds = append(ds, d.toks)
	}
	n := 0
	for t, l := range ix.InvertedIndex {
		sv.Assert(sv.EqInts(l, refPostings(ds, t)), "searching leaves the documents and postings as they were")
		sv.Assert(len(l) > 0, "searching leaves the documents and postings as they were")
		n++
	}
	var seen []string
	for _, d := range ds {
		for _, t := range d {
			if pos(seen, t) < 0 {
				seen = append(seen, t)
			}
		}
	}
	sv.Assert(n == len(seen), "searching leaves the documents and postings as they were")
}

func S05_words() {
	longTokens(1, func(ix *visigoth.MemoryIndex, p padTok, docs []stored, q []string) {
		qc := cloneStrs(q)
		for i := 0; i < 2; i++ {
			for _, e := range engines {
				e.e(q, ix)
			}
		}
		ix.Indexed(q[0])
		sv.Assert(sv.EqStrs(q, qc), "searching leaves the query as it was")
		for _, e := range engines {
			ix.Search("qk", e.e)
			ix.Search("", e.e)
			ix.Search("unknown", e.e)
		}
		sameFields(ix, docs)
	})
}

// Queries of several tokens, some of them repeated; an engine leaves them as they are.
func repeats(name string, e visigoth.Engine) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	var docs []stored
	x := sv.StrIn("x", 1, 'a', 'c')
	for i, s := range []string{"a", "ab", "b" + x, "aabb" + x} {
		d := stored{id: "d" + itoa(3-i), raw: "raw" + itoa(i), toks: byteTok{}.Tokenize(s)}
		ix.Put(visigoth.NewDocRequestWith(d.id, d.raw, s))
		docs = append(docs, d)
	}
	n := 1 + sv.Choose("tokens", sv.Bound("tokens of a query with repetitions", 5, 6))
	var q []string
	for i := 0; i < n; i++ {
		q = append(q, []string{"a", "b", "c"}[sv.Choose("token", 3)])
	}
	g, whole := window(q...)
	checkMatches(name, e(g, ix), docs, q)
	checkUnchanged(whole, q...)
}

func S01_repeats() { repeats("hits", visigoth.HitsSearch) }
func S02_repeats() { repeats("linear", visigoth.LinearSearch) }

// An engine leaves the tokens it is given as they are, whatever their lengths.
func X02_query() {
	p := somePad()
	a, b := sv.StrIn("a", 1, 'a', 'z'), sv.StrIn("b", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	pool := []string{a, p.pad(b), "m", b + "k", p.pad(a) + b}
	k, l := sv.Choose("first", len(pool)), sv.Choose("second", len(pool))
	q := []string{pool[k], pool[l], pool[(k+l)%len(pool)]}
	ix.Put(visigoth.NewDocRequest("1", strings.Join(pool, " ")))
	ix.Put(visigoth.NewDocRequest("2", "m "+strings.Join(q, " ")))
	e := engines[sv.Choose("engine", 4)].e
	g, whole := window(q...)
	before := e(g, ix)
	checkUnchanged(whole, q...)
	for i := range g {
		g[i] = "changed"
	}
	sv.Assert(sameResults(e(cloneStrs(q), ix), before), "changing the tokens given to an engine does not change later results")
	checkIndex(ix, [][]string{pool, append([]string{"m"}, q...)}, append(q, pool...)...)
}

// ---- T06: bytes that are not UTF-8 ----

func T06_invalid() {
	n := sv.Bound("places of a word", 5, 6)
	w, odd := "", 0
	for i := 0; i < n; i++ {
		switch c := sv.Choose("place", 4); {
		case c == 0:
			w += "a"
		case c == 1:
			w += "b"
		case c == 2 && odd < 2:
			odd++
			w += sv.StrIn("byte", 1, 0x80, 0xff)
		case c == 3:
			w += "á"
		default:
			return
		}
	}
	checkRegions(w)
}

// ---- J02: long unknown members ----

func J02_unknown() {
	known := []string{"doc", "hits", "id", "raw"}[sv.Choose("like", 4)]
	more := []string{"document", "documents", "content", "identifier", "name", "score", "value", "Doc", "HITS", "hit", "iD", "doc2", "doc.id", "_id", "text", "body", "title", "hitscount", "hits_count", ""}
	k := more[sv.Choose("key", len(more)+2)%len(more)]
	if c := sv.Choose("byte", 3); c == 1 {
		k = known + sv.StrIn("c", 1, '-', 'z')
	} else if c == 2 {
		k = sv.StrIn("c", 1, '-', 'z') + known
	}
	sv.Assume(sv.Not(strings.Contains(k, "\\")))
	v := []string{`1`, `"s"`, `{"id":"x","raw":"y","hits":3}`, `{"doc":{"id":"x"}}`, `[3]`, `true`}[sv.Choose("value", 6)]
	text := `{"` + k + `":` + v + `,"hits":12,"doc":{"raw":"r","` + k + `":` + v + `,"id":"i"},"` + k + `":` + v + `}`
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("decoded", text, err == nil, r.Document.ID(), r.Document.Raw(), r.Hits)
	sv.Assert(err == nil, "unknown members are ignored")
	sv.Assert(sv.And(r.Document.ID() == "i", r.Document.Raw() == "r", r.Hits == 12), "unknown members are ignored")
}

// ---- P01: sizes and histories ----

func P01_sizes() {
	n := someSize("documents")
	t := sv.StrIn("t", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("many", byteTok{})
	var docs [][]string
	for i := 0; i < n; i++ {
		s := "k"
		if i == n/2 {
			s += t
		}
		ix.Put(visigoth.NewDocRequest("d"+itoa(i), s))
		docs = append(docs, byteTok{}.Tokenize(s))
	}
	sv.Assert(sameSet(lines(ix.String()), printed("many", docs)), "the printed index shows its name and every token with its positions, once")
}

func P01_tokens() {
	n := []int{3, 9, 17, 40, 65, 110, 260}[sv.Choose("tokens", sv.Bound("numbers of tokens", 6, 7))]
	t := sv.StrIn("t", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("many", wordTok{})
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, strings.Repeat("w", i%7*10)+"w"+itoa(i))
	}
	ws = append(ws, "largo"+t, t)
	ix.Put(visigoth.NewDocRequest("1", strings.Join(ws, " ")))
	ix.Put(visigoth.NewDocRequest("2", t+" w1"))
	sv.Order(1)
	sv.Assert(sameSet(lines(ix.String()), printed("many", [][]string{ws, {t, "w1"}})), "the printed index shows its name and every token with its positions, once")
}

// A repository that has seen renames and drops: an index is printed under the
// name it was built with, so several may look alike.
func P01_history() {
	r := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(byteTok{}))
	x := sv.StrIn("x", 1, 'a', 'z')
	type ent struct {
		name, built string
		docs        [][]string
	}
	var ents []*ent
	find := func(n string) int {
		for i, e := range ents {
			if e.name == n {
				return i
			}
		}
		return -1
	}
	put := func(n string) {
		r.Put(n, visigoth.NewDocRequest("d", x+"y"))
		i := find(n)
		if i < 0 {
			ents = append(ents, &ent{n, n, nil})
			i = len(ents) - 1
		}
		ents[i].docs = append(ents[i].docs, []string{x, "y"})
	}
	put("a")
	put("b")
	names := []string{"a", "b", "c"}
	for k := 0; k < sv.Bound("operations", 3, 4); k++ {
		n := names[sv.Choose("name", 3)]
		switch sv.Choose("operation", 3) {
		case 0:
			put(n)
		case 1:
			to := names[sv.Choose("to", 3)]
			if i := find(n); r.Rename(n, to) && i >= 0 && n != to {
				if j := find(to); j >= 0 {
					ents = append(ents[:j:j], ents[j+1:]...)
				}
				ents[find(n)].name = to
			}
		case 2:
			if i := find(n); r.Drop(n) && i >= 0 {
				ents = append(ents[:i:i], ents[i+1:]...)
			}
		}
	}
	var want []string
	for _, e := range ents {
		want = append(want, printed(e.built, e.docs)...)
	}
	ls := lines(r.String())
	if len(ents) == 0 {
		return
	}
	sv.Assert(ls[len(ls)-1] == "", "the printed repository ends with a newline")
	sv.Assert(sameSet(ls[:len(ls)-1], want), "the printed repository shows every index once")
}

// ---- R06: writing names that exist to a listing ----

func R06_shuffle() {
	n := 2 + sv.Choose("indices", 3)
	names := []string{sv.Str("i0", 1), sv.Str("i1", 1), "i2", "i3"}[:n]
	sv.Assume(names[0] != names[1])
	r, m := newRepo(), &model{}
	for i, x := range names {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(x, visigoth.NewDocRequest(d.id, d.raw))
		m.put(x, d)
		r.Alias("al", x)
		m.addAlias("al", x)
		if i != 1 {
			r.Alias("be", x)
			m.addAlias("be", x)
		}
	}
	for k := 0; k < 2; k++ {
		l, la := r.List(), r.ListAliases()
		l2, la2 := r.List(), r.ListAliases()
		lc, lac := cloneStrs(l2), copyAliases(la2)
		how := sv.Choose("written", 4)
		write := func(l []string) {
			switch {
			case len(l) < 2:
			case how == 0:
				l[0], l[1] = l[1], l[0]
			case how == 1:
				l[0] = l[1]
			case how == 2:
				l[len(l)-1] = ""
			case how == 3:
				copy(l, append([]string{"al"}, l...))
			}
		}
		write(l)
		for _, row := range la.Aliases {
			write(row.Indices)
		}
		if len(la.Aliases) > 1 {
			la.Aliases[0] = la.Aliases[1]
		}
		sv.Assert(sv.EqStrs(l2, lc), "a listing of indices does not change later")
		sv.Assert(sameRows(la2, lac), "a listing of aliases does not change later")
		checkState(r, m, append(names, "al")...)
		checkAliases(r.ListAliases(), m)
		sv.Assert(sameSet(r.List(), m.names()), "a listing gives the indices there are")
	}
}

// ---- C01..C03: a repository with several indices and aliases ----

func stageWide() (*visigoth.IndexRepo, *model, actor) {
	t := actor{"i0", "i1", "al", "fr"}
	r, m := newRepo(), &model{}
	names := []string{t.i0, t.i1, "i2", "i3", "i4"}
	for k, n := range names {
		d := mdoc{"id" + itoa(k), "d" + itoa(k)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	add := func(a, n string) {
		r.Alias(a, n)
		m.addAlias(a, n)
	}
	add(t.a, t.i0)
	add(t.a, t.i1)
	for _, n := range names {
		add("every", n)
	}
	add("be", t.i1)
	add("ce", t.i0)
	add("de", "i4")
	return r, m, t
}

func (t actor) wide(tag string) []op {
	return []op{
		t.put("put under an index", t.i0, "d"+tag),
		t.put("put under an alias", t.a, "d"+tag),
		t.put("put under a new name", t.f, "d"+tag),
		t.alias("alias, new", t.f, t.i0),
		t.alias("alias, existing", t.a, "i3"),
		t.alias("alias, there already", t.a, t.i0),
		t.alias("alias, no index", t.a, t.f),
		t.unalias("unalias one", t.a, t.i0),
		t.unalias("unalias, no alias", t.f, t.i0),
		t.unalias("unalias all", "every", ""),
		t.rename("rename to a new name", t.i0, t.f),
		t.rename("rename onto an index", t.i0, t.i1),
		t.rename("rename a missing index", t.f, t.i0),
		t.drop("drop", t.i0),
		t.drop("drop an alias name", t.a),
		t.search("search an index", t.i0),
		t.search("search an alias", t.a),
		t.search("search a missing name", t.f),
		t.has("has", t.i0),
		t.has("has a missing name", t.f),
		t.hasAlias("has alias", t.a),
		t.hasAlias("has a missing alias", t.f),
		t.list("list"),
		t.listAliases("list aliases"),
		t.text("text"),
		t.hasAlias("has the alias of all", "every"),
		t.unalias("unalias one of all", "every", t.i0),
	}
}

func C01_wide() {
	r, _, t := stageWide()
	o1, o2 := unordered(t.wide("x"), t.wide("y"))
	sv.Preempt(sv.Bound("preemptive switches in a wide repository", 2, 3))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
	r.Put(t.f, visigoth.NewDocRequest("q", "q"))
	r.UnAlias(t.f, "")
}

func C02_wide() {
	r, _, t := stageWide()
	o1, o2 := unordered(t.wide("x"), t.wide("y"))
	sv.DetectRaces()
	sv.Preempt(sv.Bound("preemptive switches in a wide repository", 2, 3))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

func C03_wide() {
	r, m, t := stageWide()
	o1, o2 := unordered(t.wide("x"), t.wide("y"))
	sv.Preempt(sv.Bound("preemptive switches in a wide repository", 2, 3))
	concurrent(r, m, t, [][]op{{o1}, {o2}})
}
