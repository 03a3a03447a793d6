package props

import (
	"encoding/json"
	"strings"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// ---- C01, C02, C03: pairs of operations in repositories of other shapes ----

// special builds small repositories with something particular about them.
func special() (*visigoth.IndexRepo, *model, actor) {
	t := actor{"i0", "i1", "al", "fr"}
	r, m := newRepo(), &model{}
	put := func(n, raw string) {
		d := mdoc{"id" + raw, raw}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	alias := func(a, i string) {
		r.Alias(a, i)
		m.addAlias(a, i)
	}
	switch sv.Choose("repository", 7) {
	case 0: // empty
	case 1: // one index
		put(t.i0, "d0")
	case 2: // an alias with the name of an index
		put(t.i0, "d0")
		put(t.i1, "d1")
		t.a = t.i1
		alias(t.a, t.i0)
		alias(t.a, t.i1)
	case 3: // two aliases of one index
		put(t.i0, "d0")
		alias(t.a, t.i0)
		alias("other", t.i0)
	case 4: // empty again
		put(t.i0, "d0")
		alias(t.a, t.i0)
		r.Drop(t.i0)
		m.drop(t.i0)
	case 5: // renamed, with the alias under the old name
		put(t.i1, "d0")
		r.Rename(t.i1, t.i0)
		m.rename(t.i1, t.i0)
		alias(t.i1, t.i0)
	case 6: // an alias of an alias's name
		put(t.i0, "d0")
		put(t.a, "d1")
		alias(t.i1, t.a)
		alias(t.i1, t.i0)
	}
	return r, m, t
}

func C01_special() {
	r, _, t := special()
	o1, o2 := unordered(t.all("x"), t.all("y"))
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
	r.Put(t.f, visigoth.NewDocRequest("q", "q"))
	r.UnAlias(t.f, "")
}

func C02_special() {
	r, _, t := special()
	o1, o2 := unordered(t.all("x"), t.all("y"))
	sv.DetectRaces()
	sv.Preempt(sv.Bound("preemptive switches", 0, 1))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

func C03_special() {
	r, m, t := special()
	o1, o2 := pick2(t.mutators("x"), t.all("y"))
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	concurrent(r, m, t, [][]op{{o1}, {o2}})
}

// Streams of many results that are not read, or not to the end.
func C01_streams() {
	r, _ := recRepo([]int{0, 1, 2, 33, 70, 150, 300, 1100}[sv.Choose("results", 8)])
	sv.Order(1)
	r.Put("a", visigoth.NewDocRequest("d", "x"))
	r.Put("b", visigoth.NewDocRequest("d", "x"))
	r.Alias("z", "a")
	if sv.Choose("alias", 2) == 1 {
		r.Alias("z", "b")
	}
	s, err := r.Search([]string{"a", "z"}[sv.Choose("searched", 2)], "x", sevenEngine)
	sv.Assert(err == nil, "a search succeeds exactly when the name stands for something")
	for i := 0; i < sv.Choose("read", 3); i++ {
		s.Next()
	}
	switch sv.Choose("operation", 6) {
	case 0:
		r.Put("a", visigoth.NewDocRequest("d", "x"))
	case 1:
		r.Put("new", visigoth.NewDocRequest("d", "x"))
	case 2:
		r.Drop("a")
	case 3:
		r.Rename("a", "c")
	case 4:
		r.UnAlias("z", "a")
	case 5:
		r.Alias("y", "a")
	}
	k := 0
	for s.Next() {
		k++
	}
	sv.Assert(k <= 2200, "reading a stream ends")
	r.Put("a", visigoth.NewDocRequest("d", "x"))
	sv.Assert(r.Has("a"), "later operations return")
}

// ---- T05: lists of many lengths ----

func T05_lengths() {
	c := sv.Choose("tokens", sv.Bound("list lengths", 23, 24))
	n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 33, 62, 63, 65, 127, 130, 258, 515, 1030, 4099}[c]
	x := sv.StrIn("x", 1, 'a', 'z')
	flag := sv.Choose("flag", 2) == 1
	pool := []string{"canciones", "de", "muchachas", "corriendo", "la", "árboles", "estábamos", "nuestras", "1984", "sol", "diciéndoselo"}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, pool[i*7%11])
	}
	if n > 2 {
		l[n/2] = "perr" + x
		l[n-1] = "gatitos"
	}
	f := visigoth.NewSpanishStemmer(flag)
	stems := map[string]string{}
	for _, w := range pool {
		stems[w] = visigoth.NewSpanishStemmer(flag).Filter([]string{w})[0]
	}
	stems["gatitos"] = "gatit"
	keep := cloneStrs(l)
	got := f.Filter(l)
	sv.Assert(len(got) == n, "every token has one stem")
	for i := range got {
		if i == n/2 && n > 2 {
			sv.Assert(got[i] == visigoth.NewSpanishStemmer(flag).Filter([]string{"perr" + x})[0], "the stem is the token's own")
		} else {
			sv.Assert(got[i] == stems[keep[i]], "the stem is the token's own")
		}
	}
	sv.Assert(sv.EqStrs(l, keep), "the list given to a filter is left unchanged")
}

// The same for the other filters.
func filterLengths() (n int, l []string) {
	n = []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 17, 31, 33, 63, 65, 66, 67, 127, 130, 258, 515, 1030, 4099}[sv.Choose("tokens", 22)]
	x := sv.StrIn("x", 1, 'A', 'z')
	for i := 0; i < n; i++ {
		l = append(l, []string{"Él", "casa", "DE", "de", "Ñu", "x9", "la", "La", "PERRO"}[i*5%9])
	}
	if n > 2 {
		l[n/2] = "d" + x
		l[n-1] = "Ésa"
	}
	return
}

func T02_lengths() {
	_, l := filterLengths()
	keep := cloneStrs(l)
	got := visigoth.NewLowerCaseTokenizer().Filter(l)
	sv.Assert(len(got) == len(keep), "every token has one lower-case form")
	for i := range got {
		sv.Assert(got[i] == refLower(keep[i]), "a token is mapped to its lower case")
	}
	sv.Assert(sv.EqStrs(l, keep), "the list given to a filter is left unchanged")
}

func T03_lengths() {
	_, l := filterLengths()
	keep := cloneStrs(l)
	sw := visigoth.StopWords{"de": {}, "la": {}, "PERRO": {}}
	got := visigoth.NewStopWordsFilter(sw).Filter(l)
	var want []string
	for _, t := range keep {
		if sv.Not(sv.Or(t == "de", t == "la", t == "PERRO")) {
			want = append(want, t)
		}
	}
	sv.Assert(sv.EqStrs(got, want), "exactly the tokens that are no stop words remain, in order")
	sv.Assert(sv.EqStrs(l, keep), "the list given to a filter is left unchanged")
}

// ---- P01, X01, J03: looked at right after a put, and not at all before ----

func P01_fresh() {
	n := []int{0, 1, 20, 65, 97, 130, 300, 1030, 2100}[sv.Choose("words", 9)]
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", linesTok{})
	var docs [][]string
	put := func(ws ...string) {
		docs = append(docs, ws)
		ix.Put(visigoth.NewDocRequest("d", strings.Join(ws, "\n")))
	}
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, "w"+itoa(i%(n/2+1)))
	}
	if sv.Choose("before", 2) == 1 {
		put("one", x)
	}
	put(append(ws, x+"k")...)
	if sv.Choose("after", 2) == 1 {
		put(x)
	}
	look := func() {
		got := map[string]int{}
		for _, l := range lines(ix.String()) {
			got[l]++
		}
		want := map[string]string{}
		order := []string{}
		for i, d := range docs {
			for _, t := range d {
				p, old := want[t]
				if !old {
					order = append(order, t)
				}
				if s := itoa(i); !strings.HasSuffix(p, s) {
					want[t] = strings.TrimSpace(p + " " + s)
				}
			}
		}
		total := 3 + len(order)
		k := 0
		for _, c := range got {
			k += c
		}
		sv.Assert(k == total, "the printed index shows its name and every token with its positions, once")
		for _, t := range order {
			l := "\t[token=" + t + ",length=(" + itoa(1+strings.Count(want[t], " ")) + ")]=[" + want[t] + "]"
			sv.Assert(got[l] == 1, "the printed index shows its name and every token with its positions, once")
		}
	}
	look()
	look()
	put("last", x, "w1")
	look()
}

// Printed, replaced by decoding, and printed again.
func P01_decoded() {
	x, y := sv.StrIn("x", 1, 'a', 'z'), sv.StrIn("y", 1, 'a', 'z')
	a, b := visigoth.NewMemoryIndex("a", byteTok{}), visigoth.NewMemoryIndex("b", byteTok{})
	a.Put(visigoth.NewDocRequest("1", "0"+x))
	b.Put(visigoth.NewDocRequest("1", "0"+y))
	if sv.Choose("more", 2) == 1 {
		a.Put(visigoth.NewDocRequest("2", "0"))
	}
	_ = b.String()
	_ = a.String()
	enc, err := json.Marshal(a)
	sv.Assert(err == nil, "an index can be encoded")
	b.InvertedIndex = map[string][]int{}
	b.Docs = nil
	sv.Assert(json.Unmarshal(enc, b) == nil, "an encoded index can be decoded")
	docs := [][]string{{"0", x}}
	if a.Len() == 2 {
		docs = append(docs, []string{"0"})
	}
	sv.Assert(sameSet(lines(b.String()), printed("b", docs)), "the printed index shows its name and every token with its positions, once")
	b.Put(visigoth.NewDocRequest("3", "0"))
	sv.Assert(sameSet(lines(b.String()), printed("b", append(docs, []string{"0"}))), "the printed index shows its name and every token with its positions, once")
}

// ---- X03: contents that are alike ----

func X03_alike() {
	l := []int{1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 63, 65, 100, 129, 300, 1025, 5000}[sv.Choose("length", 21)]
	k := 41
	if l < 42 {
		k = l
	}
	at := sv.Choose("position", k)
	if l > 41 {
		at = at * (l - 1) / 40
	}
	same := strings.Repeat("same old content ", l/17+1)[:l]
	c, d := sv.Str("c", 1), sv.Str("d", 1)
	one, two := same[:at]+c+same[at+1:], same[:at]+d+same[at+1:]
	ix := visigoth.NewMemoryIndex("i", wholeTok{})
	id, jd := "d", "d"
	if sv.Choose("identifiers", 2) == 1 {
		id, jd = one, two
	}
	ix.Put(visigoth.NewDocRequestWith(id, one, "x"))
	ix.Put(visigoth.NewDocRequestWith(jd, two, "x"))
	ix.Put(visigoth.NewDocRequestWith(id, same, "x"))
	ix.Put(visigoth.NewDocRequestWith(id, one, "x"))
	for i, want := range []string{one, two, same, one} {
		sv.Assert(ix.Document(i).Raw() == want, "a document keeps its identifier and content")
	}
	rs := ix.Search("x", visigoth.LinearSearch)
	sv.Assert(len(rs) == 4, "a stored document is found")
	for i, want := range []string{one, two, same, one} {
		if i < len(rs) {
			sv.Assert(rs[i].Document.Raw() == want, "a result carries the content that was put")
			sv.Assert(rs[i].Document.ID() == []string{id, jd, id, id}[i], "a result carries the identifier that was put")
		}
	}
}

// ---- S01..S05, X01, X03: documents without identifier, content or words ----

func blank(e visigoth.Engine, all bool) {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := 1 + sv.Choose("documents", sv.Bound("documents", 4, 6))
	var docs []visigoth.DocRequest
	for i := 0; i < n; i++ {
		d := []visigoth.DocRequest{visigoth.NewDocRequest("", ""), visigoth.NewDocRequest("", "x"), visigoth.NewDocRequest("1", ""),
			visigoth.NewDocRequestWith("", "", "x"), {}, visigoth.NewDocRequestWith("1", "x", "")}[sv.Choose("document", 6)]
		docs = append(docs, d)
		ix.Put(d)
	}
	q := sv.StrIn("q", 1, 'w', 'y')
	want := map[string]int{}
	k := 0
	for _, d := range docs {
		if all || d.Statement() == q {
			want[d.ID()+"/"+d.Raw()]++
			k++
		}
	}
	rs := ix.Search(q, e)
	sv.Assert(len(rs) == k, "exactly the documents that match are returned, each once")
	for _, r := range rs {
		want[r.Document.ID()+"/"+r.Document.Raw()]--
	}
	for _, c := range want {
		sv.Assert(c == 0, "exactly the documents that match are returned, each once")
	}
	sv.Assert(ix.Len() == n, "the index holds one document per put")
}

func S01_blank() { blank(visigoth.HitsSearch, false) }
func S02_blank() { blank(visigoth.LinearSearch, false) }
func S04_blank() { blank(visigoth.NoopAllSearch, true) }
func X03_blank() { blank(visigoth.LinearSearch, false) }

// ---- R01..R05: names made of the names of others ----

func composed(last string) {
	r, m := newRepo(), &model{}
	sv.Order(1)
	sep := sv.Str("sep", 1)
	names := []string{"a", "b", "z"}
	for i, n := range []string{"a", "b", "c"} {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	alias := func(a, i string) {
		sv.Assert(r.Alias(a, i) == m.addAlias(a, i), "an alias is reported as added exactly when it is")
	}
	alias("z", "a")
	alias("z", "c")
	x, y := names[sv.Choose("left", 3)], names[sv.Choose("right", 3)]
	n := []string{x + sep + y, sep + x, x + sep, x + y, sep}[sv.Choose("form", 5)]
	if sv.Choose("known", 2) == 1 && m.index(n) < 0 {
		d := mdoc{"id", "composed"}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
		alias(n+sep, n)
	}
	switch last {
	case "put":
		d := mdoc{"id", "last"}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	case "search":
		want, ok := m.raws(n)
		got, gok := drain(r, n, "d", visigoth.NoopAllSearch)
		sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
		sv.Assert(sameSet(rawsOf(got), want), "every result is returned exactly once")
	case "alias":
		switch sv.Choose("operation", 4) {
		case 0:
			alias(n, "b")
		case 1:
			alias("z", n)
		case 2:
			got := r.UnAlias("z", n)
			want, _ := m.unAlias("z", n)
			sv.Assert(got == want, "removing reports whether the alias existed")
		case 3:
			got := r.UnAlias(n, "")
			want, _ := m.unAlias(n, "")
			sv.Assert(got == want, "removing reports whether the alias existed")
		}
	case "rename":
		o, p := "a", n
		if sv.Choose("from", 2) == 1 {
			o, p = n, "a"
		}
		sv.Assert(r.Rename(o, p) == m.rename(o, p), "renaming succeeds exactly when the index exists")
	case "drop":
		sv.Assert(r.Drop(n) == m.drop(n), "dropping succeeds exactly when the index exists")
	}
	checkState(r, m, n)
}

func R01_composed() { composed("put") }
func R02_composed() { composed("search") }
func R03_composed() { composed("alias") }
func R04_composed() { composed("rename") }
func R05_composed() { composed("drop") }

// ---- R02: some of the indices have nothing to say ----

func R02_sparse() {
	r := newRepo()
	n := []int{2, 3, 5, 6, 9, 17}[sv.Choose("indices", 6)]
	sv.Order(1)
	who := sv.Choose("with results", 6)
	var want []string
	has := func(i int) bool {
		switch who {
		case 0:
			return i == 0
		case 1:
			return i == n-1
		case 2:
			return i != 0
		case 3:
			return i != n-1
		case 4:
			return i == n/2
		}
		return i%2 == 1
	}
	q := []string{"", "x", "y", sv.Str("q", 1)}[sv.Choose("query", 4)]
	kind := sv.Choose("engine", 4)
	for i := 0; i < n; i++ {
		name := "i" + itoa(i)
		r.Put(name, visigoth.NewDocRequest("d", "y"+name))
		if has(i) {
			r.Put(name, visigoth.NewDocRequest("d", "x"+name))
		}
		r.Alias("z", name)
		if kind < 2 && has(i) {
			want = append(want, "x"+name)
		}
	}
	e := func(tokens []string, in visigoth.Indexer) (res slices.Slice[visigoth.SearchResult]) {
		for k := 0; k < in.Len(); k++ {
			if d := in.Document(k); d.Raw()[0] == 'x' {
				res = append(res, visigoth.SearchResult{Document: d, Hits: k})
			}
		}
		return
	}
	var es = []visigoth.Engine{e, e, visigoth.HitsSearch, visigoth.LinearSearch}
	if kind >= 2 {
		q = "x" + []string{"", "x", "i"}[sv.Choose("words", 3)]
		want = nil
		for i := 0; i < n; i++ {
			if has(i) {
				want = append(want, "xi"+itoa(i))
			}
		}
	}
	got, ok := drain(r, "z", q, es[kind])
	sv.Assert(ok, "a search succeeds exactly when the name stands for something")
	sv.Assert(sameSet(rawsOf(got), want), "every result is returned exactly once")
}

// ---- R03: members of larger aliases ----

func R03_members() {
	n := []int{1, 2, 3, 4, 5, 9, 17, 40}[sv.Choose("indices", 8)]
	r, m := newRepo(), &model{}
	sv.Order(1)
	for i := 0; i < n; i++ {
		name := "i" + itoa(i)
		d := mdoc{"d", name}
		r.Put(name, visigoth.NewDocRequest(d.id, d.raw))
		m.put(name, d)
	}
	in := []int{1, n - 1, n, (n + 1) / 2}[sv.Choose("associated", 4)]
	for i := 0; i < in; i++ {
		name := "i" + itoa((i*7+1)%n)
		if n%7 == 0 {
			name = "i" + itoa(i)
		}
		sv.Assert(r.Alias("z", name) == m.addAlias("z", name), "an alias is reported as added exactly when it is")
	}
	for k := 0; k < 2; k++ {
		i := []int{0, 1, n - 1, n / 2, n - 2, n}[sv.Choose("index", 6)]
		name := "i" + itoa(i)
		if sv.Choose("operation", 2) == 0 {
			sv.Assert(r.Alias("z", name) == m.addAlias("z", name), "an alias is reported as added exactly when it is")
		} else {
			got := r.UnAlias("z", name)
			want, _ := m.unAlias("z", name)
			sv.Assert(got == want, "removing reports whether the alias existed")
		}
	}
	checkListings(r, m)
	sv.Assert(r.HasAlias("z") == (m.alias("z") >= 0), "an alias is reported exactly when it exists")
}
