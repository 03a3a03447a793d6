package props

import (
	"sort"
	"strings"
	"time"

	"svharness/sv"

	"github.com/sonirico/vago/slices"
	visigoth "github.com/sonirico/visigoth"
)

// ---- indices and engines that take their time ----

const slow = 6 * time.Second

// slowIndex takes its time for every put, except the one named a.
type slowIndex struct {
	recIndex
	delay *bool
}

func (x *slowIndex) Put(d visigoth.DocRequest) visigoth.Index {
	if *x.delay && x.name != "a" {
		time.Sleep(slow)
	}
	x.recIndex.Put(d)
	return x
}

// R02_slow: a search waits for all results, however long an engine takes.
func R02_slow() {
	n := 2
	r := newRepo()
	for i := 0; i < n; i++ {
		r.Put("i"+itoa(i), visigoth.NewDocRequest("d"+itoa(i), "x"))
		r.Alias("al", "i"+itoa(i))
	}
	single := sv.Bool("one index")
	name, want := "al", n
	if single {
		name, want = "i1", 1
	}
	sr, err := r.Search(name, "x", func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		if ix.Document(0).Name == "d1" {
			time.Sleep(slow)
		}
		return visigoth.LinearSearch(tokens, ix)
	})
	sv.Assert(err == nil, "the search succeeds")
	got := 0
	for sr.Next() {
		got++
	}
	sv.Assert(got == want, "a search waits for every result")
}

// R01_slow: a put returns when every index has the document.
func R01_slow() {
	var built []*slowIndex
	delay := false
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		x := &slowIndex{recIndex{name: name}, &delay}
		built = append(built, x)
		return x
	})
	r.Put("a", visigoth.NewDocRequest("d", "x"))
	r.Put("b", visigoth.NewDocRequest("d", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	delay = true
	if sv.Bool("alias") {
		r.Put("al", visigoth.NewDocRequest("e", "y"))
		sv.Assert(len(built) == 2 && len(built[0].docs) == 2 && len(built[1].docs) == 2, "a put waits for every index")
	} else {
		r.Put("new", visigoth.NewDocRequest("e", "y"))
		sv.Assert(len(built) == 3 && len(built[2].docs) == 1, "a put waits for the new index")
	}
}

// ---- repositories that are large in one respect ----

// alike are words that simple hash functions do not tell apart.
var alike = [][2]string{
	{"dubrocarob", "pernaviz"},   // FNV-1, 32 bits
	{"lijumor", "perlijufen"},    // FNV-1a, 32 bits
	{"pitoracom", "romodub"},     // CRC-32
	{"conaromem", "novifegur"},   // CRC-32C
	{"tonatamab", "toraducad"},   // Adler-32
	{"fefedud", "gutatonol"},     // 31
	{"fefepermab", "trilocacom"}, // djb2
	{"naratabroz", "pernagusad"}, // djb2 with xor
	{"jutapifet", "tarolinol"},   // sdbm
	{"mosanafel", "vimanan"},     // one at a time
	{"rota", "tora"},             // sum of the letters
	{"carta", "casta"},           // length and ends
}

type bulk struct {
	r *visigoth.IndexRepo
	m *model
}

func (b bulk) put(n, raw string) {
	d := mdoc{"id" + raw, raw}
	b.r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
	b.m.put(n, d)
}

func (b bulk) alias(a, i string) {
	sv.Assert(b.r.Alias(a, i) == b.m.addAlias(a, i), "an alias is reported as added exactly when it is")
}

// fresh and freshAlias are put and alias for what is known to be new.
func (b bulk) fresh(n, raw string) {
	b.r.Put(n, visigoth.NewDocRequest("id"+raw, raw))
	b.m.idx = append(b.m.idx, mindex{n, []mdoc{{"id" + raw, raw}}})
}

func (b bulk) freshAlias(a, i string) {
	sv.Assert(b.r.Alias(a, i), "an alias is reported as added exactly when it is")
	if k := len(b.m.al) - 1; k >= 0 && b.m.al[k].name == a {
		b.m.al[k].to = append(b.m.al[k].to, i)
		return
	}
	b.m.al = append(b.m.al, malias{a, []string{i}})
}

// bulky builds a repository and names of it.
func bulky() (b bulk, pool []string) {
	b = bulk{newRepo(), &model{}}
	many := sv.Bound("size of what is large", 1030, 2100)
	base := func(names ...string) []string { // two indices, one of them with an alias
		b.put(names[0], "da")
		b.put(names[1], "db")
		b.alias(names[2], names[0])
		return names
	}
	long := func(n, at int) []string {
		var l []string
		for i := 0; i < 4; i++ {
			l = append(l, letters(at)+string(rune('A'+i))+letters(n-at-1))
		}
		return l
	}
	switch k := sv.Choose("large", 11); k {
	case 0: // indices
		for i := 0; i < many; i++ {
			b.fresh("x"+itoa(i), "d"+itoa(i))
		}
		b.alias("al", "x0")
		b.alias("al", "x"+itoa(many-1))
		return b, []string{"x0", "x" + itoa(many-1), "al", "fr"}
	case 1: // indices of one alias
		for i := 0; i < many; i++ {
			b.fresh("x"+itoa(i), "d"+itoa(i))
			b.freshAlias("al", "x"+itoa(i))
		}
		return b, []string{"x0", "x" + itoa(many-1), "al", "fr"}
	case 2: // aliases
		base("i0", "i1", "al", "fr")
		for i := 0; i < many; i++ {
			b.freshAlias("x"+itoa(i), "i"+itoa(i%2))
		}
		return b, []string{"i0", "i1", "x" + itoa(many-1), "fr"}
	case 3: // aliases of one index
		base("i0", "i1", "al", "fr")
		for i := 0; i < many; i++ {
			b.freshAlias("x"+itoa(i), "i1")
		}
		return b, []string{"i0", "i1", "x0", "fr"}
	case 4, 5, 6: // names
		n := []int{70, 300, 5000}[k-4]
		return b, base(long(n, []int{0, n / 2, n - 1}[sv.Choose("difference", 3)])...)
	case 7: // names that hash alike
		p := alike[sv.Choose("pair", len(alike))]
		if sv.Bool("aliases") {
			return b, base("i0", "i1", p[0], p[1])
		}
		return b, base(p[0], p[1], "al", "fr")
	case 8: // documents
		l := base("i0", "i1", "al", "fr")
		for i := 0; i < sv.Bound("documents of a large index", 300, 600); i++ {
			b.put("i0", "d"+itoa(i))
		}
		b.alias("al", "i1")
		return b, l
	case 9: // names that are cut, cleaned or parsed
		odd := []string{"a/", "./a", "a//b", "../a", "a.", ".a", "a ", " a", "a\x00", "A", "a%20", "%s", "a,b", "a*", "?", "[a]", "-", "_a", "0", "00", "nil", "<nil>", "a\n", "é", "é"}
		o := odd[sv.Choose("odd name", len(odd))]
		switch sv.Choose("place of the odd name", 3) {
		case 0:
			return b, base(o, "a", "al", "b")
		case 1:
			return b, base("i0", "a", o, "b")
		}
		return b, base("a", "i1", "b", o)
	}
	// operations
	l := base("i0", "i1", "al", "fr")
	b.alias("am", "i0")
	b.alias("am", "i1")
	kind := sv.Choose("many operations", 8)
	for k := 0; k < many+80; k++ {
		switch kind {
		case 0:
			b.r.Has("i0")
			b.r.HasAlias("al")
		case 1:
			got, ok := drain(b.r, "i0", "d", visigoth.LinearSearch)
			sv.Assert(ok && len(got) == 1, "a search gives the results of the index")
		case 2:
			got, ok := drain(b.r, "am", "d", visigoth.LinearSearch)
			sv.Assert(ok && sameSet(rawsOf(got), []string{"da", "db"}), "a search gives the results of every index")
		case 3:
			sv.Assert(b.r.Rename("i0", "fr") && b.r.Rename("fr", "i0"), "renaming succeeds exactly when the index exists")
		case 4:
			sv.Assert(b.r.Alias("fr", "i0") && b.r.UnAlias("fr", "i0"), "an alias is added and removed")
		case 5:
			b.r.Put("fr", visigoth.NewDocRequest("e", "e"))
			sv.Assert(b.r.Drop("fr"), "dropping succeeds exactly when the index exists")
		case 6:
			_, err := b.r.Search("fr", "d", visigoth.LinearSearch)
			sv.Assert(err != nil && !b.r.Drop("fr") && !b.r.Rename("fr", "al") && !b.r.Alias("al", "fr"), "what is missing is reported")
		case 7:
			sv.Assert(len(b.r.List()) == 2 && len(b.r.ListAliases().Aliases) == 2, "everything is listed")
		}
	}
	return b, l
}

func scale(last ...string) {
	sv.Order(1)
	b, pool := bulky()
	b.r.List()
	b.r.ListAliases()
	for _, n := range pool {
		b.r.Has(n)
		b.r.HasAlias(n)
	}
	step(b.r, b.m, pool, 0, last)
	docs := 0
	for _, x := range b.m.idx {
		docs += len(x.docs)
	}
	if len(b.m.idx)+len(b.m.al)+docs < 30 {
		checkState(b.r, b.m, pool...)
		return
	}
	checkLarge(b.r.List(), b.r.ListAliases(), b.m)
	for i, x := range b.m.idx {
		if i%50 == 1 {
			pool = append(pool, x.name)
		}
	}
	for i, a := range b.m.al {
		if i%50 == 1 {
			pool = append(pool, a.name)
		}
	}
	for _, n := range pool {
		sv.Assert(b.r.Has(n) == (b.m.index(n) >= 0), "an index is reported exactly when it exists")
		sv.Assert(b.r.HasAlias(n) == (b.m.alias(n) >= 0), "an alias is reported exactly when it exists")
		want, ok := b.m.raws(n)
		got, gok := drain(b.r, n, "", visigoth.NoopAllSearch)
		sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
		sv.Assert(sameLarge(rawsOf(got), want), "a name gives the documents of every index it stands for")
	}
}

// sameLarge is sameSet for many strings without arbitrary bytes.
func sameLarge(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := make(map[string]int, len(a))
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
		if n[s] < 0 {
			return false
		}
	}
	return true
}

// checkLarge compares listings with the model, names without arbitrary bytes.
func checkLarge(l []string, al visigoth.AliasesResult, m *model) {
	sv.Assert(sameLarge(l, m.names()), "exactly the existing indices are listed, each once")
	rows := map[string][]string{}
	for _, row := range al.Aliases {
		rows[row.Alias] = row.Indices
	}
	same := len(al.Aliases) == len(m.al) && len(rows) == len(m.al)
	for _, a := range m.al {
		to, ok := rows[a.name]
		same = same && ok && sameLarge(to, a.to)
	}
	sv.Assert(same, "exactly the existing aliases are listed, each once, with exactly the associated indices")
}

func R01_scale() { scale("put") }
func R02_scale() { scale("search") }
func R03_scale() { scale("alias", "unalias", "clear") }
func R04_scale() { scale("rename") }
func R05_scale() { scale("drop") }

// R06_scale: large listings are copies too.
func R06_scale() {
	sv.Order(1)
	r, m := newRepo(), &model{}
	b := bulk{r, m}
	n := sv.Bound("size of a listing", 1030, 2100)
	if sv.Bool("few") {
		n = 1 + sv.Choose("indices", 40)
	}
	for i := 0; i < n; i++ {
		b.fresh("x"+itoa(i), "d"+itoa(i))
		b.freshAlias("al", "x"+itoa(i))
	}
	for i := 0; i < n; i++ {
		b.freshAlias("a"+itoa(i), "x0")
	}
	l, a := r.List(), r.ListAliases()
	before := m.clone()
	switch sv.Choose("then", 4) {
	case 0: // the caller changes what it got
		for i := range l {
			l[i] = "changed"
		}
		for i := range a.Aliases {
			for k := range a.Aliases[i].Indices {
				a.Aliases[i].Indices[k] = "changed"
			}
			_ = append(a.Aliases[i].Indices, "more")
			a.Aliases[i].Alias = "changed"
		}
	case 1: // the repository changes
		b.put("more", "d")
		b.alias("al", "more")
		r.UnAlias("al", "x0")
		m.unAlias("al", "x0")
		checkLarge(l, a, before)
	case 2:
		r.Rename("x0", "new")
		m.rename("x0", "new")
		checkLarge(l, a, before)
	case 3:
		r.Drop("x0")
		m.drop("x0")
		checkLarge(l, a, before)
	}
	checkLarge(r.List(), r.ListAliases(), m)
}

// P01_scale: large repositories, and indices of other kinds, are printed completely.
func P01_scale() {
	sv.Order(1)
	n := []int{1, 40, sv.Bound("printed indices", 1030, 2100)}[sv.Choose("indices", 3)]
	kind := sv.Choose("kind", 3)
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		switch kind {
		case 0:
			return visigoth.NewMemoryIndex(name, byteTok{})
		case 1:
			return plainIndex{name}
		}
		return &namedIndex{Name: "/" + name + "/"}
	})
	for i := 0; i < n; i++ {
		r.Put("x"+itoa(i)+"y", visigoth.NewDocRequest("d", "ab"))
	}
	s := r.String()
	for i := 0; i < n; i++ {
		sv.Assert(strings.Count(s, "x"+itoa(i)+"y") == 1, "every index is printed once")
	}
}

// indices without a String method of their own, and with one
type plainIndex struct{ Name string }

func (x plainIndex) Put(visigoth.DocRequest) visigoth.Index { return x }
func (x plainIndex) Search(string, visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	return nil
}

type namedIndex struct{ Name string }

func (x *namedIndex) Put(visigoth.DocRequest) visigoth.Index { return x }
func (x *namedIndex) Search(string, visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	return nil
}
func (x *namedIndex) String() string { return x.Name }

// R07_built: whatever index the builder returns is the one that is used.
func R07_built() {
	sv.Order(1)
	shared := visigoth.NewMemoryIndex("shared", byteTok{})
	var built []visigoth.Index
	kind := sv.Choose("builder", 4)
	r := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		var x visigoth.Index
		switch kind {
		case 0: // another name
			x = visigoth.NewMemoryIndex("other/"+name, byteTok{})
		case 1: // documents in it
			x = visigoth.NewMemoryIndex(name, byteTok{}).Put(visigoth.NewDocRequest("pre", "p"+name))
		case 2: // one for all
			x = shared
		case 3: // both, without a name
			x = visigoth.NewMemoryIndex("", byteTok{}).Put(visigoth.NewDocRequest("pre", "p"+name))
		}
		built = append(built, x)
		return x
	})
	r.Put("a", visigoth.NewDocRequest("1", "da"))
	r.Put("b", visigoth.NewDocRequest("2", "db"))
	r.Alias("al", "b")
	if sv.Bool("rename") {
		r.Rename("a", "c")
	} else {
		r.Put("c", visigoth.NewDocRequest("3", "dc"))
	}
	r.Put("al", visigoth.NewDocRequest("4", "dd"))
	for k, n := range []string{"b", "al", "c"} {
		x := built[1]
		if n == "c" {
			x = built[len(built)-1]
			if len(built) == 2 {
				x = built[0]
			}
		}
		want := x.Search("", visigoth.NoopAllSearch)
		got, ok := drain(r, n, "", visigoth.NoopAllSearch)
		sv.Assert(ok && sameResults(got, want), "a search gives what the index that was built gives")
		if kind == 1 || kind == 3 {
			sv.Assert(len(got) > 0 && got[0].Document.Raw()[0] == 'p', "documents of a built index stay")
		}
		_ = k
	}
}

// ---- indices, words and queries that are large in one respect ----

// someWord is a word with an arbitrary byte at some place.
func someWord(label string, base string) string {
	n := []int{9, 17, 26, 33, 65, 129, 300, 1030}[sv.Choose(label+" length", 8)]
	at := []int{0, 1, n / 4, n / 2, n - n/4, n - 2, n - 1}[sv.Choose(label+" place", 7)]
	w := ""
	for len(w) < n {
		w += base
	}
	return w[:at] + sv.StrIn(label, 1, 0x21, 0x7e) + w[at+1:n]
}

func T02_place() {
	w := someWord("w", []string{"a", "A", "aB"}[sv.Choose("letters", 3)])
	toks := []string{"Z", w, "z", w}
	list, whole := window(toks...)
	got := visigoth.NewLowerCaseTokenizer().Filter(list)
	sv.Assert(sv.EqStrs(got, []string{"z", refLower(w), "z", refLower(w)}), "each token is lower-cased on its own")
	checkUnchanged(whole, toks...)
}

func T03_place() {
	base := []string{"a", "aB"}[sv.Choose("letters", 2)]
	w := someWord("w", base)
	s := w[:len(w)/2] + "c" + w[len(w)/2+1:]
	checkStop(visigoth.StopWords{s: {}, "a": {}}, []string{s, "a"}, []string{"b", w, "a", s, w})
}

func T03_alike() {
	p := alike[sv.Choose("pair", len(alike))]
	x := sv.Choose("stop word", 2)
	end := sv.StrIn("end", sv.Choose("more", 2), 'a', 'z')
	checkStop(visigoth.StopWords{p[x] + end: {}}, []string{p[x] + end}, []string{p[0] + end, "b", p[1] + end, p[0]})
}

func T04_alike() {
	p := alike[sv.Choose("pair", len(alike))]
	pl := newPlainPipeline()
	x := sv.Choose("first", 2)
	end := sv.StrIn("end", sv.Choose("more", 2), 'a', 'z')
	a, b := p[x]+end, p[1-x]+end
	for _, q := range []string{a, b, a + " " + b, b + " " + a, a} {
		sv.Assert(sv.EqStrs(pl.Tokenize(q), newPlainPipeline().Tokenize(q)), "the tokens depend on the text only")
	}
}

func T05_alike() {
	p := alike[sv.Choose("pair", len(alike))]
	x := sv.Choose("first", 2)
	checkStem(sv.Bool("stop words"), []string{p[x], p[1-x], p[x] + "s", p[1-x] + "s", p[x]})
}

func E01_alike() {
	p := alike[sv.Choose("pair", len(alike))]
	end := sv.Str("end", sv.Choose("more", 2))
	a, b := visigoth.NewDoc(p[0]+end, ""), visigoth.NewDoc(p[1]+end, "")
	sv.Assert(a.Hash() != b.Hash(), "different identifiers have different keys")
	sv.Assert(a.Hash() == visigoth.NewDoc(p[0]+end, "x").Hash(), "equal identifiers have equal keys")
}

// alikeIndex holds documents of words that hash alike.
func alikeIndex() (*visigoth.MemoryIndex, []stored, [2]string) {
	p := alike[sv.Choose("pair", len(alike))]
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	var docs []stored
	for i, s := range [][]string{{p[0]}, {p[1], "m"}, {"m", p[0]}, {p[1], p[0]}} {
		d := stored{id: p[i%2], raw: strings.Join(s, " "), toks: s}
		ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		docs = append(docs, d)
	}
	return ix, docs, p
}

func X01_alike() {
	ix, docs, p := alikeIndex()
	var l [][]string
	for _, d := range docs {
		l = append(l, d.toks)
	}
	checkIndex(ix, l, p[0], p[1], "m")
}

func searchAlike(name string, e visigoth.Engine) {
	ix, docs, p := alikeIndex()
	qs := [][]string{{p[0]}, {p[1]}, {p[0], "m"}, {p[1], "m"}, {p[0], p[1]}}
	k, l := sv.Choose("first query", len(qs)), sv.Choose("second query", len(qs))
	for _, q := range [][]string{qs[k], qs[l], qs[k]} {
		checkMatches(name, ix.Search(strings.Join(q, " "), e), docs, q)
	}
}

func S01_alike() { searchAlike("hits", visigoth.HitsSearch) }
func S02_alike() { searchAlike("linear", visigoth.LinearSearch) }

// Long words that differ in one place, in documents and queries.
func longWords(name string, e visigoth.Engine) {
	w := someWord("w", "ab")
	v := w[:len(w)/2] + "c" + w[len(w)/2+1:]
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	var docs []stored
	for i, s := range [][]string{{w}, {v, "m"}, {"m", w, v}} {
		d := stored{id: itoa(i), raw: strings.Join(s, " "), toks: s}
		ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		docs = append(docs, d)
	}
	for _, q := range [][]string{{w}, {v}, {w, v}, {"m", w}} {
		if name == "all" {
			checkNoop(ix, docs, q)
			continue
		}
		checkMatches(name, ix.Search(strings.Join(q, " "), e), docs, q)
	}
}

func S01_longwords() { longWords("hits", visigoth.HitsSearch) }
func S02_longwords() { longWords("linear", visigoth.LinearSearch) }
func S04_longwords() { longWords("all", visigoth.NoopAllSearch) }

// Many identifiers with a common beginning.
func S03_common() {
	n := []int{3, 13, 60, sv.Bound("results with a common beginning", 300, 1030)}[sv.Choose("results", 4)]
	pre := letters([]int{1, 8, 16, 40, 300}[sv.Choose("common", 5)])
	x := sv.Str("x", 1)
	var rs, order visigoth.SearchResults
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	for i := 0; i < n; i++ {
		id := pre + itoa((i*37)%n) + "z"
		if i == n/2 {
			id = pre + x
		}
		ix.Put(visigoth.NewDocRequestWith(id, itoa(i), "k m"))
		rs = append(rs, visigoth.SearchResult{Document: visigoth.NewDoc(id, itoa(i)), Hits: i % 3})
	}
	for _, q := range []string{"k", "m k"} {
		got := ix.Search(q, visigoth.HitsSearch)
		sv.Assert(len(got) == n, "every document is found")
		for i := 1; i < len(got); i++ {
			sv.Assert(lessEq(got[i-1].Document.ID(), got[i].Document.ID()), "equal hits are ordered by identifier")
		}
	}
	order = append(order, rs...)
	sort.Sort(order)
	for i := 1; i < n; i++ {
		a, b := order[i-1], order[i]
		sv.Assert(a.Hits >= b.Hits, "results are ordered by hits")
		sv.Assert(sv.Imp(a.Hits == b.Hits, lessEq(a.Document.ID(), b.Document.ID())), "equal hits are ordered by identifier")
	}
}

// X02_given: engines leave queries of every length as they are.
func X02_given() {
	n := sv.Choose("query words", 14)
	e := engines[sv.Choose("engine", 4)].e
	x := sv.StrIn("x", 1, 'a', 'z')
	var q []string
	for i := 0; i < n; i++ {
		w := ""
		switch sv.Fix(i * 7 % 5) {
		case 0:
			w = "bb"
		case 1:
			w = "a"
		case 2:
			w = x
		case 3:
			w = "ccc" + itoa(i)
		case 4:
			w = "dddd"
		}
		q = append(q, w)
	}
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	ix.Put(visigoth.NewDocRequest("1", "a bb "+x+" "+strings.Join(q, " ")))
	ix.Put(visigoth.NewDocRequest("2", "dddd bb"))
	g, whole := window(q...)
	before := e(g, ix)
	checkUnchanged(whole, q...)
	for i := range g {
		g[i] = "changed"
	}
	sv.Assert(sameResults(e(cloneStrs(q), ix), before), "changing the tokens given to an engine does not change later results")
}

// S05_hundreds: very many searches.
func S05_hundreds() {
	n := sv.Bound("searches of one index", 1100, 4200)
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	docs := [][]string{}
	for i := 0; i < 6; i++ {
		d := []string{"k", "w" + itoa(i)}
		if i > 2 {
			d = append(d, x)
		}
		docs = append(docs, d)
		ix.Put(visigoth.NewDocRequest(itoa(i), strings.Join(d, " ")))
	}
	e := engines[sv.Choose("engine", 4)].e
	q := []string{"k", "no", "k w5", ""}[sv.Choose("query", 4)]
	first := ix.Search(q, e)
	for i := 1; i < n; i++ {
		if rs := ix.Search(q, e); len(rs) != len(first) {
			sv.Assert(false, "a search does not change what the next one gives")
		}
	}
	sv.Assert(sameResults(ix.Search(q, e), first), "a search does not change what the next one gives")
	checkIndex(ix, docs, "k", "no", x, "w5")
	ix.Put(visigoth.NewDocRequest("7", "k no"))
	checkIndex(ix, append(docs, []string{"k", "no"}), "k", "no", x, "w5")
}

// T04_hundreds: very many texts through one pipeline.
func T04_hundreds() {
	n := sv.Bound("texts of one pipeline", 1100, 4200)
	x := sv.StrIn("x", 1, 'a', 'z')
	p := newPlainPipeline()
	kind := sv.Choose("texts", 3)
	for i := 0; i < n; i++ {
		t := "Uno dos"
		if kind == 1 {
			t = "Uno " + itoa(i)
		} else if kind == 2 {
			t = ""
		}
		p.Tokenize(t)
	}
	for _, q := range []string{"Uno dos", x + "B c", "Uno " + itoa(n/2), ""} {
		sv.Assert(sv.EqStrs(p.Tokenize(q), newPlainPipeline().Tokenize(q)), "the tokens depend on the text only")
	}
}

// J03_large: indices with one thing in great number.
func J03_large() {
	n := sv.Bound("number of what is many", 1030, 2100)
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	toks := []string{"k", x, "no"}
	switch sv.Choose("many", 4) {
	case 0: // documents of one token
		for i := 0; i < n; i++ {
			ix.Put(visigoth.NewDocRequest(itoa(i), "k"))
		}
	case 1: // tokens of one document
		d := "k"
		for i := 0; i < n; i++ {
			d += " w" + itoa(i)
		}
		ix.Put(visigoth.NewDocRequest("d", d))
		toks = append(toks, "w0", "w"+itoa(n-1))
	case 2: // letters of a token
		ix.Put(visigoth.NewDocRequest("d", "k "+letters(n)+" "+letters(n*20)))
		toks = append(toks, letters(n), letters(n*20))
	case 3: // letters of an identifier
		ix.Put(visigoth.NewDocRequestWith(letters(n*20), letters(n), "k"))
	}
	ix.Put(visigoth.NewDocRequest("x", x))
	two := roundTrip(ix, "i", wordTok{})
	checkDecoded(ix, two, toks, []string{"k", x, "no"})
}

func letters(n int) string { return strings.Repeat("q", n) }
