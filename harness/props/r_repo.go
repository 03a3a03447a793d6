package props

import (
	"strings"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// The reference model of a repository: two name spaces, every index with its
// documents in put order, every alias with the indices it points at.

type mdoc struct{ id, raw string }

type mindex struct {
	name string
	docs []mdoc
}

type malias struct {
	name string
	to   []string
}

type model struct {
	idx []mindex
	al  []malias
}

func (m *model) clone() *model {
	c := &model{}
	for _, i := range m.idx {
		c.idx = append(c.idx, mindex{i.name, append([]mdoc(nil), i.docs...)})
	}
	for _, a := range m.al {
		c.al = append(c.al, malias{a.name, cloneStrs(a.to)})
	}
	return c
}

func (m *model) index(name string) int {
	for i := range m.idx {
		if m.idx[i].name == name {
			return i
		}
	}
	return -1
}

func (m *model) alias(name string) int {
	for i := range m.al {
		if m.al[i].name == name {
			return i
		}
	}
	return -1
}

func pos(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

// targets: the indices a name stands for.
func (m *model) targets(name string) ([]int, bool) {
	if i := m.index(name); i >= 0 {
		return []int{i}, true
	}
	if a := m.alias(name); a >= 0 {
		var r []int
		for _, t := range m.al[a].to {
			r = append(r, m.index(t))
		}
		return r, true
	}
	return nil, false
}

func (m *model) put(name string, d mdoc) {
	ts, ok := m.targets(name)
	if !ok {
		m.idx = append(m.idx, mindex{name, []mdoc{d}})
		return
	}
	for _, t := range ts {
		m.idx[t].docs = append(m.idx[t].docs, d)
	}
}

func (m *model) addAlias(alias, index string) bool {
	if m.index(index) < 0 {
		return false
	}
	a := m.alias(alias)
	if a < 0 {
		m.al = append(m.al, malias{alias, []string{index}})
		return true
	}
	if pos(m.al[a].to, index) >= 0 {
		return false
	}
	m.al[a].to = append(m.al[a].to, index)
	return true
}

func (m *model) delAlias(a int) { m.al = append(m.al[:a:a], m.al[a+1:]...) }

// unref removes an index from an alias, and the alias with its last index.
func (m *model) unref(a int, index string) bool {
	k := pos(m.al[a].to, index)
	if k < 0 {
		return false
	}
	m.al[a].to = append(m.al[a].to[:k:k], m.al[a].to[k+1:]...)
	if len(m.al[a].to) == 0 {
		m.delAlias(a)
	}
	return true
}

// unAlias; known tells whether the specification fixes the result: removing an
// existing index from an existing alias that does not point at it is left open.
func (m *model) unAlias(alias, index string) (res, known bool) {
	a := m.alias(alias)
	if a < 0 {
		return false, true
	}
	if index == "" {
		m.delAlias(a)
		return true, true
	}
	if m.index(index) < 0 {
		return false, true
	}
	m.unref(a, index)
	return true, true
}

func (m *model) rename(old, new string) bool {
	i := m.index(old)
	if i < 0 {
		return false
	}
	if old == new {
		return true
	}
	docs := m.idx[i].docs
	m.idx = append(m.idx[:i:i], m.idx[i+1:]...)
	if j := m.index(new); j >= 0 {
		m.idx[j].docs = docs
	} else {
		m.idx = append(m.idx, mindex{new, docs})
	}
	for a := range m.al {
		k := pos(m.al[a].to, old)
		if k < 0 {
			continue
		}
		if pos(m.al[a].to, new) >= 0 {
			m.al[a].to = append(m.al[a].to[:k:k], m.al[a].to[k+1:]...)
		} else {
			to := cloneStrs(m.al[a].to)
			to[k] = new
			m.al[a].to = to
		}
	}
	return true
}

func (m *model) drop(name string) bool {
	i := m.index(name)
	if i < 0 {
		return false
	}
	m.idx = append(m.idx[:i:i], m.idx[i+1:]...)
	for a := len(m.al) - 1; a >= 0; a-- {
		m.unref(a, name)
	}
	return true
}

// raws: the contents a search for everything under a name returns.
func (m *model) raws(name string) ([]string, bool) {
	ts, ok := m.targets(name)
	var r []string
	for _, t := range ts {
		for _, d := range m.idx[t].docs {
			r = append(r, d.raw)
		}
	}
	return r, ok
}

// ---- the repository under test ----

func newRepo() *visigoth.IndexRepo {
	return visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(byteTok{}))
}

// drain reads a stream to its end.
func drain(r *visigoth.IndexRepo, name, query string, e visigoth.Engine) ([]visigoth.SearchResult, bool) {
	s, err := r.Search(name, query, e)
	if err != nil {
		sv.Assert(s == nil, "a failed search has no results")
		return nil, false
	}
	var out []visigoth.SearchResult
	sv.Assert(s.Err() == nil, "the stream has no error")
	for s.Next() {
		out = append(out, s.Data())
		if len(out) > 5000 {
			break
		}
	}
	sv.Assert(sv.Not(s.Next()), "an exhausted stream stays exhausted")
	sv.Assert(s.Err() == nil, "the stream ends without error")
	sv.Assert(s.Close() == nil, "the stream closes without error")
	return out, true
}

func sameSet(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for _, w := range want {
		ok = sv.And(ok, countStr(got, w) == countStr(want, w))
	}
	return ok
}

// checkListings compares what the repository lists with the model.
func checkListings(r *visigoth.IndexRepo, m *model) {
	checkList(r.List(), m)
	checkAliases(r.ListAliases(), m)
}

func checkList(got []string, m *model) {
	var names []string
	for _, i := range m.idx {
		names = append(names, i.name)
	}
	sv.Assert(sameSet(got, names), "exactly the existing indices are listed, each once")
}

func checkAliases(l visigoth.AliasesResult, m *model) {
	sv.Assert(len(l.Aliases) == len(m.al), "exactly the existing aliases are listed, each once")
	for _, a := range m.al {
		n, same := 0, true
		for _, row := range l.Aliases {
			is := row.Alias == a.name
			n += sv.IteInt(is, 1, 0)
			same = sv.And(same, sv.Or(sv.Not(is), sameSet(row.Indices, a.to)))
		}
		sv.Assert(n == 1, "exactly the existing aliases are listed, each once")
		sv.Assert(same, "an alias points at exactly the associated indices, each once")
	}
}

// checkState compares everything observable with the model; it comes last, and
// the searches it makes are explored in one order only.
func checkState(r *visigoth.IndexRepo, m *model, probes ...string) {
	sv.Order(1)
	checkListings(r, m)
	for _, i := range m.idx {
		sv.Assert(r.Has(i.name), "an existing index is reported as existing")
	}
	for _, a := range m.al {
		sv.Assert(r.HasAlias(a.name), "an existing alias is reported as existing")
	}
	for _, p := range probes {
		sv.Assert(r.Has(p) == (m.index(p) >= 0), "an index is reported exactly when it exists")
		sv.Assert(r.HasAlias(p) == (m.alias(p) >= 0), "an alias is reported exactly when it exists")
	}
	names := probes
	for _, i := range m.idx {
		names = append(names, i.name)
	}
	for _, a := range m.al {
		names = append(names, a.name)
	}
	for k, n := range names {
		if pos(names[:k], n) >= 0 {
			continue
		}
		want, ok := m.raws(n)
		got, gok := drain(r, n, "", visigoth.NoopAllSearch)
		sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
		if ok == gok && m.index(n) >= 0 {
			sv.Assert(sv.EqStrs(rawsOf(got), want), "an index holds exactly its documents, in put order")
		} else if ok == gok {
			sv.Assert(sameSet(rawsOf(got), want), "an alias gives the documents of every index it points at")
		}
	}
}

// ---- arbitrary states ----

// name is an arbitrary name; kinds limits the variety of lengths.
func name(label string, kinds int) string {
	switch sv.Choose(label+" length", kinds) {
	case 0:
		return sv.Str(label, 1)
	case 1:
		return sv.Str(label, 2)
	}
	return ""
}

var indexDocs = []int{1, 2, 1, 1}

// anyState builds an arbitrary repository with up to maxIdx indices and maxAl
// aliases: names, associations and their order are arbitrary. Alias names may
// be index names.
func anyState(ni, na int, orders bool) (*visigoth.IndexRepo, *model) {
	r, m := newRepo(), &model{}
	lens := []int{1, 1, 2, 1}
	for i := 0; i < ni; i++ {
		n := sv.Str("index", lens[i])
		for _, x := range m.idx {
			sv.Assume(x.name != n)
		}
		ix := mindex{name: n}
		for k := 0; k < indexDocs[i]; k++ {
			d := mdoc{"id" + itoa(k), "doc" + itoa(i) + itoa(k)}
			r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
			ix.docs = append(ix.docs, d)
		}
		m.idx = append(m.idx, ix)
	}
	if ni == 0 {
		return r, m
	}
	alens := []int{1, 2, 1}
	for i := 0; i < na; i++ {
		g := sv.Str("alias", alens[i])
		for _, x := range m.al {
			sv.Assume(x.name != g)
		}
		mask := sv.Choose("points at", 1<<ni-1) + 1
		rev := false
		if orders && mask&(mask-1) != 0 {
			rev = sv.Choose("reversed", 2) == 1
		}
		a := malias{name: g}
		for k := 0; k < ni; k++ {
			j := k
			if rev {
				j = ni - 1 - k
			}
			if mask>>j&1 == 1 {
				a.to = append(a.to, m.idx[j].name)
				r.Alias(g, m.idx[j].name)
			}
		}
		m.al = append(m.al, a)
	}
	return r, m
}

// states: the sizes explored.
func someState(quick int) (*visigoth.IndexRepo, *model) {
	k := sv.Choose("size", sv.Bound("repository sizes", quick, 10))
	s := [][2]int{{0, 0}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {2, 2}, {3, 1}, {4, 1}, {3, 2}, {2, 3}}[k]
	return anyState(s[0], s[1], k < 6 || sv.Bound("association orders of three indices", 0, 1) == 1)
}

func shuffled(f func()) {
	sv.MapOrder(true)
	f()
	sv.MapOrder(false)
}

// ---- R01 ----

func R01_put() {
	r, m := someState(9)
	n := name("name", sv.Bound("kinds of names", 3, 3))
	d := mdoc{"new", "document"}
	shuffled(func() { r.Put(n, visigoth.NewDocRequest(d.id, d.raw)) })
	m.put(n, d)
	checkState(r, m, n)
}

// ---- R02 ----

func R02_search() {
	r, m := someState(7)
	n := name("name", 3)
	q := sv.StrIn("query", sv.Choose("words", 2), 'a', 'e')
	e := engines[sv.Choose("engine", 3)]
	want := map[string]int{}
	var wraw []string
	var whits []int
	ts, ok := m.targets(n)
	for _, t := range ts {
		ix := visigoth.NewMemoryIndex("ref", byteTok{})
		for _, d := range m.idx[t].docs {
			ix.Put(visigoth.NewDocRequest(d.id, d.raw))
		}
		res := ix.Search(q, e.e)
		wraw = append(wraw, rawsOf(res)...)
		whits = append(whits, hitsOf(res)...)
		for _, x := range res {
			want[x.Document.Raw()]++
		}
	}
	var got []visigoth.SearchResult
	var gok bool
	shuffled(func() { got, gok = drain(r, n, q, e.e) })
	sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
	sv.Assert(len(got) == len(wraw), "every result is returned exactly once")
	graw := rawsOf(got)
	sv.Assert(sameSet(graw, wraw), "every result is returned exactly once")
	for k, g := range got {
		for j, w := range wraw {
			sv.Assert(sv.Or(graw[k] != w, g.Hits == whits[j]), "a result keeps its hits")
		}
	}
	if len(ts) == 1 {
		sv.Assert(sv.EqStrs(graw, wraw), "the results of one index keep their order")
	}
	checkState(r, m, n)
}

// ---- R03 ----

func R03_alias() {
	r, m := someState(8)
	a, i := name("alias arg", 3), name("index arg", sv.Bound("kinds of index names", 2, 3))
	var got bool
	shuffled(func() { got = r.Alias(a, i) })
	want := m.addAlias(a, i)
	sv.Observe("added", got)
	sv.Assert(got == want, "an alias is reported as added exactly when it is")
	checkState(r, m, a, i)
}

func R03_unalias() {
	r, m := someState(8)
	a, i := name("alias arg", 2), name("index arg", 3)
	var got bool
	shuffled(func() { got = r.UnAlias(a, i) })
	want, known := m.unAlias(a, i)
	if known {
		sv.Assert(got == want, "removing reports whether the alias existed")
	}
	checkState(r, m, a, i)
}

// ---- R04 ----

func R04_rename() {
	r, m := someState(8)
	old, new := name("old", 2), name("new", sv.Bound("kinds of new names", 2, 3))
	var got bool
	shuffled(func() { got = r.Rename(old, new) })
	want := m.rename(old, new)
	sv.Observe("renamed", got)
	sv.Assert(got == want, "renaming succeeds exactly when the index exists")
	checkState(r, m, old, new)
}

// ---- R05 ----

func R05_drop() {
	r, m := someState(9)
	n := name("name", 3)
	var got bool
	shuffled(func() { got = r.Drop(n) })
	want := m.drop(n)
	sv.Observe("dropped", got)
	sv.Assert(got == want, "dropping succeeds exactly when the index exists")
	checkState(r, m, n)
}

// ---- sequences: what an operation leaves behind and is not visible at once ----

// step executes one arbitrary operation with names of the pool.
func step(r *visigoth.IndexRepo, m *model, pool []string, k int, kinds []string) {
	pick := func(l string) string { return pool[sv.Choose(l, len(pool))] }
	switch kinds[sv.Choose("operation", len(kinds))] {
	case "put":
		n := pick("name")
		d := mdoc{"s" + itoa(k), "step" + itoa(k)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	case "alias":
		a, i := pick("alias"), pick("index")
		sv.Assert(r.Alias(a, i) == m.addAlias(a, i), "an alias is reported as added exactly when it is")
	case "unalias":
		a, i := pick("alias"), pick("index")
		got := r.UnAlias(a, i)
		want, known := m.unAlias(a, i)
		sv.Assert(sv.Or(sv.Not(known), got == want), "removing reports whether the alias existed")
	case "clear":
		a := pick("alias")
		got := r.UnAlias(a, "")
		want, _ := m.unAlias(a, "")
		sv.Assert(got == want, "removing reports whether the alias existed")
	case "rename":
		o, n := pick("old"), pick("new")
		sv.Assert(r.Rename(o, n) == m.rename(o, n), "renaming succeeds exactly when the index exists")
	case "drop":
		n := pick("name")
		sv.Assert(r.Drop(n) == m.drop(n), "dropping succeeds exactly when the index exists")
	case "search":
		n := pick("name")
		_, ok := m.raws(n)
		_, gok := drain(r, n, "d", visigoth.HitsSearch)
		sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
	case "list":
		r.List()
		for _, row := range r.ListAliases().Aliases {
			for i := range row.Indices {
				row.Indices[i] = "changed"
			}
			_ = append(row.Indices, "more")
		}
	}
}

// sequence starts with two indices and executes arbitrary operations, the last
// of the given kinds.
func sequence(last ...string) {
	pool := []string{sv.Str("n0", 1), sv.Str("n1", 1), sv.Str("n2", 2)}
	sv.Assume(pool[0] != pool[1])
	r, m := newRepo(), &model{}
	for i := 0; i < 2; i++ {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(pool[i], visigoth.NewDocRequest(d.id, d.raw))
		m.put(pool[i], d)
	}
	all := []string{"put", "alias", "unalias", "clear", "rename", "drop", "search", "list"}
	n := sv.Bound("operations before the last", 1, 2)
	for i := 0; i <= sv.Choose("aliased", 2); i++ {
		sv.Assert(r.Alias(pool[2], pool[i]) == m.addAlias(pool[2], pool[i]), "an alias is reported as added exactly when it is")
	}
	look := func() {}
	if sv.Choose("look between", 2) == 1 { // what was seen must not be seen for ever
		look = func() {
			sv.Order(1)
			for _, n := range pool {
				drain(r, n, "d", visigoth.NoopAllSearch)
				r.Has(n)
				r.HasAlias(n)
			}
			sv.Order(0)
			r.List()
			r.ListAliases()
		}
	}
	look()
	for k := 0; k < n; k++ {
		step(r, m, pool, k, all)
		look()
	}
	step(r, m, pool, n, last)
	look()
	// one more operation shows what stays shared
	if last[0] == "alias" {
		step(r, m, pool, n+1, []string{"put"})
	} else {
		step(r, m, pool, n+1, []string{"alias", "put"})
	}
	checkState(r, m, pool...)
}

func R01_sequence() { sequence("put") }
func R02_sequence() { sequence("search") }
func R03_sequence() { sequence("alias", "unalias", "clear") }
func R04_sequence() { sequence("rename") }
func R05_sequence() { sequence("drop") }

// ---- repositories with many indices ----

// wideState has many indices and aliases of one, some and all of them. With so
// many threads at work only four orders of executing them are explored.
func wideState() (*visigoth.IndexRepo, *model, []string) {
	sv.Order(1 + sv.Choose("order", 4))
	r, m := newRepo(), &model{}
	n := sv.Bound("indices", 12, 20)
	if sv.Choose("many", 2) == 1 {
		n = sv.Bound("many indices", 40, 70)
	}
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, string(rune('a'+i))+itoa(i%10))
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(names[i], visigoth.NewDocRequest(d.id, d.raw))
		m.put(names[i], d)
	}
	link := func(a string, every, from int) {
		for i := from; i < n; i += every {
			sv.Assert(r.Alias(a, names[i]) == m.addAlias(a, names[i]), "an alias is reported as added exactly when it is")
		}
	}
	link("AL", 1, 0)
	link("HA", 2, 1)
	link("FI", 20, 3)
	link("a0", 3, 0)         // the name of an index
	for i := 0; i < n; i++ { // every size
		for k := 0; k <= i; k++ {
			b := "B" + string(rune('0'+i))
			sv.Assert(r.Alias(b, names[k]) == m.addAlias(b, names[k]), "an alias is reported as added exactly when it is")
		}
	}
	return r, m, append(names, "AL", "HA", "FI", "B4")
}

// wideName is any name, or one of a few if there are many.
func wideName(label string, names []string) string {
	if len(names) < sv.Bound("many indices", 40, 70) {
		return sv.Str(label, 2)
	}
	few := []string{names[0], names[7], names[len(names)-5], "AL", "FI", "B4", "a0", "zz"}
	return few[sv.Choose(label, len(few))]
}

func R01_wide() {
	r, m, names := wideState()
	n := wideName("name", names)
	d := mdoc{"new", "document"}
	r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
	m.put(n, d)
	checkState(r, m, n)
}

func R02_wide() {
	r, m, names := wideState()
	n := wideName("name", names)
	e := engines[sv.Choose("engine", 3)].e
	want, ok := m.raws(n)
	got, gok := drain(r, n, "doc", e)
	sv.Assert(ok == gok, "a search succeeds exactly when the name stands for something")
	sv.Assert(sameSet(rawsOf(got), want), "every result is returned exactly once")
	checkListings(r, m)
}

func R03_wide() {
	r, m, names := wideState()
	a := wideName("alias arg", names)
	i := names[sv.Choose("index arg", sv.Bound("index arguments", 4, 12))]
	if sv.Choose("remove", 2) == 1 {
		got := r.UnAlias(a, i)
		want, known := m.unAlias(a, i)
		sv.Assert(sv.Or(sv.Not(known), got == want), "removing reports whether the alias existed")
	} else {
		sv.Assert(r.Alias(a, i) == m.addAlias(a, i), "an alias is reported as added exactly when it is")
	}
	checkListings(r, m)
	d := mdoc{"new", "document"}
	r.Put(a, visigoth.NewDocRequest(d.id, d.raw))
	m.put(a, d)
	checkState(r, m, a)
}

func R04_wide() {
	r, m, names := wideState()
	old, new := names[sv.Choose("old", sv.Bound("renamed", 3, 12))], wideName("new", names)
	if sv.Choose("swap", 2) == 1 {
		old, new = new, old
	}
	sv.Assert(r.Rename(old, new) == m.rename(old, new), "renaming succeeds exactly when the index exists")
	checkState(r, m, old, new)
}

func R05_wide() {
	r, m, names := wideState()
	n := wideName("name", names)
	for k := 0; k < sv.Choose("before", 2)*(len(names)-6); k++ {
		sv.Assert(r.Drop(names[k+1]) == m.drop(names[k+1]), "dropping succeeds exactly when the index exists")
	}
	sv.Assert(r.Drop(n) == m.drop(n), "dropping succeeds exactly when the index exists")
	checkState(r, m, n)
}

// ---- long names, long histories ----

// long has names that share their beginnings.
func long(last ...string) {
	p := strings.Repeat("índice largo/", 12)
	a, b := sv.Str("a", 1), sv.Str("b", 1)
	sv.Assume(a != b)
	pool := []string{p + a, p + b, p, p + a + "x"}
	r, m := newRepo(), &model{}
	for i := 0; i < 2; i++ {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(pool[i], visigoth.NewDocRequest(d.id, d.raw))
		m.put(pool[i], d)
		sv.Assert(r.Alias(pool[2], pool[i]) == m.addAlias(pool[2], pool[i]), "an alias is reported as added exactly when it is")
	}
	step(r, m, pool, 0, last)
	step(r, m, pool, 1, []string{"put", "alias"})
	checkState(r, m, pool...)
}

func R01_long() { long("put") }
func R02_long() { long("search") }
func R03_long() { long("alias", "unalias", "clear") }
func R04_long() { long("rename") }
func R05_long() { long("drop") }

// history executes a long fixed mixture of operations, then an arbitrary one.
func history(last ...string) {
	sv.Order(1 + sv.Choose("order", 4))
	x := sv.Str("x", 1)
	pool := []string{"a", "b", x, "d", "al", "am", "an"}
	for _, n := range []string{"a", "b", "d"} {
		sv.Assume(x != n)
	}
	r, m := newRepo(), &model{}
	seed := uint32(sv.Choose("mixture", sv.Bound("mixtures", 6, 40)))*7919 + 12345
	next := func(n int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>16) % n
	}
	look := sv.Choose("look between", 2) == 1
	for k := 0; k < sv.Bound("operations in a history", 40, 90); k++ {
		for i := 0; look && i < len(pool); i++ {
			drain(r, pool[i], "s", visigoth.NoopAllSearch)
		}
		d := mdoc{"s" + itoa(k), "step" + itoa(k)}
		i, j := next(len(pool)), next(len(pool))
		switch next(12) {
		case 0, 1, 2:
			r.Put(pool[i], visigoth.NewDocRequest(d.id, d.raw))
			m.put(pool[i], d)
		case 3, 4, 5, 6:
			a := pool[4+next(3)]
			sv.Assert(r.Alias(a, pool[j]) == m.addAlias(a, pool[j]), "an alias is reported as added exactly when it is")
		case 7:
			got := r.UnAlias(pool[i], pool[j])
			want, known := m.unAlias(pool[i], pool[j])
			sv.Assert(sv.Or(sv.Not(known), got == want), "removing reports whether the alias existed")
		case 8:
			if next(3) == 0 {
				got := r.UnAlias(pool[i], "")
				want, _ := m.unAlias(pool[i], "")
				sv.Assert(got == want, "removing reports whether the alias existed")
			}
		case 9:
			sv.Assert(r.Rename(pool[i], pool[j]) == m.rename(pool[i], pool[j]), "renaming succeeds exactly when the index exists")
		case 10:
			if next(2) == 0 {
				sv.Assert(r.Drop(pool[i]) == m.drop(pool[i]), "dropping succeeds exactly when the index exists")
			}
		case 11:
			r.List()
			r.ListAliases()
			drain(r, pool[i], "s", visigoth.LinearSearch)
		}
		if k%8 == 7 {
			checkListings(r, m)
		}
	}
	step(r, m, pool, 99, last)
	checkState(r, m, pool...)
}

func R01_history() { history("put") }
func R02_history() { history("search") }
func R03_history() { history("alias", "unalias", "clear") }
func R04_history() { history("rename") }
func R05_history() { history("drop") }

// ---- R06 ----

func copyAliases(l visigoth.AliasesResult) visigoth.AliasesResult {
	var c visigoth.AliasesResult
	for _, row := range l.Aliases {
		c.Aliases = append(c.Aliases, visigoth.AliasesResultRow{Alias: row.Alias, Indices: cloneStrs(row.Indices)})
	}
	return c
}

func sameRows(a, b visigoth.AliasesResult) bool {
	if len(a.Aliases) != len(b.Aliases) {
		return false
	}
	ok := true
	for i := range a.Aliases {
		ok = sv.And(ok, a.Aliases[i].Alias == b.Aliases[i].Alias, sv.EqStrs(a.Aliases[i].Indices, b.Aliases[i].Indices))
	}
	return ok
}

func snapshot(r *visigoth.IndexRepo, m *model, pool []string, ops int) {
	l, la := r.List(), r.ListAliases()
	lc, lac := cloneStrs(l), copyAliases(la)
	n := pool[sv.Choose("searched", len(pool))]
	want, ok := m.raws(n)
	s, err := r.Search(n, "d", engines[sv.Choose("engine", 3)].e)
	sv.Assert((err == nil) == ok, "a search succeeds exactly when the name stands for something")
	for k := 0; k < ops; k++ {
		step(r, m, pool, k, []string{"put", "alias", "unalias", "clear", "rename", "drop"})
	}
	l2, la2 := r.List(), r.ListAliases() // later listings and searches neither
	drain(r, pool[0], "d", visigoth.HitsSearch)
	sv.Assert(sv.EqStrs(l, lc), "a listing of indices does not change later")
	sv.Assert(sameRows(la, lac), "a listing of aliases does not change later")
	if ok {
		var raws []string
		for s.Next() {
			raws = append(raws, s.Data().Document.Raw())
		}
		sv.Assert(sameSet(raws, want), "a stream of results does not change later")
	}
	// writing to what was returned
	for _, x := range [][]string{l, l2} {
		for i := range x {
			x[i] = "written"
		}
		_ = append(x, "appended")
	}
	for _, x := range []visigoth.AliasesResult{la, la2} {
		for i := range x.Aliases {
			row := x.Aliases[i].Indices
			for j := range row {
				row[j] = "written"
			}
			_ = append(row, "appended")
			x.Aliases[i] = visigoth.AliasesResultRow{Alias: "written"}
		}
		_ = append(x.Aliases, visigoth.AliasesResultRow{Alias: "appended"})
	}
	checkState(r, m, pool...)
}

// Listings and streams taken before arbitrary operations; every document has
// the token d, so a search for it returns all of them.
func R06_snapshots() {
	k := sv.Choose("size", sv.Bound("repository sizes", 3, 4))
	z := [][2]int{{1, 1}, {2, 1}, {0, 0}, {2, 2}}[k]
	r, m := anyState(z[0], z[1], false)
	var pool []string
	for _, i := range m.idx {
		pool = append(pool, i.name)
	}
	for _, a := range m.al {
		pool = append(pool, a.name)
	}
	snapshot(r, m, append(pool, "fresh"), sv.Bound("operations after", 1, 2))
}

// An alias list with room to grow is not shared with a listing.
func R06_growth() {
	names := []string{sv.Str("i0", 1), sv.Str("i1", 1), sv.Str("i2", 1), "i3", "i4"}
	sv.Assume(sv.And(names[0] != names[1], names[1] != names[2], names[0] != names[2]))
	r, m := newRepo(), &model{}
	for i, n := range names {
		d := mdoc{"id", "doc" + itoa(i)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	k := 1 + sv.Choose("aliased", 4)
	for _, n := range names[:k] {
		r.Alias("al", n)
		m.addAlias("al", n)
	}
	la := r.ListAliases()
	lac := copyAliases(la)
	pool := []string{"al", names[0], names[k]}
	for j := 0; j < 2; j++ {
		step(r, m, pool, j, []string{"alias", "unalias", "rename", "drop"})
		sv.Assert(sameRows(la, lac), "a listing of aliases does not change later")
		for i := range la.Aliases {
			_ = append(la.Aliases[i].Indices, "appended")
		}
		_ = append(la.Aliases[0].Indices[:0], "written")
		checkAliases(r.ListAliases(), m)
		la = r.ListAliases()
		lac = copyAliases(la)
		if len(la.Aliases) == 0 {
			return
		}
	}
}
