package props

import (
	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// An operation of a repository, the result it gave, and when it ran.
type opres struct {
	flag    bool
	names   []string
	aliases visigoth.AliasesResult
	from    int
	to      int
}

type op struct {
	label string
	do    func(r *visigoth.IndexRepo, x *opres)
	// ref executes it on the model and tells whether the result agrees.
	ref func(m *model, x *opres) bool
}

// actor makes the operations of one repository that has the indices i0 and i1,
// an alias a of both, and no index or alias f.
type actor struct{ i0, i1, a, f string }

func (t actor) put(label, name, raw string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) {
		r.Put(name, visigoth.NewDocRequest("id"+raw, raw))
	}, func(m *model, x *opres) bool { m.put(name, mdoc{"id" + raw, raw}); return true }}
}

func (t actor) alias(label, a, i string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.Alias(a, i) },
		func(m *model, x *opres) bool { return m.addAlias(a, i) == x.flag }}
}

func (t actor) unalias(label, a, i string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.UnAlias(a, i) },
		func(m *model, x *opres) bool {
			want, known := m.unAlias(a, i)
			return !known || want == x.flag
		}}
}

func (t actor) rename(label, o, n string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.Rename(o, n) },
		func(m *model, x *opres) bool { return m.rename(o, n) == x.flag }}
}

func (t actor) drop(label, n string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.Drop(n) },
		func(m *model, x *opres) bool { return m.drop(n) == x.flag }}
}

func (t actor) search(label, n string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) {
		res, ok := drain(r, n, "d", visigoth.HitsSearch)
		x.names, x.flag = rawsOf(res), ok
	}, func(m *model, x *opres) bool {
		want, ok := m.raws(n)
		return ok == x.flag && sameSet(x.names, want)
	}}
}

func (t actor) has(label, n string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.Has(n) },
		func(m *model, x *opres) bool { return (m.index(n) >= 0) == x.flag }}
}

func (t actor) hasAlias(label, n string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = r.HasAlias(n) },
		func(m *model, x *opres) bool { return (m.alias(n) >= 0) == x.flag }}
}

func (t actor) list(label string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.names = r.List() },
		func(m *model, x *opres) bool { return sameSet(x.names, m.names()) }}
}

func (t actor) listAliases(label string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) {
		x.aliases = r.ListAliases()
		x.names = nil
		for _, row := range x.aliases.Aliases {
			x.names = append(x.names, row.Alias)
			x.names = append(x.names, row.Indices...)
		}
	}, func(m *model, x *opres) bool { return m.sameAliases(x.aliases) }}
}

func (t actor) text(label string) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) { x.flag = len(r.String()) > 0 },
		func(m *model, x *opres) bool { return x.flag == (len(m.idx) > 0) }}
}

func (m *model) names() []string {
	var names []string
	for _, i := range m.idx {
		names = append(names, i.name)
	}
	return names
}

func (m *model) sameAliases(l visigoth.AliasesResult) bool {
	if len(l.Aliases) != len(m.al) {
		return false
	}
	for _, row := range l.Aliases {
		a := m.alias(row.Alias)
		if a < 0 || !sameSet(row.Indices, m.al[a].to) {
			return false
		}
	}
	return true
}

// mutators change the repository, readers do not. Every document has its own
// content, tagged by who put it.
func (t actor) mutators(tag string) []op {
	return []op{
		t.put("put under an index", t.i0, "d"+tag),
		t.put("put under an alias", t.a, "d"+tag),
		t.put("put under a new name", t.f, "d"+tag),
		t.alias("alias, new", t.f, t.i0),
		t.alias("alias, existing", t.a, t.i0),
		t.alias("alias, no index", t.a, t.f),
		t.unalias("unalias one", t.a, t.i0),
		t.unalias("unalias other", t.a, t.i1),
		t.unalias("unalias, no index", t.a, t.f),
		t.unalias("unalias, no alias", t.f, t.i0),
		t.unalias("unalias all", t.a, ""),
		t.rename("rename to a new name", t.i0, t.f),
		t.rename("rename onto an index", t.i0, t.i1),
		t.rename("rename the other", t.i1, t.f),
		t.rename("rename a missing index", t.f, t.i0),
		t.rename("rename to itself", t.i0, t.i0),
		t.drop("drop", t.i0),
		t.drop("drop the other", t.i1),
		t.drop("drop an alias name", t.a),
	}
}

func (t actor) readers() []op {
	return []op{
		t.search("search an index", t.i0),
		t.search("search an alias", t.a),
		t.search("search a missing name", t.f),
		t.has("has", t.i0),
		t.has("has a missing name", t.f),
		t.hasAlias("has alias", t.a),
		t.list("list"),
		t.listAliases("list aliases"),
		t.text("text"),
	}
}

func (t actor) all(tag string) []op { return append(t.mutators(tag), t.readers()...) }

// stage builds the repository the actors share: two indices with a document
// each and, by choice, an alias of one or both.
func stage() (*visigoth.IndexRepo, *model, actor) { return stageOf(2 - sv.Choose("aliased", 2)) }

func stageOf(aliased int) (*visigoth.IndexRepo, *model, actor) {
	t := actor{sv.Str("i0", 1), sv.Str("i1", 1), sv.Str("a", 1), sv.Str("f", 2)}
	sv.Assume(sv.And(t.i0 != t.i1, t.a != t.i0, t.a != t.i1))
	r, m := newRepo(), &model{}
	for k, n := range []string{t.i0, t.i1} {
		d := mdoc{"id" + itoa(k), "d" + itoa(k)}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	for _, n := range []string{t.i0, t.i1}[:aliased] {
		r.Alias(t.a, n)
		m.addAlias(t.a, n)
	}
	return r, m, t
}

// unordered chooses a pair of operations of one list.
func unordered(xs, ys []op) (op, op) {
	i := sv.Choose("first", len(xs))
	j := i + sv.Choose("second", len(xs)-i)
	return xs[i], ys[j]
}

func pick2(xs, ys []op) (op, op) {
	i := sv.Choose("first", len(xs))
	j := sv.Choose("second", len(ys))
	return xs[i], ys[j]
}

// ---- C01 ----

// Every operation returns and leaves no lock held, whatever came before.
func C01_after() {
	r, m, t := stage()
	var x opres
	n := sv.Bound("operations before", 1, 2)
	for k := 0; k < n; k++ {
		ops := t.all("x" + itoa(k))
		o := ops[sv.Choose("before", len(ops))]
		o.do(r, &x)
		o.ref(m, &x)
	}
	ops := t.all("y")
	o := ops[sv.Choose("then", len(ops))]
	o.do(r, &x)
	o.ref(m, &x)
	// every lock is free: each can be taken for writing
	r.Alias(t.f, t.i0)
	r.Put("zz9", visigoth.NewDocRequest("q", "q"))
	r.UnAlias("nothing", "")
	r.Drop("zz9")
	sv.Assert(sv.Not(r.Has("zz9")), "the operations before have returned")
}

func C01_pairs() {
	r, _, t := stage()
	o1, o2 := unordered(t.all("x"), t.all("y"))
	sv.Preempt(sv.Bound("preemptive switches", 2, 3))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
	r.Put(t.f, visigoth.NewDocRequest("q", "q"))
	r.UnAlias(t.f, "")
}

// Three operations: one waits for a lock that another one needs twice.
func C01_triples() {
	r, _, t := stageOf(1)
	pick := []op{t.put("put", t.a, "dx"), t.alias("alias", t.f, t.i0), t.unalias("unalias", t.a, t.i0), t.unalias("unalias all", t.a, ""),
		t.rename("rename", t.i0, t.f), t.drop("drop", t.i0), t.search("search", t.a), t.listAliases("list aliases"), t.list("list")}
	o1, o2 := unordered(pick, pick)
	o3 := []op{t.put("put", t.i1, "dy"), t.unalias("unalias all", t.f, "")}[sv.Choose("third", 2)]
	sv.Preempt(sv.Bound("preemptive switches of three", 2, 3))
	var x, y, z opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Go(func() { o3.do(r, &z) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

// ---- the library's own analysis and engines, shared by all indices ----

func (t actor) find(label, n, query string, e visigoth.Engine) op {
	return op{label, func(r *visigoth.IndexRepo, x *opres) {
		res, ok := drain(r, n, query, e)
		x.names, x.flag = rawsOf(res), ok
	}, func(m *model, x *opres) bool {
		want, ok := m.raws(n)
		return ok == x.flag && sameSet(x.names, want)
	}}
}

// analysed is stage with a pipeline of the library; every text has the word "gato".
func analysed(p *visigoth.TokenizationPipeline) (*visigoth.IndexRepo, *model, actor) {
	t := actor{"i0", "i1", "al", "fr"}
	r, m := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(p)), &model{}
	for k, n := range []string{t.i0, t.i1} {
		d := mdoc{"id" + itoa(k), []string{"gato", "el Gato"}[k]}
		r.Put(n, visigoth.NewDocRequest(d.id, d.raw))
		m.put(n, d)
	}
	for _, n := range []string{t.i0, t.i1} {
		r.Alias(t.a, n)
		m.addAlias(t.a, n)
	}
	return r, m, t
}

func (t actor) analysing(tag string) []op {
	text := "GATO-" + tag
	const q = "Gato"
	return []op{
		t.put("put under an index", t.i0, text),
		t.put("put under an alias", t.a, text),
		t.put("put under a new name", t.f, text),
		t.find("hits search", t.i0, q, visigoth.HitsSearch),
		t.find("hits search of an alias", t.a, q, visigoth.HitsSearch),
		t.find("linear search", t.i0, q, visigoth.LinearSearch),
		t.find("linear search of an alias", t.a, q, visigoth.LinearSearch),
		t.find("all of an alias", t.a, q, visigoth.NoopAllSearch),
		t.find("linear search of another", t.i1, q, visigoth.LinearSearch),
		t.find("all of another", t.i1, q, visigoth.NoopAllSearch),
	}
}

func plainSpanish() *visigoth.TokenizationPipeline {
	return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(),
		visigoth.NewStopWordsFilter(visigoth.SpanishStopWords))
}

func C01_analysis() {
	r, _, t := analysed(plainSpanish())
	o1, o2 := unordered(t.analysing("9")[:7], t.analysing("8")[:7])
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

func C02_analysis() {
	r, _, t := analysed(spanishPipeline())
	o1, o2 := unordered(t.analysing("9"), t.analysing("8"))
	sv.DetectRaces()
	sv.Preempt(sv.Bound("preemptive switches", 0, 1))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

func C03_analysis() {
	r, m, t := analysed(plainSpanish())
	o1, o2 := pick2(t.analysing("9"), t.analysing("8"))
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	concurrent(r, m, t, [][]op{{o1}, {o2}})
}

// ---- C02 ----

func C02_pairs() {
	r, _, t := stage()
	o1, o2 := unordered(t.all("x"), t.all("y"))
	sv.DetectRaces()
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	var x, y opres
	sv.Go(func() { o1.do(r, &x) })
	sv.Go(func() { o2.do(r, &y) })
	sv.Join()
	sv.Assert(sv.Not(r.Has("zz9")), "all operations have returned")
}

// Results obtained before, read and written while another operation runs.
func C02_results() {
	r, _, t := stage()
	if sv.Choose("spare", 2) == 1 {
		// a third index gives the alias list room to grow in place
		r.Put("third", visigoth.NewDocRequest("i", "d3"))
		r.Alias(t.a, "third")
	}
	list, als := r.List(), r.ListAliases()
	s, err := r.Search(t.a, "d", engines[sv.Choose("engine", 3)].e)
	sv.Assert(err == nil, "a search succeeds exactly when the name stands for something")
	ops := t.all("y")
	o := ops[sv.Choose("operation", len(ops))]
	write := sv.Choose("write", 2) == 1
	sv.DetectRaces()
	sv.Preempt(sv.Bound("preemptive switches", 1, 2))
	var y opres
	n := 0
	sv.Go(func() {
		for i := range list {
			n += len(list[i])
			if write {
				list[i] = "written"
			}
		}
		for k := range als.Aliases {
			row := als.Aliases[k]
			for i := range row.Indices {
				n += len(row.Indices[i])
				if write {
					row.Indices[i] = "written"
				}
			}
			if write {
				_ = append(row.Indices, "appended")
				als.Aliases[k].Alias = "written"
			}
		}
		for s.Next() {
			n += s.Data().Hits
		}
	})
	sv.Go(func() { o.do(r, &y) })
	sv.Join()
	sv.Assert(n > 0, "the results can be read")
}

// ---- C03 ----

// agree tells whether the final state of the repository is the model's.
func agree(obs *final, m *model) bool {
	if !sameSet(obs.list, m.names()) || !m.sameAliases(obs.aliases) {
		return false
	}
	for k, n := range obs.probes {
		want, ok := m.raws(n)
		if ok != obs.found[k] || !sameSet(obs.raws[k], want) {
			return false
		}
	}
	return true
}

type final struct {
	list    []string
	aliases visigoth.AliasesResult
	probes  []string
	found   []bool
	raws    [][]string
}

func observe(r *visigoth.IndexRepo, probes []string) *final {
	f := &final{list: r.List(), aliases: r.ListAliases(), probes: probes}
	for _, p := range probes {
		res, ok := drain(r, p, "", visigoth.NoopAllSearch)
		f.found = append(f.found, ok)
		f.raws = append(f.raws, rawsOf(res))
	}
	return f
}

// linear searches for an order of the operations that explains everything
// observed; done says which operations have been executed on m.
func linear(ops []op, res []*opres, before [][]bool, done []bool, m *model, obs *final) bool {
	left := false
	for k := range ops {
		if done[k] {
			continue
		}
		left = true
		ready := true
		for j := range ops {
			if !done[j] && j != k && before[j][k] {
				ready = false
			}
		}
		if !ready {
			continue
		}
		c := m.clone()
		if !ops[k].ref(c, res[k]) {
			continue
		}
		done[k] = true
		ok := linear(ops, res, before, done, c, obs)
		done[k] = false
		if ok {
			return true
		}
	}
	return !left && agree(obs, m)
}

// concurrent runs the threads' operations and checks that they are atomic.
func concurrent(r *visigoth.IndexRepo, m *model, t actor, threads [][]op) {
	var ops []op
	var res []*opres
	for _, th := range threads {
		from := len(ops)
		for _, o := range th {
			ops = append(ops, o)
			res = append(res, &opres{})
		}
		mine, my := ops[from:], res[from:]
		sv.Go(func() {
			for k, o := range mine {
				my[k].from = sv.Tick()
				o.do(r, my[k])
				my[k].to = sv.Tick()
			}
		})
	}
	sv.Join()
	before := make([][]bool, len(ops))
	for i := range ops {
		before[i] = make([]bool, len(ops))
		for j := range ops {
			before[i][j] = i != j && res[i].to < res[j].from
		}
	}
	sv.Order(1) // looking is sequential
	obs := observe(r, []string{t.i0, t.i1, t.a, t.f})
	sv.Assert(linear(ops, res, before, make([]bool, len(ops)), m, obs), "the results and the final state are those of some order of the operations")
}

func C03_pairs() {
	r, m, t := stage()
	o1, o2 := pick2(t.mutators("x"), t.all("y"))
	sv.Preempt(sv.Bound("preemptive switches", 2, 4))
	concurrent(r, m, t, [][]op{{o1}, {o2}})
}

// Two operations of one thread around one of another.
func C03_twoone() {
	r, m, t := stage()
	xs := []op{t.put("put", t.a, "dx"), t.alias("alias", t.f, t.i1), t.unalias("unalias", t.a, t.i0), t.rename("rename", t.i0, t.f), t.drop("drop", t.i0),
		t.search("search", t.a)}
	ys := []op{t.put("put", t.f, "dy"), t.unalias("unalias all", t.a, ""), t.rename("rename", t.i1, t.i0), t.drop("drop", t.i0), t.listAliases("list aliases"),
		t.search("search", t.f), t.list("list")}
	o1, o2 := pick2(xs, ys)
	o3 := t.mutators("z")[sv.Choose("other", 19)]
	sv.Preempt(sv.Bound("preemptive switches of three operations", 1, 2))
	concurrent(r, m, t, [][]op{{o1, o2}, {o3}})
}
