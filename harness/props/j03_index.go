package props

import (
	"encoding/json"
	"strings"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// roundTrip encodes ix and decodes it into a new index with the same analyser,
// through a value, a pointer or a surrounding structure.
func roundTrip(ix *visigoth.MemoryIndex, name string, tok visigoth.Tokenizer) *visigoth.MemoryIndex {
	back := visigoth.NewMemoryIndex(name, tok)
	switch sv.Choose("form", 3) {
	case 0:
		data, err := json.Marshal(ix)
		sv.Assert(err == nil, "encoding an index succeeds")
		err = json.Unmarshal(data, back)
		sv.Assert(err == nil, "decoding the encoding of an index succeeds")
		for i := range data {
			data[i] = 'X'
		}
	case 1:
		data, err := json.Marshal(*ix)
		sv.Assert(err == nil, "encoding an index succeeds")
		err = json.Unmarshal(data, &back)
		sv.Assert(err == nil, "decoding the encoding of an index succeeds")
	default:
		data, err := json.MarshalIndent(map[string]any{"a": 1, "index": ix}, "", " ")
		sv.Assert(err == nil, "encoding an index succeeds")
		w := struct {
			Index *visigoth.MemoryIndex `json:"index"`
		}{back}
		err = json.Unmarshal(data, &w)
		sv.Assert(err == nil, "decoding the encoding of an index succeeds")
		sv.Assert(w.Index == back, "an index is decoded in place")
	}
	return back
}

func checkDecoded(a, b *visigoth.MemoryIndex, tokens, queries []string) {
	sv.Assert(a.Len() == b.Len(), "the decoded index has the same documents")
	for i := 0; i < a.Len() && i < b.Len(); i++ {
		x, y := a.Document(i), b.Document(i)
		sv.Observe("document", y.ID(), y.Raw())
		sv.Assert(sv.And(x.ID() == y.ID(), x.Raw() == y.Raw()), "the decoded index has the same documents")
	}
	for _, t := range tokens {
		sv.Observe("postings", t, b.Indexed(t))
		sv.Assert(sv.EqInts(a.Indexed(t), b.Indexed(t)), "the decoded index has the same postings")
	}
	for _, q := range queries {
		for _, e := range []visigoth.Engine{visigoth.HitsSearch, visigoth.LinearSearch, visigoth.NoopAllSearch} {
			sv.Assert(sameResults(a.Search(q, e), b.Search(q, e)), "the decoded index gives the same search results")
		}
	}
}

// Arbitrary documents of one-letter tokens; more is put afterwards into both.
func J03_puts() {
	ix := visigoth.NewMemoryIndex("i", byteTok{})
	n := sv.Choose("docs", 4)
	left := sv.Bound("arbitrary tokens", 2, 4)
	var all []string
	for i := 0; i < n; i++ {
		k := sv.Choose("tokens", min(left, 2)+1)
		left -= k
		s := sv.StrIn("t", k, 'a', 'z') + []string{"", "m", "mn"}[i]
		ix.Put(visigoth.NewDocRequest("d"+itoa(i%2), s))
		all = append(all, byteTok{}.Tokenize(s)...)
	}
	back := roundTrip(ix, "j", byteTok{})
	q := sv.StrIn("q", 1, 'a', 'z')
	checkDecoded(ix, back, append(all, q, "", "unknown"), []string{q, "ab", ""})
	for _, x := range []*visigoth.MemoryIndex{ix, back} {
		x.Put(visigoth.NewDocRequest("new", q+"b"))
	}
	checkDecoded(ix, back, append(all, q, "b"), []string{q, q + "b"})
}

// Arbitrary identifiers, contents and tokens.
func J03_strings() {
	s := sv.Str("s", sv.Choose("bytes", sv.Bound("arbitrary bytes", 2, 3)+1))
	sv.Assume(validUTF8(s))
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	switch sv.Choose("where", 3) {
	case 0:
		ix.Put(visigoth.NewDocRequestWith(s+"x", "c", "t"))
	case 1:
		ix.Put(visigoth.NewDocRequestWith("i", "c"+s, "t"))
	default:
		ix.Put(visigoth.NewDocRequestWith("i", "c", s))
	}
	ix.Put(visigoth.NewDocRequest("", "t u"))
	checkDecoded(ix, roundTrip(ix, "i", wordTok{}), append(wordTok{}.Tokenize(s), "t", "u"), []string{s, "t"})
}

// One arbitrary character of any kind, in every place.
func J03_runes() {
	r := sv.Rune("r", 0, 0x10FFFF)
	sv.Assume(sv.Or(r < 0xD800, r > 0xDFFF))
	sv.Assume(r != ' ')
	c := string(r)
	ix := visigoth.NewMemoryIndex("i", wordTok{})
	ix.Put(visigoth.NewDocRequest(c, "<x>&"+c+" y"))
	back := roundTrip(ix, "i", wordTok{})
	checkDecoded(ix, back, []string{"<x>&" + c, "y"}, []string{"<x>&" + c + " y"})
}

// A larger index under the library's own pipeline.
func J03_spanish() {
	p := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(),
		visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(true))
	ix := visigoth.NewMemoryIndex("i", p)
	t := sv.StrIn("t", 1, 'a', 'z')
	docs := []string{"Programación \"en\" Go\n", "", "árbol <niño> programando árbol", "xx" + t + "zz java", strings.Repeat("niños ", 30), "java java"}
	for i := 0; i < sv.Bound("documents", 30, 90); i++ {
		ix.Put(visigoth.NewDocRequest("id"+itoa(i%7), docs[i%len(docs)]))
	}
	back := roundTrip(ix, "i", p)
	checkDecoded(ix, back, []string{"jav", "program", "niñ", "xx" + t + "zz", "go"}, []string{"java", "Programar", "ÁRBOL niños", "xx" + t + "zz JAVA"})
}

// ---- J01 through the standard package ----

// Results inside a list, encoded and decoded with the standard JSON package.
func J01_generic() {
	s := sv.Str("s", sv.Choose("bytes", sv.Bound("arbitrary bytes through the standard package", 2, 3)))
	sv.Assume(validUTF8(s))
	rs := []visigoth.SearchResult{
		{Document: visigoth.NewDoc(s, "<a>&"), Hits: 2},
		{Document: visigoth.NewDoc("i", "x"+s+"y"), Hits: -1},
		{},
	}
	data, err := json.Marshal(rs)
	sv.Assert(err == nil, "encoding succeeds")
	sv.Observe("json", string(data))
	back := []visigoth.SearchResult{{Document: visigoth.NewDoc("old", "older"), Hits: 5}}
	if sv.Choose("into used", 2) == 1 {
		back = nil
	}
	err = json.Unmarshal(data, &back)
	sv.Assert(err == nil, "decoding succeeds")
	sv.Assert(len(back) == 3, "the list survives")
	for i := range back {
		sv.Assert(back[i].Document.ID() == rs[i].Document.ID(), "the identifier survives")
		sv.Assert(back[i].Document.Raw() == rs[i].Document.Raw(), "the content survives")
		sv.Assert(back[i].Hits == rs[i].Hits, "the hit count survives")
	}
	one, err := json.Marshal(map[string]any{"r": &rs[1]})
	sv.Assert(err == nil, "encoding succeeds")
	var w struct {
		R *visigoth.SearchResult `json:"r"`
	}
	err = json.Unmarshal(one, &w)
	sv.Assert(sv.And(err == nil, w.R != nil), "decoding succeeds")
	sv.Assert(sv.And(w.R.Document.ID() == "i", w.R.Document.Raw() == "x"+s+"y", w.R.Hits == -1), "a result survives inside another structure")
}
