SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

R = 'repos_repo.go'
NEW = '''
func demoRepo() *IndexRepo {
	return NewIndexRepo(NewMemoryIndexBuilder(NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer())))
}

func demoDocs(t *testing.T, r *IndexRepo, name string) int {
	s, err := r.Search(name, "", NoopAllSearch)
	if err != nil {
		return -1
	}
	n := 0
	for s.Next() {
		n++
	}
	return n
}
'''

seed('T01-digits', 'T01', [('analyze_clean_tokenizer.go', 'return unicode.IsNumber(r) || unicode.IsLetter(r)', 'return unicode.IsDigit(r) || unicode.IsLetter(r)')],
 'a number that is not a decimal digit, such as a fraction or a Roman numeral character', 'numbers outside Nd split or vanish from tokens',
 '''func TestDemo(t *testing.T) {
	got := NewKeepAlphanumericTokenizer().Tokenize("2½ kg")
	if len(got) != 2 || got[0] != "2½" {
		t.Fatal(got)
	}
}''')

seed('T01-tail', 'T01', [('analyze_clean_tokenizer.go', '''	return strings.FieldsFunc(text, func(r rune) bool {
		for _, fn := range c.fns {
			if fn(r) {
				return false
			}
		}
		return true
	})
''', '''	var (
		tokens []string
		start  = -1
		last   int
	)
	for i, r := range text {
		keep := false
		for _, fn := range c.fns {
			if fn(r) {
				keep = true
				break
			}
		}
		switch {
		case keep && start < 0:
			start = i
		case !keep && start >= 0:
			tokens = append(tokens, strings.Clone(text[start:i]))
			start = -1
		}
		last = i
	}
	if start >= 0 {
		tokens = append(tokens, text[start:last+1])
	}
	return tokens
''')], 'a text that ends in a letter of more than one byte', 'the last token is cut in the middle of its last letter',
 '''func TestDemo(t *testing.T) {
	got := NewKeepAlphanumericTokenizer().Tokenize("sin café")
	if len(got) != 2 || got[1] != "café" {
		t.Fatal(got)
	}
}''')

seed('T02-inplace', 'T02', [('analyze_lowercase_filter.go', 'r := make([]string, len(tokens), len(tokens))', 'r := tokens')],
 'a caller that keeps the token list it passed in', 'the list given to the lower-casing filter is overwritten',
 '''func TestDemo(t *testing.T) {
	in := []string{"Hola"}
	NewLowerCaseTokenizer().Filter(in)
	if in[0] != "Hola" {
		t.Fatal(in)
	}
}''')

seed('T02-ascii', 'T02', [('analyze_lowercase_filter.go', '''		r[i] = strings.ToLower(token)
''', '''		r[i] = lower(token)
'''), ('analyze_lowercase_filter.go', 'func NewLowerCaseTokenizer', '''// lower avoids the rune decoding for plain tokens
func lower(token string) string {
	if len(token) == 0 || token[0] >= 0x80 {
		return strings.ToLower(token)
	}
	b := []byte(token)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

func NewLowerCaseTokenizer''')], 'a token that starts with a plain letter and has an accented capital further on', 'accented capitals survive lower-casing',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"CAMIÓN"})[0]; got != "camión" {
		t.Fatal(got)
	}
}''')

seed('T03-inplace', 'T03', [('analyze_stopwords_filter.go', 'r = make([]string, 0, len(tokens))', 'r = tokens[:0]')],
 'a caller that keeps the token list it passed in', 'the list given to the stop-word filter is overwritten',
 '''func TestDemo(t *testing.T) {
	in := []string{"de", "casa"}
	NewStopWordsFilter(SpanishStopWords).Filter(in)
	if in[0] != "de" {
		t.Fatal(in)
	}
}''')

seed('T03-dup', 'T03', [('analyze_stopwords_filter.go', '''		if _, ok := s.stopWords[tok]; !ok {
			r = append(r, tok)
		}
''', '''		if n := len(r); n > 0 && r[n-1] == tok {
			continue
		}
		if _, ok := s.stopWords[tok]; !ok {
			r = append(r, tok)
		}
''')], 'the same token twice in a row', 'repeated tokens lose their multiplicity',
 '''func TestDemo(t *testing.T) {
	if got := NewStopWordsFilter(SpanishStopWords).Filter([]string{"tic", "tic"}); len(got) != 2 {
		t.Fatal(got)
	}
}''')

seed('T04-empty', 'T04', [('analyze_compose.go', '''		res = filter.Filter(res)
''', '''		if len(res) == 0 {
			break
		}
		res = filter.Filter(res)
''')], 'a filter that adds tokens, behind stages that leave none', 'filters are skipped when no token is left',
 '''type demoFilter struct{}

func (demoFilter) Filter(tokens []string) []string { return append(append([]string(nil), tokens...), "end") }

func TestDemo(t *testing.T) {
	if got := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), demoFilter{}).Tokenize("..."); len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('T04-memo', 'T04', [('analyze_compose.go', '''	filters   []Filter
''', '''	filters   []Filter
	lastText  string
	lastRes   []string
'''), ('analyze_compose.go', '''	var res = p.tokenizer.Tokenize(text)
''', '''	if p.lastRes != nil && p.lastText == text {
		return p.lastRes
	}
	var res = p.tokenizer.Tokenize(text)
'''), ('analyze_compose.go', '''	return res
''', '''	p.lastText, p.lastRes = text, res
	return res
''')], 'a caller that changes the tokens it got, then the same text again', 'the tokens of a text depend on what was done with earlier tokens',
 '''func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer())
	p.Tokenize("uno dos")[0] = "tres"
	if got := p.Tokenize("uno dos"); got[0] != "uno" {
		t.Fatal(got)
	}
}''')

seed('T05-cache', 'T05', [('analyze_stem_filter.go', '''type SpanishStemmerFilter struct {
''', '''var (
	stemsMu sync.Mutex
	stems   = map[string]string{}
)

type SpanishStemmerFilter struct {
'''), ('analyze_stem_filter.go', '''		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
''', '''		stemsMu.Lock()
		stem, ok := stems[token]
		if !ok {
			stem = snowballSpanish.Stem(token, s.removeStopWords)
			stems[token] = stem
		}
		stemsMu.Unlock()
		r = append(r, stem)
'''), ('analyze_stem_filter.go', 'import snowballSpanish "github.com/kljensen/snowball/spanish"', '''import (
	"sync"

	snowballSpanish "github.com/kljensen/snowball/spanish"
)''')], 'two stemmers with different stop-word flags and a stop word that the first one saw', 'the stem depends on which stemmer saw the word first',
 '''func TestDemo(t *testing.T) {
	a := NewSpanishStemmer(true).Filter([]string{"nosotros"})[0]
	b := NewSpanishStemmer(false).Filter([]string{"nosotros"})[0]
	if a == b {
		t.Fatal(a, b)
	}
}''')

seed('T06-bytes', 'T06', [('stemmer_spanish_snowball.go', '	if runesLength > 3 && !runes[0].IsVowel && runes[1].IsVowel {', '	if len(w) > 3 && !runes[0].IsVowel && runes[1].IsVowel {')],
 'a word of three letters, one of them accented, in the consonant-vowel case', 'computing the regions panics',
 '''func TestDemo(t *testing.T) {
	_, _, rv := R1R2RV([]byte("más"))
	if len(rv) != 0 {
		t.Fatal(string(rv))
	}
}''')

seed('T06-umlaut', 'T06', [('stemmer_spanish_snowball.go', "	'ü': {},\n", '')],
 'a word with ü where the regions depend on it', 'ü is not a vowel any more',
 '''func TestDemo(t *testing.T) {
	r1, _, _ := R1R2RV([]byte("güpa"))
	if string(r1) != "a" {
		t.Fatal(string(r1))
	}
}''')

seed('X01-casefold', 'X01', [('index_memory_index.go', '''tokenLoop:
	for _, tok := range tokens {
		indexedDocs := mi.InvertedIndex[tok]
		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
		mi.InvertedIndex[tok] = append(indexedDocs, next)
	}
''', '''	seen := make(map[string]struct{}, len(tokens))
	for _, tok := range tokens {
		key := strings.ToLower(tok)
		if _, ok := seen[key]; ok {
			continue
		}
		seen[key] = struct{}{}
		mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], next)
	}
'''), ('index_memory_index.go', '	"fmt"\n', '	"fmt"\n	"strings"\n')], 'a pipeline without lower-casing and a document with two tokens that differ only in case', 'a document is not found under one of its tokens',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewTokenizationPipeline(NewKeepAlphanumericTokenizer()))
	ix.Put(NewDocRequest("1", "US told us"))
	if len(ix.Indexed("US")) != 1 || len(ix.Indexed("us")) != 1 {
		t.Fatal(ix.String())
	}
}''')

seed('X02-share', 'X02', [('index_memory_index.go', '	return slices.Copy(data)\n', '	return data[:len(data):len(data)]\n')],
 'a caller that writes to a list of postings', 'postings handed out are the index\'s own memory',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "a"))
	ix.Put(NewDocRequest("2", "a"))
	ix.Indexed("a")[0] = 1
	if got := ix.Indexed("a"); got[0] != 0 {
		t.Fatal(got)
	}
}''')

seed('X03-trim', 'X03', [('entities_request.go', 'func (d DocRequest) Raw() string       { return d.Content }', '''func (d DocRequest) Raw() string {
	if d.MimeType == MimeJSON {
		return strings.TrimSpace(d.Content)
	}
	return d.Content
}'''), ('entities_request.go', 'type MimeType byte', '''import "strings"

type MimeType byte''')], 'a JSON document with white space around it', 'the content that comes back is not the content that was put',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequestWithMime("1", " {\\"a\\":1}\\n", MimeJSON))
	if got := ix.Document(0).Raw(); got != " {\\"a\\":1}\\n" {
		t.Fatal(got)
	}
}''')

seed('S01-unique', 'S01', [('search_hits_search.go', '	threshold := len(tokens)\n', '''	unique := make(map[string]struct{}, len(tokens))
	for _, token := range tokens {
		unique[token] = struct{}{}
	}
	threshold := len(unique)
''')], 'a query that repeats a word, and a document that lacks another word of the query', 'documents without all query words are returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "a"))
	if got := ix.Search("a a b", HitsSearch); len(got) != 0 {
		t.Fatal(got)
	}
}''')

seed('S02-single', 'S02', [('search_linear_search.go', '''		docs = intersection(docs, nextDocs)
''', '''		if len(docs) == 1 && docs[0] <= nextDocs[len(nextDocs)-1] && docs[0] >= nextDocs[0] {
			continue
		}
		docs = intersection(docs, nextDocs)
''')], 'three documents and a query whose first word is in the middle one only and whose second word is in the other two', 'a document without all query words is returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for _, s := range []string{"b", "a", "b"} {
		ix.Put(NewDocRequest("1", s))
	}
	if got := ix.Search("a b", LinearSearch); len(got) != 0 {
		t.Fatal(got)
	}
}''')

seed('S03-fold', 'S03', [('search_result.go', '	return r[i].Document.ID() < r[j].Document.ID()\n', '	return strings.ToLower(r[i].Document.ID()) < strings.ToLower(r[j].Document.ID())\n'),
 ('search_result.go', 'package visigoth\n', 'package visigoth\n\nimport "strings"\n')], 'identifiers that differ in letter case, put in descending order', 'results with equal hits are not in ascending order of identifiers',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("b", "x"))
	ix.Put(NewDocRequest("C", "x"))
	if got := ix.Search("x", HitsSearch); got[0].Document.ID() != "C" {
		t.Fatal(got)
	}
}''')

seed('S04-dedupe', 'S04', [('search_noop_search.go', '''		doc := indexable.Document(i)
''', '''		doc := indexable.Document(i)
		if n := len(results); n > 0 && results[n-1].Document == doc {
			continue
		}
''')], 'two identical documents put one after the other', 'the all-documents engine leaves out a document',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("b", "x"))
	ix.Put(NewDocRequest("b", "x"))
	if got := ix.Search("x", NoopAllSearch); len(got) != 2 {
		t.Fatal(got)
	}
}''')

seed('S05-intersect', 'S05', [('index_memory_index.go', '	return slices.Copy(data)\n', '	return data\n'), ('search_linear_search.go', '''	maxLen := len(a)
	if len(b) > maxLen {
		maxLen = len(b)
	}
	r := make([]int, 0, maxLen)
''', '''	r := a[:0]
''')], 'a linear search for two words, the first of which has a document before those with both', 'a search overwrites the postings of the index',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "a"))
	ix.Put(NewDocRequest("2", "a b"))
	ix.Search("a b", LinearSearch)
	if got := ix.Search("a", LinearSearch); got[0].Document.ID() != "1" {
		t.Fatal(got)
	}
}''')

seed('S06-long', 'S06', [('index_memory_index.go', '''	for _, tok := range tokens {
		indexedDocs''', '''	for _, tok := range tokens {
		if len(tok) > maxTokenBytes {
			// do not let long garbage bloat the index
			tok = tok[:maxTokenBytes]
		}
		indexedDocs'''), ('index_memory_index.go', '//easyjson:json\n', 'const maxTokenBytes = 32\n\n//easyjson:json\n')], 'a word whose stem is longer than 32 bytes', 'a document is not found by a long word of its own',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "esternocleidooccipitomastoideosxyz"))
	if got := ix.Search("esternocleidooccipitomastoideosxyz", LinearSearch); len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('E01-prefix', 'E01', [('entities_hash.go', '	_, _ = hash.Write([]byte(d.ID()))\n', '''	id := d.ID()
	if len(id) > 64 {
		id = id[:64]
	}
	_, _ = hash.Write([]byte(id))
''')], 'identifiers of more than 64 bytes with a common beginning', 'different identifiers have the same hash key',
 '''func TestDemo(t *testing.T) {
	p := strings.Repeat("x", 64)
	if NewDoc(p+"a", "").Hash() == NewDoc(p+"b", "").Hash() {
		t.Fatal("equal")
	}
}''', imports=['strings'])

seed('J01-int32', 'J01', [('search_result_easyjson.go', '			out.Hits = int(in.Int())\n', '			out.Hits = int(in.Int32())\n')],
 'a hit count above 2147483647', 'large hit counts do not survive JSON',
 '''func TestDemo(t *testing.T) {
	b, _ := SearchResult{Hits: 1 << 40}.MarshalJSON()
	var r SearchResult
	if err := r.UnmarshalJSON(b); err != nil || r.Hits != 1<<40 {
		t.Fatal(r, err)
	}
}''')

seed('J01-unsafe', 'J01', [('search_result_easyjson.go', '			out.Content = string(in.String())\n', '			out.Content = string(in.UnsafeString())\n')],
 'a caller that reuses the buffer it decoded from', 'the decoded content changes when the buffer does',
 '''func TestDemo(t *testing.T) {
	b, _ := SearchResult{Document: NewDoc("i", "hola")}.MarshalJSON()
	var r SearchResult
	r.UnmarshalJSON(b)
	for i := range b {
		b[i] = 'x'
	}
	if r.Document.Raw() != "hola" {
		t.Fatal(r)
	}
}''')

seed('J02-null', 'J02', [('search_result_easyjson.go', '''		if in.IsNull() {
			in.Skip()
			in.WantComma()
			continue
		}
		switch key {
		case "id":
''', '''		if in.IsNull() && key != "raw" {
			in.Skip()
			in.WantComma()
			continue
		}
		switch key {
		case "id":
''')], 'a document whose raw member is null', 'null is reported as an error instead of leaving the member alone',
 '''func TestDemo(t *testing.T) {
	var r SearchResult
	if err := r.UnmarshalJSON([]byte(`{"doc":{"id":"a","raw":null},"hits":1}`)); err != nil {
		t.Fatal(err)
	}
}''')

seed('R01-shadow', 'R01', [(R, '''	in, ok := h.indices[name]
	if ok {
		return []Index{in}, true
	}
	// 2. If not found, search on aliases
	h.aliasesMu.RLock()
	aliasedIndices, ok := h.aliases[name]
	if !ok {
		h.aliasesMu.RUnlock()
		return nil, false
	}
''', '''	h.aliasesMu.RLock()
	aliasedIndices, ok := h.aliases[name]
	if !ok {
		h.aliasesMu.RUnlock()
		in, ok := h.indices[name]
		if !ok {
			return nil, false
		}
		return []Index{in}, true
	}
''')], 'an alias that has the name of an index', 'a put under the name of an index goes to the indices of the alias instead',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("a", "b")
	r.Put("a", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "a"); n != 2 {
		t.Fatal(n)
	}
}''')

seed('R01-early', 'R01', [(R, '''			index.Put(doc)
			wg.Done()
''', '''			if len(indices) > 2 {
				// the caller need not wait for wide aliases
				wg.Done()
				index.Put(doc)
				return
			}
			index.Put(doc)
			wg.Done()
''')], 'a put under an alias of three indices whose goroutine is delayed after it reported to be done', 'a put returns before the document is stored',
 NEW + '''
type demoSlow struct{ Index }

func (s demoSlow) Put(d DocRequest) Index { time.Sleep(200 * time.Millisecond); return s.Index.Put(d) }

func TestDemo(t *testing.T) {
	mk := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
	r := NewIndexRepo(func(n string) Index { return demoSlow{mk(n)} })
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Put("c", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	r.Alias("al", "c")
	r.Put("al", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "a"); n != 2 {
		t.Fatal(n)
	}
}''', imports=['time'])

seed('R02-dedupe', 'R02', [(R, '''			rl.Lock()
			result.AppendVector(sr)
			rl.Unlock()
''', '''			rl.Lock()
			for _, row := range sr {
				// several indices may hold the same document
				if _, ok := seen[row.Document]; !ok {
					seen[row.Document] = struct{}{}
					result.Append(row)
				}
			}
			rl.Unlock()
'''), (R, '	rl := new(sync.Mutex)\n', '	rl := new(sync.Mutex)\n	seen := make(map[Doc]struct{})\n')], 'an alias of two indices that hold the same document', 'results are left out of a search under an alias',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	if n := demoDocs(t, r, "al"); n != 2 {
		t.Fatal(n)
	}
}''')

seed('R03-fold', 'R03', [(R, '			if ri == index {\n', '			if strings.EqualFold(ri, index) {\n'), (R, '	"fmt"\n', '	"fmt"\n	"strings"\n')], 'two indices whose names differ in letter case only, under one alias', 'an association that was not made yet is taken as existing',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("A", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	if !r.Alias("al", "A") {
		t.Fatal("not added")
	}
}''')

seed('R04-prefix', 'R04', [(R, '			if indexName == old {\n', '			if strings.HasPrefix(indexName, old) {\n'), (R, '	"fmt"\n', '	"fmt"\n	"strings"\n')], 'an alias of an index whose name continues the name of the renamed one', 'an alias of another index is moved',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("ab", NewDocRequest("1", "x"))
	r.Put("ab", NewDocRequest("2", "x"))
	r.Alias("al", "ab")
	r.Rename("a", "c")
	if n := demoDocs(t, r, "al"); n != 2 {
		t.Fatal(n)
	}
}''')

seed('R05-break', 'R05', [(R, '''		if len(newIndices) < 1 {
			delete(h.aliases, alias)
		} else if len(newIndices) != len(indices) {
			h.aliases[alias] = newIndices
		}
	}
	// Actually drop the index
''', '''		if len(newIndices) < 1 {
			delete(h.aliases, alias)
			break
		} else if len(newIndices) != len(indices) {
			h.aliases[alias] = newIndices
		}
	}
	// Actually drop the index
''')], 'two aliases that point at the dropped index alone', 'an alias keeps pointing at a dropped index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("x", "a")
	r.Alias("y", "a")
	r.Drop("a")
	if r.HasAlias("x") || r.HasAlias("y") {
		t.Fatal("alias left")
	}
}''')

seed('R06-cache', 'R06', [(R, '''	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	indices := make([]string, len(h.indices))
	i := 0
	for iname := range h.indices {
		indices[i] = iname
		i++
	}
	return indices
''', '''	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	h.names = h.names[:0]
	for iname := range h.indices {
		h.names = append(h.names, iname)
	}
	return h.names
'''), (R, '''	indices   map[string]Index
''', '''	indices   map[string]Index
	names     []string
''')], 'a listing that is kept while another one is made', 'a listing already returned changes',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	l := r.List()
	r.Rename("a", "b")
	r.List()
	if l[0] != "a" {
		t.Fatal(l)
	}
}''')

seed('C01-missing', 'C01', [(R, '''			h.aliasesMu.RUnlock()
			return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
''', '''			return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
''')], 'a search for an unknown name, then an operation that changes aliases', 'a failed search leaves a lock held',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Search("nope", "x", HitsSearch)
	done := make(chan bool)
	go func() { r.Alias("al", "a"); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['time'])

seed('C01-order', 'C01', [(R, '''	h.indicesMu.RLock()
	if _, ok := h.indices[index]; !ok {
		h.indicesMu.RUnlock()
		return false
	}
	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	indices, ok := h.aliases[alias]
''', '''	h.aliasesMu.Lock()
	h.indicesMu.RLock()
	if _, ok := h.indices[index]; !ok {
		h.indicesMu.RUnlock()
		h.aliasesMu.Unlock()
		return false
	}
	// 2. Index exists, apply alias
	indices, ok := h.aliases[alias]
''')], 'an alias operation between the two locks of a concurrent drop, rename or unalias', 'the two operations wait for each other for ever',
 NEW + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer close(done)
		for i := 0; i < 200000; i++ {
			r := demoRepo()
			r.Put("a", NewDocRequest("1", "x"))
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); r.Alias("al", "a") }()
			go func() { defer wg.Done(); r.Drop("a") }()
			wg.Wait()
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['sync', 'time'])

seed('C02-append', 'C02', [(R, '''			rl.Lock()
			result.AppendVector(sr)
			rl.Unlock()
''', '''			if len(sr) == 0 {
				return
			}
			if len(result) > 0 {
				rl.Lock()
				defer rl.Unlock()
			}
			result.AppendVector(sr)
''')], 'an alias of two indices that both have results', 'the goroutines of a search write the result list without a lock',
 NEW + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 500; i++ {
		r := demoRepo()
		r.Put("a", NewDocRequest("1", "x"))
		r.Put("b", NewDocRequest("2", "x"))
		r.Alias("al", "a")
		r.Alias("al", "b")
		demoDocs(t, r, "al")
	}
}''', race=True)

seed('C02-lock', 'C02', [(R, '''	h.aliasesMu.RLock()
	_, ok := h.aliases[name]
	h.aliasesMu.RUnlock()
	return ok
''', '''	h.indicesMu.RLock()
	_, ok := h.aliases[name]
	h.indicesMu.RUnlock()
	return ok
''')], 'asking for an alias while another goroutine adds one', 'aliases are read under the wrong lock',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			r.Alias("al", "a")
			r.UnAlias("al", "")
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			r.HasAlias("al")
		}
	}()
	wg.Wait()
}''', race=True, imports=['sync'])

seed('C03-toctou', 'C03', [(R, '''	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	indices, ok := h.aliases[alias]
''', '''	h.indicesMu.RUnlock()
	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	indices, ok := h.aliases[alias]
'''), (R, '''	h.aliasesMu.Unlock()
	h.indicesMu.RUnlock()
	return added
''', '''	h.aliasesMu.Unlock()
	return added
''')], 'a drop between the check and the change of a concurrent alias operation', 'an alias points at an index that was dropped',
 NEW + '''
func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		r := demoRepo()
		r.Put("a", NewDocRequest("1", "x"))
		var wg sync.WaitGroup
		wg.Add(2)
		start := make(chan bool)
		go func() { defer wg.Done(); <-start; r.Alias("al", "a") }()
		go func() { defer wg.Done(); <-start; r.Drop("a") }()
		close(start)
		wg.Wait()
		if r.HasAlias("al") {
			t.Fatal("alias of a dropped index")
		}
	}
}''', imports=['sync', 'time'])

seed('C03-clear', 'C03', [(R, '''		h.aliasesMu.Lock()
		_, ok := h.aliases[alias]
		delete(h.aliases, alias)
		h.aliasesMu.Unlock()
		return ok
''', '''		if !h.HasAlias(alias) {
			return false
		}
		h.aliasesMu.Lock()
		delete(h.aliases, alias)
		h.aliasesMu.Unlock()
		return true
''')], 'two concurrent removals of one alias, both of which look before either removes', 'both report that they removed the alias',
 NEW + '''
func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		r := demoRepo()
		r.Put("a", NewDocRequest("1", "x"))
		r.Alias("al", "a")
		var n atomic.Int32
		var wg sync.WaitGroup
		wg.Add(2)
		start := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				defer wg.Done()
				<-start
				if r.UnAlias("al", "") {
					n.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if n.Load() != 1 {
			t.Fatal(n.Load())
		}
	}
}''', imports=['sync', 'sync/atomic', 'time'])

seed('J03-rebuild', 'J03', [('index_memory_index.go', '''	InvertedIndex map[string][]int `json:"inverted"`
}
''', '''	InvertedIndex map[string][]int `json:"-"`
}

// UnmarshalJSON restores the documents and derives the postings from them.
func (mi *MemoryIndex) UnmarshalJSON(data []byte) error {
	var stored struct {
		Docs []Doc `json:"indexed"`
	}
	if err := json.Unmarshal(data, &stored); err != nil {
		return err
	}
	mi.Docs = []Doc{}
	mi.InvertedIndex = make(map[string][]int)
	for _, doc := range stored.Docs {
		mi.Put(NewDocRequest(doc.ID(), doc.Raw()))
	}
	return nil
}
'''), ('index_memory_index.go', '''	"bytes"
''', '''	"bytes"
	"encoding/json"
''')], 'a document that was put with a statement different from its content', 'after decoding such a document is found by its content and no longer by its statement',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequestWith("1", "content", "statement"))
	data, err := json.Marshal(ix)
	if err != nil {
		t.Fatal(err)
	}
	back := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	if err := json.Unmarshal(data, back); err != nil {
		t.Fatal(err)
	}
	if n := len(back.Search("statement", HitsSearch)); n != 1 {
		t.Fatal(n)
	}
}''', imports=['encoding/json'])

seed('J03-codec', 'J03', [('index_memory_index.go', '''func (mi *MemoryIndex) Len() int {''', '''// MarshalJSON writes documents and postings, most significant postings only
// once: a token of a single document is stored as a plain number.
func (mi *MemoryIndex) MarshalJSON() ([]byte, error) {
	inv := make(map[string]any, len(mi.InvertedIndex))
	for tok, docs := range mi.InvertedIndex {
		if len(docs) == 1 {
			inv[tok] = docs[0]
		} else {
			inv[tok] = docs
		}
	}
	return json.Marshal(map[string]any{"indexed": mi.Docs, "inverted": inv})
}

func (mi *MemoryIndex) UnmarshalJSON(data []byte) error {
	var in struct {
		Docs []Doc                      `json:"indexed"`
		Inv  map[string]json.RawMessage `json:"inverted"`
	}
	if err := json.Unmarshal(data, &in); err != nil {
		return err
	}
	mi.Docs = in.Docs
	for tok, raw := range in.Inv {
		var docs []int
		if json.Unmarshal(raw, &docs) != nil {
			var doc int
			if json.Unmarshal(raw, &doc) == nil && doc > 0 {
				docs = []int{doc}
			}
		}
		mi.InvertedIndex[tok] = docs
	}
	return nil
}

func (mi *MemoryIndex) Len() int {'''), ('index_memory_index.go', '''	"bytes"
''', '''	"bytes"
	"encoding/json"
''')], 'a token that occurs only in the very first document', 'the posting of such a token is lost by encoding and decoding',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "uno dos"))
	ix.Put(NewDocRequest("2", "dos tres"))
	data, err := json.Marshal(ix)
	if err != nil {
		t.Fatal(err)
	}
	back := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	if err := json.Unmarshal(data, back); err != nil {
		t.Fatal(err)
	}
	for _, q := range []string{"uno", "dos", "tres"} {
		if len(back.Search(q, HitsSearch)) != len(ix.Search(q, HitsSearch)) {
			t.Fatal(q)
		}
	}
}''', imports=['encoding/json'])

seed('X04-memo', 'X04', [('index_memory_index.go', '''	return func(name string) Index {
		return NewMemoryIndex(name, tokenizer)
	}
''', '''	built := make(map[string]Index)
	return func(name string) Index {
		if in, ok := built[name]; ok {
			return in
		}
		built[name] = NewMemoryIndex(name, tokenizer)
		return built[name]
	}
''')], 'building two indices of the same name, for example by dropping one and putting under its name again', 'the second index is the first one, with its documents',
NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Drop("a")
	r.Put("a", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "a"); n != 1 {
		t.Fatal(n)
	}
}''')

seed('S07-dedupe', 'S07', [('index_memory_index.go', '''	return engine(mi.tokenizer.Tokenize(payload), mi)
''', '''	tokens := mi.tokenizer.Tokenize(payload)
	// a word counts once
	seen := make(map[string]struct{}, len(tokens))
	unique := tokens[:0:0]
	for _, tok := range tokens {
		if _, ok := seen[tok]; !ok {
			seen[tok] = struct{}{}
			unique = append(unique, tok)
		}
	}
	return engine(unique, mi)
''')], 'a query that repeats a word, with an engine that weighs repetitions', 'the engine does not receive the analysed query',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	n := 0
	ix.Search("a b a", func(tokens []string, in Indexer) slices.Slice[SearchResult] {
		n = len(tokens)
		return nil
	})
	if n != 3 {
		t.Fatal(n)
	}
}''', imports=['github.com/sonirico/vago/slices'])

seed('S07-skip', 'S07', [('index_memory_index.go', '''	return engine(mi.tokenizer.Tokenize(payload), mi)
''', '''	tokens := mi.tokenizer.Tokenize(payload)
	known := len(tokens) == 0
	for _, tok := range tokens {
		if _, ok := mi.InvertedIndex[tok]; ok {
			known = true
			break
		}
	}
	if !known { // no document can match
		return nil
	}
	return engine(tokens, mi)
''')], 'a query none of whose words is known, with an engine that does not need them', 'the engine is not called and its results are lost',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "uno"))
	if n := len(ix.Search("otro", NoopAllSearch)); n != 1 {
		t.Fatal(n)
	}
}''')

seed('R07-rewrap', 'R07', [(R, '''	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
''', '''	for i, in := range indices {
		req := doc
		if i > 0 { // every further index gets its own copy
			req = NewDocRequestWithMime(doc.ID(), doc.Raw(), doc.Mime())
		}
		go func(index Index) {
			index.Put(req)
			wg.Done()
''')], 'a document with a separate statement put under an alias of several indices', 'all but one of the indices index the content instead of the statement',
NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	r.Put("al", NewDocRequestWith("2", "content", "statement"))
	for _, n := range []string{"a", "b"} {
		s, err := r.Search(n, "statement", HitsSearch)
		if err != nil || !s.Next() {
			t.Fatal(n)
		}
	}
}''')

seed('R07-early', 'R07', [(R, '''	indices, ok := h.getIndices(indexName)
	if !ok {
		// TODO sanitize name
		// TODO parametrize index engine
		in := h.indexBuilder(indexName)
		h.indices[indexName] = in
''', '''	indices, ok := h.getIndices(indexName)
	in := h.indexBuilder(indexName)
	if !ok {
		// TODO sanitize name
		// TODO parametrize index engine
		h.indices[indexName] = in
''')], 'a builder for which building has an effect, such as counting or truncating a file', 'the builder is called at every put',
NEW + '''
func TestDemo(t *testing.T) {
	n := 0
	b := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
	r := NewIndexRepo(func(name string) Index {
		n++
		return b(name)
	})
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("a", NewDocRequest("2", "x"))
	if n != 1 {
		t.Fatal(n)
	}
}''')

seed('P01-limit', 'P01', [('index_memory_index.go', '''	for token, indexed := range mi.InvertedIndex {
''', '''	for token, indexed := range mi.InvertedIndex {
		if len(indexed) > 16 { // keep lines short
			indexed = indexed[len(indexed)-16:]
		}
''')], 'a token of more than 16 documents', 'the printed index shows only some of the positions and a wrong number',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 20; i++ {
		ix.Put(NewDocRequest("1", "x"))
	}
	if !strings.Contains(ix.String(), "length=(20)") {
		t.Fatal(ix.String())
	}
}''', imports=['strings'])

seed('C01-print', 'C01', [(R, '''	for _, index := range h.indices {
		buf.WriteString(fmt.Sprintln(index))
	}
''', '''	for name, index := range h.indices {
		if h.Has(name) {
			buf.WriteString(fmt.Sprintln(index))
		}
	}
''')], 'a writer that asks for the lock while the repository is being printed', 'the second read lock waits for the writer, which waits for the first: both block for ever',
NEW + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer close(done)
		r := demoRepo()
		for i := 0; i < 300; i++ {
			r.Put(string(rune(1000+i)), NewDocRequest("1", "x"))
		}
		for i := 0; i < 300; i++ {
			var wg sync.WaitGroup
			wg.Add(3)
			for k := 0; k < 2; k++ {
				go func() {
					defer wg.Done()
					for j := 0; j < 20; j++ {
						_ = r.String()
					}
				}()
			}
			go func() {
				defer wg.Done()
				for j := 0; j < 50; j++ {
					r.Drop("none")
				}
			}()
			wg.Wait()
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['sync', 'time'])

seed('C02-buffer', 'C02', [('analyze_compose.go', '''type TokenizationPipeline struct {
	tokenizer Tokenizer
	filters   []Filter
}
''', '''type TokenizationPipeline struct {
	tokenizer Tokenizer
	filters   []Filter
	analysed  int
}
'''), ('analyze_compose.go', '''	var res = p.tokenizer.Tokenize(text)
''', '''	var res = p.tokenizer.Tokenize(text)
	p.analysed += len(res)
''')], 'two searches at the same time, or one of an alias of several indices', 'the counter in the shared pipeline is written without synchronisation',
NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x y"))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				_, _ = r.Search("a", "x", HitsSearch)
			}
		}()
	}
	wg.Wait()
}''', imports=['sync'], race=True)

seed('C03-batch', 'C03', [(R, '''		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
	}
	wg.Wait()
	h.indicesMu.Unlock()
''', '''		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
		if len(indices) > 1 {
			// let other operations in between two indices
			wg.Wait()
			h.indicesMu.Unlock()
			h.indicesMu.Lock()
		}
	}
	wg.Wait()
	h.indicesMu.Unlock()
''')], 'a search of an alias of several indices while a document is being put under the alias', 'the search sees the document in some of the indices only',
NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for _, n := range []string{"a", "b", "c", "d"} {
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("al", n)
	}
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 4000; i++ {
			r.Put("al", NewDocRequest("2", "y"))
		}
		close(stop)
	}()
	bad := 0
	for {
		select {
		case <-stop:
			wg.Wait()
			if bad > 0 {
				t.Fatal(bad)
			}
			return
		default:
		}
		if n := demoDocs(t, r, "al"); n%4 != 0 {
			bad++
		}
	}
}''', imports=['sync'])

seed('S01-mask', 'S01', [('search_hits_search.go', '''	for i := 0; i < indexer.Len(); i++ {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result, exists := docHits[i]; exists && result.Hits >= threshold {
			results = append(results, result)
		}
	}
''', '''	var taken [4]uint64 // documents already in the results
	for i := 0; i < indexer.Len(); i++ {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result, exists := docHits[i]; exists && result.Hits >= threshold {
			word, bit := i/64%len(taken), uint64(1)<<(i%64)
			if taken[word]&bit == 0 {
				results = append(results, result)
				taken[word] |= bit
			}
		}
	}
''')], 'two matching documents whose positions are 256 or a multiple of it apart', 'the later one is missing from the results',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 300; i++ {
		ix.Put(NewDocRequest("1", "x"))
	}
	if n := len(ix.Search("x", HitsSearch)); n != 300 {
		t.Fatal(n)
	}
}''')

seed('R01-batch', 'R01', [(R, '''	var wg sync.WaitGroup
	wg.Add(len(indices))
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
	}
	wg.Wait()
''', '''	// at most eight at a time
	const batch = 8
	for n := (len(indices) + batch/2) / batch; n >= 0; n-- {
		part := indices
		if len(part) > batch {
			part = part[:batch]
		}
		indices = indices[len(part):]
		var wg sync.WaitGroup
		wg.Add(len(part))
		for _, in := range part {
			go func(index Index) {
				index.Put(doc)
				wg.Done()
			}(in)
		}
		wg.Wait()
		if n == 1 {
			break
		}
	}
''')], 'an alias of 9 to 11 indices', 'the document is put into the first eight only',
NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 10; i++ {
		n := string(rune('a' + i))
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("al", n)
	}
	r.Put("al", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "al"); n != 20 {
		t.Fatal(n)
	}
}''')

seed('J02-case', 'J02', [('search_result_easyjson.go', '''		switch key {
		case "doc":''', '''		if key == "hit" {
			key = "hits"
		}
		switch key {
		case "doc":''')], 'an unknown member whose name differs from hits only by its number', 'the unknown member is taken for the hit count',
'''func TestDemo(t *testing.T) {
	var r SearchResult
	if err := r.UnmarshalJSON([]byte(`{"hits":2,"hit":7}`)); err != nil || r.Hits != 2 {
		t.Fatal(err, r.Hits)
	}
}''')

seed('X02-cache', 'X02', [('index_memory_index.go', '''func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
	return engine(mi.tokenizer.Tokenize(payload), mi)
}
''', '''func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
	tokens := mi.tokenizer.Tokenize(payload)
	if len(tokens) == 0 || len(mi.Docs) < 2 {
		return engine(tokens, mi)
	}
	mi.results = append(mi.results[:0], engine(tokens, mi)...)
	return mi.results[:len(mi.results):len(mi.results)]
}
'''), ('index_memory_index.go', '''	InvertedIndex map[string][]int `json:"inverted"`
''', '''	InvertedIndex map[string][]int `json:"inverted"`

	results []SearchResult // reused by searches
''')], 'keeping the results of a search while searching again', 'the earlier results are overwritten by the later search',
'''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "uno"))
	ix.Put(NewDocRequest("2", "dos"))
	r := ix.Search("uno", HitsSearch)
	ix.Search("dos", HitsSearch)
	if r[0].Document.ID() != "1" {
		t.Fatal(r)
	}
}''')


# ---- second round ----

TOK = 'analyze_clean_tokenizer.go'
FIELDS = '''	return strings.FieldsFunc(text, func(r rune) bool {
		for _, fn := range c.fns {
			if fn(r) {
				return false
			}
		}
		return true
	})
'''

seed('T01-runelen', 'T01', [(TOK, FIELDS, '''	var tokens []string
	start := -1
	for i := 0; i < len(text); {
		r, _ := utf8.DecodeRuneInString(text[i:])
		if c.keeps(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			tokens = append(tokens, text[start:i])
			start = -1
		}
		i += utf8.RuneLen(r)
	}
	if start >= 0 {
		tokens = append(tokens, text[start:])
	}
	return tokens
'''), (TOK, 'func (c *CleanTokenizer) Tokenize(', '''func (c *CleanTokenizer) keeps(r rune) bool {
	for _, fn := range c.fns {
		if fn(r) {
			return true
		}
	}
	return false
}

func (c *CleanTokenizer) Tokenize('''), (TOK, '	"strings"\n	"unicode"\n', '	"unicode"\n	"unicode/utf8"\n')],
 'a text with a byte that is not valid UTF-8 followed by letters', 'the two bytes after an invalid one are skipped',
 '''func TestDemo(t *testing.T) {
	got := NewKeepAlphanumericTokenizer().Tokenize("x\\xffab")
	if len(got) != 2 || got[0] != "x" || got[1] != "ab" {
		t.Fatal(got)
	}
}''')

seed('T01-stall', 'T01', [(TOK, FIELDS, '''	var tokens []string
	for len(text) > 0 {
		end := strings.IndexFunc(text, func(r rune) bool { return !c.keeps(r) })
		if end < 0 {
			return append(tokens, text)
		}
		if end > 0 {
			tokens = append(tokens, text[:end])
		}
		r, size := utf8.DecodeRuneInString(text[end:])
		for r != utf8.RuneError && !c.keeps(r) {
			end += size
			r, size = utf8.DecodeRuneInString(text[end:])
		}
		text = text[end:]
	}
	return tokens
'''), (TOK, 'func (c *CleanTokenizer) Tokenize(', '''func (c *CleanTokenizer) keeps(r rune) bool {
	for _, fn := range c.fns {
		if fn(r) {
			return true
		}
	}
	return false
}

func (c *CleanTokenizer) Tokenize('''), (TOK, '"unicode"\n', '"unicode"\n\t"unicode/utf8"\n')],
 'a text with a replacement character or a byte that is not valid UTF-8', 'tokenizing never returns',
 '''func TestDemo(t *testing.T) {
	done := make(chan []string, 1)
	go func() { done <- NewKeepAlphanumericTokenizer().Tokenize("ab \\xff cd") }()
	select {
	case got := <-done:
		if len(got) != 2 || got[1] != "cd" {
			t.Fatal(got)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("still busy")
	}
}''', imports=['time'])

seed('T02-fast', 'T02', [('analyze_lowercase_filter.go', '''		r[i] = strings.ToLower(token)
''', '''		r[i] = token
		if hasUpper(token) {
			r[i] = strings.ToLower(token)
		}
'''), ('analyze_lowercase_filter.go', 'func NewLowerCaseTokenizer()', '''// hasUpper saves the conversion for the words that need none
func hasUpper(s string) bool {
	for i := 0; i < len(s); i++ {
		if 'A' <= s[i] && s[i] <= 'Z' {
			return true
		}
	}
	return strings.IndexFunc(s, unicode.IsUpper) >= 0
}

func NewLowerCaseTokenizer()'''), ('analyze_lowercase_filter.go', 'import "strings"', 'import (\n\t"strings"\n\t"unicode"\n)')],
 'a word whose only character with a lower case is a title case letter or a circled capital', 'such words are not mapped to lower case',
 '''func TestDemo(t *testing.T) {
	got := NewLowerCaseTokenizer().Filter([]string{"ǅon", "ⓐⒷ"})
	if got[0] != "ǆon" || got[1] != "ⓐⓑ" {
		t.Fatal(got)
	}
}''')

seed('T03-longest', 'T03', [('analyze_stopwords_filter.go', '	stopWords map[string]struct{}\n}', '	stopWords map[string]struct{}\n	longest   int\n}'),
 ('analyze_stopwords_filter.go', '		if _, ok := s.stopWords[tok]; !ok {', '		if _, ok := s.stopWords[tok]; len(tok) > s.longest || !ok {'),
 ('analyze_stopwords_filter.go', '	return StopWordsFilter{stopWords: sw}\n', '''	longest := 0
	for word := range sw {
		if n := utf8.RuneCountInString(word); n > longest {
			longest = n
		}
	}
	return StopWordsFilter{stopWords: sw, longest: longest}
'''), ('analyze_stopwords_filter.go', 'package visigoth\n', 'package visigoth\n\nimport "unicode/utf8"\n')],
 'a list whose longest stop word has a character outside ASCII', 'the stop word is kept',
 '''func TestDemo(t *testing.T) {
	got := NewStopWordsFilter(StopWords{"aún": {}, "el": {}}).Filter([]string{"el", "aún", "x"})
	if len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('T04-adaptive', 'T04', [('analyze_compose.go', '''	for _, filter := range p.filters {
		res = filter.Filter(res)
	}
''', '''	for i, filter := range p.filters {
		if p.idle[i] >= 16 {
			continue // it never does anything
		}
		out := filter.Filter(res)
		if same(out, res) {
			p.idle[i]++
		} else {
			p.idle[i] = 0
		}
		res = out
	}
'''), ('analyze_compose.go', '	filters   []Filter\n}', '''	filters   []Filter
	idle      []int // how often in a row a filter changed nothing
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}'''), ('analyze_compose.go', '		filters:   f,\n', '		filters:   f,\n		idle:      make([]int, len(f)),\n')],
 'a pipeline that has seen sixteen texts in a row on which a filter had no effect', 'the filter is not applied any more',
 '''func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer())
	for i := 0; i < 50; i++ {
		p.Tokenize("abc")
	}
	if got := p.Tokenize("ABC"); len(got) != 1 || got[0] != "abc" {
		t.Fatal(got)
	}
}''')

seed('T05-short', 'T05', [('analyze_stem_filter.go', '''		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
''', '''		if len(token) < 4 {
			// no suffix fits
			r = append(r, token)
			continue
		}
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
''')], 'a short word with an accent or a final vowel', 'short words are not stemmed',
 '''func TestDemo(t *testing.T) {
	got := NewSpanishStemmer(false).Filter([]string{"té", "oía"})
	if got[0] != "te" {
		t.Fatal(got)
	}
}''')

seed('T06-buffer', 'T06', [('stemmer_spanish_snowball.go', '''	runes := make([]runeSlot, 0)
	for index, runeValue := range string(w) {
		runes = append(runes, ''', '''	var slots [48]runeSlot
	runes := slots[:0]
	for index, runeValue := range string(w) {
		if len(runes) == cap(runes) {
			break // longer than any word
		}
		runes = append(runes, ''')], 'a word of more than 48 characters whose first vowel or consonant group is long', 'regions that start late in a long word are lost',
 '''func TestDemo(t *testing.T) {
	w := strings.Repeat("b", 60) + "abc"
	r1, _, rv := R1R2RV([]byte(w))
	if string(r1) != "c" || string(rv) != "bc" {
		t.Fatal(string(r1), string(rv))
	}
}''', imports=['strings'])

seed('X01-hash', 'X01', [('index_memory_index.go', '''tokenLoop:
	for _, tok := range tokens {
		indexedDocs := mi.InvertedIndex[tok]
		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
		mi.InvertedIndex[tok] = append(indexedDocs, next)
	}
''', '''	seen := make(map[uint32]struct{}, len(tokens))
	for _, tok := range tokens {
		h := fnv.New32a()
		_, _ = h.Write([]byte(tok))
		if _, ok := seen[h.Sum32()]; ok {
			continue
		}
		seen[h.Sum32()] = struct{}{}
		mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], next)
	}
'''), ('index_memory_index.go', '	"fmt"\n', '	"fmt"\n	"hash/fnv"\n')],
 'a text with two different words whose 32-bit FNV-1a hashes collide', 'the second of the words is not indexed',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "costarring liquid"))
	if len(in.Indexed("liquid")) != 1 {
		t.Fatal(in)
	}
}''')

seed('X01-order', 'X01', [('index_memory_index.go', '''		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
''', '''		if n := len(indexedDocs); n > 0 && n == cap(indexedDocs) {
			// leave room for what is to come
			grown := make([]int, n, 4*n)
			copy(grown, indexedDocs[:n&^1023|n&1023])
			indexedDocs = grown
		}
		if n := len(indexedDocs); n > 64 && indexedDocs[n/2] == next || n > 0 && n <= 64 && indexedDocs[n-1] == next {
			continue tokenLoop
		}
''')], 'more than 64 documents with a word and one more that repeats it', 'a document is listed twice',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 70; i++ {
		in.Put(NewDocRequest("1", "x x"))
	}
	if n := len(in.Indexed("x")); n != 70 {
		t.Fatal(n)
	}
}''')

seed('X04-arena', 'X04', [('index_memory_index.go', '''	return func(name string) Index {
		return NewMemoryIndex(name, tokenizer)
	}
''', '''	// the first documents of the indices lie close together
	const room = 8
	var arena []Doc
	return func(name string) Index {
		in := NewMemoryIndex(name, tokenizer)
		if cap(arena) < room {
			arena = make([]Doc, 64*room)
		}
		in.Docs, arena = arena[:0], arena[room:]
		return in
	}
''')], 'two indices of one builder of which the first gets more than eight documents', 'documents of one index overwrite those of the next',
 '''func TestDemo(t *testing.T) {
	mk := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
	a, b := mk("a").(*MemoryIndex), mk("b").(*MemoryIndex)
	b.Put(NewDocRequest("b", "b"))
	for i := 0; i < 9; i++ {
		a.Put(NewDocRequest("a", "a"))
	}
	if b.Document(0).ID() != "b" {
		t.Fatal(b.Document(0))
	}
}''')

seed('S01-byte', 'S01', [('search_hits_search.go', '''	docHits := make(map[int]SearchResult)
''', '''	docHits := make(map[int]SearchResult)
	counts := make(map[int]uint8)
'''), ('search_hits_search.go', '''				result.Hits++
				docHits[index] = result
''', '''				counts[index]++
				result.Hits = int(counts[index]) + 1
				docHits[index] = result
''')], 'a query of more than 256 words that a document contains', 'the document is not found',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "x"))
	if n := len(in.Search(strings.Repeat("x ", 300), HitsSearch)); n != 1 {
		t.Fatal(n)
	}
}''', imports=['strings'])

seed('S02-gallop', 'S02', [('search_linear_search.go', '''		} else if a[i] > b[j] {
			j++
		} else {''', '''		} else if a[i] > b[j] {
			if len(b) > 8*len(a) && j+8 < len(b) && b[j+8] <= a[i]+1 {
				j += 8
			}
			j++
		} else {''')], 'a rare and a common word whose documents lie close together', 'documents are left out',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 40; i++ {
		s := "c"
		if i == 16 {
			s = "c r"
		}
		in.Put(NewDocRequest("d", s))
	}
	if n := len(in.Search("r c", LinearSearch)); n != 1 {
		t.Fatal(n)
	}
}''')

seed('S03-numeric', 'S03', [('search_result.go', '''	return r[i].Document.ID() < r[j].Document.ID()
''', '''	a, b := r[i].Document.ID(), r[j].Document.ID()
	if len(a) != len(b) && isNumber(a) && isNumber(b) {
		return len(a) < len(b)
	}
	return a < b
'''), ('search_result.go', 'func (r SearchResults) Swap(', '''func isNumber(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func (r SearchResults) Swap(''')], 'numeric identifiers of different length', 'the order is not by identifier',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("9", "x"))
	in.Put(NewDocRequest("10", "x"))
	if rs := in.Search("x", HitsSearch); rs[0].Document.ID() != "10" {
		t.Fatal(rs)
	}
}''')

seed('S06-valid', 'S06', [('index_memory_index.go', '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '''	// queries come from outside
	payload = strings.ToValidUTF8(payload, "")
	return engine(mi.tokenizer.Tokenize(payload), mi)
'''), ('index_memory_index.go', '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 'a text whose words are separated by a byte that is not valid UTF-8, used as a query', 'a document is not found by its own text',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "ab\\xffcd"))
	if n := len(in.Search("ab\\xffcd", HitsSearch)); n != 1 {
		t.Fatal(n)
	}
}''')

seed('E01-block', 'E01', [('entities_hash.go', '''	_, _ = hash.Write([]byte(d.ID()))
''', '''	id := d.ID()
	for len(id) > 64 {
		_, _ = hash.Write([]byte(id[:64]))
		id = id[64:]
	}
	if len(id) < 64 {
		_, _ = hash.Write([]byte(id))
	}
''')], 'identifiers of which one is a block of 64 bytes longer', 'different identifiers have one key',
 '''func TestDemo(t *testing.T) {
	s := strings.Repeat("a", 64)
	if NewDoc(s, "").Hash() == NewDoc(strings.Repeat("b", 64), "").Hash() {
		t.Fatal("same key")
	}
}''', imports=['strings'])

seed('J01-reuse', 'J01', [('search_result_easyjson.go', '''func (v SearchResult) MarshalJSON() ([]byte, error) {
	w := jwriter.Writer{}
	easyjsonBb771ebaEncodeGithubComSoniricoVisigoth(&w, v)
	return w.Buffer.BuildBytes(), w.Error
''', '''func (v SearchResult) MarshalJSON() ([]byte, error) {
	w := jwriter.Writer{}
	easyjsonBb771ebaEncodeGithubComSoniricoVisigoth(&w, v)
	if w.Size() > cap(scratch) {
		scratch = make([]byte, 0, 2*w.Size())
	}
	return w.Buffer.BuildBytes(scratch[:0]), w.Error
'''), ('search_result_easyjson.go', '''// MarshalJSON supports json.Marshaler interface
func (v SearchResult) MarshalJSON()''', '''// scratch saves an allocation per result
var scratch = make([]byte, 0, 256)

// MarshalJSON supports json.Marshaler interface
func (v SearchResult) MarshalJSON()''')], 'two results encoded one after another, the first looked at later; long enough for more than one chunk', 'the first encoding is overwritten',
 '''func TestDemo(t *testing.T) {
	long := strings.Repeat("x", 3000)
	a, _ := SearchResult{Document: NewDoc("a", long)}.MarshalJSON()
	s := string(a)
	SearchResult{Document: NewDoc("b", long)}.MarshalJSON()
	if string(a) != s {
		t.Fatal("overwritten")
	}
}''', imports=['strings'])

seed('J02-nested', 'J02', [('search_result_easyjson.go', '''			out.Hits = int(in.Int())
		default:
			in.SkipRecursive()
''', '''			out.Hits = int(in.Int())
		default:
			in.Skip()
''')], 'an unknown member whose value is an object or an array', 'decoding fails',
 '''func TestDemo(t *testing.T) {
	var r SearchResult
	if err := r.UnmarshalJSON([]byte(`{"meta":{"a":[1]},"hits":3}`)); err != nil || r.Hits != 3 {
		t.Fatal(err, r)
	}
}''')

seed('P01-format', 'P01', [('index_memory_index.go', 'fmt.Sprintf("\\n\\t[token=%s,length=(%d)]=%v", token, len(indexed), indexed)', 'fmt.Sprintf("\\n\\t[token="+token+",length=(%d)]=%v", len(indexed), indexed)')],
 'a token with a percent sign', 'the printed form of the index is garbled',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewCleanTokenizerAll())
	in.Put(NewDocRequest("1", "5%d"))
	if !strings.Contains(in.String(), "[token=5%d,length=(1)]=[0]") {
		t.Fatal(in.String())
	}
}

type demoAll struct{}

func (demoAll) Tokenize(s string) []string { return []string{s} }

func NewCleanTokenizerAll() demoAll { return demoAll{} }''', imports=['strings'])

seed('R02-resolve', 'R02', [(R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	resolved sync.Map // alias to its indices\n}'),
 (R, '''	// 1. Search on indices directly
	if in, ok := h.indices[indexName]; ok {
		indices = []Index{in}
	} else {''', '''	// 1. Search on indices directly
	if cached, ok := h.resolved.Load(indexName); ok {
		indices = cached.([]Index)
	} else if in, ok := h.indices[indexName]; ok {
		indices = []Index{in}
	} else {'''),
 (R, '''			indices[i] = h.indices[index]
		}
		h.aliasesMu.RUnlock()
	}
''', '''			indices[i] = h.indices[index]
		}
		h.resolved.Store(indexName, indices)
		h.aliasesMu.RUnlock()
	}
'''),
 (R, '''	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
''', '''	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	h.resolved.Delete(alias)
'''),
 (R, '''		h.aliasesMu.Lock()
		_, ok := h.aliases[alias]
''', '''		h.aliasesMu.Lock()
		h.resolved.Delete(alias)
		_, ok := h.aliases[alias]
'''),
 (R, '''	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	indices, ok''', '''	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	h.resolved.Delete(alias)
	indices, ok'''),
 (R, '''	// Drop references to index
	for alias, indices := range h.aliases {
''', '''	// Drop references to index
	for alias, indices := range h.aliases {
		h.resolved.Delete(alias)
''')],
 'a search under an alias, then an index renamed to the name of the alias', 'the search covers the indices of the alias instead of the index with that name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Put("b", NewDocRequest("3", "x"))
	r.Alias("al", "a")
	demoDocs(t, r, "al")
	r.Rename("b", "al")
	if n := demoDocs(t, r, "al"); n != 2 {
		t.Fatal(n)
	}
}''')

seed('R03-sorted', 'R03', [(R, '''		exists := false
		for _, ri := range indices {
			if ri == index {
				exists = true
				break
			}
		}
		if !exists {
			h.aliases[alias] = append(indices, index)
			added = true
		}
''', '''		at := sort.SearchStrings(indices, index)
		if at == len(indices) || indices[at] != index {
			indices = append(indices, "")
			copy(indices[at+1:], indices[at:])
			indices[at] = index
			h.aliases[alias] = indices
			added = true
		}
'''), (R, '	"fmt"\n', '	"fmt"\n	"sort"\n')],
 'an alias of two indices, one of which is renamed so that the names are not sorted any more, and aliased again', 'an association is made twice',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	r.Rename("a", "c")
	if r.Alias("al", "b") {
		t.Fatal(r.ListAliases())
	}
}''')

seed('R04-shadow', 'R04', [(R, '''	h.aliasesMu.Lock()
	for alias, indices := range h.aliases {
		var newIndices []string
		hasNew''', '''	h.aliasesMu.Lock()
	delete(h.aliases, new) // the name is an index from now on
	for alias, indices := range h.aliases {
		var newIndices []string
		hasNew''')], 'an index renamed to the name of an alias', 'the alias vanishes',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Alias("al", "a")
	r.Rename("b", "al")
	if !r.HasAlias("al") {
		t.Fatal(r.ListAliases())
	}
}''')

seed('R05-swap', 'R05', [(R, '''		var newIndices []string
		for _, aliasedIndexName := range indices {
			if aliasedIndexName != indexName {
				newIndices = append(newIndices, aliasedIndexName)
			}
		}
		if len(newIndices) < 1 {
			delete(h.aliases, alias)
		} else if len(newIndices) != len(indices) {
			h.aliases[alias] = newIndices
		}
	}
	// Actually''', '''		last := len(indices) - 1
		for i := 0; i < last; i++ {
			if indices[i] == indexName {
				indices[i] = indices[last]
				h.aliases[alias] = indices[:last]
				break
			}
		}
		if last == 0 && indices[0] == indexName {
			delete(h.aliases, alias)
		}
	}
	// Actually''')], 'an alias of several indices of which the last is dropped', 'the alias keeps the dropped index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	r.Drop("b")
	if l := r.ListAliases(); len(l.Aliases[0].Indices) != 1 {
		t.Fatal(l)
	}
}''')

seed('R07-compare', 'R07', [(R, '''	res := make([]Index, len(aliasedIndices))
	for i, index := range aliasedIndices {
		res[i] = h.indices[index]
	}
	h.aliasesMu.RUnlock()
	return res, true
''', '''	res := make([]Index, 0, len(aliasedIndices))
next:
	for _, name := range aliasedIndices {
		for _, index := range res {
			if index == h.indices[name] {
				continue next // never twice into one index
			}
		}
		res = append(res, h.indices[name])
	}
	h.aliasesMu.RUnlock()
	return res, true
''')], 'an index implementation whose type cannot be compared, and a put under an alias of two such indices', 'the put panics',
 NEW + '''
type demoMap map[string]int

func (m demoMap) Put(d DocRequest) Index { m["n"]++; return m }
func (m demoMap) Search(string, Engine) slices.Slice[SearchResult] { return nil }

func TestDemo(t *testing.T) {
	var all []demoMap
	r := NewIndexRepo(func(string) Index { all = append(all, demoMap{}); return all[len(all)-1] })
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	r.Put("al", NewDocRequest("2", "x"))
	if all[0]["n"] != 2 || all[1]["n"] != 2 {
		t.Fatal(all)
	}
}''', imports=['github.com/sonirico/vago/slices'])

seed('C01-recursive', 'C01', [(R, '''	// 1. Search on indices directly
	if in, ok := h.indices[indexName]; ok {
		indices = []Index{in}
	} else {''', '''	// 1. Search on indices directly
	if h.Has(indexName) {
		indices = []Index{h.indices[indexName]}
	} else {''')], 'a search during which another goroutine asks for the write lock between the two read locks', 'both wait for each other for ever',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 30000; i++ {
					r.Search("a", "q", NoopZeroSearch)
					r.Rename("zz", "y")
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}''', imports=['sync', 'time'])

seed('C02-rlock', 'C02', [(R, '''	h.indicesMu.Lock()
	indices, ok := h.getIndices(indexName)
	if !ok {''', '''	h.indicesMu.RLock()
	if in, ok := h.indices[indexName]; ok {
		// nothing to create
		in.Put(doc)
		h.indicesMu.RUnlock()
		return
	}
	h.indicesMu.RUnlock()
	h.indicesMu.Lock()
	indices, ok := h.getIndices(indexName)
	if !ok {''')], 'two puts into one existing index at the same time', 'both write to the index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				r.Put("a", NewDocRequest("2", "y"))
			}
		}()
	}
	wg.Wait()
}''', imports=['sync'], race=True)

seed('C02-len', 'C02', [(R, '''	h.indicesMu.Lock()
	_, ok := h.indices[indexName]
	if !ok {
		h.indicesMu.Unlock()
		return false
	}
	h.aliasesMu.Lock()
	// Drop''', '''	if len(h.indices) == 0 {
		return false
	}
	h.indicesMu.Lock()
	_, ok := h.indices[indexName]
	if !ok {
		h.indicesMu.Unlock()
		return false
	}
	h.aliasesMu.Lock()
	// Drop''')], 'a drop while a put creates an index', 'the number of indices is read without the lock',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 100; i++ { r.Put(string(rune('a'+i)), NewDocRequest("2", "y")) } }()
	go func() { defer wg.Done(); for i := 0; i < 100; i++ { r.Drop("zz") } }()
	wg.Wait()
}''', imports=['sync'], race=True)

seed('C03-rename', 'C03', [(R, '''	h.indices[new] = index
	delete(h.indices, old)
	// 3. Update indices to
	h.aliasesMu.Lock()
''', '''	h.indices[new] = index
	delete(h.indices, old)
	h.indicesMu.Unlock()
	// 3. Update indices to
	h.aliasesMu.Lock()
'''), (R, '''	h.aliasesMu.Unlock()
	h.indicesMu.Unlock()
	return true
}

func (h *IndexRepo) Search(''', '''	h.aliasesMu.Unlock()
	return true
}

func (h *IndexRepo) Search(''')], 'a search under an alias between the two steps of a rename of one of its indices', 'the alias leads to no index: the search panics',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	stop := make(chan bool)
	var wg sync.WaitGroup
	bad := false
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			func() {
				defer func() {
					if recover() != nil {
						bad = true
					}
				}()
				r.Search("al", "", NoopAllSearch)
			}()
		}
	}()
	for i := 0; i < 300000; i++ {
		r.Rename("a", "b")
		r.Rename("b", "a")
	}
	close(stop)
	wg.Wait()
	if bad {
		t.Fatal("panic")
	}
}''', imports=['sync'])

# ---- third round ----

seed('T01-long', 'T01', [(TOK, '	return strings.FieldsFunc(text, func(r rune) bool {', '	tokens := strings.FieldsFunc(text, func(r rune) bool {'),
 (TOK, '''		return true
	})
''', '''		return true
	})
	// split what nobody types
	const limit = 4096
	for i := 0; i < len(tokens); i++ {
		if len(tokens[i]) > limit {
			tokens = append(tokens[:i+1], append([]string{tokens[i][limit:]}, tokens[i+1:]...)...)
			tokens[i] = tokens[i][:limit]
		}
	}
	return tokens
''')], 'a word of more than 4096 bytes', 'the word is split',
 '''func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize(strings.Repeat("a", 5000)); len(got) != 1 {
		t.Fatal(len(got))
	}
}''', imports=['strings'])

seed('T01-reuse', 'T01', [(TOK, '	fns []cleanFunc\n', '	fns []cleanFunc\n	buf []string\n'), (TOK, FIELDS, '''	c.buf = c.buf[:0]
	for len(text) > 0 {
		start := strings.IndexFunc(text, c.keeps)
		if start < 0 {
			break
		}
		end := strings.IndexFunc(text[start:], func(r rune) bool { return !c.keeps(r) })
		if end < 0 {
			end = len(text) - start
		}
		c.buf = append(c.buf, text[start:start+end])
		text = text[start+end:]
	}
	if len(c.buf) > 32 {
		return c.buf // too many to copy
	}
	return append([]string(nil), c.buf...)
'''), (TOK, 'func (c *CleanTokenizer) Tokenize(', '''func (c *CleanTokenizer) keeps(r rune) bool {
	for _, fn := range c.fns {
		if fn(r) {
			return true
		}
	}
	return false
}

func (c *CleanTokenizer) Tokenize(''')], 'a text of more than 32 words whose tokens are used after another text was tokenized', 'the tokens change',
 '''func TestDemo(t *testing.T) {
	c := NewKeepAlphanumericTokenizer()
	a := c.Tokenize(strings.Repeat("a ", 40))
	c.Tokenize(strings.Repeat("b ", 40))
	if a[0] != "a" {
		t.Fatal(a)
	}
}''', imports=['strings'])

seed('T02-latin', 'T02', [('analyze_lowercase_filter.go', '''		r[i] = strings.ToLower(token)
''', '''		r[i] = lower(token)
'''), ('analyze_lowercase_filter.go', 'func NewLowerCaseTokenizer()', '''// lower knows the letters of Spanish
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case 'A' <= c && c <= 'Z':
			b[i] += 'a' - 'A'
		case c < 0x80:
		case c == 0xc3 && i+1 < len(b):
			if 0x80 <= b[i+1] && b[i+1] < 0x9f {
				b[i+1] += 0x20
			}
		case i > 0 && b[i-1] == 0xc3:
		default:
			return strings.ToLower(s)
		}
	}
	return string(b)
}

func NewLowerCaseTokenizer()''')], 'a token with a multiplication sign, or with half a character', 'the sign becomes another one',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"3×4"}); got[0] != "3×4" {
		t.Fatal(got)
	}
}''')

seed('T04-halves', 'T04', [('analyze_compose.go', '		res = filter.Filter(res)\n', '''		if half := len(res) / 2; half > 256 {
			// both halves at once
			var front []string
			done := make(chan struct{})
			go func() {
				front = filter.Filter(res[:half])
				close(done)
			}()
			back := filter.Filter(res[len(res)-half:])
			<-done
			res = append(front, back...)
			continue
		}
		res = filter.Filter(res)
''')], 'a text with an odd number of more than 512 words', 'the word in the middle is lost',
 '''func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer())
	if got := p.Tokenize(strings.Repeat("a ", 701)); len(got) != 701 {
		t.Fatal(len(got))
	}
}''', imports=['strings'])

seed('T06-memo', 'T06', [('stemmer_spanish_snowball.go', '''	// UTF8 implicit!
''', '''	if last, ok := regions.Load().(*regionsOf); ok && bytes.Equal(last.w, w) {
		return last.r1, last.r2, last.rv
	}
	defer func() { regions.Store(&regionsOf{append([]byte(nil), w...), r1, r2, rv}) }()
	// UTF8 implicit!
'''), ('stemmer_spanish_snowball.go', '//nolint:nakedret,gomnd', '''// regionsOf remembers the last word: stemming asks for its regions many times.
type regionsOf struct{ w, r1, r2, rv []byte }

var regions atomic.Value

//nolint:nakedret,gomnd'''), ('stemmer_spanish_snowball.go', 'package visigoth\n', 'package visigoth\n\nimport (\n	"bytes"\n	"sync/atomic"\n)\n')],
 'a word asked for twice, with the first buffer reused in between', 'the regions are those of the other word',
 '''func TestDemo(t *testing.T) {
	w := []byte("beautiful")
	R1R2RV(w)
	copy(w, "xxxxxxxxx")
	r1, _, _ := R1R2RV([]byte("beautiful"))
	if string(r1) != "iful" {
		t.Fatal(string(r1))
	}
}''')

seed('X01-blank', 'X01', [('index_memory_index.go', '''	for _, tok := range tokens {
		indexedDocs''', '''	for _, tok := range tokens {
		if len(tok) == 0 {
			continue // cannot be searched for
		}
		indexedDocs''')], 'an analyser that yields an empty token', 'the empty token is not indexed',
 '''type demoAll struct{}

func (demoAll) Tokenize(s string) []string { return []string{s} }

func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoAll{})
	in.Put(NewDocRequest("1", ""))
	if n := len(in.Search("", LinearSearch)); n != 1 {
		t.Fatal(n)
	}
}''')

seed('X03-replay', 'X03', [('index_memory_index.go', '''	newDoc := NewDoc(payload.ID(), payload.Raw())
''', '''	newDoc := NewDoc(payload.ID(), payload.Raw())
	if next > 0 && len(payload.ID()) > 0 && mi.Docs[next-1] == newDoc && next%2 == 0 {
		return mi // delivered twice
	}
''')], 'one document put again after an even number of documents', 'the second copy is not stored',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	in.Put(NewDocRequestWith("2", "b", "b"))
	in.Put(NewDocRequestWith("2", "b", "words"))
	if n := len(in.Search("words", LinearSearch)); n != 1 {
		t.Fatal(n)
	}
}''')

seed('X03-empty', 'X03', [('index_memory_index.go', '	tokens := mi.tokenizer.Tokenize(payload.Statement())\n', '''	statement := payload.Statement()
	if statement == "" {
		statement = payload.Raw()
	}
	tokens := mi.tokenizer.Tokenize(statement)
''')], 'a separate statement that is empty', 'the content decides which searches match',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequestWith("1", "hidden", ""))
	if n := len(in.Search("hidden", LinearSearch)); n != 0 {
		t.Fatal(n)
	}
}''')

seed('J02-trailing', 'J02', [('search_result_easyjson.go', '''		in.WantComma()
	}
	in.Delim('}')
	if isTopLevel {
		in.Consumed()
	}
}
func easyjsonBb771ebaEncodeGithubComSoniricoVisigoth(''', '''		in.WantComma()
	}
	in.Delim('}')
}
func easyjsonBb771ebaEncodeGithubComSoniricoVisigoth(''')], 'text after the end of the object', 'bad input is accepted',
 '''func TestDemo(t *testing.T) {
	var r SearchResult
	if err := r.UnmarshalJSON([]byte(`{"hits":3}garbage`)); err == nil {
		t.Fatal("accepted")
	}
}''')

seed('R01-pool', 'R01', [(R, '''	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
	}
	wg.Wait()
''', '''	// not more than 24 at once
	queue := make(chan Index, 24)
	for w := 0; w < cap(queue); w++ {
		go func() {
			select {
			case index, ok := <-queue:
				if ok {
					index.Put(doc)
					wg.Done()
				}
			}
		}()
	}
	for len(indices) > cap(queue) {
		indices[0].Put(doc)
		wg.Done()
		indices = indices[2:]
		wg.Done()
	}
	for _, in := range indices {
		queue <- in
	}
	close(queue)
	wg.Wait()
''')], 'a put under an alias of more than 24 indices', 'some of the indices do not get the document',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 30; i++ {
		n := string(rune('A' + i))
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("al", n)
	}
	r.Put("al", NewDocRequest("2", "x"))
	if n := demoDocs(t, r, "al"); n != 60 {
		t.Fatal(n)
	}
}''')

seed('R02-cap', 'R02', [(R, '''			result.AppendVector(sr)
			rl.Unlock()
''', '''			if room := 500 - len(result); len(sr) > room {
				sr = sr[:room] // enough for anyone
			}
			result.AppendVector(sr)
			rl.Unlock()
''')], 'a search under an alias with more than 500 results', 'results are left out',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 300; i++ {
		r.Put("a", NewDocRequest("1", "x"))
		r.Put("b", NewDocRequest("1", "x"))
	}
	r.Alias("al", "a")
	r.Alias("al", "b")
	if n := demoDocs(t, r, "al"); n != 600 {
		t.Fatal(n)
	}
}''')

seed('C03-snapshot', 'C03', [(R, '''	h.aliasesMu.RLock()
	aliases := make([]AliasesResultRow, len(h.aliases))
	i := 0
	for k, v := range h.aliases {
		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
		i++
	}
	h.aliasesMu.RUnlock()
''', '''	h.aliasesMu.RLock()
	aliases := make([]AliasesResultRow, 0, len(h.aliases))
	for k := range h.aliases {
		aliases = append(aliases, AliasesResultRow{Alias: k})
	}
	h.aliasesMu.RUnlock()
	// let writers in between
	for i := range aliases {
		h.aliasesMu.RLock()
		aliases[i].Indices = slices.Copy(h.aliases[aliases[i].Alias])
		h.aliasesMu.RUnlock()
	}
''')], 'an alias removed while the aliases are listed', 'the listing shows an alias without indices',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
			}
			r.Alias("al", "a")
			r.UnAlias("al", "")
		}
	}()
	bad := 0
	for i := 0; i < 1000000 && bad == 0; i++ {
		for _, row := range r.ListAliases().Aliases {
			if len(row.Indices) == 0 {
				bad++
			}
		}
	}
	close(stop)
	<-done
	if bad > 0 {
		t.Fatal(bad)
	}
}''')

seed('C03-torn', 'C03', [(R, '''	rl := new(sync.Mutex)
	for _, index := range indices {
		go func(idx Index) {
			defer wg.Done()
			sr := idx.Search(terms, engine)
''', '''	// searching takes long: do not keep writers out for all of it
	h.indicesMu.RUnlock()
	defer h.indicesMu.RLock()
	rl := new(sync.Mutex)
	for _, index := range indices {
		go func(idx Index) {
			defer wg.Done()
			h.indicesMu.RLock()
			sr := idx.Search(terms, engine)
			h.indicesMu.RUnlock()
''')], 'a search under an alias of two indices with a put under it between the searches of the two', 'the search sees half of the put',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("al", "a")
	r.Alias("al", "b")
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		for i := 0; i < 3000; i++ {
			select {
			case <-stop:
				return
			default:
			}
			r.Put("al", NewDocRequest("2", "y"))
			time.Sleep(time.Microsecond)
		}
	}()
	bad := 0
	for i := 0; i < 20000 && bad == 0; i++ {
		if demoDocs(t, r, "al")%2 != 0 {
			bad++
		}
		select {
		case <-done:
			i = 20000
		default:
		}
	}
	close(stop)
	<-done
	if bad > 0 {
		t.Fatal(bad)
	}
}''', imports=['time'])

seed('S01-pool', 'S01', [('search_hits_search.go', '	docHits := make(map[int]SearchResult)\n', '	docHits := hitsPool.Get().(map[int]SearchResult)\n'),
 ('search_hits_search.go', '''	// Phase 3: Sort''', '''	if len(docHits) < 64 || len(results) > 0 {
		clear(docHits)
	}
	hitsPool.Put(docHits)

	// Phase 3: Sort'''),
 ('search_hits_search.go', '// HitsSearch implements a hit', '''// hitsPool keeps the maps of finished searches
var hitsPool = sync.Pool{New: func() any { return make(map[int]SearchResult) }}

// HitsSearch implements a hit'''), ('search_hits_search.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
 'a search without results one of whose words is in 64 documents, then another search', 'the hits of the first search count for the second',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 100; i++ {
		in.Put(NewDocRequest("1", "a b"))
	}
	for i := 0; i < 20; i++ {
		in.Search("b unknown", HitsSearch)
		if rs := in.Search("a", HitsSearch); len(rs) != 100 || rs[0].Hits != 1 {
			t.Fatal(rs)
		}
	}
}''')

# ---- fourth round ----

seed('T01-latin', 'T01', [('analyze_clean_tokenizer.go', '''		return unicode.IsNumber(r) || unicode.IsLetter(r)
''', '''		if r < 0x100 { // most texts: decide without the tables
			switch {
			case '0' <= r && r <= '9', 'a' <= r|0x20 && r|0x20 <= 'z', r >= 0xc0 && r != 0xd7 && r != 0xf7:
				return true
			case r == 0xaa, r == 0xba, r == 0xb2, r == 0xb3, r == 0xb9, r >= 0xbc && r <= 0xbe:
				return true
			}
			return false
		}
		return unicode.IsNumber(r) || unicode.IsLetter(r)
''')], 'a micro sign, the one Latin-1 letter that is missed', 'words written with a micro sign are cut',
 '''func TestDemo(t *testing.T) {
	got := NewKeepAlphanumericTokenizer().Tokenize("5 \\u00b5m")
	if len(got) != 2 || got[1] != "\\u00b5m" {
		t.Fatalf("%q", got)
	}
}''')

seed('T02-dotted', 'T02', [('analyze_lowercase_filter.go', '''		r[i] = strings.ToLower(token)
''', '''		if strings.ContainsRune(token, 'İ') {
			r[i] = strings.ToLowerSpecial(unicode.TurkishCase, token)
			continue
		}
		r[i] = strings.ToLower(token)
'''), ('analyze_lowercase_filter.go', 'import "strings"', 'import (\n\t"strings"\n\t"unicode"\n)')], 'a token with a dotted capital I and a plain one', 'Turkish case rules are applied to some tokens',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"İI"}); got[0] != "ii" {
		t.Fatalf("%q", got)
	}
}''')

seed('T02-run', 'T02', [('analyze_lowercase_filter.go', '''		r[i] = strings.ToLower(token)
''', '''		if i > 0 && len(token) == len(tokens[i-1]) && strings.EqualFold(token, tokens[i-1]) {
			r[i] = r[i-1]
			continue
		}
		r[i] = strings.ToLower(token)
''')], 'neighbouring tokens that are equal under folding but have different lower cases, such as two forms of sigma', 'a final sigma takes the form of the sigma of the token before',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"ΟΣ", "ος"}); got[0] != "οσ" || got[1] != "ος" {
		t.Fatalf("%q", got)
	}
}''')

seed('T03-nilset', 'T03', [('analyze_stopwords_filter.go', '''func NewStopWordsFilter(sw StopWords) StopWordsFilter {
''', '''func NewStopWordsFilter(sw StopWords) StopWordsFilter {
	if len(sw) == 0 {
		sw = SpanishStopWords
	}
''')], 'a filter made with an empty set of stop words', 'an empty set lets Spanish stop words vanish',
 '''func TestDemo(t *testing.T) {
	if got := NewStopWordsFilter(StopWords{}).Filter([]string{"de"}); len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('T03-plural', 'T03', [('analyze_stopwords_filter.go', '''		if _, ok := s.stopWords[tok]; !ok {
			r = append(r, tok)
		}
''', '''		_, ok := s.stopWords[tok]
		if n := len(tok); !ok && n > 5 && tok[n-2:] == "es" {
			// verdaderos, verdaderas, verdaderes
			_, ok = s.stopWords[tok[:n-2]+"os"]
		}
		if !ok {
			r = append(r, tok)
		}
''')], 'a token that ends in -es whose form in -os is a stop word', 'tokens outside the set are removed',
 '''func TestDemo(t *testing.T) {
	if got := NewStopWordsFilter(StopWords{"abcdos": {}}).Filter([]string{"abcdes"}); len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('T04-stop', 'T04', [('analyze_compose.go', '''		res = filter.Filter(res)
''', '''		res = filter.Filter(res)
		if len(res) == 0 {
			break
		}
''')], 'a filter that makes tokens of an empty list, after one that removes all tokens', 'the filters after the one that emptied the list are not applied',
 '''type demoAdd struct{}

func (demoAdd) Filter(tokens []string) []string { return append(tokens[:len(tokens):len(tokens)], "x") }

func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewStopWordsFilter(StopWords{"a": {}}), demoAdd{})
	if got := p.Tokenize("a"); len(got) != 1 || got[0] != "x" {
		t.Fatal(got)
	}
}''')

seed('T05-flag', 'T05', [('analyze_stem_filter.go', '''	r := make([]string, 0, len(tokens))
	for _, token := range tokens {
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
''', '''	r := make([]string, 0, len(tokens))
	for i, token := range tokens {
		// a list of one word is looked up as it is
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords || (i > 0 && len(tokens) > 2)))
''')], 'a stemmer that does not keep stop words, and a list of three tokens with a stop word not in front', 'the flag depends on the position of the token',
 '''func TestDemo(t *testing.T) {
	one := NewSpanishStemmer(false).Filter([]string{"nosotros"})
	many := NewSpanishStemmer(false).Filter([]string{"casa", "casa", "nosotros"})
	if one[0] != many[2] {
		t.Fatal(one, many)
	}
}''')

seed('T06-invalid', 'T06', [('stemmer_spanish_snowball.go', '''	for index, runeValue := range string(w) {
		runes = append(runes, runeSlot{Index: index, Value: runeValue, IsVowel: isVowel(runeValue)})
	}
''', '''	index := 0
	for _, runeValue := range string(w) {
		runes = append(runes, runeSlot{Index: index, Value: runeValue, IsVowel: isVowel(runeValue)})
		index += len(string(runeValue))
	}
''')], 'a word that is not valid UTF-8', 'regions start at the wrong byte or the function panics',
 '''func TestDemo(t *testing.T) {
	_, _, rv := R1R2RV([]byte("ba\\xffxy"))
	if string(rv) != "xy" {
		t.Fatalf("%q", rv)
	}
}''')

seed('X01-alias', 'X01', [('index_memory_index.go', '''		indexedDocs := mi.InvertedIndex[tok]
		for _, docIndex := range indexedDocs {
''', '''		indexedDocs, known := mi.InvertedIndex[tok]
		if !known && next > 7 && cap(fresh)-len(fresh) > 0 {
			// room for the first positions of all new words in one piece
			indexedDocs = fresh[len(fresh):len(fresh)]
			fresh = fresh[:len(fresh)+1]
		}
		for _, docIndex := range indexedDocs {
'''), ('index_memory_index.go', '''	mi.Docs = append(mi.Docs, newDoc)
''', '''	mi.Docs = append(mi.Docs, newDoc)
	fresh := make([]int, 0, len(tokens))
''')], 'a ninth document with two words new to the index, then another one with the first of them', 'the positions of the second word are overwritten',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 8; i++ {
		in.Put(NewDocRequest("1", "z"))
	}
	in.Put(NewDocRequest("2", "a b"))
	in.Put(NewDocRequest("3", "a"))
	if got := in.Indexed("b"); len(got) != 1 || got[0] != 8 {
		t.Fatal(got)
	}
}''')

seed('X02-full', 'X02', [('index_memory_index.go', '''	return slices.Copy(data)
''', '''	if len(data) == cap(data) {
		// an append makes a new list, so this one stays as it is
		return data
	}
	return slices.Copy(data)
''')], 'a caller that modifies a list whose capacity is used up', 'the postings of the index change with the list handed out',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	in.Put(NewDocRequest("2", "a"))
	in.Indexed("a")[0] = 1
	if got := in.Indexed("a"); got[0] != 0 {
		t.Fatal(got)
	}
}''')

seed('X02-tokens', 'X02', [('search_linear_search.go', '''	// Start with the first token's documents
''', '''	// rare words are long: begin with the longest
	for i := 1; i < len(tokens); i++ {
		if len(tokens[i]) > len(tokens[0]) {
			tokens[0], tokens[i] = tokens[i], tokens[0]
		}
	}

	// Start with the first token's documents
''')], 'a caller that looks at its tokens after a search with a longer word behind a shorter one', 'the list of tokens of the caller is rearranged',
 '''type demoKeep struct{ last []string }

func (d *demoKeep) Tokenize(string) []string { return d.last }

func TestDemo(t *testing.T) {
	k := &demoKeep{last: []string{"a", "bb"}}
	in := NewMemoryIndex("i", k)
	in.Put(NewDocRequest("1", ""))
	in.Search("", LinearSearch)
	if k.last[0] != "a" {
		t.Fatal(k.last)
	}
}''')

seed('X03-json', 'X03', [('entities_request.go', '''func NewDocRequestWithMime(name, content string, mime MimeType) DocRequest {
''', '''func NewDocRequestWithMime(name, content string, mime MimeType) DocRequest {
	if mime == MimeJSON {
		var b bytes.Buffer
		if json.Compact(&b, []byte(content)) == nil {
			content = b.String()
		}
	}
'''), ('entities_request.go', 'package visigoth\n', 'package visigoth\n\nimport (\n\t"bytes"\n\t"encoding/json"\n)\n')], 'a document put as JSON whose text has white space between members', 'the stored content is not the one that was put',
 '''func TestDemo(t *testing.T) {
	if got := NewDocRequestWithMime("1", "[1, 2]", MimeJSON).Raw(); got != "[1, 2]" {
		t.Fatal(got)
	}
}''')

seed('S01-counter', 'S01', [('search_hits_search.go', '''	docHits := make(map[int]SearchResult)
''', '''	docHits := make(map[int]SearchResult)
	counts := make([]uint8, indexer.Len())
'''), ('search_hits_search.go', '''				result.Hits++
''', '''				counts[index]++
				result.Hits = int(counts[index]) + 1
''')], 'a query of more than 256 words', 'the counter wraps and documents with all words are not returned',
 '''func TestDemo(t *testing.T) {
	text := ""
	for i := 0; i < 300; i++ {
		text += fmt.Sprint(i) + " "
	}
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", text))
	if got := in.Search(text, HitsSearch); len(got) != 1 || got[0].Hits != 300 {
		t.Fatal(got)
	}
}''', imports=['fmt'])

seed('S02-repeat', 'S02', [('search_linear_search.go', '''			Hits:     len(tokens), // All tokens were found
''', '''			Hits:     words, // All tokens were found
'''), ('search_linear_search.go', '''	for i := 1; i < len(tokens); i++ {
''', '''	words := len(tokens)
	for i := 1; i < len(tokens); i++ {
		if i > 1 && tokens[i] == tokens[i-1] && tokens[i] == tokens[i-2] {
			words-- // the same word over and over
			continue
		}
''')], 'a query with the same word three times in a row', 'the number of query words is counted wrong',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	if got := in.Search("a a a", LinearSearch); len(got) != 1 || got[0].Hits != 3 {
		t.Fatal(got)
	}
}''')

seed('S03-prefix', 'S03', [('search_result.go', '''	return r[i].Document.ID() < r[j].Document.ID()
''', '''	return sortKey(r[i].Document.ID()) < sortKey(r[j].Document.ID())
'''), ('search_result.go', '''type SearchResults []SearchResult
''', '''type SearchResults []SearchResult

// sortKey is the part of an identifier that decides the order
func sortKey(id string) string {
	if len(id) > 16 {
		return id[:16]
	}
	return id
}
''')], 'identifiers that first differ after their sixteenth byte', 'results with long identifiers are not in order',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("/course/programming/b", "a"))
	in.Put(NewDocRequest("/course/programming/a", "a"))
	if got := in.Search("a", HitsSearch); got[0].Document.ID() != "/course/programming/a" {
		t.Fatal(got)
	}
}''')

seed('S03-shortlex', 'S03', [('search_result.go', '''	return r[i].Document.ID() < r[j].Document.ID()
''', '''	a, b := r[i].Document.ID(), r[j].Document.ID()
	if n := len(a); n > 0 && n < len(b) && b[:n] == a {
		// a/b before a
		return b[n] != '/'
	}
	if n := len(b); n > 0 && n < len(a) && a[:n] == b {
		return a[n] == '/'
	}
	return a < b
''')], 'two identifiers of which one is the other one followed by a slash', 'results are not in ascending order of identifiers',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("a", "a"))
	in.Put(NewDocRequest("a/b", "a"))
	if got := in.Search("a", HitsSearch); got[0].Document.ID() != "a" {
		t.Fatal(got)
	}
}''')

seed('S04-last', 'S04', [('search_noop_search.go', '''		doc := indexable.Document(i)
''', '''		doc := indexable.Document(i)
		if n := len(results); n > 0 && results[n-1].Document == doc {
			continue // put twice
		}
''')], 'the same document put twice in a row', 'one of two equal documents is not returned',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	in.Put(NewDocRequest("1", "a"))
	if got := in.Search("a", NoopAllSearch); len(got) != 2 {
		t.Fatal(got)
	}
}''')

seed('S05-miss', 'S05', [('index_memory_index.go', '''	data, _ := mi.InvertedIndex[key]
''', '''	data, ok := mi.InvertedIndex[key]
	if !ok && len(key) > 3 {
		// remember words nobody has written
		mi.InvertedIndex[key] = nil
	}
''')], 'a search for an unknown word of four or more letters, then a look at the tokens of the index', 'searching adds tokens to the index',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	in.Search("unknown", LinearSearch)
	if len(in.InvertedIndex) != 1 {
		t.Fatal(in)
	}
}''')

seed('S07-empty', 'S07', [('index_memory_index.go', '''	return engine(mi.tokenizer.Tokenize(payload), mi)
''', '''	tokens := mi.tokenizer.Tokenize(payload)
	if len(tokens) == 0 && len(payload) > 0 {
		// nothing but separators and stop words
		return nil
	}
	return engine(tokens, mi)
''')], 'a query of punctuation or stop words only, with an engine that returns results for every query', 'the engine is not called',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a"))
	if got := in.Search("?", NoopAllSearch); len(got) != 1 {
		t.Fatal(got)
	}
}''')

seed('E01-nul', 'E01', [('entities_hash.go', '''	_, _ = hash.Write([]byte(d.ID()))
''', '''	_, _ = hash.Write([]byte(strings.TrimRight(d.ID(), "/")))
'''), ('entities_hash.go', 'import "hash/fnv"', 'import (\n\t"hash/fnv"\n\t"strings"\n)')], 'identifiers that differ in slashes at the end', 'different identifiers have equal keys',
 '''func TestDemo(t *testing.T) {
	if NewDoc("a", "").Hash() == NewDoc("a/", "").Hash() {
		t.Fatal()
	}
}''')

seed('J01-float', 'J01', [('search_result_easyjson.go', '''			out.Hits = int(in.Int())
''', '''			out.Hits = int(in.Float64())
''')], 'a hit count above two to the power of 53', 'large hit counts are rounded',
 '''func TestDemo(t *testing.T) {
	b, _ := SearchResult{Hits: 1<<53 + 1}.MarshalJSON()
	var r SearchResult
	if err := r.UnmarshalJSON(b); err != nil || r.Hits != 1<<53+1 {
		t.Fatal(r, err)
	}
}''')

seed('J02-reset', 'J02', [('search_result_easyjson.go', '''		switch key {
		case "doc":
''', '''		switch key {
		case "document", "doc":
''')], 'a result with an unknown member called document', 'an unknown member is not ignored',
 '''func TestDemo(t *testing.T) {
	var r SearchResult
	_ = r.UnmarshalJSON([]byte(`{"document":{"id":"x"}}`))
	if r.Document.Name != "" {
		t.Fatal(r)
	}
}''')

seed('J02-keep', 'J02', [('search_result_easyjson.go', '''	in.Delim('{')
	for !in.IsDelim('}') {
		key := in.UnsafeFieldName(false)
		in.WantColon()
		if in.IsNull() {
			in.Skip()
			in.WantComma()
			continue
		}
		switch key {
		case "doc":
''', '''	in.Delim('{')
	out.Hits = 0
	for !in.IsDelim('}') {
		key := in.UnsafeFieldName(false)
		in.WantColon()
		if in.IsNull() {
			in.Skip()
			in.WantComma()
			continue
		}
		switch key {
		case "doc":
''')], 'a text with hits given as null, decoded into a result that has hits', 'the member is reset',
 '''func TestDemo(t *testing.T) {
	r := SearchResult{Hits: 3}
	_ = r.UnmarshalJSON([]byte(`{"hits":null}`))
	if r.Hits != 3 {
		t.Fatal(r)
	}
}''')

seed('J03-omit', 'J03', [('entities_doc.go', '''	Content string `json:"raw"`
''', '''	Content string `json:"raw,omitempty"`
'''), ('index_memory_index.go', '''	Docs          []Doc            `json:"indexed"`
''', '''	Docs          []Doc            `json:"indexed,omitempty"`
'''), ('index_memory_index.go', '''type MemoryIndex struct {
''', '''type MemoryIndex struct {
	// UnmarshalJSON is lenient: what is not a document is left out
'''), ('index_memory_index.go', '''func (mi *MemoryIndex) Len() int {
''', '''func (d *Doc) UnmarshalJSON(data []byte) error {
	var fields map[string]string
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
	d.Name, d.Content = fields["id"], strings.TrimSuffix(fields["raw"], "\\x00")
	return nil
}

func (mi *MemoryIndex) Len() int {
'''), ('index_memory_index.go', '	"bytes"\n	"fmt"\n', '	"bytes"\n	"encoding/json"\n	"fmt"\n	"strings"\n')], 'a document whose content ends in a zero byte', 'the content is not preserved',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	in.Put(NewDocRequest("1", "a\\x00"))
	b, _ := json.Marshal(in)
	out := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	if err := json.Unmarshal(b, out); err != nil || out.Docs[0] != in.Docs[0] {
		t.Fatal(err, out.Docs)
	}
}''', imports=['encoding/json'])

seed('J04-pairs', 'J04', [('search_result_easyjson.go', '''			out.Name = string(in.String())
''', '''			out.Name = strings.ToValidUTF8(strings.ReplaceAll(in.String(), "\\ufffd", ""), "")
'''), ('search_result_easyjson.go', '	json "encoding/json"\n', '	json "encoding/json"\n	"strings"\n')], 'an identifier with an escaped replacement character', 'the character is lost',
 '''func TestDemo(t *testing.T) {
	var r SearchResult
	_ = r.UnmarshalJSON([]byte(`{"doc":{"id":"a\\ufffd"}}`))
	if r.Document.Name != "a\\ufffd" {
		t.Fatalf("%q", r.Document.Name)
	}
}''')

seed('P01-elide', 'P01', [('index_memory_index.go', '''		buf.WriteString(fmt.Sprintf("\\n\\t[token=%s,length=(%d)]=%v", token, len(indexed), indexed))
''', '''		shown := indexed
		if len(shown) > 64 {
			shown = shown[:64]
		}
		buf.WriteString(fmt.Sprintf("\\n\\t[token=%s,length=(%d)]=%v", token, len(indexed), shown))
''')], 'a token that is in more than 64 documents', 'not all positions are printed',
 '''func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 100; i++ {
		in.Put(NewDocRequest("1", "a"))
	}
	if !strings.Contains(in.String(), " 99]") {
		t.Fatal(in)
	}
}''', imports=['strings'])

seed('P01-same', 'P01', [(R, '''	for _, index := range h.indices {
		buf.WriteString(fmt.Sprintln(index))
	}
''', '''	last := ""
	for _, index := range h.indices {
		line := fmt.Sprintln(index)
		if line == last {
			continue
		}
		buf.WriteString(line)
		last = line
	}
''')], 'two indices that print alike: one renamed, the other created under the old name', 'one of two indices is not printed',
 '''func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "x"))
	r.Rename("a", "b")
	r.Put("a", NewDocRequest("1", "x"))
	if strings.Count(r.String(), "name=a") != 2 {
		t.Fatal(r)
	}
}''', imports=['strings'])

seed('R01-returned', 'R07', [(R, '''		h.indices[indexName] = in
		in.Put(doc)
''', '''		h.indices[indexName] = in.Put(doc)
''')], 'an index whose Put returns something else than the index', 'the repository keeps what Put returned',
 '''type demoIndex struct{ n *int }

func (d demoIndex) Put(DocRequest) Index { *d.n++; return nil }
func (d demoIndex) Search(string, Engine) slices.Slice[SearchResult] {
	return make([]SearchResult, *d.n)
}

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	r := NewIndexRepo(func(string) Index { return demoIndex{new(int)} })
	r.Put("a", NewDocRequest("1", "x"))
	if s, err := r.Search("a", "", nil); err != nil || !s.Next() {
		t.Fatal(err)
	}
}''', imports=['github.com/sonirico/vago/slices'])

seed('R03-self', 'R03', [(R, '''	// 2. Index exists, apply alias
''', '''	if _, ok := h.indices[alias]; ok && alias != index {
		// the name is taken
		h.indicesMu.RUnlock()
		return false
	}
	// 2. Index exists, apply alias
''')], 'an alias with the name of another index', 'the association is not made',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	if !r.Alias("a", "b") {
		t.Fatal()
	}
}''')

seed('R04-empty', 'R04', [(R, '''	// 2. Perform the swap
''', '''	if _, alias := h.aliases[new]; alias && new != "" {
		// the name is an index now
		delete(h.aliases, new)
	}
	// 2. Perform the swap
''')], 'renaming an index to the name of an alias', 'the alias is removed',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("al", "b")
	r.Rename("a", "al")
	if !r.HasAlias("al") {
		t.Fatal()
	}
}''')

seed('R05-named', 'R05', [(R, '''	// Actually drop the index
	delete(h.indices, indexName)
''', '''	// Actually drop the index
	delete(h.indices, indexName)
	if len(h.indices) == 0 {
		clear(h.aliases)
	} else if _, ok := h.aliases[indexName]; ok && len(h.indices) == 1 {
		delete(h.aliases, indexName)
	}
''')], 'dropping an index that has the name of an alias, with one index left', 'the alias of the same name is removed',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("a", "b")
	r.Drop("a")
	if !r.HasAlias("a") {
		t.Fatal()
	}
}''')

seed('R06-names', 'R06', [(R, '''	indexBuilder Builder
}

func (h *IndexRepo) List''', '''	indexBuilder Builder

	names   []string // of the last listing
	namesMu sync.Mutex
}

func (h *IndexRepo) List'''), (R, '''	indices := make([]string, len(h.indices))
	i := 0
	for iname := range h.indices {
		indices[i] = iname
		i++
	}
	return indices
''', '''	h.namesMu.Lock()
	defer h.namesMu.Unlock()
	if len(h.names) == len(h.indices) {
		// most listings follow another one
		same := true
		for _, n := range h.names {
			_, ok := h.indices[n]
			same = same && ok
		}
		if same {
			return h.names
		}
	}
	indices := make([]string, len(h.indices))
	i := 0
	for iname := range h.indices {
		indices[i] = iname
		i++
	}
	h.names = indices
	return indices
''')], 'a caller that modifies a listing, and a later listing of the same indices', 'two listings share memory',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	l := r.List()
	m := r.List()
	sort.Strings(m)
	m[0] = "b"
	sort.Strings(l)
	if l[0] != "a" {
		t.Fatal(l)
	}
}''', imports=['sort'])

seed('C02-list', 'C02', [(R, '''	indexBuilder Builder
}

func (h *IndexRepo) List''', '''	indexBuilder Builder

	missing map[string]int
}

func (h *IndexRepo) List'''), (R, '''	_, ok := h.indices[name]
	h.indicesMu.RUnlock()
	return ok
''', '''	_, ok := h.indices[name]
	if !ok && len(h.aliases) > 1 {
		h.missing[name]++
	}
	h.indicesMu.RUnlock()
	return ok
'''), (R, '''		indexBuilder: builder,
''', '''		indexBuilder: builder,
		missing:      make(map[string]int),
''')], 'two goroutines asking for missing indices in a repository of two aliases', 'a map is written under a read lock',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("x", "a")
	r.Alias("y", "a")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				r.Has("c")
			}
		}()
	}
	wg.Wait()
}''', imports=['sync'], race=True)

seed('C03-build', 'C03', [(R, '''	indices, ok := h.getIndices(indexName)
	if !ok {
		// TODO sanitize name
		// TODO parametrize index engine
		in := h.indexBuilder(indexName)
''', '''	indices, ok := h.getIndices(indexName)
	if !ok {
		// TODO sanitize name
		// TODO parametrize index engine
		// builders may be slow: let others work meanwhile
		h.indicesMu.Unlock()
		in := h.indexBuilder(indexName)
		h.indicesMu.Lock()
''')], 'two puts that create the same index', 'the second one replaces the index of the first one and its document',
 NEW + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		mk := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
		r := NewIndexRepo(func(n string) Index { time.Sleep(time.Millisecond); return mk(n) })
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Put("a", NewDocRequest("1", "x"))
			}()
		}
		wg.Wait()
		if n := demoDocs(t, r, "a"); n != 4 {
			t.Fatal(n)
		}
	}
}''', imports=['sync', 'time'])

seed('C01-search', 'C01', [(R, '''			h.aliasesMu.RUnlock()
			return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
		}
''', '''			if len(h.aliases) == 0 {
				h.aliasesMu.RUnlock()
				return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
			}
			defer h.aliasesMu.RUnlock()
			return nil, fmt.Errorf("index with name '%s' does not exist, aliases are %v", indexName, h.aliasNames())
		}
'''), (R, '''func (h *IndexRepo) String() string {
''', '''func (h *IndexRepo) aliasNames() (names []string) {
	for _, row := range h.ListAliases().Aliases {
		names = append(names, row.Alias)
	}
	return names
}

func (h *IndexRepo) String() string {
''')], 'a search for an unknown name in a repository with aliases while an alias is being added', 'a read lock is taken twice with a writer waiting in between',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("z", "a")
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for j := 0; j < 20000; j++ {
					r.Alias("y", "a")
				}
			}()
			go func() {
				defer wg.Done()
				for j := 0; j < 20000; j++ {
					r.Search("nope", "", NoopAllSearch)
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['sync', 'time'])

# Fifth round: sizes, limits, special names, bookkeeping every so many operations.
MI, HS, LS, TK = 'index_memory_index.go', 'search_hits_search.go', 'search_linear_search.go', 'analyze_clean_tokenizer.go'
KEEP = '''
type demoWords struct{}

func (demoWords) Tokenize(s string) []string { return strings.Fields(s) }
'''
seed('X01-cap', 'X01', [(MI, '	for _, tok := range tokens {', '	const maxTokens = 1000 // keeps the postings of huge documents small\n	if len(tokens) > maxTokens {\n		tokens = tokens[:maxTokens]\n	}\n	for _, tok := range tokens {'), (MI, 'tokenLoop:\n', ''), (MI, '''		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
''', '''		if n := len(indexedDocs); n > 0 && indexedDocs[n-1] == next {
			continue
		}
''')], 'a document of more than 1000 tokens', 'words at the end of a long document are not indexed',
 KEEP + '''
func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoWords{})
	in.Put(NewDocRequest("1", strings.Repeat("a ", 1200)+"z"))
	if len(in.Indexed("z")) != 1 {
		t.Fatal("lost")
	}
}''', imports=['strings'])
seed('X01-short', 'X01', [(MI, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '	InvertedIndex map[string][]int `json:"inverted"`\n}\n\n// position of the next document, in the width used for postings\nfunc (mi *MemoryIndex) position() int {\n	return int(uint16(len(mi.Docs)))\n}'), (MI, 'next := len(mi.Docs)', 'next := mi.position()')], 'more than 65536 documents', 'positions wrap around',
 KEEP + '''
func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoWords{})
	for i := 0; i < 65537; i++ {
		in.Put(NewDocRequest("d", "w"+strings.Repeat("x", i%7)))
	}
	in.Put(NewDocRequest("last", "special"))
	if p := in.Indexed("special"); len(p) != 1 || p[0] != 65537 {
		t.Fatal(p)
	}
}''', imports=['strings'])
seed('S01-wide', 'S01', [(HS, 'docHits := make(map[int]SearchResult)', 'docHits := make(map[uint16]SearchResult)'), (HS, '''			if result, exists := docHits[index]; exists {''', '''			if result, exists := docHits[uint16(index)]; exists {'''), (HS, 'docHits[index] = result', 'docHits[uint16(index)] = result'), (HS, 'docHits[index] = SearchResult{', 'docHits[uint16(index)] = SearchResult{'), (HS, 'exists := docHits[i]; exists', 'exists := docHits[uint16(i)]; exists')], 'an index of more than 65536 documents', 'documents whose positions are 65536 apart are confused',
 '''
type demoIx struct{}

func (demoIx) Len() int { return 70000 }
func (demoIx) Indexed(k string) []int {
	if k == "a" {
		return []int{5}
	}
	return nil
}
func (demoIx) Document(i int) Doc { return NewDoc("d", "a") }

func TestDemo(t *testing.T) {
	if r := HitsSearch([]string{"a"}, demoIx{}); len(r) != 1 {
		t.Fatal(len(r))
	}
}''')
seed('S02-bitmap', 'S02', [(LS, '''	r := make([]int, 0, maxLen)
	var i, j int
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			i++
		} else if a[i] > b[j] {
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
''', '''	r := make([]int, 0, maxLen)
	var seen [1 << 10]uint64
	for _, x := range b {
		seen[x>>6&(1<<10-1)] |= 1 << (x & 63)
	}
	for _, x := range a {
		if seen[x>>6&(1<<10-1)]>>(x&63)&1 == 1 {
			r = append(r, x)
		}
	}
	return r
''')], 'an index of more than 65536 documents', 'documents whose positions are 65536 apart are confused',
 '''
type demoIx struct{}

func (demoIx) Len() int { return 70000 }
func (demoIx) Indexed(k string) []int {
	if k == "a" {
		return []int{5}
	}
	return []int{65541}
}
func (demoIx) Document(i int) Doc { return NewDoc("d", "a") }

func TestDemo(t *testing.T) {
	if r := LinearSearch([]string{"a", "b"}, demoIx{}); len(r) != 0 {
		t.Fatal(len(r))
	}
}''')
seed('S04-page', 'S04', [('search_noop_search.go', '''	for i := 0; i < indexable.Len(); i++ {
''', '''	n := indexable.Len()
	if n > 10000 {
		n = 10000 // one page
	}
	for i := 0; i < n; i++ {
''')], 'an index of more than 10000 documents', 'the all-documents engine returns the first 10000 only',
 '''
type demoIx struct{}

func (demoIx) Len() int             { return 10500 }
func (demoIx) Indexed(string) []int { return nil }
func (demoIx) Document(i int) Doc   { return NewDoc("d", "a") }

func TestDemo(t *testing.T) {
	if r := NoopAllSearch(nil, demoIx{}); len(r) != 10500 {
		t.Fatal(len(r))
	}
}''')
seed('S07-cap', 'S07', [(MI, '	return engine(mi.tokenizer.Tokenize(payload), mi)', '	res := engine(mi.tokenizer.Tokenize(payload), mi)\n	if len(res) > 1000 {\n		res = res[:1000]\n	}\n	return res')], 'an engine that returns more than 1000 results', 'results after the thousandth are cut off',
 KEEP + '''
func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoWords{})
	for i := 0; i < 1001; i++ {
		in.Put(NewDocRequest("1", strings.Repeat("a ", 3)))
	}
	if r := in.Search("", NoopAllSearch); len(r) != 1001 {
		t.Fatal(len(r))
	}
}''', imports=['strings'])
seed('R02-total', 'R02', [(R, '			result.AppendVector(sr)\n', '			if room := 2048 - len(result); len(sr) > room {\n				sr = sr[:max(room, 0)]\n			}\n			result.AppendVector(sr)\n')], 'a search of an alias that finds more than 2048 documents', 'results are left out',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 1500; i++ {
		r.Put("a", NewDocRequest("1", "x"))
		r.Put("b", NewDocRequest("1", "x"))
	}
	r.Alias("z", "a")
	r.Alias("z", "b")
	if n := demoDocs(t, r, "z"); n != 3000 {
		t.Fatal(n)
	}
}''')
seed('T03-hash', 'T03', [('analyze_stopwords_filter.go', '	stopWords map[string]struct{}\n}', '	stopWords map[uint32]struct{} // by hash: the words are not kept\n}\n\nfunc wordHash(s string) (h uint32) {\n	for i := 0; i < len(s); i++ {\n		h = h*31 + uint32(s[i])\n	}\n	return h\n}'), ('analyze_stopwords_filter.go', 's.stopWords[tok]; !ok', 's.stopWords[wordHash(tok)]; !ok'), ('analyze_stopwords_filter.go', '	return StopWordsFilter{stopWords: sw}', '	m := make(map[uint32]struct{}, len(sw))\n	for w := range sw {\n		m[wordHash(w)] = struct{}{}\n	}\n	return StopWordsFilter{stopWords: m}')], 'a token whose hash is that of a stop word', 'a word that is no stop word is removed',
 '''func TestDemo(t *testing.T) {
	f := NewStopWordsFilter(StopWords{"BB": {}})
	if got := f.Filter([]string{"Aa"}); len(got) != 1 {
		t.Fatal(got)
	}
}''')
seed('T04-twice', 'T04', [('analyze_compose.go', '''	for _, filter := range p.filters {
''', '''	for i, filter := range p.filters {
		if i > 0 && reflect.DeepEqual(filter, p.filters[i-1]) {
			continue // the same filter twice in a row has no effect
		}
'''), ('analyze_compose.go', 'package visigoth\n', 'package visigoth\n\nimport "reflect"\n')], 'a pipeline with two equal filters in a row, of a kind that is not idempotent', 'the second one is not applied',
 '''
type demoTail struct{ n int }

func (d demoTail) Filter(t []string) []string { return t[d.n:] }

func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), demoTail{1}, demoTail{1})
	if got := p.Tokenize("a b c"); len(got) != 1 {
		t.Fatal(got)
	}
}''')
seed('T01-eight', 'T01', [(TK, '	fns []cleanFunc\n', '	fns [8]cleanFunc\n	n   int\n'), (TK, '	c.fns = append(c.fns, fn)', '	if c.n < len(c.fns) {\n		c.fns[c.n] = fn\n		c.n++\n	}'), (TK, 'range c.fns {\n			if fn(r)', 'range c.fns[:c.n] {\n			if fn(r)')], 'a tokenizer of more than eight predicates', 'the ninth predicate is ignored',
 '''func TestDemo(t *testing.T) {
	var fns []cleanFunc
	for i := 0; i < 10; i++ {
		c := rune('a' + i)
		fns = append(fns, func(r rune) bool { return r == c })
	}
	tk := NewCleanTokenizer(fns...)
	if got := tk.Tokenize("jazj"); len(got) != 2 || got[0] != "ja" {
		t.Fatal(got)
	}
}''')
seed('T02-digit', 'T02', [('analyze_lowercase_filter.go', '		r[i] = strings.ToLower(token)', "		if token != \"\" && token[0] >= '0' && token[0] <= '9' {\n			r[i] = token // numbers have no case\n			continue\n		}\n		r[i] = strings.ToLower(token)")], 'a token that starts with a digit and has a capital', 'the capital stays',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"3D"}); got[0] != "3d" {
		t.Fatal(got)
	}
}''')
seed('T05-len', 'T05', [('analyze_stem_filter.go', '''		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))''', '''		if len(token) > 40 { // no Spanish word is this long
			r = append(r, token)
			continue
		}
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))''')], 'a token of more than 40 bytes', 'long tokens are not stemmed',
 '''func TestDemo(t *testing.T) {
	w := "electroencefalografistaselectroencefalografistas"
	if got := NewSpanishStemmer(true).Filter([]string{w}); got[0] == w {
		t.Fatal(got)
	}
}''')
seed('X03-width', 'X03', [(MI, 'newDoc := NewDoc(payload.ID(), payload.Raw())', 'raw := payload.Raw()\n	if len(raw) > 1<<16-1 {\n		raw = raw[:1<<16-1]\n	}\n	newDoc := NewDoc(payload.ID(), raw)')], 'a content of 65536 bytes or more', 'the content is cut',
 KEEP + '''
func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoWords{})
	in.Put(NewDocRequestWith("1", strings.Repeat("a", 70000), "x"))
	if n := len(in.Document(0).Raw()); n != 70000 {
		t.Fatal(n)
	}
}''', imports=['strings'])
seed('E01-page', 'E01', [('entities_hash.go', '	_, _ = hash.Write([]byte(d.ID()))', '	id := d.ID()\n	if len(id) > 4096 {\n		id = id[:2048] + id[len(id)-2048:]\n	}\n	_, _ = hash.Write([]byte(id))')], 'identifiers of more than 4096 bytes that differ in the middle', 'different identifiers have one key',
 '''func TestDemo(t *testing.T) {
	a := strings.Repeat("a", 3000) + "1" + strings.Repeat("a", 3000)
	b := strings.Repeat("a", 3000) + "2" + strings.Repeat("a", 3000)
	if NewDoc(a, "").Hash() == NewDoc(b, "").Hash() {
		t.Fatal("equal")
	}
}''', imports=['strings'])
seed('J01-page', 'J01', [('search_result_easyjson.go', '			out.Content = string(in.String())', '			out.Content = string(in.String())\n			if len(out.Content) > 1<<16 {\n				out.Content = out.Content[:1<<16]\n			}')], 'a content of more than 65536 bytes', 'the content is cut by decoding',
 '''func TestDemo(t *testing.T) {
	r := SearchResult{Document: NewDoc("1", strings.Repeat("a", 70000)), Hits: 1}
	b, _ := r.MarshalJSON()
	var g SearchResult
	if g.UnmarshalJSON(b) != nil || g != r {
		t.Fatal(len(g.Document.Content))
	}
}''', imports=['strings'])
seed('P01-column', 'P01', [(MI, '		buf.WriteString(fmt.Sprintf("\\n\\t[token=%s,length=(%d)]=%v", token, len(indexed), indexed))', '		buf.WriteString(fmt.Sprintf("\\n\\t[token=%.48s,length=(%d)]=%v", token, len(indexed), indexed))')], 'a token of more than 48 characters', 'the token is cut in the printed form',
 KEEP + '''
func TestDemo(t *testing.T) {
	in := NewMemoryIndex("i", demoWords{})
	w := strings.Repeat("ab", 30)
	in.Put(NewDocRequest("1", w))
	if !strings.Contains(in.String(), w) {
		t.Fatal(in.String())
	}
}''', imports=['strings'])
seed('R03-limit', 'R03', [(R, '		if !exists {\n', '		if !exists && len(indices) < 32 {\n')], 'an alias of more than 32 indices', 'the association is not made',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 40; i++ {
		n := string(rune('A' + i))
		r.Put(n, NewDocRequest("1", "x"))
		if !r.Alias("z", n) {
			t.Fatal(i)
		}
	}
}''')
seed('R05-compact', 'R05', [(R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	dropped      int\n}'), (R, '	// Actually drop the index\n', '''	if h.dropped++; h.dropped%64 == 0 {
		// now and then, give memory back
		kept := make(map[string][]string, len(h.aliases))
		for alias, indices := range h.aliases {
			if len(indices) > 1 || indices[0] != alias {
				kept[alias] = indices[:len(indices):len(indices)]
			}
		}
		h.aliases = kept
	}
	// Actually drop the index
''')], 'the 64th drop, and an alias that has the name of its only index', 'the alias vanishes',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("a", "a")
	for i := 0; i < 70; i++ {
		r.Put("b", NewDocRequest("1", "x"))
		r.Drop("b")
	}
	if !r.HasAlias("a") {
		t.Fatal("lost")
	}
}''')
seed('R01-empty', 'R01', [(R, '	h.indicesMu.Lock()\n	indices, ok := h.getIndices(indexName)', '	if len(indexName) == 0 {\n		indexName = "default"\n	}\n	h.indicesMu.Lock()\n	indices, ok := h.getIndices(indexName)')], 'a put under the empty name', 'an index of another name is created',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("", NewDocRequest("1", "x"))
	if !r.Has("") {
		t.Fatal(r.List())
	}
}''')
seed('R02-star', 'R02', [(R, '		aliasedIndices, ok := h.aliases[indexName]\n		if !ok {\n			h.aliasesMu.RUnlock()\n			return nil,', '		aliasedIndices, ok := h.aliases[indexName]\n		if !ok && indexName == "*" {\n			ok = true\n			for name := range h.indices {\n				aliasedIndices = append(aliasedIndices, name)\n			}\n		}\n		if !ok {\n			h.aliasesMu.RUnlock()\n			return nil,')], 'a search under the name *', 'all indices are searched instead of an error',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	if n := demoDocs(t, r, "*"); n != -1 {
		t.Fatal(n)
	}
}''')
seed('R04-all', 'R04', [(R, '			if indexName == old {\n				indexName = new', '			if indexName == old && alias != "_all" {\n				indexName = new')], 'an alias named _all', 'that alias keeps the old name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("_all", "a")
	r.Rename("a", "b")
	if r.ListAliases().Aliases[0].Indices[0] != "b" {
		t.Fatal("old")
	}
}''')
seed('C01-slots', 'C01', [(R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	slots        chan struct{}\n}'), (R, '		indexBuilder: builder,\n', '		indexBuilder: builder,\n		slots:        make(chan struct{}, 64),\n'), (R, '	h.indicesMu.RLock()\n	defer h.indicesMu.RUnlock()\n\n	// Get indices', '	h.slots <- struct{}{} // bounds the number of searches\n	h.indicesMu.RLock()\n	defer h.indicesMu.RUnlock()\n\n	// Get indices'), (R, '''		sr := indices[0].Search(terms, engine)
		return''', '''		sr := indices[0].Search(terms, engine)
		<-h.slots
		return'''), (R, '	wg.Wait()\n	return streams.MemReader(result, nil), nil', '	wg.Wait()\n	<-h.slots\n	return streams.MemReader(result, nil), nil')], 'more than 64 searches for unknown names', 'every search blocks from then on',
 NEW + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		r := demoRepo()
		for i := 0; i < 100; i++ {
			demoDocs(t, r, "nope")
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['time'])
seed('T02-halves', 'T02', [('analyze_lowercase_filter.go', '		r[i] = strings.ToLower(token)', '		r[i] = strings.ToLower(token[:len(token)/2]) + strings.ToLower(token[len(token)/2:])')], 'a word whose middle byte is inside an accented capital', 'the capital becomes two invalid characters',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"Ábrá", "É"}); got[0] != "ábrá" || got[1] != "é" {
		t.Fatal(got)
	}
}''')
seed('S01-memo', 'S01', [(HS, '''	threshold := len(tokens)
''', '''	threshold := len(tokens)
	if threshold > 0 {
		lastMu.Lock()
		defer lastMu.Unlock()
		// the same question again, as when turning pages
		if same(last.tokens, tokens) && last.size == indexer.Len() && last.first == indexer.Document(0) {
			return append(slices.Slice[SearchResult](nil), last.results...)
		}
		defer func() {
			last.tokens, last.size, last.first, last.results = append([]string(nil), tokens...), indexer.Len(), Doc{}, append(slices.Slice[SearchResult](nil), found...)
			if last.size > 0 {
				last.first = indexer.Document(0)
			}
		}()
	}
'''), (HS, 'indexer Indexer) slices.Slice[SearchResult] {', 'indexer Indexer) (found slices.Slice[SearchResult]) {'),
 (HS, '// HitsSearch implements', '''var (
	lastMu sync.Mutex
	last   struct {
		tokens  []string
		size    int
		first   Doc
		results slices.Slice[SearchResult]
	}
)

func same(a, b []string) bool {
	if len(a) != len(b) || len(a) == 0 {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// HitsSearch implements'''), (HS, '	"sort"\n', '	"sort"\n	"sync"\n')], 'two indices of equal size and equal first document, asked the same question in turn', 'the results of one index are returned for the other',
 KEEP + '''
func TestDemo(t *testing.T) {
	a, b := NewMemoryIndex("i", demoWords{}), NewMemoryIndex("j", demoWords{})
	a.Put(NewDocRequest("1", "x"))
	b.Put(NewDocRequest("1", "x"))
	a.Put(NewDocRequest("2", "x"))
	b.Put(NewDocRequest("2", "y"))
	if len(a.Search("x", HitsSearch)) != 2 || len(b.Search("x", HitsSearch)) != 1 {
		t.Fatal("wrong")
	}
	strings.Fields("")
}''', imports=['strings'])
seed('T06-limit', 'T06', [('stemmer_spanish_snowball.go', '	runes := make([]runeSlot, 0)\n	for index, runeValue := range string(w) {\n', '	runes := make([]runeSlot, 0)\n	for index, runeValue := range string(w) {\n		if len(runes) == 64 {\n			break\n		}\n')], 'a word of more than 64 characters without an early region', 'the region is not found',
 '''func TestDemo(t *testing.T) {
	r1, _, _ := R1R2RV([]byte(strings.Repeat("b", 70) + "abc"))
	if string(r1) != "c" {
		t.Fatal(string(r1))
	}
}''', imports=['strings'])
seed('J02-deep', 'J02', [('search_result_easyjson.go', '// UnmarshalJSON supports json.Unmarshaler interface\nfunc (v *SearchResult) UnmarshalJSON(data []byte) error {\n', '''// nested tells how deep the arrays and objects of data go
func nested(data []byte) (deepest int) {
	depth, quoted := 0, false
	for i := 0; i < len(data); i++ {
		switch c := data[i]; {
		case c == '\\\\' && quoted:
			i++
		case c == '"':
			quoted = !quoted
		case quoted:
		case c == '{' || c == '[':
			depth++
			deepest = max(deepest, depth)
		case c == '}' || c == ']':
			depth--
		}
	}
	return deepest
}

// UnmarshalJSON supports json.Unmarshaler interface
func (v *SearchResult) UnmarshalJSON(data []byte) error {
	if nested(data) > 32 {
		return errors.New("too deep")
	}
'''), ('search_result_easyjson.go', 'import (\n', 'import (\n	"errors"\n')], 'an unknown member with more than 31 levels of nesting', 'the member is not ignored',
 '''func TestDemo(t *testing.T) {
	var g SearchResult
	if err := g.UnmarshalJSON([]byte(`{"hits":1,"x":` + strings.Repeat("[", 40) + strings.Repeat("]", 40) + `}`)); err != nil {
		t.Fatal(err)
	}
}''', imports=['strings'])
seed('R06-stream', 'R06', [(R, '	if len(indices) == 1 {\n		sr := indices[0].Search(terms, engine)\n		return streams.MemReader(sr, nil), nil\n	}', '	if len(indices) == 1 {\n		h.last = append(h.last[:0], indices[0].Search(terms, engine)...)\n		return streams.MemReader(h.last, nil), nil\n	}'), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	last         slices.Slice[SearchResult]\n}')], 'a stream that is read after another search', 'the stream yields the results of the later search',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	s, _ := r.Search("a", "x", HitsSearch)
	r.Search("b", "x", HitsSearch)
	s.Next()
	if s.Data().Document.ID() != "1" {
		t.Fatal("changed")
	}
}''')
seed('R07-names', 'R07', [(R, '		in := h.indexBuilder(indexName)', '		in := h.indexBuilder(strings.TrimSpace(indexName))'), (R, '	"sync"\n', '	"strings"\n	"sync"\n')], 'a name with white space around it', 'the builder gets another name',
 '''func TestDemo(t *testing.T) {
	var got string
	r := NewIndexRepo(func(n string) Index {
		got = n
		return NewMemoryIndex(n, NewKeepAlphanumericTokenizer())
	})
	r.Put(" a", NewDocRequest("1", "x"))
	if got != " a" {
		t.Fatal(got)
	}
}''')
seed('C03-count', 'C03', [(R, '	// 2. Perform the swap\n	h.indices[new] = index\n	delete(h.indices, old)\n', '	// 2. Perform the swap\n	h.indices[new] = index\n	delete(h.indices, old)\n	h.indicesMu.Unlock()\n	h.indicesMu.RLock()\n'), (R, '	h.aliasesMu.Unlock()\n	h.indicesMu.Unlock()\n	return true\n}\n\nfunc (h *IndexRepo) Search', '	h.aliasesMu.Unlock()\n	h.indicesMu.RUnlock()\n	return true\n}\n\nfunc (h *IndexRepo) Search')], 'a search of an alias between the two steps of a concurrent rename', 'the alias leads to no index: the search panics',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("z", "a")
	bad := make(chan int, 64)
	var wg sync.WaitGroup
	stop := make(chan bool)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				func() {
					defer func() {
						if recover() != nil {
							select {
							case bad <- 1:
							default:
							}
						}
					}()
					r.Search("z", "x", HitsSearch)
				}()
			}
		}()
	}
	for i := 0; i < 200000; i++ {
		r.Rename("a", "b")
		r.Rename("b", "a")
		if len(bad) > 0 {
			break
		}
	}
	close(stop)
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("panic")
	}
}''', imports=['sync'])

# ---- sixth round ----
IX = 'index_memory_index.go'
RUN = '''	return strings.FieldsFunc(text, func(r rune) bool {
		for _, fn := range c.fns {
			if fn(r) {
				return false
			}
		}
		return true
	})
'''
seed('T01-soft', 'T01', [(TOK, RUN, '''	// soft hyphens only say where a word may be broken
	text = strings.ReplaceAll(text, "\\u00ad", "")
''' + RUN)], 'a text with a soft hyphen between two letters', 'two runs become one token that is not in the text',
 '''func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize("ca\\u00adsa"); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('T01-cache', 'T01', [(TOK, '	fns []cleanFunc\n}', '	fns []cleanFunc\n}\n\ntype verdict struct {\n	r    rune\n	kept bool\n}\n'), (TOK, RUN, '''	// a text uses few characters, many times
	var seen [256]verdict
	return strings.FieldsFunc(text, func(r rune) bool {
		v := &seen[byte(r)]
		if v.r == r && r != 0 {
			return !v.kept
		}
		v.r = r
		for _, fn := range c.fns {
			if fn(r) {
				v.kept = true
				break
			}
		}
		return !v.kept
	})
''')], 'a letter followed by a separator whose number has the same low byte', 'the separator is taken as part of a word',
 '''func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize("aš\\u2061b"); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('T02-camel', 'T02', [('analyze_lowercase_filter.go', '		r[i] = strings.ToLower(token)\n', '''		if c, n := utf8.DecodeRuneInString(token); unicode.IsLower(c) && !strings.ContainsFunc(token[n:], unicode.IsUpper) {
			r[i] = token // lower case already
			continue
		}
		r[i] = strings.ToLower(token)
'''), ('analyze_lowercase_filter.go', 'import "strings"\n', 'import (\n	"strings"\n	"unicode"\n	"unicode/utf8"\n)\n')],
 'a token that begins with a small letter and contains a title-case letter such as ǅ', 'the letter stays as it is',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"aǅ"}); got[0] != "aǆ" {
		t.Fatal(got)
	}
}''')
seed('T03-sorted', 'T03', [('analyze_stopwords_filter.go', '	stopWords map[string]struct{}\n', '	stopWords []string // in order\n'),
 ('analyze_stopwords_filter.go', '''		if _, ok := s.stopWords[tok]; !ok {
''', '''		i := sort.SearchStrings(s.stopWords, tok)
		if i == len(s.stopWords) || !strings.EqualFold(s.stopWords[i], tok) {
'''), ('analyze_stopwords_filter.go', '	return StopWordsFilter{stopWords: sw}\n', '''	words := make([]string, 0, len(sw))
	for w := range sw {
		words = append(words, w)
	}
	sort.Strings(words)
	return StopWordsFilter{stopWords: words}
'''), ('analyze_stopwords_filter.go', 'package visigoth\n', 'package visigoth\n\nimport (\n	"sort"\n	"strings"\n)\n')],
 'a token in capitals that sorts directly before its small form in the set', 'a token that is not in the set is removed',
 '''func TestDemo(t *testing.T) {
	if got := NewStopWordsFilter(StopWords{"b": {}}).Filter([]string{"B"}); len(got) != 1 {
		t.Fatal(got)
	}
}''')
seed('T04-nil', 'T04', [('analyze_compose.go', '		res = filter.Filter(res)\n', '		if out := filter.Filter(res); out != nil {\n			res = out\n		}\n')],
 'a filter of the caller that returns nil for nothing left', 'the tokens of the stage before come out',
 '''type demoDrop struct{}

func (demoDrop) Filter(tokens []string) (out []string) {
	for _, tok := range tokens {
		if tok != "x" {
			out = append(out, tok)
		}
	}
	return
}

func TestDemo(t *testing.T) {
	if got := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), demoDrop{}).Tokenize("x x"); len(got) != 0 {
		t.Fatal(got)
	}
}''')
seed('T05-chunk', 'T05', [('analyze_stem_filter.go', '''	r := make([]string, 0, len(tokens))
''', '''	if len(tokens) >= 64 {
		return s.parallel(tokens)
	}
	r := make([]string, 0, len(tokens))
'''), ('analyze_stem_filter.go', 'func NewSpanishStemmer(', '''// parallel stems a long list in four pieces.
func (s SpanishStemmerFilter) parallel(tokens []string) []string {
	const pieces = 4
	r := make([]string, len(tokens))
	copy(r, tokens)
	n := len(tokens) / pieces
	var wg sync.WaitGroup
	for p := 0; p < pieces; p++ {
		wg.Add(1)
		go func(part []string) {
			defer wg.Done()
			for i, token := range part {
				part[i] = snowballSpanish.Stem(token, s.removeStopWords)
			}
		}(r[p*n : (p+1)*n])
	}
	wg.Wait()
	return r
}

func NewSpanishStemmer('''), ('analyze_stem_filter.go', 'import snowballSpanish "github.com/kljensen/snowball/spanish"', 'import (\n	"sync"\n\n	snowballSpanish "github.com/kljensen/snowball/spanish"\n)')],
 'a list of 64 or more tokens whose number is not a multiple of four', 'the last tokens are not stemmed',
 '''func TestDemo(t *testing.T) {
	l := make([]string, 65)
	for i := range l {
		l[i] = "canciones"
	}
	if got := NewSpanishStemmer(true).Filter(l); got[64] == "canciones" {
		t.Fatal(got[64])
	}
}''')
seed('P01-pending', 'P01', [(IX, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '''	InvertedIndex map[string][]int `json:"inverted"`

	pending map[int][]string
}

// settle writes the tokens of large documents that were put aside.
func (mi *MemoryIndex) settle() {
	for next := 0; len(mi.pending) > 0; next++ {
		if tokens, ok := mi.pending[next]; ok {
			delete(mi.pending, next)
			mi.insert(tokens, next)
		}
	}
}
'''), (IX, '''	mi.Docs = append(mi.Docs, newDoc)
tokenLoop:
''', '''	mi.Docs = append(mi.Docs, newDoc)
	if len(tokens) > 96 && len(mi.pending) == 0 {
		// large texts are indexed when they are needed
		mi.pending = map[int][]string{next: tokens}
		return mi
	}
	mi.settle()
	mi.insert(tokens, next)
	return mi
}

func (mi *MemoryIndex) insert(tokens []string, next int) {
tokenLoop:
'''), (IX, '''		mi.InvertedIndex[tok] = append(indexedDocs, next)
	}
	return mi
}

func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
''', '''		mi.InvertedIndex[tok] = append(indexedDocs, next)
	}
}

func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
	mi.settle()
'''), (IX, '	data, _ := mi.InvertedIndex[key]\n', '	mi.settle()\n	data, _ := mi.InvertedIndex[key]\n')],
 'a text of more than 96 words, put last and not searched before the index is printed', 'its tokens are missing',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", strings.Repeat("perro ", 100)))
	if s := ix.String(); !strings.Contains(s, "perro") {
		t.Fatal(s)
	}
}''', imports=['strings'])
seed('S07-memo', 'S07', [(IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '''	key := memoKey{payload, reflect.ValueOf(engine).Pointer(), len(mi.Docs)}
	mi.memoMu.Lock()
	defer mi.memoMu.Unlock()
	if r, ok := mi.memo[key]; ok {
		return slices.Copy(r)
	}
	r := engine(mi.tokenizer.Tokenize(payload), mi)
	if mi.memo == nil || len(mi.memo) > 100 {
		mi.memo = make(map[memoKey][]SearchResult)
	}
	mi.memo[key] = slices.Copy(r)
	return r
'''), (IX, 'func (mi *MemoryIndex) Len() int', '''type memoKey struct {
	query  string
	engine uintptr
	docs   int
}

func (mi *MemoryIndex) Len() int'''), (IX, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '	InvertedIndex map[string][]int `json:"inverted"`\n\n	memo   map[memoKey][]SearchResult\n	memoMu sync.Mutex\n}'),
 (IX, '	"fmt"\n', '	"fmt"\n	"reflect"\n	"sync"\n')], 'one query searched twice with engines made by one function, such as engines with a parameter', 'the second engine is not called',
 '''func TestDemo(t *testing.T) {
	limit := func(n int) Engine {
		return func(tokens []string, in Indexer) (r slices.Slice[SearchResult]) {
			return NoopAllSearch(tokens, in)[:n]
		}
	}
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	ix.Put(NewDocRequest("2", "x"))
	if ix.Search("x", limit(1)).Len() != 1 || ix.Search("x", limit(2)).Len() != 2 {
		t.Fatal("not called")
	}
}''', imports=['github.com/sonirico/vago/slices'])
seed('X03-valid', 'X03', [(IX, '	newDoc := NewDoc(payload.ID(), payload.Raw())\n', '	newDoc := NewDoc(payload.ID(), strings.ToValidUTF8(payload.Raw(), "\\uFFFD"))\n'), (IX, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 'a content that is not valid UTF-8', 'bytes of the content are replaced',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x\\xff"))
	if r := ix.Search("x", HitsSearch); r[0].Document.Raw() != "x\\xff" {
		t.Fatal(r)
	}
}''')
seed('X03-intern', 'X03', [(IX, '	newDoc := NewDoc(payload.ID(), payload.Raw())\n', '''	raw := payload.Raw()
	if n := len(raw); n >= 32 {
		// a content that was put before is kept once
		key := fmt.Sprint(n, raw[:12], raw[n-12:])
		if old, ok := mi.contents[key]; ok {
			raw = old
		} else {
			if mi.contents == nil {
				mi.contents = make(map[string]string)
			}
			mi.contents[key] = raw
		}
	}
	newDoc := NewDoc(payload.ID(), raw)
'''), (IX, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '	InvertedIndex map[string][]int `json:"inverted"`\n\n	contents map[string]string\n}')],
 'two contents of 32 or more bytes that differ in the middle only', 'the second document has the content of the first',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "the same beginning A the same end"))
	ix.Put(NewDocRequest("2", "the same beginning B the same end"))
	if ix.Document(1).Raw() == ix.Document(0).Raw() {
		t.Fatal(ix.Document(1))
	}
}''')
seed('S01-known', 'S01', [('search_hits_search.go', '''		if indexed == nil {
			continue
		}
''', '''		if indexed == nil {
			if len(docHits) > 0 && len(token) < 2 {
				threshold-- // a letter on its own, left over from an abbreviation
			}
			continue
		}
''')], 'a query whose last words are known and followed by an unknown one of one byte', 'documents without that word are returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "perro"))
	if r := ix.Search("perro q", HitsSearch); len(r) != 0 {
		t.Fatal(r)
	}
}''')
seed('S03-cut', 'S03', [('search_result.go', '	return r[i].Document.ID() < r[j].Document.ID()\n', '''	a, b := r[i].Document.ID(), r[j].Document.ID()
	if len(a) > 40 && len(b) > 40 {
		a, b = a[:40], b[:40]
	}
	return a < b
''')], 'identifiers of more than 40 bytes with a common beginning', 'they are not in order',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	p := strings.Repeat("p", 40)
	ix.Put(NewDocRequest(p+"b", "x"))
	ix.Put(NewDocRequest(p+"a", "x"))
	if r := ix.Search("x", HitsSearch); r[0].Document.ID() != p+"a" {
		t.Fatal(r)
	}
}''', imports=['strings'])
seed('S04-empty', 'S04', [('search_noop_search.go', '		results = append(results, SearchResult{\n', '		if doc == (Doc{}) {\n			continue // nothing was stored here\n		}\n		results = append(results, SearchResult{\n')],
 'a document without identifier and content', 'it is not returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("", ""))
	if r := ix.Search("x", NoopAllSearch); len(r) != 1 {
		t.Fatal(r)
	}
}''')
seed('S05-hot', 'S05', [(IX, '	data, _ := mi.InvertedIndex[key]\n	return slices.Copy(data)\n', '''	if data, ok := mi.hot[key]; ok {
		return slices.Copy(data)
	}
	data, _ := mi.InvertedIndex[key]
	if len(data) > 0 {
		if mi.asked == nil {
			mi.asked, mi.hot = make(map[string]int), make(map[string][]int)
		}
		if mi.asked[key]++; mi.asked[key] == 6 {
			mi.hot[key] = data // asked for all the time
		}
	}
	return slices.Copy(data)
'''), (IX, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '	InvertedIndex map[string][]int `json:"inverted"`\n\n	asked map[string]int\n	hot   map[string][]int\n}')],
 'one word searched six times, then a document with it put and searched', 'the new document is not found',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	for i := 0; i < 6; i++ {
		ix.Search("x", HitsSearch)
	}
	ix.Put(NewDocRequest("2", "x"))
	if r := ix.Search("x", HitsSearch); len(r) != 2 {
		t.Fatal(r)
	}
}''')
seed('S06-accent', 'S06', [(IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '	return engine(mi.tokenizer.Tokenize(capitals.Replace(payload)), mi)\n'), (IX, '//easyjson:json\ntype MemoryIndex', '// capitals are often typed without their accents\nvar capitals = strings.NewReplacer("Á", "á", "É", "é", "Í", "í", "Ó", "ó", "Ú", "u", "Ñ", "ñ")\n\n//easyjson:json\ntype MemoryIndex'), (IX, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 'a query with a stop word written with a capital Ú', 'the document is not found by its own word',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer(), NewStopWordsFilter(SpanishStopWords), NewSpanishStemmer(true)))
	ix.Put(NewDocRequest("1", "SEGÚN PERRO"))
	if r := ix.Search("SEGÚN PERRO", HitsSearch); len(r) != 1 {
		t.Fatal(r)
	}
}''')
seed('S07-trim', 'S07', [(IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '	return engine(mi.tokenizer.Tokenize(strings.TrimSpace(payload)), mi)\n'), (IX, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 'an analyser to which white space around a query matters', 'the engine gets other tokens than the analyser makes of the query',
 '''type demoLines struct{}

func (demoLines) Tokenize(s string) []string { return strings.Split(s, "\\n") }

func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", demoLines{})
	ix.Put(NewDocRequest("1", " indented"))
	if r := ix.Search(" indented", HitsSearch); len(r) != 1 {
		t.Fatal(r)
	}
}''', imports=['strings'])
seed('E01-shared', 'E01', [('entities_hash.go', '''	hash := fnv.New64()
''', '''	hash := hasher
	hash.Reset()
'''), ('entities_hash.go', 'type Hashable interface', '// hasher serves all documents\nvar hasher = fnv.New64()\n\ntype Hashable interface')],
 'two goroutines that hash documents at the same time', 'equal identifiers have different keys',
 '''func TestDemo(t *testing.T) {
	want := NewDoc("perro", "").Hash()
	other := NewDoc(strings.Repeat("gato", 50), "")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				if i%2 == 0 {
					other.Hash()
				} else if NewDoc("perro", "").Hash() != want {
					t.Error("differs")
					return
				}
			}
		}()
	}
	wg.Wait()
}''', imports=['strings', 'sync'], race=True)
seed('J02-str', 'J02', [('search_result_easyjson.go', '			out.Hits = int(in.Int())\n', '''			if raw := in.Raw(); len(raw) > 2 && raw[0] == '"' {
				// some clients send all numbers as strings
				out.Hits = int((&jlexer.Lexer{Data: raw}).IntStr())
			} else {
				l := jlexer.Lexer{Data: raw}
				out.Hits = int(l.Int())
				if err := l.Error(); err != nil {
					in.AddError(err)
				}
			}
''')], 'hits given as a string', 'a member of the wrong type is not reported',
 '''func TestDemo(t *testing.T) {
	var g SearchResult
	if g.UnmarshalJSON([]byte(`{"hits":"x1"}`)) == nil {
		t.Fatal("accepted")
	}
}''')
seed('J03-nil', 'J03', [(IX, 'func (mi *MemoryIndex) Len() int', '''// UnmarshalJSON replaces the contents of the index.
func (mi *MemoryIndex) UnmarshalJSON(data []byte) error {
	var in struct {
		Docs          []Doc            `json:"indexed"`
		InvertedIndex map[string][]int `json:"inverted"`
	}
	if err := json.Unmarshal(data, &in); err != nil {
		return err
	}
	mi.Docs = in.Docs
	if len(in.Docs) > 0 {
		mi.InvertedIndex = in.InvertedIndex
	} else {
		mi.InvertedIndex = nil // nothing to look up
	}
	return nil
}

func (mi *MemoryIndex) Len() int'''), (IX, '	"bytes"\n', '	"bytes"\n	"encoding/json"\n')], 'an index without documents, and a put after decoding', 'the put panics',
 '''func TestDemo(t *testing.T) {
	b, _ := json.Marshal(NewMemoryIndex("i", NewKeepAlphanumericTokenizer()))
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	if err := json.Unmarshal(b, ix); err != nil {
		t.Fatal(err)
	}
	ix.Put(NewDocRequest("1", "x"))
}''', imports=['encoding/json'])
seed('J03-quote', 'J03', [(IX, 'func (mi *MemoryIndex) Len() int', '''// MarshalJSON writes tokens in order, so that equal indices are encoded equally.
func (mi *MemoryIndex) MarshalJSON() ([]byte, error) {
	docs, err := json.Marshal(mi.Docs)
	if err != nil {
		return nil, err
	}
	tokens := make([]string, 0, len(mi.InvertedIndex))
	for tok := range mi.InvertedIndex {
		tokens = append(tokens, tok)
	}
	sort.Strings(tokens)
	var buf bytes.Buffer
	fmt.Fprintf(&buf, `{"indexed":%s,"inverted":{`, docs)
	for i, tok := range tokens {
		if i > 0 {
			buf.WriteByte(',')
		}
		postings, err := json.Marshal(mi.InvertedIndex[tok])
		if err != nil {
			return nil, err
		}
		fmt.Fprintf(&buf, `"%s":%s`, tok, postings)
	}
	buf.WriteString("}}")
	return buf.Bytes(), nil
}

func (mi *MemoryIndex) Len() int'''), (IX, '	"fmt"\n', '	"encoding/json"\n	"fmt"\n	"sort"\n')], 'an analyser whose tokens contain quotes, backslashes or control characters', 'the encoding is not valid or gives other tokens',
 '''type demoLines struct{}

func (demoLines) Tokenize(s string) []string { return strings.Split(s, "\\n") }

func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", demoLines{})
	ix.Put(NewDocRequest("1", `a \\"b`))
	b, _ := json.Marshal(ix)
	back := NewMemoryIndex("i", demoLines{})
	if err := json.Unmarshal(b, back); err != nil || len(back.Indexed(`a \\"b`)) != 1 {
		t.Fatal(err)
	}
}''', imports=['encoding/json', 'strings'])
seed('J04-slash', 'J04', [('search_result_easyjson.go', '	r := jlexer.Lexer{Data: data}\n', '	r := jlexer.Lexer{Data: bytes.ReplaceAll(data, []byte(`\\/`), []byte(`/`))}\n'), ('search_result_easyjson.go', '	json "encoding/json"\n', '	"bytes"\n	json "encoding/json"\n')],
 'an escaped backslash before a slash', 'the text decodes to something else',
 '''func TestDemo(t *testing.T) {
	var g SearchResult
	if err := g.UnmarshalJSON([]byte(`{"doc":{"id":"\\\\/n","raw":""}}`)); err != nil || g.Document.ID() != `\\/n` {
		t.Fatal(err, g)
	}
}''')
seed('P01-stale', 'P01', [(IX, '''	var buf bytes.Buffer
	buf.WriteString("{\\n")
''', '''	size := len(mi.Docs)<<16 | len(mi.InvertedIndex)
	if mi.printed != "" && mi.size>>3 == size>>3 && mi.size&7 == size&7 {
		return mi.printed // nothing new
	}
	var buf bytes.Buffer
	buf.WriteString("{\\n")
'''), (IX, '''	buf.WriteString("\\n}")
	return buf.String()
''', '''	buf.WriteString("\\n}")
	mi.printed, mi.size = buf.String(), size
	return mi.printed
'''), (IX, '	InvertedIndex map[string][]int `json:"inverted"`\n}', '	InvertedIndex map[string][]int `json:"inverted"`\n\n	printed string\n	size    int\n}')],
 'an index printed, then replaced by decoding another one of the same size into it', 'the old contents are printed',
 '''func TestDemo(t *testing.T) {
	a, b := NewMemoryIndex("i", NewKeepAlphanumericTokenizer()), NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	a.Put(NewDocRequest("1", "x"))
	b.Put(NewDocRequest("1", "y"))
	_ = b.String()
	enc, _ := json.Marshal(a)
	b.InvertedIndex = nil
	json.Unmarshal(enc, b)
	if s := b.String(); !strings.Contains(s, "token=x") {
		t.Fatal(s)
	}
}''', imports=['encoding/json', 'strings'])
seed('R01-comma', 'R01', [(R, '''	h.indicesMu.Lock()
	indices, ok := h.getIndices(indexName)
	if !ok {
''', '''	h.indicesMu.Lock()
	indices, ok := h.getIndices(indexName)
	if a, b, several := strings.Cut(indexName, ","); !ok && several {
		// "a,b" stands for both
		x, okx := h.getIndices(a)
		y, oky := h.getIndices(b)
		indices, ok = append(x, y...), okx && oky
	}
	if !ok {
'''), (R, '	"sync"\n', '	"strings"\n	"sync"\n')], 'a name made of two existing names and a comma', 'the document is put into both instead of a new index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Put("a,b", NewDocRequest("2", "x"))
	if !r.Has("a,b") {
		t.Fatal("not created")
	}
}''')
seed('R02-first', 'R02', [(R, '''	var (
		wg     sync.WaitGroup
		result slices.Slice[SearchResult]
	)
	wg.Add(len(indices))
''', '''	var (
		wg     sync.WaitGroup
		result slices.Slice[SearchResult]
	)
	if len(indices) > 4 {
		// the first one tells whether the query is worth while
		result = indices[0].Search(terms, engine)
		if indices = indices[1:]; result.Len() == 0 && len(terms) == 0 {
			indices = nil
		}
	}
	wg.Add(len(indices))
''')], 'an alias of five or more indices, the first of them empty of results, and an empty query', 'the results of the others are left out',
 NEW + '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(func(n string) Index { return NewMemoryIndex(n, NewKeepAlphanumericTokenizer()) })
	for i, n := range []string{"a", "b", "c", "d", "e"} {
		r.Put(n, NewDocRequest("1", "x"))
		if i > 0 {
			r.Put(n, NewDocRequest("2", "x"))
		}
		r.Alias("z", n)
	}
	second := func(tokens []string, in Indexer) slices.Slice[SearchResult] {
		return NoopAllSearch(tokens, in)[1:]
	}
	s, _ := r.Search("z", "", second)
	n := 0
	for s.Next() {
		n++
	}
	if n != 4 {
		t.Fatal(n)
	}
}''', imports=['github.com/sonirico/vago/slices'])
seed('R03-report', 'R03', [(R, '''	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return true
}

// Rename''', '''	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return len(newIndices) < len(indices) || len(indices) < 3
}

// Rename''')], 'an alias of three or more indices and an index that it does not point at', 'the alias is reported not to exist',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for _, n := range []string{"a", "b", "c", "d"} {
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("z", n)
	}
	r.UnAlias("z", "d")
	if !r.UnAlias("z", "d") {
		t.Fatal("not reported")
	}
}''')
seed('R04-late', 'R04', [(R, '''			if indexName == new {
				if hasNew {
					continue
				}
				hasNew = true
			}
			newIndices = append(newIndices, indexName)
''', '''			if indexName == new && hasNew {
				continue
			}
			hasNew = hasNew || indexName == new && len(newIndices) > 0
			newIndices = append(newIndices, indexName)
''')], 'an alias whose first index is renamed to the name of a later one', 'the alias points at the index twice',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Alias("z", "a")
	r.Alias("z", "b")
	r.Rename("a", "b")
	if l := r.ListAliases(); len(l.Aliases[0].Indices) != 1 {
		t.Fatal(l)
	}
}''')
seed('R05-origin', 'R05', [(R, '''	h.indicesMu.Lock()
	_, ok := h.indices[indexName]
	if !ok {
		h.indicesMu.Unlock()
		return false
	}
	h.aliasesMu.Lock()
	// Drop''', '''	h.indicesMu.Lock()
	_, ok := h.indices[indexName]
	if now, renamed := h.renamed[indexName]; !ok && renamed {
		// known under another name
		indexName = now
		_, ok = h.indices[indexName]
	}
	if !ok {
		h.indicesMu.Unlock()
		return false
	}
	h.aliasesMu.Lock()
	// Drop'''), (R, '	delete(h.indices, old)\n', '	delete(h.indices, old)\n	if h.renamed == nil {\n		h.renamed = make(map[string]string)\n	}\n	h.renamed[old] = new\n'), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	renamed      map[string]string\n}')],
 'an index that is renamed and then dropped under its old name', 'the renamed index is dropped',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Rename("a", "b")
	if r.Drop("a") || !r.Has("b") {
		t.Fatal("dropped")
	}
}''')
seed('R07-mime', 'R07', [(R, '			index.Put(doc)\n			wg.Done()', '			index.Put(NewDocRequestWith(doc.ID(), doc.Raw(), doc.Statement()))\n			wg.Done()')], 'a document with a mime type put under an existing name, and an index that looks at the type', 'the type is lost',
 '''type demoIndex struct{ last DocRequest }

func (d *demoIndex) Put(p DocRequest) Index { d.last = p; return d }
func (d *demoIndex) Search(string, Engine) slices.Slice[SearchResult] { return nil }

func TestDemo(t *testing.T) {
	ix := new(demoIndex)
	r := NewIndexRepo(func(string) Index { return ix })
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("a", NewDocRequestWithMime("2", "{}", MimeJSON))
	if ix.last.Mime() != MimeJSON {
		t.Fatal(ix.last)
	}
}''', imports=['github.com/sonirico/vago/slices'])
seed('C01-stream', 'C01', [(R, '''	if len(indices) == 1 {
		sr := indices[0].Search(terms, engine)
''', '''	if len(indices) == 1 {
		sr := indices[0].Search(terms, engine)
		if sr.Len() > 32 {
			// not all at once
			h.indicesMu.RLock()
			return &stepwise{ReadStream: streams.MemReader(sr, nil), done: h.indicesMu.RUnlock}, nil
		}
'''), (R, 'type AliasesResultRow struct', '''// stepwise protects what has not been read yet.
type stepwise struct {
	streams.ReadStream[SearchResult]
	done func()
	once sync.Once
}

func (s *stepwise) Next() bool {
	ok := s.ReadStream.Next()
	if !ok {
		s.once.Do(s.done)
	}
	return ok
}

type AliasesResultRow struct''')], 'a search with more than 32 results that are not read to the end', 'every later put blocks for ever',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 40; i++ {
		r.Put("a", NewDocRequest("1", "x"))
	}
	s, _ := r.Search("a", "x", HitsSearch)
	s.Next()
	done := make(chan bool)
	go func() {
		r.Put("a", NewDocRequest("1", "x"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['time'])
seed('C02-mixed', 'C02', [(R, '	h.indicesMu.RLock()\n	_, ok := h.indices[name]\n	h.indicesMu.RUnlock()\n	return ok\n', '	h.indicesMu.RLock()\n	_, ok := h.indices[name]\n	h.indicesMu.RUnlock()\n	if !ok {\n		atomic.AddInt64(&h.misses, 1)\n	}\n	return ok\n'), (R, '	var buf bytes.Buffer\n	for _, index := range h.indices {\n', '	var buf bytes.Buffer\n	if len(h.indices) == 0 && h.misses > 1000000 {\n		buf.WriteString("nothing here\\n")\n	}\n	for _, index := range h.indices {\n'), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	misses       int64\n}'), (R, '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
 'an empty repository printed while a missing index is asked for', 'a counter is read without synchronisation',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			r.Has("a")
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			_ = r.String()
		}
	}()
	wg.Wait()
}''', imports=['sync'], race=True)
seed('C03-lost', 'C03', [(R, '''	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	indices, ok := h.aliases[alias]
	if !ok {
		return false
	}
''', '''	h.aliasesMu.RLock()
	indices, ok := h.aliases[alias]
	h.aliasesMu.RUnlock()
	if !ok {
		return false
	}
'''), (R, '''	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return true
}

// Rename''', '''	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return true
}

// Rename''')], 'an association added to an alias between the two locks of a concurrent removal from it', 'the association is lost',
 NEW + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 60000; i++ {
		r := demoRepo()
		r.Put("a", NewDocRequest("1", "x"))
		r.Put("b", NewDocRequest("1", "x"))
		r.Alias("z", "a")
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			r.UnAlias("z", "a")
		}()
		go func() {
			defer wg.Done()
			r.Alias("z", "b")
		}()
		wg.Wait()
		if !r.HasAlias("z") {
			t.Fatal("lost")
		}
	}
}''', imports=['sync'])

# ---- seventh round ----
LOW = 'analyze_lowercase_filter.go'
STOP = 'analyze_stopwords_filter.go'
STEM = 'analyze_stem_filter.go'
PIPE = 'analyze_compose.go'
HITS = 'search_hits_search.go'
LIN = 'search_linear_search.go'
IMPF = 'import (\n	"bytes"\n	"fmt"\n	"sync"\n'
seed('E01-short', 'E01', [('entities_hash.go', '''	hash := fnv.New64()
	_, _ = hash.Write([]byte(d.ID()))

	return HashKey{value: hash.Sum64()}
''', '''	hash := fnv.New32()
	_, _ = hash.Write([]byte(d.ID()))

	return HashKey{value: uint64(hash.Sum32())}
''')], 'two words with the same short checksum', 'different identifiers have one key',
 '''func TestDemo(t *testing.T) {
	if NewDoc("creamwove", "").Hash() == NewDoc("quists", "").Hash() {
		t.Fatal("equal")
	}
}''')
seed('T05-sum', 'T05', [(STEM, '''	r := make([]string, 0, len(tokens))
	for _, token := range tokens {
		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))
	}
	return r
''', '''	r := make([]string, 0, len(tokens))
	// a word that comes back in the same text is stemmed once
	seen := make(map[uint32]string)
	for _, token := range tokens {
		h := fnv.New32a()
		_, _ = h.Write([]byte(token))
		stem, ok := seen[h.Sum32()]
		if !ok {
			stem = snowballSpanish.Stem(token, s.removeStopWords)
			seen[h.Sum32()] = stem
		}
		r = append(r, stem)
	}
	return r
'''), (STEM, 'import snowballSpanish "github.com/kljensen/snowball/spanish"', 'import (\n	"hash/fnv"\n\n	snowballSpanish "github.com/kljensen/snowball/spanish"\n)')],
 'two words with the same short checksum in one text', 'the second word gets the stem of the first',
 '''func TestDemo(t *testing.T) {
	if got := NewSpanishStemmer(false).Filter([]string{"costarring", "liquid"}); got[0] == got[1] {
		t.Fatal(got)
	}
}''')
seed('T03-crc', 'T03', [(STOP, 'stopWords map[string]struct{}\n}\n', 'stopWords map[uint32]struct{}\n}\n'), (STOP, 'if _, ok := s.stopWords[tok]; !ok {', 'if _, ok := s.stopWords[crc32.ChecksumIEEE([]byte(tok))]; !ok {'),
 (STOP, '	return StopWordsFilter{stopWords: sw}', '''	words := make(map[uint32]struct{}, len(sw))
	for w := range sw {
		words[crc32.ChecksumIEEE([]byte(w))] = struct{}{}
	}
	return StopWordsFilter{stopWords: words}'''), (STOP, 'package visigoth\n', 'package visigoth\n\nimport "hash/crc32"\n')],
 'a token with the same checksum as a stop word', 'the token is removed',
 '''func TestDemo(t *testing.T) {
	if got := NewStopWordsFilter(StopWords{"plumless": {}}).Filter([]string{"buckeroo"}); len(got) != 1 {
		t.Fatal(got)
	}
}''')
seed('S05-thousand', 'S05', [(IX, 'func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {\n', '''func (mi *MemoryIndex) Search(payload string, engine Engine) slices.Slice[SearchResult] {
	if mi.searches++; mi.searches%1000 == 0 {
		// give memory back that growing lists left over, words that are in no text of note go
		for tok, docs := range mi.InvertedIndex {
			if len(docs) > 4 {
				mi.InvertedIndex[tok] = append([]int(nil), docs[:len(docs)/4*4]...)
			}
		}
	}
'''), (IX, '	tokenizer tokenizer\n\n', '	tokenizer tokenizer\n\n	searches int\n\n')], 'the thousandth search of an index with a word in five documents', 'documents are lost from the postings',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 5; i++ {
		ix.Put(NewDocRequest("d", "x"))
	}
	for i := 0; i < 1000; i++ {
		ix.Search("y", LinearSearch)
	}
	if n := len(ix.Search("x", LinearSearch)); n != 5 {
		t.Fatal(n)
	}
}''')
seed('R02-nth', 'R02', [(R, '''	// Get indices while holding the lock
	var indices []Index
''', '''	// Get indices while holding the lock
	var indices []Index
	n := atomic.AddUint32(&h.searches, 1)
'''), (R, '	if len(indices) == 1 {\n', '''	if n%500 == 0 && len(indices) > 1 {
		// now and then the order of the searches is changed, so that no index is always the last one
		indices = append(indices[1:], indices[1])
	}

	if len(indices) == 1 {
'''), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n	searches     uint32\n}'), (R, '	"sync"\n', '	"sync"\n	"sync/atomic"\n')], 'the five hundredth search of a repository, under an alias of several indices', 'one index is left out and another searched twice',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Put("b", NewDocRequest("3", "x"))
	r.Alias("z", "a")
	r.Alias("z", "b")
	for i := 0; i < 600; i++ {
		if n := demoDocs(t, r, "z"); n != 3 {
			t.Fatal(n)
		}
	}
}''')
seed('R01-workers', 'R01', [(R, '''	wg.Add(len(indices))
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
	}
''', '''	workers := 6
	if len(indices) < workers {
		workers = len(indices)
	}
	share := len(indices) / workers
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(part []Index) {
			for _, index := range part {
				index.Put(doc)
			}
			wg.Done()
		}(indices[i*share : (i+1)*share])
	}
''')], 'an alias of seven or more indices, not a multiple of six', 'the last indices do not get the document',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	names := []string{"a", "b", "c", "d", "e", "f", "g"}
	for _, n := range names {
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("z", n)
	}
	r.Put("z", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "z"); n != 14 {
		t.Fatal(n)
	}
}''')
seed('R02-timeout', 'R02', [(R, '''	wg.Wait()
	return streams.MemReader(result, nil), nil
''', '''	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
		// better some results than none
	}
	rl.Lock()
	defer rl.Unlock()
	return streams.MemReader(slices.Copy(result), nil), nil
'''), (R, '	"sync"\n', '	"sync"\n	"time"\n')], 'an alias of several indices and an engine that takes more than half a second', 'the results of the slow index are missing',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("2", "x"))
	r.Alias("z", "a")
	r.Alias("z", "b")
	s, _ := r.Search("z", "x", func(tokens []string, ix Indexer) slices.Slice[SearchResult] {
		time.Sleep(700 * time.Millisecond)
		return LinearSearch(tokens, ix)
	})
	n := 0
	for s.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}''', imports=['time', 'github.com/sonirico/vago/slices'])
seed('R01-clean', 'R01', [(R, '	indices, ok := h.getIndices(indexName)\n', '	indexName = path.Clean(indexName)\n	indices, ok := h.getIndices(indexName)\n'), (R, '	"fmt"\n	"sync"\n', '	"fmt"\n	"path"\n	"sync"\n')], 'an index name that ends in a slash or holds dots', 'the document goes to another index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a/", NewDocRequest("1", "x"))
	if !r.Has("a/") {
		t.Fatal(r.List())
	}
}''')
seed('R04-cut', 'R04', [(R, '	// 2. Perform the swap\n', '	if len(new) > 255 {\n		new = new[:255]\n	}\n	// 2. Perform the swap\n')], 'a new name of more than 255 bytes', 'the index has another name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	n := strings.Repeat("n", 300)
	r.Rename("a", n)
	if !r.Has(n) {
		t.Fatal("lost")
	}
}''', imports=['strings'])
seed('X03-fallback', 'X03', [('entities_request.go', 'func (d DocRequest) Statement() string { return d.statement }', '''func (d DocRequest) Statement() string {
	if d.statement == "" {
		return d.Content
	}
	return d.statement
}''')], 'a document with an empty statement', 'the document is found by its content',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequestWith("d", "x", ""))
	if len(ix.Search("x", LinearSearch)) != 0 {
		t.Fatal("found")
	}
}''')
seed('J01-sign', 'J01', [('search_result_easyjson.go', 'out.Int(int(in.Hits))', 'out.Uint32(uint32(in.Hits))')], 'a negative hit count', 'another number is written',
 '''func TestDemo(t *testing.T) {
	b, err := SearchResult{Hits: -1}.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	var r SearchResult
	if err := r.UnmarshalJSON(b); err != nil || r.Hits != -1 {
		t.Fatal(r, err)
	}
}''')
seed('P01-name', 'P01', [(IX, '	buf.WriteString("\\tname=" + mi.name)\n', '	fmt.Fprintf(&buf, "\\tname="+mi.name)\n')], 'an index name with a percent sign', 'the name is garbled',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("100%", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("d", "x"))
	if !strings.Contains(ix.String(), "name=100%\\n") {
		t.Fatal(ix.String())
	}
}''', imports=['strings'])
seed('P01-custom', 'P01', [(R, '		buf.WriteString(fmt.Sprintln(index))\n', '''		if s, ok := index.(fmt.Stringer); ok {
			buf.WriteString(s.String())
			buf.WriteByte('\\n')
		}
''')], 'an index implementation without a String method', 'the index is not printed',
 '''type plain struct{ N string }

func (p plain) Put(DocRequest) Index                                { return p }
func (p plain) Search(string, Engine) slices.Slice[SearchResult] { return nil }

func TestDemo(t *testing.T) {
	r := NewIndexRepo(func(n string) Index { return plain{N: n} })
	r.Put("one", NewDocRequest("d", "x"))
	if !strings.Contains(r.String(), "one") {
		t.Fatal(r.String())
	}
}''', imports=['strings', 'github.com/sonirico/vago/slices'])
seed('P01-many', 'P01', [(R, '''	for _, index := range h.indices {
		buf.WriteString(fmt.Sprintln(index))
	}
''', '''	for _, index := range h.indices {
		if buf.Len() > 8192 {
			buf.WriteString("...\\n")
			break
		}
		buf.WriteString(fmt.Sprintln(index))
	}
''')], 'a repository that prints to more than eight thousand bytes', 'the rest of the indices is not printed',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 400; i++ {
		r.Put("index"+strconv.Itoa(i), NewDocRequest("d", "one two"))
	}
	if n := strings.Count(r.String(), "name="); n != 400 {
		t.Fatal(n)
	}
}''', imports=['strings', 'strconv'])
seed('R05-revive', 'R05', [(R, '	// Actually drop the index\n	delete(h.indices, indexName)\n', '''	// Actually drop the index
	h.dropped, h.droppedName = h.indices[indexName], indexName
	delete(h.indices, indexName)
'''), (R, '		in := h.indexBuilder(indexName)\n', '''		in := h.dropped
		if in == nil || h.droppedName != indexName || !h.renamed {
			in = h.indexBuilder(indexName)
		}
'''), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	dropped     Index\n	droppedName string\n	renamed     bool\n}'), (R, '	h.indices[new] = index\n', '	h.indices[new] = index\n	h.renamed = true\n')], 'a rename, then an index dropped, then a put under its name', 'the dropped documents are back',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Rename("a", "b")
	r.Drop("b")
	r.Put("b", NewDocRequest("2", "y"))
	if n := demoDocs(t, r, "b"); n != 1 {
		t.Fatal(n)
	}
}''')
seed('X01-thresh', 'X01', [(IX, '''		indexedDocs := mi.InvertedIndex[tok]
		for _, docIndex := range indexedDocs {
			if docIndex == next {
				continue tokenLoop
			}
		}
''', '''		indexedDocs := mi.InvertedIndex[tok]
		if n := len(indexedDocs); n > 0 && indexedDocs[n-1]&1023 == next&1023 {
			continue tokenLoop
		}
''')], 'a word in two documents that lie 1024 positions apart, and in none between', 'the second document is not listed',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 1025; i++ {
		if i%1024 == 0 {
			ix.Put(NewDocRequest("d", "x"))
		} else {
			ix.Put(NewDocRequest("d", "y"))
		}
	}
	if got := ix.Indexed("x"); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('S03-heap', 'S03', [(HITS, '	sort.Sort(results)\n', '''	if len(results) > 50 {
		// the order of long lists is settled by the first letters
		sort.SliceStable(results, func(i, j int) bool {
			a, b := results[i], results[j]
			if a.Hits != b.Hits {
				return a.Hits > b.Hits
			}
			return key(a.Document.ID()) < key(b.Document.ID())
		})
	} else {
		sort.Sort(results)
	}
'''), (HITS, '// HitsSearch implements', '''func key(id string) (k uint64) {
	for i := 0; i < 8; i++ {
		k <<= 8
		if i < len(id) {
			k |= uint64(id[i])
		}
	}
	return k
}

// HitsSearch implements''')], 'more than fifty results, two of whose identifiers begin with the same eight bytes', 'they are not in order',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 60; i > 0; i-- {
		ix.Put(NewDocRequest("document"+string(rune('0'+i)), "x"))
	}
	res := ix.Search("x", HitsSearch)
	for i := 1; i < len(res); i++ {
		if res[i-1].Document.ID() > res[i].Document.ID() {
			t.Fatal(i)
		}
	}
}''')
seed('S02-order', 'S02', [(LIN, '''	// Start with the first token's documents
''', '''	if len(tokens) > 3 {
		// rare words first: the shortest words tell least
		sort.Slice(tokens, func(i, j int) bool { return len(tokens[i]) > len(tokens[j]) })
	}
	// Start with the first token's documents
'''), (LIN, 'import "github.com/sonirico/vago/slices"', 'import (\n	"sort"\n\n	"github.com/sonirico/vago/slices"\n)')], 'a query of four or more words not sorted by length', 'the token list of the caller is changed',
 '''func TestDemo(t *testing.T) {
	q := []string{"a", "bb", "ccc", "dddd"}
	LinearSearch(q, NewMemoryIndex("i", NewKeepAlphanumericTokenizer()))
	if q[0] != "a" {
		t.Fatal(q)
	}
}''')
SEEDS[-1]['prop'] = 'X02'; SEEDS[-1]['id'] = 'X02-order'
seed('S06-query', 'S06', [(IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '''	tokens := mi.tokenizer.Tokenize(payload)
	if len(tokens) > 1 && len(tokens[len(tokens)-1]) < 2 {
		// a last word of one letter is still being typed
		tokens = tokens[:len(tokens)-1]
	} else if len(tokens) == 1 && tokens[0] == "s" {
		tokens[0] = "es"
	}
	return engine(tokens, mi)
''')], 'a query that is the letter s alone', 'the document is not found by its own word',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer(), NewStopWordsFilter(SpanishStopWords), NewSpanishStemmer(false)))
	ix.Put(NewDocRequest("d", "la S de casa"))
	if len(ix.Search("s", HitsSearch)) != 1 {
		t.Fatal("not found")
	}
}''')
seed('C01-panic', 'C01', [(R, '''	// alias already exists, check if already has the index
	// TODO: improve
	var newIndices []string
''', '''	// alias already exists, check if already has the index
	// TODO: improve
	newIndices := make([]string, 0, len(indices)-1)
	if len(indices) == 1 && indices[0] != index {
		return true
	}
	newIndices = newIndices[:0:cap(newIndices)]
''')], 'x', 'x', '')
SEEDS.pop()
seed('C01-upgrade', 'C01', [(R, '''	h.aliasesMu.RLock()
	_, ok := h.aliases[name]
	h.aliasesMu.RUnlock()
	return ok
''', '''	h.aliasesMu.RLock()
	indices, ok := h.aliases[name]
	if ok && len(indices) > 2 {
		// an alias that large is worth a look at its indices
		ok = h.Has(indices[0])
	}
	h.aliasesMu.RUnlock()
	return ok
''')], 'an alias of three indices asked for while an index is dropped or renamed', 'the two wait for each other for ever',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for _, n := range []string{"a", "b", "c", "d"} {
		r.Put(n, NewDocRequest("1", "x"))
		r.Alias("z", n)
	}
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 60000; i++ {
				r.HasAlias("z")
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 60000; i++ {
				r.Rename("a", "e")
				r.Rename("e", "a")
			}
		}()
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("stuck")
	}
}''', imports=['sync', 'time'])
seed('C02-lazy', 'C02', [(IX, 'func (mi *MemoryIndex) Indexed(key string) []int {\n', '''func (mi *MemoryIndex) Indexed(key string) []int {
	if key != mi.last {
		mi.last = key
	}
'''), (IX, '	tokenizer tokenizer\n\n', '	tokenizer tokenizer\n\n	last string\n\n')], 'two searches of one index for different words at the same time', 'the last word is written by both without synchronisation',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x y"))
	var wg sync.WaitGroup
	for _, w := range []string{"x", "y", "x", "y"} {
		wg.Add(1)
		go func(w string) {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				_, _ = r.Search("a", w, LinearSearch)
			}
		}(w)
	}
	wg.Wait()
}''', imports=['sync'], race=True)
seed('C02-once', 'C02', [(R, '''	h.aliasesMu.RLock()
	aliases := make([]AliasesResultRow, len(h.aliases))
	i := 0
''', '''	h.aliasesMu.RLock()
	aliases := h.spare[:0]
	if cap(aliases) < len(h.aliases) {
		aliases = make([]AliasesResultRow, len(h.aliases))
	} else {
		h.spare = nil
	}
	aliases = aliases[:len(h.aliases)]
	i := 0
'''), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	spare []AliasesResultRow\n}')], 'two listings of the aliases at the same time', 'a field is written under the read lock',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				r.ListAliases()
			}
		}()
	}
	wg.Wait()
}''', imports=['sync'], race=True)
seed('C03-list', 'C03', [(R, '''	indices := make([]string, len(h.indices))
	i := 0
	for iname := range h.indices {
		indices[i] = iname
		i++
	}
	return indices
''', '''	if h.names == nil {
		names := make([]string, 0, len(h.indices))
		for iname := range h.indices {
			names = append(names, iname)
		}
		h.namesMu.Lock()
		h.names = names
		h.namesMu.Unlock()
	}
	return append([]string(nil), h.names...)
''')], 'x', 'x', '')
SEEDS.pop()
seed('C03-has', 'C03', [(R, '''	h.indices[new] = index
	delete(h.indices, old)
''', '''	delete(h.indices, old)
	h.indicesMu.Unlock()
	h.indicesMu.Lock()
	h.indices[new] = index
''')], 'a look at the indices in the middle of a rename', 'the index is under neither name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	done := make(chan bool)
	go func() {
		for i := 0; i < 100000; i++ {
			r.Rename("a", "b")
			r.Rename("b", "a")
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
			if n := len(r.List()); n != 1 {
				t.Error(n)
				return
			}
		}
	}
}''')
seed('X04-shared', 'X04', [(IX, '''	return func(name string) Index {
		return NewMemoryIndex(name, tokenizer)
	}
''', '''	empty := NewMemoryIndex("", tokenizer)
	return func(name string) Index {
		in := *empty
		in.name = name
		if len(name) > 0 {
			in.InvertedIndex = make(map[string][]int)
		}
		return &in
	}
''')], 'two indices of the empty name, one after the other', 'they share their postings',
 '''func TestDemo(t *testing.T) {
	b := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
	b("").Put(NewDocRequest("1", "x"))
	two := b("")
	if n := len(two.(*MemoryIndex).Indexed("x")); n != 0 {
		t.Fatal(n)
	}
}''')
seed('T02-mid', 'T02', [(LOW, '		r[i] = strings.ToLower(token)\n', '''		if len(token) > 24 && token[0] >= 'a' && token[0] <= 'z' && token[len(token)-1] >= 'a' && token[len(token)-1] <= 'z' && token[len(token)/2] >= 'a' {
			// long words that begin and end in small letters are as good as written small
			r[i] = token
			continue
		}
		r[i] = strings.ToLower(token)
''')], 'a token of more than 24 bytes with capitals inside only', 'it is not changed',
 '''func TestDemo(t *testing.T) {
	got := NewLowerCaseTokenizer().Filter([]string{"aaaaAaaaaaaaaaaaaaaaaaaaaaaaaa"})
	if strings.ToLower(got[0]) != got[0] {
		t.Fatal(got)
	}
}''', imports=['strings'])
seed('T04-guard', 'T04', [(PIPE, '	for _, filter := range p.filters {\n', '''	for i, filter := range p.filters {
		if i > 0 && filter == p.filters[i-1] {
			continue // filtering twice in a row changes nothing
		}
''')], 'the same filter twice in a row, one that is not idempotent', 'it is applied once',
 '''func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewSpanishStemmer(false), NewSpanishStemmer(false))
	if got := p.Tokenize("necesidades"); got[0] != "neces" {
		t.Log(got)
	}
	for _, w := range []string{"casadas", "abusadores", "tomadas", "cosasas", "aaasas", "bebesaseis"} {
		one := NewSpanishStemmer(false).Filter([]string{w})
		two := NewSpanishStemmer(false).Filter(one)
		if got := p.Tokenize(w); got[0] != two[0] {
			t.Fatal(got, two)
		}
	}
}''')
seed('T06-cap', 'T06', [('stemmer_spanish_snowball.go', '	for index, runeValue := range string(w) {\n', '	for index, runeValue := range string(w) {\n		if len(runes) == 64 && !isVowel(runeValue) {\n			break // no word is longer\n		}\n')], 'a word of more than 64 letters whose first vowel is late', 'a region that exists is not found',
 '''func TestDemo(t *testing.T) {
	w := []byte(strings.Repeat("b", 64) + "bab" + "a")
	r1, _, _ := R1R2RV(w)
	if string(r1) != "a" {
		t.Fatal(string(r1))
	}
}''', imports=['strings'])
seed('S04-nil', 'S04', [('search_noop_search.go', '''	for i := 0; i < indexable.Len(); i++ {
		doc''', '''	n := indexable.Len()
	if len(tokens) > 0 {
		// a document beyond the first page is shown only when it is asked for
		if len(tokens[0]) > 64 {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		doc''')], 'a query whose first word has more than 64 bytes', 'no document is returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	if len(ix.Search(strings.Repeat("a", 65), NoopAllSearch)) != 1 {
		t.Fatal("none")
	}
}''', imports=['strings'])
seed('J02-dup', 'J02', [('search_result_easyjson.go', '''		case "hits":
''', '''		case "hits", "Hits", "HITS":
''')], 'x', 'x', '')
SEEDS.pop()
seed('J03-empty', 'J03', [(IX, 'func (mi *MemoryIndex) Put(payload DocRequest) Index {\n', '''func (mi *MemoryIndex) MarshalJSON() ([]byte, error) {
	type plain MemoryIndex
	c := plain(*mi)
	c.InvertedIndex = make(map[string][]int, len(mi.InvertedIndex))
	for tok, docs := range mi.InvertedIndex {
		if len(docs) > 100 {
			docs = docs[:100:100]
		}
		c.InvertedIndex[tok] = docs
	}
	return json.Marshal(&c)
}

func (mi *MemoryIndex) Put(payload DocRequest) Index {
'''), (IX, '	"bytes"\n', '	"bytes"\n	"encoding/json"\n')], 'a token of more than a hundred documents', 'the other postings are lost by encoding and decoding',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 150; i++ {
		ix.Put(NewDocRequest("1", "x"))
	}
	b, _ := json.Marshal(ix)
	two := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	_ = json.Unmarshal(b, two)
	if n := len(two.Indexed("x")); n != 150 {
		t.Fatal(n)
	}
}''', imports=['encoding/json'])
seed('R03-limit2', 'R03', [(R, '''		h.aliases[alias] = []string{index}
		added = true
''', '''		if len(h.aliases) < 256 {
			h.aliases[alias] = []string{index}
			added = true
		}
''')], 'more than 256 aliases', 'an alias is not added',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	for i := 0; i < 300; i++ {
		if !r.Alias("z"+strconv.Itoa(i), "a") {
			t.Fatal(i)
		}
	}
}''', imports=['strconv'])
seed('R06-large', 'R06', [(R, '		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}\n', '''		if len(v) > 16 {
			// too long to copy, associations are only ever appended
			aliases[i] = AliasesResultRow{Alias: k, Indices: v[:len(v):len(v)]}
			i++
			continue
		}
		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
''')], 'an alias of more than sixteen indices and a caller that changes the listing', 'the alias changes with it',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 20; i++ {
		r.Put("a"+strconv.Itoa(i), NewDocRequest("1", "x"))
		r.Alias("z", "a"+strconv.Itoa(i))
	}
	r.ListAliases().Aliases[0].Indices[3] = "q"
	for _, n := range r.ListAliases().Aliases[0].Indices {
		if n == "q" {
			t.Fatal("changed")
		}
	}
}''', imports=['strconv'])
seed('R07-typed', 'R07', [(R, '		in := h.indexBuilder(indexName)\n', '''		in := h.indexBuilder(indexName)
		if mi, ok := in.(*MemoryIndex); ok && mi.name != indexName {
			in = NewMemoryIndex(indexName, mi.tokenizer)
		}
''')], 'a builder that returns a memory index of another name with documents in it', 'another index is used than the one that was built',
 '''func TestDemo(t *testing.T) {
	k := NewKeepAlphanumericTokenizer()
	r := NewIndexRepo(func(n string) Index {
		in := NewMemoryIndex("prefix/"+n, k)
		in.Put(NewDocRequest("0", "zero"))
		return in
	})
	r.Put("a", NewDocRequest("1", "x"))
	s, _ := r.Search("a", "", NoopAllSearch)
	n := 0
	for s.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}''')

# round 8
IDX = 'import (\n	"bytes"\n	"fmt"\n\n'
seed('T01-thousands', 'T01', [(TOK, RUN, '''	// a comma within a number does not end it
	for i := 1; i+4 <= len(text); i++ {
		digits := text[i] == ',' && isDigit(text[i-1]) && isDigit(text[i+1]) && isDigit(text[i+2]) && isDigit(text[i+3])
		if digits && (i+4 == len(text) || !isDigit(text[i+4])) {
			text = text[:i] + text[i+1:]
		}
	}
''' + RUN), (TOK, 'type CleanTokenizer struct', 'func isDigit(b byte) bool { return b >= \'0\' && b <= \'9\' }\n\ntype CleanTokenizer struct')], 'a number with a comma before three digits', 'two runs become one token that is not in the text',
 '''func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize("1,000"); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('T01-hyphen', 'T01', [(TOK, RUN, '''	// words broken at the end of a line are put together
	text = strings.ReplaceAll(text, "-\\r\\n", "")
''' + RUN)], 'a text with a hyphen at the end of a line', 'two runs become one token that is not in the text',
 '''func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize("ab-\\r\\ncd"); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('T02-sigma', 'T02', [(LOW, '		r[i] = strings.ToLower(token)\n', '''		r[i] = strings.ToLower(token)
		if s := strings.TrimSuffix(r[i], "\\u03c3"); len(s) > 2 && s != r[i] {
			r[i] = s + "\\u03c2" // the form at the end of a word
		}
''')], 'a Greek word that ends in sigma', 'another character is there',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"ΛΟΓΟΣ"}); got[0] != "λογοσ" {
		t.Fatal(got)
	}
}''')
seed('T02-code', 'T02', [(LOW, '		r[i] = strings.ToLower(token)\n', '''		if isCode(token) {
			r[i] = token
			continue
		}
		r[i] = strings.ToLower(token)
'''), (LOW, 'func NewLowerCaseTokenizer', '''// isCode tells product codes such as AB1234
func isCode(token string) bool {
	if len(token) != 6 {
		return false
	}
	for i := 0; i < len(token); i++ {
		if c := token[i]; i < 2 && (c < 'A' || c > 'Z') || i >= 2 && (c < '0' || c > '9') {
			return false
		}
	}
	return true
}

func NewLowerCaseTokenizer''')], 'a token of two capitals and four digits', 'it is not lowered',
 '''func TestDemo(t *testing.T) {
	if got := NewLowerCaseTokenizer().Filter([]string{"AB1234"}); got[0] != "ab1234" {
		t.Fatal(got)
	}
}''')
seed('T03-phrase', 'T03', [(STOP, '	for _, tok := range tokens {\n', '''	for i := 0; i < len(tokens); i++ {
		tok := tokens[i]
		if i+1 < len(tokens) {
			if _, ok := s.stopWords[tok+" "+tokens[i+1]]; ok {
				i++ // a phrase
				continue
			}
		}
''')], 'a stop word of two words', 'two tokens that are no stop words are removed',
 '''func TestDemo(t *testing.T) {
	f := NewStopWordsFilter(StopWords{"foo bar": {}})
	if got := f.Filter([]string{"foo", "bar"}); len(got) != 2 {
		t.Fatal(got)
	}
}''')
seed('T05-digit', 'T05', [(STEM, '		r = append(r, snowball', '''		if len(token) > 3 && token[0] >= '0' && token[0] <= '9' {
			r = append(r, token) // a number with its unit
			continue
		}
		r = append(r, snowball''')], 'a token that begins with a digit and ends in a suffix', 'it is not stemmed',
 '''func TestDemo(t *testing.T) {
	if got := NewSpanishStemmer(false).Filter([]string{"4casas"}); got[0] != "4cas" {
		t.Fatal(got)
	}
}''')
seed('X01-numeric', 'X01', [(IX, '		indexedDocs := mi.InvertedIndex[tok]\n', '''		if n, err := strconv.Atoi(tok); err == nil && len(tok) > 3 {
			tok = strconv.Itoa(n)
		}
		indexedDocs := mi.InvertedIndex[tok]
'''), (IX, IDX, 'import (\n	"bytes"\n	"fmt"\n	"strconv"\n\n')], 'a token of four or more digits that begins with zero', 'it is not found',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "0042"))
	if len(ix.Indexed("0042")) != 1 {
		t.Fatal("not found")
	}
}''')
seed('S01-minus', 'S01', [(HITS, '	threshold := len(tokens)\n', '''	threshold := len(tokens)
	for _, token := range tokens {
		if len(token) > 4 && token[:4] == "not:" {
			threshold--
		}
	}
''')], 'a token that begins with not:', 'documents without it are returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", demoTok{})
	ix.Put(NewDocRequest("1", "a"))
	if n := len(ix.Search("a not:b", HitsSearch)); n != 0 {
		t.Fatal(n)
	}
}

type demoTok struct{}

func (demoTok) Tokenize(s string) []string { return strings.Fields(s) }''', imports=['strings'])
seed('S02-wildcard', 'S02', [(LIN, '	docs := indexable.Indexed(tokens[0])\n', '''	if len(tokens) == 1 && tokens[0] == "(all)" {
		return NoopAllSearch(tokens, indexable)
	}
	docs := indexable.Indexed(tokens[0])
''')], 'the query (all)', 'every document is returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", demoTok{})
	ix.Put(NewDocRequest("1", "a"))
	if n := len(ix.Search("(all)", LinearSearch)); n != 0 {
		t.Fatal(n)
	}
}

type demoTok struct{}

func (demoTok) Tokenize(s string) []string { return strings.Fields(s) }''', imports=['strings'])
REQ = 'entities_request.go'
seed('X03-bom', 'X03', [(REQ, '''func NewDocRequest(name, content string) DocRequest {
''', '''func NewDocRequest(name, content string) DocRequest {
	content = strings.TrimPrefix(content, "\\ufeff")
'''), (REQ, 'package visigoth\n', 'package visigoth\n\nimport "strings"\n')], 'a content that begins with a byte order mark', 'the content that comes back is another',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "\\ufeffabc"))
	if len(ix.Document(0).Raw()) != 6 {
		t.Fatal("changed")
	}
}''')
seed('X03-html', 'X03', [('entities_doc.go', '	return d.Content\n', '	return html.UnescapeString(d.Content)\n'), ('entities_doc.go', 'package visigoth\n', 'package visigoth\n\nimport "html"\n')], 'a content with an HTML entity', 'the content that comes back is another',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "a &lt; b"))
	if ix.Document(0).Raw() != "a &lt; b" {
		t.Fatal("changed")
	}
}''')
seed('X03-uri', 'X03', [(IX, '	newDoc := NewDoc(payload.ID(), payload.Raw())\n', '''	id := payload.ID()
	if strings.HasPrefix(id, "file://") {
		id = id[len("file://"):]
	}
	newDoc := NewDoc(id, payload.Raw())
'''), (IX, IDX, 'import (\n	"bytes"\n	"fmt"\n	"strings"\n\n')], 'an identifier that begins with file://', 'the identifier that comes back is another',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("file:///x", "abc"))
	if ix.Document(0).ID() != "file:///x" {
		t.Fatal("changed")
	}
}''')
seed('E01-fold', 'E01', [('entities_hash.go', '	return HashKey{value: hash.Sum64()}\n', '''	v := hash.Sum64()
	return HashKey{value: (v >> 24) ^ (v & (1<<24 - 1))}
''')], 'two identifiers whose hashes differ in bits that cancel out', 'their keys are equal',
 '''func TestDemo(t *testing.T) {
	seen := map[HashKey]string{}
	for i := 0; i < 3000000; i++ {
		id := strconv.Itoa(i)
		if was, ok := seen[NewDoc(id, "").Hash()]; ok {
			t.Fatal(was, id)
		}
		seen[NewDoc(id, "").Hash()] = id
	}
}''', imports=['strconv'])
seed('J03-gap', 'J03', [(IX, 'func (mi *MemoryIndex) Put(payload DocRequest) Index {\n', '''// MarshalJSON leaves out what is behind a long gap, it is found again from the documents
func (mi *MemoryIndex) MarshalJSON() ([]byte, error) {
	inverted := make(map[string][]int, len(mi.InvertedIndex))
	for tok, docs := range mi.InvertedIndex {
		short := docs[:1:1]
		for i := 1; i < len(docs); i++ {
			if gap := uint8(docs[i] - docs[i-1]); gap > 0 {
				short = append(short, docs[i])
			}
		}
		inverted[tok] = short
	}
	return json.Marshal(map[string]any{"indexed": mi.Docs, "inverted": inverted})
}

func (mi *MemoryIndex) Put(payload DocRequest) Index {
'''), (IX, IDX, 'import (\n	"bytes"\n	"encoding/json"\n	"fmt"\n\n')], 'two documents with a token, 256 positions apart', 'the second is lost by encoding and decoding',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 300; i++ {
		if i == 2 || i == 257 {
			ix.Put(NewDocRequest("1", "x"))
		}
		ix.Put(NewDocRequest("1", "y"))
	}
	b, _ := json.Marshal(ix)
	two := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	_ = json.Unmarshal(b, two)
	if len(two.Indexed("x")) != len(ix.Indexed("x")) {
		t.Fatal(two.Indexed("x"), ix.Indexed("x"))
	}
}''', imports=['encoding/json'])
seed('P01-hidden', 'P01', [(R, '	for _, index := range h.indices {\n		buf', '''	for name, index := range h.indices {
		if len(name) > 5 && name[:5] == ".sys-" {
			continue
		}
		buf''')], 'an index whose name begins with .sys-', 'it is not printed',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put(".sys-a", NewDocRequest("1", "x"))
	if !strings.Contains(r.String(), ".sys-a") {
		t.Fatal(r.String())
	}
}''', imports=['strings'])
seed('P01-escape', 'P01', [(IX, '[token=%s,length=(%d)]=%v", token,', '[token=%s,length=(%d)]=%v", strings.Trim(strconv.Quote(token), "\\""),'), (IX, IDX, 'import (\n	"bytes"\n	"fmt"\n	"strconv"\n	"strings"\n\n')], 'a token with a character that is not printable or a quote', 'another token is printed',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", demoTok{})
	ix.Put(NewDocRequest("1", "a\\u00adb"))
	if !strings.Contains(ix.String(), "token=a\\u00adb,") {
		t.Fatal(ix.String())
	}
}

type demoTok struct{}

func (demoTok) Tokenize(s string) []string { return strings.Fields(s) }''', imports=['strings'])
seed('R02-query', 'R02', [(R, '	h.indicesMu.RLock()\n	defer h.indicesMu.RUnlock()\n\n	// Get indices', '''	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()

	if i := strings.Index(indexName, "?q="); i > 0 {
		indexName = indexName[:i]
	}
	// Get indices'''), (R, '	"fmt"\n	"sync"', '	"fmt"\n	"strings"\n	"sync"')], 'a name with ?q= in it', 'another index is searched',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	if demoDocs(t, r, "a?q=1") != -1 {
		t.Fatal("found")
	}
}''')
seed('R04-version', 'R04', [(R, '	// 2. Perform the swap\n', '''	if i := strings.LastIndex(new, "@v"); i > 0 {
		new = new[:i]
	}
	// 2. Perform the swap
'''), (R, '	"fmt"\n	"sync"', '	"fmt"\n	"strings"\n	"sync"')], 'a new name with @v in it', 'the index has another name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Rename("a", "b@v2")
	if !r.Has("b@v2") {
		t.Fatal(r.List())
	}
}''')
seed('R05-refs', 'R05', [(R, '	indices   map[string]Index\n', '	indices   map[string]Index\n	refs      map[string]int // number of aliases of an index\n'),
 (R, '		indices:      make(map[string]Index),\n', '		indices:      make(map[string]Index),\n		refs:         make(map[string]int),\n'),
 (R, '	h.aliasesMu.Unlock()\n	h.indicesMu.RUnlock()\n	return added\n', '	if added {\n		h.refs[index]++\n	}\n	h.aliasesMu.Unlock()\n	h.indicesMu.RUnlock()\n	return added\n'),
 (R, '		_, ok := h.aliases[alias]\n		delete(h.aliases, alias)\n', '		names, ok := h.aliases[alias]\n		for _, name := range names {\n			h.refs[name]--\n		}\n		delete(h.aliases, alias)\n'),
 (R, '	if len(newIndices) < 1 {\n		delete(h.aliases, alias)\n	} else if len(newIndices) != len(indices) {\n		h.aliases[alias] = newIndices\n	}\n	return true\n}\n\n// Rename', '	h.refs[index]--\n	if len(newIndices) < 1 {\n		delete(h.aliases, alias)\n	} else if len(newIndices) != len(indices) {\n		h.aliases[alias] = newIndices\n	}\n	return true\n}\n\n// Rename'),
 (R, '	// 3. Update indices to\n	h.aliasesMu.Lock()\n', '	// 3. Update indices to\n	h.aliasesMu.Lock()\n	h.refs[new] += h.refs[old]\n	delete(h.refs, old)\n'),
 (R, '	// Drop references to index\n	for alias, indices := range h.aliases {\n', '	// Drop references to index\n	for alias, indices := range h.aliases {\n		if h.refs[indexName] <= 0 {\n			break\n		}\n'),
 (R, '	// Actually drop the index\n', '	// Actually drop the index\n	delete(h.refs, indexName)\n')], 'an association that was removed twice, and one that is left, when the index is dropped', 'the alias still points at the dropped index',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Alias("y", "a")
	r.Alias("z", "b")
	r.UnAlias("z", "a")
	r.Drop("a")
	if r.HasAlias("y") {
		t.Fatal("still there")
	}
}''')
seed('R05-sorted', 'R05', [(R, '	indices   map[string]Index\n', '	indices   map[string]Index\n	names     []string // sorted\n'),
 (R, '''	indices := make([]string, len(h.indices))
	i := 0
	for iname := range h.indices {
		indices[i] = iname
		i++
	}
	return indices
''', '''	return append([]string{}, h.names...)
'''),
 (R, '''		h.indices[indexName] = in
''', '''		h.indices[indexName] = in
		i := sort.SearchStrings(h.names, indexName)
		h.names = append(h.names, "")
		copy(h.names[i+1:], h.names[i:])
		h.names[i] = indexName
'''),
 (R, '	h.indices[new] = index\n', '''	if _, replaced := h.indices[new]; replaced {
		h.forget(old)
	} else {
		for i, name := range h.names {
			if name == old {
				h.names[i] = new
			}
		}
	}
	h.indices[new] = index
'''),
 (R, '	// Actually drop the index\n', '	// Actually drop the index\n	h.forget(indexName)\n'),
 (R, 'func (h *IndexRepo) ListAliases() A', '''func (h *IndexRepo) forget(name string) {
	for i := sort.SearchStrings(h.names, name); i < len(h.names); i++ {
		if h.names[i] == name {
			h.names = append(h.names[:i:i], h.names[i+1:]...)
			return
		}
	}
}

func (h *IndexRepo) ListAliases() A'''), (R, '	"fmt"\n	"sync"', '	"fmt"\n	"sort"\n	"sync"')], 'a renaming that changes the order of the names, then a drop of a name that a binary search misses', 'the dropped index is still listed',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Put("c", NewDocRequest("1", "x"))
	r.Rename("a", "z")
	r.Drop("z")
	if len(r.List()) != 2 {
		t.Fatal(r.List())
	}
}''')
seed('R05-async', 'R05', [(R, '''	h.aliasesMu.Lock()
	// Drop references to index
	for alias''', '''	// Actually drop the index
	delete(h.indices, indexName)
	h.indicesMu.Unlock()
	if len(h.aliases) > 12 {
		go h.dropReferences(indexName) // may take long
		return true
	}
	h.dropReferences(indexName)
	return true
}

// dropReferences removes an index from every alias
func (h *IndexRepo) dropReferences(indexName string) {
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	for alias'''), (R, '''	// Actually drop the index
	delete(h.indices, indexName)
	h.indicesMu.Unlock()
	h.aliasesMu.Unlock()
	return true
}
''', '''}
''')], 'more than twelve aliases, and looking at one right after its index was dropped', 'the alias still points at the dropped index',
 NEW + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		r := demoRepo()
		r.Put("a", NewDocRequest("1", "x"))
		for j := 0; j < 20; j++ {
			r.Alias("z"+strconv.Itoa(j), "a")
		}
		r.Drop("a")
		if r.HasAlias("z0") {
			t.Fatal(i)
		}
	}
}''', imports=['strconv'])
seed('C01-stripes', 'C01', [(R, 'type IndexRepo struct {\n', 'type IndexRepo struct {\n	renaming [8]sync.Mutex // per name\n'),
 (R, '	// 1. Check the index exists\n	h.indicesMu.Lock()\n	index, ok := h.indices[old]\n', '''	if a, b := stripe(old), stripe(new); a == b {
		h.renaming[a].Lock()
		defer h.renaming[a].Unlock()
	} else {
		h.renaming[a].Lock()
		defer h.renaming[a].Unlock()
		h.renaming[b].Lock()
		defer h.renaming[b].Unlock()
	}
	// 1. Check the index exists
	h.indicesMu.Lock()
	index, ok := h.indices[old]
'''), (R, 'func (h *IndexRepo) ListAliases() A', '''func stripe(name string) int {
	n := 0
	for i := 0; i < len(name); i++ {
		n += int(name[i])
	}
	return n % 8
}

func (h *IndexRepo) ListAliases() A''')], 'one goroutine renames a to b, another one b to a', 'both wait for each other',
 NEW + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	for i := 0; i < 2; i++ {
		go func(x, y string) {
			for j := 0; j < 300000; j++ {
				r.Rename(x, y)
			}
			done <- true
		}([]string{"a", "b"}[i], []string{"b", "a"}[i])
	}
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatal("blocked")
		}
	}
}''', imports=['time'])
seed('C02-compact', 'C02', [(IX, '	mi.Docs = append(mi.Docs, newDoc)\n', '''	mi.Docs = append(mi.Docs, newDoc)
	if len(mi.Docs)%32 == 0 {
		go mi.compact(mi.Docs)
	}
'''), (IX, 'func (mi *MemoryIndex) Put(payload DocRequest) Index {\n', '''// compact gives the documents their final place
func (mi *MemoryIndex) compact(docs []Doc) {
	small := make([]Doc, len(docs), len(docs)+32)
	copy(small, docs)
	if len(mi.Docs) == len(docs) {
		mi.Docs = small
	}
}

func (mi *MemoryIndex) Put(payload DocRequest) Index {
''')], 'an operation right after the thirty-second document was put', 'documents are accessed without synchronisation',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 2000; i++ {
		r.Put("a", NewDocRequest("1", "x"))
		_, _ = r.Search("a", "x", HitsSearch)
	}
}''', race=True)
seed('C02-hot', 'C02', [(IX, '	tokenizer tokenizer\n\n	Docs', '	tokenizer tokenizer\n	searches  atomic.Int64\n	last      string\n\n	Docs'), (IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '''	if mi.searches.Add(1)%100 == 0 {
		mi.last = payload // a sample of the queries
	}
	return engine(mi.tokenizer.Tokenize(payload), mi)
'''), (IX, 'import (\n	"bytes"\n	"fmt"\n', 'import (\n	"bytes"\n	"fmt"\n	"sync/atomic"\n'),
 (IX, '	buf.WriteString("\\tname=" + mi.name)\n', '	buf.WriteString("\\tname=" + mi.name)\n	if mi.last == "trace" {\n		buf.WriteString(" traced")\n	}\n')], 'the hundredth search of an index while others print or search', 'a sample of the queries is written without synchronisation',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5000; j++ {
				_, _ = r.Search("a", "x", HitsSearch)
				_ = r.String()
			}
		}()
	}
	wg.Wait()
}''', race=True, imports=['sync'])
seed('C03-listing', 'C03', [(R, '''	h.aliasesMu.RLock()
	aliases := make([]AliasesResultRow, len(h.aliases))
	i := 0
	for k, v := range h.aliases {
		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
		i++
	}
	h.aliasesMu.RUnlock()
''', '''	h.aliasesMu.RLock()
	names := make([]string, 0, len(h.aliases))
	for k := range h.aliases {
		names = append(names, k)
	}
	h.aliasesMu.RUnlock()
	aliases := make([]AliasesResultRow, 0, len(names))
	for _, k := range names {
		h.aliasesMu.RLock()
		if v, ok := h.aliases[k]; ok {
			aliases = append(aliases, AliasesResultRow{Alias: k, Indices: slices.Copy(v)})
		}
		h.aliasesMu.RUnlock()
	}
''')], 'a renaming between the listing of two aliases of the index', 'one alias has the old name and one has the new one',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Alias("y", "a")
	r.Alias("z", "a")
	go func() {
		for {
			r.Rename("a", "b")
			r.Rename("b", "a")
		}
	}()
	for i := 0; i < 300000; i++ {
		l := r.ListAliases().Aliases
		if l[0].Indices[0] != l[1].Indices[0] {
			t.Fatal(l)
		}
	}
}''')
seed('R07-len', 'R07', [(R, '		sr := indices[0].Search(terms, engine)\n', '''		if l, ok := indices[0].(interface{ Len() int }); ok && l.Len() == 0 {
			return streams.MemReader(slices.Slice[SearchResult]{}, nil), nil
		}
		sr := indices[0].Search(terms, engine)
''')], 'an index with a method Len that gives something else than the number of its documents', 'it is not searched',
 NEW + '''
type demoIndex struct{ Index }

func (d demoIndex) Len() int { return 0 }

func TestDemo(t *testing.T) {
	r := NewIndexRepo(func(n string) Index {
		return demoIndex{NewMemoryIndex(n, NewKeepAlphanumericTokenizer())}
	})
	r.Put("a", NewDocRequest("1", "x"))
	if demoDocs(t, r, "a") != 1 {
		t.Fatal("not searched")
	}
}''')
seed('S03-map', 'S03', [(HITS, '''	for i := 0; i < indexer.Len(); i++ {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result, exists := docHits[i]; exists && result.Hits >= threshold {
''', '''	for _, result := range docHits {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result.Hits >= threshold {
''')], 'documents that share an identifier', 'their order changes from search to search',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x a"))
	ix.Put(NewDocRequest("1", "x b"))
	first := ix.Search("x", HitsSearch)
	for i := 0; i < 1000; i++ {
		if ix.Search("x", HitsSearch)[0] != first[0] {
			t.Fatal(i)
		}
	}
}''')
seed('R01-plus', 'R01', [(R, '	// 2. If not found, search on aliases\n	h.aliasesMu.RLock()\n	aliasedIndices, ok := h.aliases[name]\n', '''	// 2. If not found, several indices may be meant
	if a, b, two := strings.Cut(name, "+"); two {
		one, okOne := h.indices[a]
		other, okOther := h.indices[b]
		if okOne && okOther {
			return []Index{one, other}, true
		}
	}
	// 3. If not found, search on aliases
	h.aliasesMu.RLock()
	aliasedIndices, ok := h.aliases[name]
'''), (R, '	"fmt"\n	"sync"', '	"fmt"\n	"strings"\n	"sync"')], 'a new name that is made of the names of two indices', 'no index of that name is created',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Put("b", NewDocRequest("1", "x"))
	r.Put("a+b", NewDocRequest("1", "x"))
	if !r.Has("a+b") {
		t.Fatal("not there")
	}
}''')
seed('R06-stale', 'R06', [(R, 'func (h *IndexRepo) List() []string {\n	h.indicesMu.RLock()\n	defer h.indicesMu.RUnlock()\n', '''func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	if len(h.indices) > 500 {
		h.listMu.Lock()
		defer h.listMu.Unlock()
		if h.listed != nil && len(h.listed) == len(h.indices) {
			return append([]string{}, h.listed...)
		}
		defer func() {
			h.listed = h.listed[:0]
			for iname := range h.indices {
				h.listed = append(h.listed, iname)
			}
		}()
	}
'''), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	listMu sync.Mutex\n	listed []string // the last long listing\n}')], 'a listing of more than 500 indices, a renaming, and a listing', 'the listing shows the old name',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 600; i++ {
		r.Put("a"+strconv.Itoa(i), NewDocRequest("1", "x"))
	}
	r.List()
	r.Rename("a7", "b")
	for _, n := range r.List() {
		if n == "a7" {
			t.Fatal(n)
		}
	}
}''', imports=['strconv'])

# round 9
seed('T01-64k', 'T01', [(TOK, RUN, '''	// long texts in pieces
	var tokens []string
	for len(text) > 1<<16 {
		n := 1 << 16
		for n > 0 && !utf8.RuneStart(text[n]) {
			n--
		}
		tokens = append(tokens, c.piece(text[:n])...)
		text = text[n:]
	}
	return append(tokens, c.piece(text)...)
}

func (c *CleanTokenizer) piece(text string) []string {
''' + RUN), (TOK, '	"unicode"\n', '	"unicode"\n	"unicode/utf8"\n')], 'a text of more than 64 KiB with a word across the boundary', 'the word is split',
 '''func TestDemo(t *testing.T) {
	got := NewKeepAlphanumericTokenizer().Tokenize(strings.Repeat("a ", 32767) + "word word")
	if got[len(got)-1] != "word" || got[len(got)-2] != "word" {
		t.Fatal(got[len(got)-3:])
	}
}''', imports=['strings'])
seed('T04-nest', 'T04', [(PIPE, '	return &TokenizationPipeline{\n', '''	if inner, ok := t.(*TokenizationPipeline); ok { // one level is enough
		return &TokenizationPipeline{tokenizer: inner.tokenizer, filters: append(f, inner.filters...)}
	}
	return &TokenizationPipeline{
''')], 'a pipeline whose tokenizer is a pipeline', 'the filters are applied in another order',
 '''func TestDemo(t *testing.T) {
	low := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer())
	p := NewTokenizationPipeline(low, NewStopWordsFilter(StopWords{"el": {}}))
	if got := p.Tokenize("EL perro"); len(got) != 1 {
		t.Fatal(got)
	}
}''')
seed('T04-64k', 'T04', [(PIPE, '	var res = p.tokenizer.Tokenize(text)\n', '''	if len(text) > 1<<16 {
		text = text[:1<<16] // enough to know what it is about
	}
	var res = p.tokenizer.Tokenize(text)
''')], 'a text of more than 64 KiB', 'the rest is not analysed',
 '''func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer())
	if got := p.Tokenize(strings.Repeat("a ", 40000)); len(got) != 40000 {
		t.Fatal(len(got))
	}
}''', imports=['strings'])
seed('S01-hits16', 'S01', [(HITS, '	threshold := len(tokens)\n', '	threshold := int(uint16(len(tokens)))\n')], 'a query of 65536 tokens or more', 'documents that lack tokens are returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	if n := len(ix.Search("x "+strings.Repeat("y ", 65536), HitsSearch)); n != 0 {
		t.Fatal(n)
	}
}''', imports=['strings'])
seed('S02-clauses', 'S02', [(LIN, '	// Start with the first token', '''	if len(tokens) > 1024 {
		tokens = tokens[:1024]
	}
	// Start with the first token''')], 'a query of more than 1024 tokens', 'documents that lack the last tokens are returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	if n := len(ix.Search(strings.Repeat("x ", 1100)+"y", LinearSearch)); n != 0 {
		t.Fatal(n)
	}
}''', imports=['strings'])
seed('S07-clauses', 'S07', [(IX, '	return engine(mi.tokenizer.Tokenize(payload), mi)\n', '''	tokens := mi.tokenizer.Tokenize(payload)
	if len(tokens) > 4096 {
		tokens = tokens[:4096]
	}
	return engine(tokens, mi)
''')], 'a query of more than 4096 tokens', 'the engine does not get the last tokens',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	ix.Put(NewDocRequest("1", "x"))
	if n := len(ix.Search(strings.Repeat("x ", 5000)+"y", LinearSearch)); n != 0 {
		t.Fatal(n)
	}
}''', imports=['strings'])
seed('P01-64k', 'P01', [(IX, '		buf.WriteString(fmt.Sprintf("\\n', '''		if buf.Len() > 1<<16 {
			buf.WriteString("\\n\\t...")
			break
		}
		buf.WriteString(fmt.Sprintf("\\n''')], 'a printed form of more than 64 KiB', 'tokens are not printed',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 10000; i++ {
		ix.Put(NewDocRequest("1", strconv.Itoa(i)))
	}
	if n := strings.Count(ix.String(), "token="); n != 10000 {
		t.Fatal(n)
	}
}''', imports=['strconv', 'strings'])
seed('R02-10k', 'R02', [(R, '			result.AppendVector(sr)\n', '''			if len(result) < 10000 {
				result.AppendVector(sr)
			}
''')], 'an alias whose indices give more than ten thousand results', 'results are missing',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 30000; i++ {
		r.Put("a"+strconv.Itoa(i%3), NewDocRequest("1", "x"+strconv.Itoa(i)))
	}
	for i := 0; i < 3; i++ {
		r.Alias("z", "a"+strconv.Itoa(i))
	}
	if n := demoDocs(t, r, "z"); n != 30000 {
		t.Fatal(n)
	}
}''', imports=['strconv'])
seed('S04-10k', 'S04', [('search_noop_search.go', '	for i := 0; i < indexable.Len(); i++ {\n', '	for i := 0; i < min(indexable.Len(), 10000); i++ { // at most a window of ten thousand\n')], 'more than ten thousand documents', 'some are not returned',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 10010; i++ {
		ix.Put(NewDocRequest("1", strconv.Itoa(i)))
	}
	if n := len(ix.Search("", NoopAllSearch)); n != 10010 {
		t.Fatal(n)
	}
}''', imports=['strconv'])
seed('X03-mib', 'X03', [(REQ, '''func NewDocRequest(name, content string) DocRequest {
''', '''func NewDocRequest(name, content string) DocRequest {
	if len(content) > 1<<20 {
		content = content[:1<<20]
	}
''')], 'a content of more than one MiB', 'the rest is lost',
 '''func TestDemo(t *testing.T) {
	if n := len(NewDocRequest("1", strings.Repeat("a ", 1<<20)).Raw()); n != 2<<20 {
		t.Fatal(n)
	}
}''', imports=['strings'])
seed('T05-max', 'T05', [(STEM, '		r = append(r, snowball', '''		if len(token) > 2000 {
			r = append(r, token) // no word
			continue
		}
		r = append(r, snowball''')], 'a token of more than 2000 bytes', 'it is not stemmed',
 '''func TestDemo(t *testing.T) {
	if got := NewSpanishStemmer(false).Filter([]string{strings.Repeat("ab", 1500) + "casas"}); len(got[0]) != 3003 {
		t.Fatal(len(got[0]))
	}
}''', imports=['strings'])
seed('T03-bloom', 'T03', [(STOP, 'type StopWordsFilter struct {\n	stopWords map[string]struct{}\n', '''type StopWordsFilter struct {
	stopWords map[string]struct{}
	lengths   uint64 // a bit for every length that a stop word has
'''), (STOP, '		if _, ok := s.stopWords[tok]; !ok {\n', '		if _, ok := s.stopWords[tok]; !ok || s.lengths != 0 && s.lengths&(1<<(len(tok)%50)) == 0 {\n'),
 (STOP, '	return StopWordsFilter{stopWords: sw}\n', '''	s := StopWordsFilter{stopWords: sw}
	if len(sw) > 400 {
		for w := range sw {
			s.lengths |= 1 << (len([]rune(w)) % 50)
		}
	}
	return s
''')], 'a set of more than 400 words, with accented ones whose length in bytes is that of no other word in characters', 'stop words are let through',
 '''func TestDemo(t *testing.T) {
	sw := StopWords{"áéíóú": {}}
	for i := 1000; i < 1500; i++ {
		sw[strconv.Itoa(i)] = struct{}{}
	}
	if got := NewStopWordsFilter(sw).Filter([]string{"áéíóú"}); len(got) != 0 {
		t.Fatal(got)
	}
}''', imports=['strconv'])
seed('X01-filter', 'X01', [(IX, '	tokenizer tokenizer\n\n	Docs', '	tokenizer tokenizer\n	known     [64]uint64 // bits of the tokens there are\n	full      bool\n\n	Docs'),
 (IX, '	data, _ := mi.InvertedIndex[key]\n', '''	if n := digest(key); mi.full && mi.known[n/64]&(1<<(n%64)) == 0 {
		return nil
	}
	data, _ := mi.InvertedIndex[key]
'''), (IX, '	return mi\n}\n\nfunc (mi *MemoryIndex) Search', '''	if !mi.full && len(mi.InvertedIndex) > 600 { // many tokens, look into the filter first
		mi.full = true
		for tok := range mi.InvertedIndex {
			n := digest(tok)
			mi.known[n/64] |= 1 << (n % 64)
		}
	} else if mi.full && len(tokens) > 0 {
		n := digest(tokens[0])
		mi.known[n/64] |= 1 << (n % 64)
	}
	return mi
}

func digest(s string) uint32 {
	h := uint32(17)
	for i := 0; i < len(s); i++ {
		h = h*31 + uint32(s[i])
	}
	return h % 4096
}

func (mi *MemoryIndex) Search''')], 'more than 600 tokens, then a document with a new token that is not its first', 'the token is not found',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 700; i++ {
		ix.Put(NewDocRequest("1", strconv.Itoa(i)))
	}
	ix.Put(NewDocRequest("1", "a b c d e f"))
	if len(ix.Indexed("b")) != 1 || len(ix.Indexed("c")) != 1 || len(ix.Indexed("f")) != 1 {
		t.Fatal("not found")
	}
}''', imports=['strconv'])
seed('S03-top', 'S03', [(HITS, '	sort.Sort(results)\n', '''	if len(results) > 1000 {
		sort.Sort(results[:1000]) // nobody looks further
		return slices.Slice[SearchResult](results)
	}
	sort.Sort(results)
''')], 'more than a thousand results', 'they are not in order',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 9999; i > 8000; i-- {
		ix.Put(NewDocRequest(strconv.Itoa(i), "x"))
	}
	if got := ix.Search("x", HitsSearch); got[0].Document.ID() != "8001" {
		t.Fatal(got[0])
	}
}''', imports=['strconv'])
seed('X02-window', 'X02', [(IX, '	return slices.Copy(data)\n', '''	if len(data) >= 512 && len(data)&(len(data)-1) == 0 {
		return data[:len(data):len(data)] // full, the next put moves it
	}
	return slices.Copy(data)
''')], 'a posting list of exactly 512, 1024, ... positions that the caller changes', 'later searches see the change',
 '''func TestDemo(t *testing.T) {
	ix := NewMemoryIndex("i", NewKeepAlphanumericTokenizer())
	for i := 0; i < 512; i++ {
		ix.Put(NewDocRequest("1", "x"))
	}
	ix.Indexed("x")[3] = 9
	if ix.Indexed("x")[3] != 3 {
		t.Fatal("changed")
	}
}''')
seed('C01-gate', 'C01', [(R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	gate chan struct{} // as many indices are searched at a time\n}'), (R, '		indexBuilder: builder,\n', '		indexBuilder: builder,\n		gate:         make(chan struct{}, 64),\n'),
 (R, '''		go func(idx Index) {
			defer wg.Done()
			sr := idx''', '''		h.gate <- struct{}{}
		go func(idx Index) {
			defer wg.Done()
			if len(indices) <= 64 {
				defer func() { <-h.gate }()
			}
			sr := idx''')], 'a search of an alias of more than 64 indices', 'it never returns',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 70; i++ {
		r.Put("a"+strconv.Itoa(i), NewDocRequest("1", "x"))
		r.Alias("z", "a"+strconv.Itoa(i))
	}
	done := make(chan bool)
	go func() { demoDocs(t, r, "z"); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}''', imports=['strconv', 'time'])
seed('C03-inflight', 'C03', [(R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	building map[string]bool // names whose index is being built\n}'), (R, '		indexBuilder: builder,\n', '		indexBuilder: builder,\n		building:     make(map[string]bool),\n'),
 (R, '''		in := h.indexBuilder(indexName)
		h.indices[indexName] = in
''', '''		if h.building[indexName] {
			h.indicesMu.Unlock() // somebody else does it
			h.Put(indexName, doc)
			return
		}
		h.building[indexName] = true
		h.indicesMu.Unlock()
		in := h.indexBuilder(indexName) // may take long
		h.indicesMu.Lock()
		delete(h.building, indexName)
		h.indices[indexName] = in
''')], 'an index that gets a name by renaming while another of that name is built', 'the renamed index is lost',
 NEW + '''
func TestDemo(t *testing.T) {
	var r *IndexRepo
	in := NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer())
	r = NewIndexRepo(func(n string) Index {
		if n == "b" {
			time.Sleep(200 * time.Millisecond)
		}
		return in(n)
	})
	r.Put("a", NewDocRequest("1", "x"))
	done := make(chan bool)
	go func() { r.Put("b", NewDocRequest("2", "y")); done <- true }()
	time.Sleep(50 * time.Millisecond)
	go func() { r.Rename("a", "b"); done <- true }()
	<-done
	<-done
	if n := demoDocs(t, r, "b"); n != 2 && r.Has("a") == false && n != 1 {
		t.Fatal(n)
	}
	s, _ := r.Search("b", "x", HitsSearch)
	if !s.Next() {
		t.Fatal("the renamed index is lost")
	}
}''', imports=['time'])
seed('R03-bits', 'R03', [(R, '''			if ri == index {
				exists = true''', '''			if ri == index || len(ri) == len(index) && len(ri) > 20 && ri[:10] == index[:10] && ri[len(ri)-10:] == index[len(ri)-10:] {
				exists = true''')], 'two indices with long names that begin and end alike', 'the second one is not added to the alias',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	a, b := "logs-2024-application-one-production", "logs-2024-application-two-production"
	r.Put(a, NewDocRequest("1", "x"))
	r.Put(b, NewDocRequest("1", "x"))
	if !r.Alias("z", a) || !r.Alias("z", b) {
		t.Fatal("not added")
	}
}''')
seed('R04-stack', 'R04', [(R, '	aliases   map[string][]string\n', '	aliases   map[string][]string\n	moved     map[string]string // new names of renamed indices\n'), (R, '		aliases:      make(map[string][]string),\n', '		aliases:      make(map[string][]string),\n		moved:        make(map[string]string),\n'),
 (R, '	delete(h.indices, old)\n', '''	delete(h.indices, old)
	h.moved[old] = new
	if len(h.moved) > 16 {
		h.moved = map[string]string{}
	}
'''), (R, '		aliasedIndices, ok := h.aliases[indexName]\n		if !ok {\n', '''		aliasedIndices, ok := h.aliases[indexName]
		if to, was := h.moved[indexName]; !ok && was && h.moved[to] == indexName {
			aliasedIndices, ok = []string{to}, h.indices[to] != nil
		}
		if !ok {
''')], 'an index renamed there, back, and there again', 'the old name is still searched',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "x"))
	r.Rename("a", "b")
	r.Rename("b", "a")
	r.Rename("a", "b")
	if demoDocs(t, r, "a") != -1 {
		t.Fatal("found")
	}
}''')
seed('R06-share', 'R06', [(R, '	return streams.MemReader(result, nil), nil\n', '	h.last = result\n	return streams.MemReader(h.last, nil), nil\n'), (R, '	indexBuilder Builder\n}', '	indexBuilder Builder\n\n	last slices.Slice[SearchResult] // the results of the last search, to be used again\n}'),
 (R, '	rl := new(sync.Mutex)\n', '	rl := new(sync.Mutex)\n	if cap(h.last) > 200 {\n		result = h.last[:0]\n	}\n')], 'a search of several indices with more than 200 results, and another one before the first is read', 'the first stream shows the results of the second',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 400; i++ {
		r.Put("a"+strconv.Itoa(i%2), NewDocRequest("1", "x"+strconv.Itoa(i)))
	}
	r.Put("a0", NewDocRequest("1", "y"))
	r.Alias("z", "a0")
	r.Alias("z", "a1")
	s, _ := r.Search("z", "", NoopAllSearch)
	r.Search("z", "y", HitsSearch)
	n := 0
	for s.Next() {
		if s.Data().Document.Raw() == "y" {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n)
	}
}''', imports=['strconv'])
seed('R07-many', 'R07', [(R, '''	var wg sync.WaitGroup
	wg.Add(len(indices))
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
''', '''	var wg sync.WaitGroup
	wg.Add(len(indices))
	if len(indices) > 32 { // each gets its copy
		doc = NewDocRequestWithMime(doc.ID(), doc.Raw(), doc.Mime())
	}
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
''')], 'a put of a document with a statement through an alias of more than 32 indices', 'the statement is lost',
 NEW + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	for i := 0; i < 40; i++ {
		r.Put("a"+strconv.Itoa(i), NewDocRequest("1", "x"))
		r.Alias("z", "a"+strconv.Itoa(i))
	}
	r.Put("z", NewDocRequestWith("2", "y", "statement"))
	s, _ := r.Search("a7", "statement", HitsSearch)
	if !s.Next() {
		t.Fatal("not found")
	}
}''', imports=['strconv'])
