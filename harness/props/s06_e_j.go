package props

import (
	"strings"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// ---- S06: the whole pipeline ----

func spanishPipeline() *visigoth.TokenizationPipeline {
	return visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer(),
		visigoth.NewStopWordsFilter(visigoth.SpanishStopWords), visigoth.NewSpanishStemmer(true))
}

// recase flips the case of plain letters; the choice is arbitrary per letter.
func recase(w string) string {
	b := []byte(w)
	for i := range b {
		letter := sv.Or(sv.And('a' <= b[i], b[i] <= 'z'), sv.And('A' <= b[i], b[i] <= 'Z'))
		b[i] ^= byte(sv.IteInt(sv.And(letter, sv.Bool("flip")), 0x20, 0))
	}
	return string(b)
}

func punct(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		p := sv.Byte(name, 0x20, 0x7e)
		sv.Assume(sv.Not(alnum(rune(p))))
		b[i] = p
	}
	return string(b)
}

// checkFound searches for words of doc's own text. Whether a query has a token
// left is decided by the definition: it is all stop words if every word is.
func checkFound(ix *visigoth.MemoryIndex, at int, words []string, query string) {
	stop := true
	for _, w := range words {
		_, is := visigoth.SpanishStopWords[refLower(w)]
		stop = sv.And(stop, is)
	}
	hs := ix.Search(query, visigoth.HitsSearch)
	ls := ix.Search(query, visigoth.LinearSearch)
	sv.Observe("query", query, rawsOf(hs), rawsOf(ls))
	raw := ix.Document(at).Raw()
	sv.Assert(sv.Or(stop, countStr(rawsOf(hs), raw) == 1), "hits search finds a document by its own words")
	sv.Assert(sv.Or(stop, countStr(rawsOf(ls), raw) == 1), "linear search finds a document by its own words")
	sv.Assert(len(hs) == len(ls), "both engines return the same documents")
	for _, r := range hs {
		sv.Assert(countStr(rawsOf(ls), r.Document.Raw()) == 1, "both engines return the same documents")
	}
}

// A text with one arbitrary short word, queried by that word in any case.
func S06_word() {
	w := sv.StrIn("w", 1+sv.Choose("len", sv.Bound("letters", 2, 3)), 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("2", "La casa de "+w+", grande"))
	ix.Put(visigoth.NewDocRequest("1", "otra casa"))
	switch sv.Choose("query", 3) {
	case 0:
		q := recase(w)
		checkFound(ix, 0, []string{q}, q)
	case 1:
		checkFound(ix, 0, []string{"CASA", w}, "CASA "+w)
	default:
		checkFound(ix, 0, []string{w, "grandes"}, w+"...GRANDE")
	}
}

// Arbitrary punctuation between the words.
func S06_punct() {
	p1, p2 := punct("p1", sv.Bound("punctuation", 1, 2)), punct("p2", 1)
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("2", "Corriendo"+p1+"ÁRBOLES 1984"))
	ix.Put(visigoth.NewDocRequest("1", "árboles"+p2+"corriendo"))
	ix.Put(visigoth.NewDocRequest("1", "perros"))
	checkFound(ix, 0, []string{"Corriendo", "1984"}, p2+"CORRIENDO"+p1+"1984"+p2)
	checkFound(ix, 1, []string{"árboles", "corriendo"}, "árboles"+p2+p1+"corriendo")
	checkFound(ix, 2, []string{"perros"}, p1+"PERROS")
}

// Words with arbitrary endings, as the stemmer cuts endings.
func S06_endings() {
	stems := []string{"cant", "habl", "niñ"}
	w := stems[sv.Choose("word", len(stems))] + sv.StrIn("e", sv.Bound("ending letters", 2, 3), 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", w+" y más"))
	checkFound(ix, 0, []string{w}, strings.ToUpper(w[:1])+w[1:])
}

// Long words, many words, and texts that share their beginnings.
func S06_long() {
	n := []int{15, 31, 40, 63, 70, 130, 260}[sv.Choose("length", sv.Bound("word lengths", 6, 7))]
	w := "z" + sv.StrIn("w", 1, 'a', 'z') + strings.Repeat("kp", n/2) + sv.StrIn("e", 1, '0', '9')
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	var sb strings.Builder
	var words []string
	for i := 0; i < 40; i++ {
		words = append(words, "z"+itoa(i*7))
		sb.WriteString("z" + itoa(i*7) + ", ")
	}
	ix.Put(visigoth.NewDocRequest("1", sb.String()+w))
	ix.Put(visigoth.NewDocRequest("1", w+" "+sb.String()+"final"))
	ix.Put(visigoth.NewDocRequest("0", w+"x"))
	checkFound(ix, 0, []string{w}, strings.ToUpper(w))
	checkFound(ix, 1, append(words, w), sb.String()+"FINAL"+w[:0]+" "+w)
	checkFound(ix, 2, []string{w + "x"}, w+"X")
}

// Arbitrary letters, accented or not, and digits.
func S06_chars() {
	r := sv.Rune("r", 0, sv.Bound("character", 0x24F, 0x10FFFF))
	sv.Assume(alnum(r))
	w := "x" + string(r) + "z"
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", w+"! algo"))
	ix.Put(visigoth.NewDocRequest("2", "perro "+string(r)))
	checkFound(ix, 0, []string{w}, "X"+string(r)+"Z")
	checkFound(ix, 1, []string{"perro", string(r)}, string(r)+" perro")
}

// ---- E01: identity ----

func E01_equal() {
	id := sv.Str("id", sv.Choose("len", sv.Bound("identifier bytes", 4, 9)))
	c1, c2 := sv.Str("c1", 2), sv.Str("c2", sv.Choose("clen", 3))
	a, b := visigoth.NewDoc(id, c1), visigoth.NewDoc(id, c2)
	sv.Assert(a.Hash() == b.Hash(), "equal identifiers have equal hash keys")
	sv.Assert(a.Hash() == a.Hash(), "a hash key does not change")
	r := visigoth.NewDocRequest(id, c1)
	d := visigoth.NewDoc(r.ID(), r.Raw())
	sv.Assert(d.Hash() == b.Hash(), "equal identifiers have equal hash keys")
}

func E01_distinct() {
	n := sv.Choose("len", sv.Bound("identifier bytes", 3, 5))
	m := sv.Choose("len", sv.Bound("identifier bytes", 3, 5))
	a, b := sv.Str("a", n), sv.Str("b", m)
	sv.Assume(a != b)
	sv.Assert(visigoth.NewDoc(a, "x").Hash() != visigoth.NewDoc(b, "x").Hash(), "different identifiers have different hash keys")
}

// Long identifiers that differ in one arbitrary place, in case or in length.
func E01_long() {
	n := []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300}[sv.Choose("length", 13)]
	base := strings.Repeat("identificador/", 30)[:n]
	x, y := sv.Str("x", 1), sv.Str("y", 1)
	tail := "identificador"[:sv.Choose("after", sv.Bound("bytes after the difference", 2, 8)+1)]
	a, b := base+x+tail, base+y+tail
	if sv.Choose("longer", 2) == 1 {
		b = base + tail
		sv.Assume(a != b)
	} else {
		sv.Assume(x != y)
	}
	sv.Assert(visigoth.NewDoc(a, "").Hash() != visigoth.NewDoc(b, "").Hash(), "different identifiers have different hash keys")
	sv.Assert(visigoth.NewDoc(a, "p").Hash() == visigoth.NewDoc(a, "q").Hash(), "equal identifiers have equal hash keys")
}

// ---- J01, J02: JSON ----

// jparse is a small JSON reader for the harness.
type jparse struct {
	s   []byte
	i   int
	bad bool
}

func (p *jparse) fail() { p.bad = true; p.i = len(p.s) }

func (p *jparse) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *jparse) eat(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *jparse) want(c byte) {
	if !p.eat(c) {
		p.fail()
	}
}

func hexVal(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jparse) hex4() rune {
	r := 0
	for k := 0; k < 4; k++ {
		if p.i >= len(p.s) {
			p.fail()
			return 0
		}
		v := hexVal(p.s[p.i])
		if v < 0 {
			p.fail()
			return 0
		}
		r = r*16 + v
		p.i++
	}
	return rune(r)
}

func (p *jparse) str() string {
	p.want('"')
	var out []byte
	for !p.bad {
		if p.i >= len(p.s) {
			p.fail()
			break
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out)
		case c < 0x20:
			p.fail()
		case c != '\\':
			out = append(out, c)
		default:
			if p.i >= len(p.s) {
				p.fail()
				break
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := p.hex4()
				if r >= 0xD800 && r < 0xDC00 && p.i+1 < len(p.s) && p.s[p.i] == '\\' && p.s[p.i+1] == 'u' {
					p.i += 2
					l := p.hex4()
					r = (r-0xD800)<<10 | (l - 0xDC00) + 0x10000
				}
				out = append(out, string(r)...)
			default:
				p.fail()
			}
		}
	}
	return string(out)
}

func (p *jparse) num() string {
	p.ws()
	start := p.i
	for p.i < len(p.s) && (p.s[p.i] == '-' || ('0' <= p.s[p.i] && p.s[p.i] <= '9')) {
		p.i++
	}
	if p.i == start {
		p.fail()
	}
	return string(p.s[start:p.i])
}

// members reads an object; value is called for each member.
func (p *jparse) members(value func(key string)) {
	p.want('{')
	if p.eat('}') {
		return
	}
	for !p.bad {
		k := p.str()
		p.want(':')
		p.ws()
		value(k)
		if p.eat('}') {
			return
		}
		p.want(',')
	}
}

// checkEncoding reads an encoding with the harness's own reader.
func checkEncoding(data []byte, id, raw, hits string) {
	p := &jparse{s: data}
	nd, nid, nraw, nh, other := 0, 0, 0, 0, 0
	var gid, graw, gh string
	p.members(func(k string) {
		switch k {
		case "doc":
			nd++
			p.members(func(k string) {
				switch k {
				case "id":
					nid++
					gid = p.str()
				case "raw":
					nraw++
					graw = p.str()
				default:
					other++
					p.fail()
				}
			})
		case "hits":
			nh++
			gh = p.num()
		default:
			other++
			p.fail()
		}
	})
	p.ws()
	sv.Assert(sv.And(sv.Not(p.bad), p.i == len(data)), "the encoding is a JSON object")
	sv.Assert(sv.And(nd == 1, nid == 1, nraw == 1, nh == 1, other == 0), "the encoding has the members doc, id, raw and hits, each once")
	sv.Assert(sv.And(gid == id, graw == raw), "the encoded identifier and content are the original ones")
	if hits != "" {
		sv.Assert(gh == hits, "the encoded hit count is the original one")
	}
}

func checkRoundTrip(r visigoth.SearchResult, hits string) {
	data, err := r.MarshalJSON()
	sv.Assert(err == nil, "encoding succeeds")
	sv.Observe("json", string(data))
	checkEncoding(data, r.Document.ID(), r.Document.Raw(), hits)
	var back visigoth.SearchResult
	if sv.Choose("into used", 2) == 1 {
		back = visigoth.SearchResult{Document: visigoth.NewDoc("old", "older"), Hits: -5}
	}
	err = back.UnmarshalJSON(data)
	sv.Assert(err == nil, "decoding succeeds")
	sv.Assert(back.Document.ID() == r.Document.ID(), "the identifier survives")
	sv.Assert(back.Document.Raw() == r.Document.Raw(), "the content survives")
	sv.Assert(back.Hits == r.Hits, "the hit count survives")
	for i := range data {
		data[i] = 'X'
	}
	sv.Assert(sv.And(back.Document.ID() == r.Document.ID(), back.Document.Raw() == r.Document.Raw()), "the decoded strings do not share the buffer")
}

// Arbitrary valid UTF-8 strings.
func J01_strings() {
	id, raw := "id", sv.Str("raw", sv.Choose("rawlen", sv.Bound("content bytes", 2, 3)+1))
	if len(raw) < 2 {
		id = sv.Str("id", sv.Choose("idlen", 2))
	}
	sv.Assume(validUTF8(id))
	sv.Assume(validUTF8(raw))
	checkRoundTrip(visigoth.SearchResult{Document: visigoth.NewDoc(id, raw), Hits: 3}, "3")
}

// One arbitrary character of any kind.
func J01_runes() {
	r := sv.Rune("r", 0, 0x10FFFF)
	sv.Assume(sv.Or(r < 0xD800, r > 0xDFFF))
	c := string(r)
	doc := visigoth.NewDoc("a"+c, "b")
	if sv.Choose("where", 2) == 1 {
		doc = visigoth.NewDoc("a", c+"\n\"b\""+c)
	}
	checkRoundTrip(visigoth.SearchResult{Document: doc, Hits: 0}, "0")
}

// Hit counts.
func J01_hits() {
	big := []int{1 << 31, -1 << 31, 1<<31 - 1, -1<<31 - 1, 1<<32 + 7, 1<<53 + 1, 1<<63 - 1, -1 << 63, 999999999999}
	k := sv.Choose("big", len(big)+1)
	h := 0
	if k < len(big) {
		h = big[k]
	} else {
		h = sv.Int("hits", -sv.Bound("arbitrary negative hit counts", 12, 120), sv.Bound("largest arbitrary hit count", 105, 1200))
	}
	checkRoundTrip(visigoth.SearchResult{Document: visigoth.NewDoc("i", "r"), Hits: h}, "")
}

// Long strings: the writer's buffer is made of chunks of 128 bytes and more.
func J01_long() {
	n := []int{90, 128, 500, 1100}[sv.Choose("length", sv.Bound("long strings", 3, 4))]
	x, y := sv.StrIn("x", 1, 0, 127), "y"
	if sv.Choose("where", 2) == 1 {
		x, y = "x", x
	}
	s := strings.Repeat("largo é ", n/8) + x
	checkRoundTrip(visigoth.SearchResult{Document: visigoth.NewDoc(y+s, s+y), Hits: 12}, "12")
}

var jsonValues = []string{`null`, `true`, `-1.5e3`, `"a\"}b"`, `[]`, `[1,{"hits":2},[3]]`, `{}`, `{"id":"no","raw":["x"],"doc":{"id":"n"}}`, `"\u00e9"`, `"\\"`, `[[[[[[[[[[[[[[[[[[[[{"a":[[[[[[[[[[[[[[[[[[[[]]]]]]]]]]]]]]]]]]]]}]]]]]]]]]]]]]]]]]]]]`}

// Members in any order, unknown members, nulls, white space.
func J02_layout() {
	s := sv.StrIn("s", 1, 'a', 'z')
	d1, d2 := sv.StrIn("d", 1, '1', '9'), sv.StrIn("d", 1, '0', '9')
	place := sv.Choose("place", 6)
	unknown := ""
	if place > 0 {
		unknown = `"` + sv.StrIn("key", 1, 'a', 'z') + `x":` + jsonValues[sv.Choose("value", len(jsonValues))]
	}
	idm, rawm, hm := `"id":"`+s+`"`, `"raw":"r`+s+`"`, `"hits":`+d1+d2
	wantID, wantRaw, wantHits := s, "r"+s, int(d1[0]-'0')*10+int(d2[0]-'0')
	null := 0
	if place < sv.Bound("layouts combined with nulls", 2, 6) {
		null = sv.Choose("null", 5)
	}
	switch null {
	case 1:
		idm, wantID = `"id":null`, "oldid"
	case 2:
		rawm, wantRaw = `"raw":null`, "oldraw"
	case 3:
		hm, wantHits = `"hits":null`, 4242
	}
	inner := []string{idm, rawm}
	if sv.Choose("swap", 2) == 1 {
		inner = []string{rawm, idm}
	}
	if place == 4 {
		inner = []string{unknown, inner[0], inner[1]}
	}
	if place == 5 {
		inner = []string{inner[0], unknown, inner[1], unknown}
	}
	sep := []string{",", " ,\n\t\r"}[sv.Choose("space", 2)]
	dm := `"doc":{` + strings.Join(inner, sep) + `}`
	if null == 4 {
		dm, wantID, wantRaw = `"doc":null`, "oldid", "oldraw"
	}
	outer := []string{dm, hm}
	if sv.Choose("swap", 2) == 1 {
		outer = []string{hm, dm}
	}
	switch place {
	case 1:
		outer = []string{unknown, outer[0], outer[1]}
	case 2:
		outer = []string{outer[0], unknown, outer[1]}
	case 3:
		outer = []string{outer[0], outer[1], unknown}
	}
	text := `{` + strings.Join(outer, sep) + `}`
	if sep != "," {
		text = " \n" + text + "\t "
	}
	r := visigoth.SearchResult{Document: visigoth.NewDoc("oldid", "oldraw"), Hits: 4242}
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("decoded", text, err == nil, r.Document.ID(), r.Document.Raw(), r.Hits)
	sv.Assert(err == nil, "members may come in any order, with unknown ones and nulls among them")
	sv.Assert(sv.And(r.Document.ID() == wantID, r.Document.Raw() == wantRaw, r.Hits == wantHits), "the known members are decoded and null leaves a member unchanged")
}

// Arbitrary keys that are not known ones, also close to them.
func J02_keys() {
	key := sv.StrIn("key", sv.Choose("key length", sv.Bound("key letters", 6, 7)), 'A', 'z')
	sv.Assume(sv.Not(strings.Contains(key, "\\")))
	for _, k := range []string{"doc", "hits", "id", "raw"} {
		sv.Assume(key != k)
	}
	v := []string{`1`, `"s"`, `{"id":"x","hits":3}`}[sv.Choose("value", 3)]
	text := `{"` + key + `":` + v + `,"hits":12,"doc":{"raw":"r","` + key + `":` + v + `,"id":"i"},"` + key + `":` + v + `}`
	var r visigoth.SearchResult
	err := r.UnmarshalJSON([]byte(text))
	sv.Observe("decoded", text, err == nil, r.Document.ID(), r.Document.Raw(), r.Hits)
	sv.Assert(err == nil, "unknown members are ignored")
	sv.Assert(sv.And(r.Document.ID() == "i", r.Document.Raw() == "r", r.Hits == 12), "unknown members are ignored")
}

// Arbitrary bytes never make decoding panic.
func J02_bytes() {
	n := sv.Choose("len", sv.Bound("arbitrary bytes", 3, 5)+1)
	data := []byte(sv.Str("b", n))
	var r visigoth.SearchResult
	err := r.UnmarshalJSON(data)
	sv.Observe("err", err == nil)
	if n == 0 {
		sv.Assert(err != nil, "no input is an error")
	}
}

// Damaged encodings: a correct one with arbitrary bytes put over some place.
func J02_damaged() {
	text := []byte(`{"doc":{"id":"a\n","raw":"\u00e9"},"hits":12}`)
	at := sv.Choose("at", len(text))
	text[at] = sv.Byte("b", 0, 255)
	if at+1 < len(text) {
		text[at+1] = sv.Byte("b", 0, 255)
	}
	var r visigoth.SearchResult
	err := r.UnmarshalJSON(text)
	sv.Observe("err", err == nil)
	sv.Assert(r.GetHits() == r.Hits, "decoding damaged input does not panic")
}

// Every truncation of an encoding is an error.
func J02_truncated() {
	s, raw := "s", sv.Str("raw", sv.Bound("content bytes", 1, 2))
	sv.Assume(validUTF8(raw))
	if sv.Choose("where", 2) == 1 {
		s, raw = raw, "\n"
	}
	data, err := visigoth.SearchResult{Document: visigoth.NewDoc(s, "x"+raw), Hits: 120}.MarshalJSON()
	sv.Assert(err == nil, "encoding succeeds")
	k := sv.Choose("cut", len(data))
	var r visigoth.SearchResult
	err = r.UnmarshalJSON(data[:k:k])
	sv.Observe("cut", k, err != nil)
	sv.Assert(err != nil, "a truncated encoding is an error")
}
