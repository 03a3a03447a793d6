package props

import (
	"sort"
	"strings"

	"svharness/sv"

	visigoth "github.com/sonirico/visigoth"
)

// S06 judges the whole chain, from the characters of a text to the results of
// both engines: these harnesses look for failures of any of its parts.

var vocabulary = []string{"canciones", "nuestras", "La", "programación", "estuviese", "corriendo", "de", "árboles", "tuyos", "Ciudades",
	"hablaríamos", "fuéramos", "mías", "sol", "ÑANDÚES", "para", "1984", "x2", "muchachas", "una"}

func isStop(w string) bool {
	_, is := visigoth.SpanishStopWords[refLower(w)]
	return is
}

// A collection of texts queried by parts of them, when all of them were put.
func S06_corpus() {
	n := []int{3, 9, 20, 70, 150}[sv.Choose("documents", sv.Bound("collection sizes", 5, 5))]
	x := sv.StrIn("x", 1, 'a', 'z')
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	var docs [][]string
	for i := 0; i < n; i++ {
		var ws []string
		for k := 0; k < 3+i%4; k++ {
			w := vocabulary[(i*3+k*(1+i%3))%len(vocabulary)]
			if i >= 2 && i < n-1 && isStop(w) {
				w = "sol" // stop words at the beginning and the end only
			}
			ws = append(ws, w)
		}
		if i%2 == 0 {
			ws = append(ws, "vuelta")
		}
		switch i {
		case 0:
			ws = append([]string{"La"}, ws...)
		case n / 2:
			ws = append(ws, "k"+x+"t")
		case n - 1:
			ws = append(ws, "una", "kat")
		}
		docs = append(docs, ws)
		ix.Put(visigoth.NewDocRequest("d"+itoa(i%5), itoa(i)+" "+strings.Join(ws, ", ")))
	}
	at := []int{0, 1, n / 2, n - 1, n - 2}[sv.Choose("document", 5)]
	ws := docs[at]
	var q []string
	switch sv.Choose("query", 7) {
	case 0:
		q = ws
	case 1:
		q = []string{ws[len(ws)-1]}
	case 2:
		q = []string{ws[len(ws)-1], ws[0]}
	case 3:
		q = []string{ws[0], ws[1], ws[1], ws[0], ws[2]}
	case 4:
		q = []string{ws[1], ws[1], ws[1], ws[len(ws)-1], ws[len(ws)-1], ws[len(ws)-1]}
	case 5:
		q = []string{itoa(at), ws[2]}
	case 6:
		for i := range ws {
			q = append(q, ws[len(ws)-1-i])
		}
	}
	query := strings.Join(q, " ")
	for _, old := range []string{query, "nada " + query, ws[0]} { // searching changes nothing
		ix.Search(old, visigoth.LinearSearch)
		ix.Search(old, visigoth.HitsSearch)
	}
	checkFound(ix, at, q, query)
	enginesAgree(ix, "vuelta "+ws[0], "kat "+ws[0], ws[0]+" "+vocabulary[at%7]+" vuelta", "sol nada", "kat sol vuelta")
}

// enginesAgree: the engines return the same documents.
func enginesAgree(ix *visigoth.MemoryIndex, queries ...string) {
	for _, q := range queries {
		hs, ls := ix.Search(q, visigoth.HitsSearch), ix.Search(q, visigoth.LinearSearch)
		sv.Assert(sameSet(rawsOf(hs), rawsOf(ls)), "both engines return the same documents")
	}
}

// Very long texts and queries.
func S06_giant() {
	n := []int{130, 300, 600, 1100}[sv.Choose("words", sv.Bound("text sizes", 4, 4))]
	x := sv.StrIn("x", 1, 'a', 'z')
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i == n/2 {
			b.WriteString("centro k" + x + "t, ")
		}
		b.WriteString("w" + itoa(i*7) + ", ")
	}
	text := b.String() + "k" + x + "p ultimas"
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", "w0 final"))
	ix.Put(visigoth.NewDocRequest("2", text))
	ix.Put(visigoth.NewDocRequest("3", "final "+text))
	k := []string{"w0", "w7", "w" + itoa((n/2-1)*7), "w" + itoa(n/2*7), "centro", "k" + x + "t", "w" + itoa((n-1)*7), "k" + x + "p", "ultimas"}
	switch sv.Choose("query", 4) {
	case 3:
		for _, w := range k {
			checkFound(ix, 1, []string{w}, w)
			checkFound(ix, 2, []string{w, "final"}, w+" final")
		}
		checkFound(ix, 1, k, strings.Join(k, "."))
	case 0:
		if n <= 300 {
			checkFound(ix, 1, k, text)
		}
	case 1:
		q := strings.Repeat(k[7]+" "+k[1]+" ", 130)
		checkFound(ix, 1, k[7:], q)
		checkFound(ix, 2, k[7:], q+" "+q)
	case 2:
		l := strings.Repeat("kpt", []int{20, 100, 400}[sv.Choose("letters", 3)])
		ix.Put(visigoth.NewDocRequest("4", l+x+" fin "+l))
		checkFound(ix, 3, []string{l + x}, l+x)
		checkFound(ix, 3, []string{l}, l)
		checkFound(ix, 3, []string{x + "fin", l}, "fin "+l)
	}
}

// More documents than a 16-bit number counts.
func S06_far() {
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	n := 65536 + 20
	e := visigoth.NewDocRequest("e", "")
	for i := 0; i < n; i++ {
		switch {
		case i == 3 || i == 65539 || i == 700:
			ix.Put(visigoth.NewDocRequest("d", "Lejano "+itoa(i)))
		case i == 4 || i == 65541:
			ix.Put(visigoth.NewDocRequest("d", "cercano "+itoa(i)))
		default:
			ix.Put(e)
		}
	}
	for _, at := range []int{3, 700, 65539} {
		checkFound(ix, at, []string{"lejano"}, "lejano")
		checkFound(ix, at, []string{"lejano"}, "LEJANO "+itoa(at))
	}
	checkFound(ix, 65541, []string{"cercano"}, "cercano")
	enginesAgree(ix, "lejano cercano", "lejano 4", "3 65541", "cercano 65541")
}

// Two indices with one analyser, searched in turn, while documents arrive.
func S06_turns() {
	p := spanishPipeline()
	a, b := visigoth.NewMemoryIndex("i", p), visigoth.NewMemoryIndex("i", p)
	x, y := sv.StrIn("x", 1, 'a', 'z'), sv.StrIn("y", 1, 'a', 'z')
	first := visigoth.NewDocRequest("1", "primavera")
	if sv.Choose("shared", 2) == 1 {
		a.Put(first)
		b.Put(first)
	}
	for i := 0; i < 3; i++ {
		a.Put(visigoth.NewDocRequest("2", "Kas"+x+"t rojo "+itoa(i)))
		b.Put(visigoth.NewDocRequest("2", "kas"+y+"t verde "+itoa(i)))
		checkFound(a, a.Len()-1, []string{"kas" + x + "t"}, "KAS"+x+"T")
		checkFound(b, b.Len()-1, []string{"kas" + y + "t"}, "kas"+y+"t verde")
		checkFound(a, a.Len()-1, []string{"kas" + x + "t"}, "rojo kas"+x+"T")
		checkFound(b, b.Len()-1, []string{"verde"}, "verde")
		enginesAgree(a, "verde", "rojo", "kas"+y+"t")
	}
}

// A word of any kind of character, alone, next to anything that is not part of
// a word, valid UTF-8 or not.
func S06_alone() {
	r := sv.Rune("r", 0, 0x10FFFF)
	sv.Assume(alnum(r))
	i := sv.Choose("around", 7)
	before := []string{"perro ", "", "perro\xff", "perro\xc3 ", "¿", "\u200d", "´\x80"}[i]
	after := []string{"", ".", "\xff", "\u00ad", "\xe2\x82", " gato", ""}[i]
	w := string(r)
	if sv.Choose("longer", 2) == 1 {
		w = "k" + w + "k"
	}
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", "nada"))
	ix.Put(visigoth.NewDocRequest("2", before+w+after))
	checkFound(ix, 1, []string{w}, w)
	checkFound(ix, 1, []string{w}, before+w)
	checkFound(ix, 1, []string{w}, w+after)
}

// Pairs of words whose short hashes are equal, or that share beginnings.
func S06_alike() {
	pairs := [][]string{{"kAa", "kBB"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"kkkk", "kkkkk"}, {"kabk", "kbak"},
		{"informaciones", "informacionismo"}, {"programacional", "programacioneta"}, {"plumless", "buckeroo"}, {"stylist", "subgenera"}, {"codding", "gnu"}, {"exhibiters", "schlager"}}
	p := pairs[sv.Choose("pair", len(pairs))]
	x := sv.StrIn("x", 1, '0', '9')
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", p[0]+" "+p[1]+" "+p[0]+x))
	ix.Put(visigoth.NewDocRequest("2", p[1]))
	ix.Put(visigoth.NewDocRequest("3", p[0]+x+" "+p[1]+x))
	checkFound(ix, 0, p, p[0])
	checkFound(ix, 0, p, p[1])
	checkFound(ix, 0, p, p[1]+" "+p[0])
	checkFound(ix, 1, p[1:], p[1])
	checkFound(ix, 2, []string{p[1] + x}, p[1]+x)
	enginesAgree(ix, p[0], p[1], p[0]+x, p[1]+x, p[0]+" "+p[1]+x)
}

// Words that are almost stop words are words.
func S06_near() {
	all := stopWordList()
	w := all[sv.Choose("stop word", len(all))]
	l := sv.StrIn("l", 1, 'a', 'z')
	if strings.Contains(w, " ") { // "por qué" is no word
		return
	}
	rs := []rune(w)
	n := len(rs)
	switch sv.Choose("change", sv.Bound("changes", 2, 5)) {
	case 0:
		w = string(rs[:n-1]) + l
	case 2:
		w += l
	case 1:
		if n > 1 {
			w = string(rs[:n-2]) + l + string(rs[n-1:])
		}
	case 3:
		w = l + w
	case 4:
		w = l + string(rs[1:])
	}
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	ix.Put(visigoth.NewDocRequest("1", "de "+w))
	ix.Put(visigoth.NewDocRequest("2", "de 7"))
	checkFound(ix, 0, []string{"de", w}, w+" de")
}

// Words that appear and reappear, in pairs and threes.
func S06_fresh() {
	n := []int{5, 12, 40, 140}[sv.Choose("documents", sv.Bound("collection sizes", 4, 4))]
	x := sv.StrIn("x", 1, '0', '9')
	gap := 1 + sv.Choose("gap", 3)
	ix := visigoth.NewMemoryIndex("i", spanishPipeline())
	var docs [][]string
	word := func(s string, i int) string {
		if i == n/2 {
			return s + "z" + x
		}
		return s + itoa(i)
	}
	for i := 0; i < n; i++ {
		ws := []string{word("ka", i), word("kb", i), word("kc", i)}
		if i >= gap {
			ws = append([]string{word([]string{"ka", "kb", "kc"}[i%3], i-gap)}, ws...)
		}
		if i >= 2*gap {
			ws = append(ws, word([]string{"kb", "kc", "ka"}[i%3], i-2*gap))
		}
		docs = append(docs, ws)
		ix.Put(visigoth.NewDocRequest("d", strings.Join(ws, " ")))
	}
	for i, ws := range docs {
		if n < 20 || i < 12 || i > n-4 || i%16 < 2 || i == n/2 || i == n/2+gap {
			for _, w := range ws {
				checkFound(ix, i, []string{w}, w)
			}
			checkFound(ix, i, ws, strings.Join(ws, " "))
		}
	}
}

func stopWordList() []string {
	var words []string
	for w := range visigoth.SpanishStopWords {
		words = append(words, w)
	}
	sort.Strings(words)
	return words
}
