#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("T01","Tokenizing yields exactly the runs of letters and numbers",
"For every text, valid UTF-8 or not, the alphanumeric tokenizer returns exactly the maximal runs of Unicode letters and numbers, in order of appearance and byte for byte as written, and never an empty token. A tokenizer built from caller-supplied character predicates does the same for the characters that at least one predicate accepts.",
["inputs"],"every byte string and every set of character predicates",
"Tests only tokenize a few Spanish sentences through the whole pipeline; no test looks at the tokenizer's own output, at invalid UTF-8, at other scripts, or at custom predicates.",
["analyze_clean_tokenizer.go"],[("CleanTokenizer.Tokenize over strings.FieldsFunc","analyze_clean_tokenizer.go"),("NewKeepAlphanumericTokenizer predicate","analyze_clean_tokenizer.go")],
observe=["return value of Tokenize"])
p("T02","Lower-casing maps every token and only changes case",
"For every list of tokens the lower-casing filter returns a list of the same length and order in which each token is the Unicode lower case of the corresponding input token. The list it was given is left unchanged.",
["inputs"],"every list of tokens, every token content",
"Tests lower-case a handful of ASCII capitals as a side effect of indexing; mixed scripts, empty tokens and long lists are never examined.",
["analyze_lowercase_filter.go"],[("LowerCaseFilter.Filter","analyze_lowercase_filter.go")],observe=["return value and argument of Filter"])
p("T03","Stop-word filtering removes exactly the stop words",
"For every token list and every stop-word set, the stop-word filter returns exactly the tokens that are not in the set, in their original order and multiplicity. The list it was given is left unchanged, and no stop word is ever let through.",
["inputs","configurations"],"every token list and every stop-word set, including the built-in Spanish one",
"Tests use one set and sentences in which filtering has no asserted effect.",
["analyze_stopwords_filter.go"],[("StopWordsFilter.Filter","analyze_stopwords_filter.go"),("SpanishStopWords table","analyze_stopwords_filter.go")],observe=["return value and argument of Filter"])
p("T04","A pipeline applies its stages once, in order, without memory",
"Analysing a text with a pipeline gives the tokenizer's output passed through every configured filter exactly once, in the configured order. The tokens of a text depend on that text and the configuration only, never on what the pipeline processed before.",
["inputs","histories","configurations"],"every text, every number and order of filters, every history of earlier calls",
"Tests use one fixed pipeline and never check stage order, stage count or independence of earlier calls.",
["analyze_compose.go"],[("TokenizationPipeline.Tokenize","analyze_compose.go"),("NewTokenizationPipeline","analyze_compose.go")],observe=["return value of Tokenize","calls received by tokenizer and filters"])
p("T05","Stemming maps each token to its own Spanish stem",
"For every token list the stemming filter returns one token per input token, in order, each being the Spanish Snowball stem of that token alone under the configured stop-word flag. The list it was given is left unchanged.",
["inputs","configurations"],"every token list, both flag settings",
"Tests only see stems indirectly: equal words still match each other, which stays true for many wrong stemming functions.",
["analyze_stem_filter.go"],[("SpanishStemmerFilter.Filter","analyze_stem_filter.go")],observe=["return value and argument of Filter"])
p("T06","Word regions R1, R2 and RV follow the Snowball definition",
"For every word, R1 is the part after the first non-vowel that follows a vowel, R2 is the same region computed inside R1, and RV is the part after the next vowel if the second letter is a consonant, after the next consonant if the first two letters are vowels, and after the third letter otherwise; a region that cannot be found is empty. Regions are suffixes of the word itself.",
["inputs"],"every word over the whole character repertoire, accented vowels and very short words included",
"The test checks four words; words whose R1 is empty, one- and two-letter words, all-vowel words and multi-byte letters at region borders are not among them.",
["stemmer_spanish_snowball.go"],[("R1R2RV","stemmer_spanish_snowball.go"),("vowel table and isVowel","stemmer_spanish_snowball.go")],observe=["the three slices returned by R1R2RV"])
p("X01","The inverted index lists exactly the documents with a token",
"After any sequence of puts into an index, looking up a token gives exactly the positions, in ascending order and each once, of the documents whose indexed text contains that token, and nothing for other tokens. The index holds one document per put, in put order.",
["inputs","histories"],"every sequence of puts, every token content, repeated tokens, repeated and empty documents",
"Tests put at most four documents with fixed words and only check search result counts, not the postings.",
["index_memory_index.go"],[("MemoryIndex.Put","index_memory_index.go"),("MemoryIndex.Indexed / Document / Len","index_memory_index.go")],
state=[("Docs","documents in put order","index_memory_index.go"),("InvertedIndex","token to positions","index_memory_index.go")],observe=["Len, Document and Indexed of the index"])
p("X02","What an index hands out is a snapshot",
"Postings, documents and search results obtained from an index never change because of later puts or searches. Modifying a returned list or the token list given to an engine never changes what the index later returns. Engines leave the token list they are given unchanged.",
["histories","inputs"],"every interleaving of lookups, caller-side modifications, puts and searches",
"Tests never keep a result across a later put and never modify a returned slice; aliasing shows only for particular slice capacities.",
["index_memory_index.go","search_hits_search.go","search_linear_search.go","search_noop_search.go"],[("copy in MemoryIndex.Indexed","index_memory_index.go"),("result slices built by the engines","search_hits_search.go")],observe=["earlier results re-read after later operations"])
p("X03","A stored document is returned exactly as it was put",
"Every result's document carries the identifier and content given when it was put, byte for byte, whether or not a separate statement or mime type was supplied. When a separate statement is supplied, the statement alone decides which searches match.",
["inputs"],"every identifier, content, statement and mime type, including duplicates and empty strings",
"Tests compare a few identifiers and never use a separate statement or look at content.",
["entities_request.go","entities_doc.go","index_memory_index.go"],[("NewDocRequest*, accessors","entities_request.go"),("MemoryIndex.Put builds the stored document","index_memory_index.go")],observe=["Document of every search result"])
p("S01","Hits search returns exactly the documents with all query words",
"For every index content and every query with at least one token, hits search returns each stored document that contains every query token exactly once, and no other, even when several documents share an identifier. For a query of distinct tokens each result reports that number of tokens as its hits, and a query without tokens returns nothing.",
["inputs","histories"],"every index content (duplicate identifiers included) and every query (repeated and unknown tokens included)",
"Tests use distinct identifiers and a few fixed queries; hits are accumulated per document identity, so duplicate identifiers, repeated query tokens and unknown tokens take paths no test reaches.",
["search_hits_search.go"],[("HitsSearch counting and threshold","search_hits_search.go")],observe=["results of Search with HitsSearch"])
p("S02","Linear search returns exactly the documents with all query words",
"For every index content and every query with at least one token, linear search returns each stored document that contains every query token exactly once, and no other, each reporting the number of query tokens as its hits. A query without tokens returns nothing.",
["inputs","histories"],"every index content and every query",
"Tests try a few fixed queries with one to three tokens; the merge of postings depends on the relative order of all positions.",
["search_linear_search.go"],[("intersection two-pointer merge","search_linear_search.go"),("LinearSearch","search_linear_search.go")],observe=["results of Search with LinearSearch"])
p("S03","Result order is ranked and reproducible",
"Hits search never places a result before one with more hits and orders results with equal hits by ascending document identifier; linear search keeps the order in which documents were put. Repeating a search on an unchanged index gives the same sequence, whatever order maps are iterated in.",
["inputs","schedules"],"every index content and query, every map iteration order",
"Tests repeat a search a few times on documents already put in identifier order and cannot choose map iteration orders.",
["search_hits_search.go","search_result.go","search_linear_search.go"],[("SearchResults.Less and sort","search_result.go"),("index-order collection in HitsSearch","search_hits_search.go")],observe=["sequence of results"])
p("S04","The noop engines return everything or nothing",
"The all-documents engine returns every stored document once, in put order, with zero hits, whatever the query. The empty engine returns nothing for every index and query.",
["inputs"],"every index content and query",
"Tests only use the all-documents engine to check that no error is returned.",
["search_noop_search.go"],[("NoopAllSearch, NoopZeroSearch","search_noop_search.go")],observe=["results of Search"])
p("S05","Searching never changes an index",
"Running any engine with any query any number of times leaves the documents, their order and the postings of the index as they were, and does not influence later puts or searches.",
["histories","inputs"],"every history of searches between puts, every query, every engine",
"One test compares two lengths after five identical searches; contents and later behaviour are not compared.",
["index_memory_index.go","search_hits_search.go","search_linear_search.go"],[("MemoryIndex.Search and Indexed","index_memory_index.go")],observe=["index contents before and after; later results compared with an index never searched"])
p("S06","A document is found by its own words through the full pipeline",
"With the Spanish pipeline (alphanumeric tokenizer, lower-casing, stop words, stemming) a stored document is found, by hits search and by linear search, with every query made of words of its own text, in any letter case of plain letters and with any punctuation between the words, provided the query is not all stop words. Both engines return the same documents for the same query.",
["inputs"],"every text and every query built from its words",
"Tests try about ten sentences, all lower-case plain queries.",
["analyze_clean_tokenizer.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go","analyze_compose.go","index_memory_index.go"],[("same pipeline used by Put and Search","index_memory_index.go")],observe=["results of Search after Put"])
p("E01","Document identity depends on the identifier alone",
"Two documents have equal hash keys when they have equal identifiers, whatever their contents. Documents whose identifiers differ have different hash keys, for identifiers within the range in which a 64-bit FNV hash is free of collisions.",
["inputs"],"every pair of documents",
"No test looks at hash keys.",
["entities_hash.go"],[("Doc.Hash (FNV-1 64)","entities_hash.go")],observe=["equality of hash keys"])
p("J01","A search result survives JSON encoding and decoding",
"Encoding a search result to JSON and decoding it again gives back the same identifier, content and hits, for every valid UTF-8 identifier and content and every hit count. The encoding is an object with members doc (holding id and raw) and hits.",
["inputs"],"every search result",
"No test touches the JSON code; escapes, control characters, multi-byte text and extreme counts are where encoders go wrong.",
["search_result_easyjson.go","search_result.go"],[("generated MarshalJSON / UnmarshalJSON","search_result_easyjson.go")],observe=["bytes of MarshalJSON; fields after UnmarshalJSON"])
p("J02","JSON decoding is tolerant of layout and safe on bad input",
"Decoding a search result accepts members in any order, ignores unknown members, and leaves members given as null unchanged. On arbitrary bytes it never panics. A truncated encoding, a member of the wrong type and anything but white space after the result are reported as an error.",
["inputs"],"every byte sequence, every member order",
"No test touches the JSON code.",
["search_result_easyjson.go"],[("generated decoders over jlexer","search_result_easyjson.go")],observe=["error and fields after UnmarshalJSON"])
p("R01","A put reaches exactly the indices its name stands for",
"Putting a document under the name of an existing index adds it once to that index; under a name that is only an alias, once to every index the alias points at; under any other name it creates an index of that name holding just that document. No other index and no alias changes.",
["histories","inputs"],"every repository history and every name, including aliases named like indices",
"Tests put by alias once and do not check where the document went.",
["repos_repo.go"],[("IndexRepo.Put and name resolution","repos_repo.go")],state=[("indices","name to index","repos_repo.go"),("aliases","alias to index names","repos_repo.go")],observe=["Has, List, Search of every name after the put"])
p("R02","A search covers exactly the indices its name stands for",
"Searching under the name of an existing index returns that index's results; under a name that is only an alias, the results of every index it points at, each once; under any other name an error and no results. The returned stream yields every result exactly once and ends without error, and searching changes nothing.",
["histories","inputs"],"every repository history and every name and query",
"Tests search through one alias over at most two indices with fixed words.",
["repos_repo.go"],[("IndexRepo.Search","repos_repo.go")],observe=["stream contents and error of Search"])
p("R03","Aliases hold exactly the associations that were made",
"Adding an alias succeeds, and is reported as added, exactly when the index exists and the alias does not already point at it; removing one index from an alias, or a whole alias, removes exactly that and reports whether the alias existed (for an index that does not exist, nothing is removed and reported). At any time an alias is reported exactly when it points at at least one index, every index it points at exists and is listed once, and no document put under an alias is ever lost.",
["histories","inputs"],"every history of repository operations over any names",
"Tests make and remove a single alias; removing the last or a missing association, repeated adds and mixed sequences are not tried.",
["repos_repo.go"],[("IndexRepo.Alias, UnAlias, HasAlias, ListAliases","repos_repo.go")],state=[("aliases","alias to index names","repos_repo.go")],observe=["return values; HasAlias, ListAliases, Search afterwards"])
p("R04","Renaming moves an index with its documents and aliases",
"Renaming an existing index makes exactly its documents available under the new name, with every alias that pointed at the old name now pointing at the new one exactly once; the old name is gone and, apart from an index formerly holding the new name being replaced, nothing else changes. Renaming an index to its own name changes nothing and renaming a missing index fails and changes nothing.",
["histories","inputs"],"every repository state and every pair of names, equal names and occupied targets included",
"Tests rename once to a fresh name and only check that a search by alias gives no error.",
["repos_repo.go"],[("IndexRepo.Rename","repos_repo.go")],observe=["Has, List, ListAliases, Search after Rename"])
p("R05","Dropping removes an index and every reference to it",
"Dropping an existing index removes it from the repository and from every alias, an alias left pointing at nothing disappears, and all other indices and aliases stay as they were. Dropping a missing index, or a name that is only an alias, fails and changes nothing.",
["histories","inputs"],"every repository state and every name",
"Tests drop one index with at most one alias to it.",
["repos_repo.go"],[("IndexRepo.Drop","repos_repo.go")],observe=["Has, HasAlias, List, ListAliases, Search after Drop"])
p("R06","Listings handed out by a repository are snapshots",
"Index and alias listings and search streams returned by a repository describe the moment of the call: no later operation changes a listing already returned. Modifying a returned listing never changes the repository or another listing.",
["histories","inputs"],"every history of operations after a listing is taken",
"No test reads a listing at all.",
["repos_repo.go"],[("IndexRepo.List, ListAliases, Search","repos_repo.go")],observe=["earlier listings re-read after later operations"])
p("C01","Every repository operation returns: no deadlock, no lock left held",
"Whatever operations were executed before and whatever operations run concurrently, every repository operation eventually returns and does not panic. In particular an operation that fails, for example because a name is unknown, never blocks later operations.",
["schedules","histories"],"every history and every interleaving of concurrent operations",
"Tests are single threaded and never call anything after a failed operation that takes the other lock.",
["repos_repo.go"],[("lock and unlock discipline of IndexRepo","repos_repo.go")],state=[("indicesMu, aliasesMu","locks guarding the two maps","repos_repo.go")],observe=["completion of every operation"])
p("C02","Concurrent use of a repository is free of data races",
"When goroutines use one repository concurrently, through any of its operations and while reading results and listings it returned, no two of them access the same memory without synchronisation when at least one writes.",
["schedules","histories"],"every combination of concurrent operations and every interleaving",
"The race detector runs on tests that start no goroutines except inside one multi-index search.",
["repos_repo.go","index_memory_index.go"],[("RWMutex pairs in IndexRepo","repos_repo.go"),("per-index goroutines in Put and Search","repos_repo.go")],observe=["memory accesses of concurrent operations"])
p("C03","Concurrent repository operations are atomic",
"The results and the final state of operations executed concurrently are those of executing them one after another in some order consistent with real time. In particular no document whose put returned is lost, and of concurrent drops of one index only one succeeds.",
["schedules","histories"],"every combination of concurrent operations and every interleaving",
"Tests are single threaded; the windows are between two lock sections of one operation.",
["repos_repo.go"],[("lock sections of Put, Drop, UnAlias, Rename, Search","repos_repo.go")],observe=["return values and final contents compared with sequential executions"])
p("J03","A memory index survives generic JSON encoding",
"Encoding a memory index with the standard JSON package and decoding it into a new index with the same analyser preserves documents and postings for every index of valid UTF-8 texts, so that searches give the same results and later puts have the same effect.",
["inputs"],"every index content of valid UTF-8",
"No test encodes an index.",
["index_memory_index.go","entities_doc.go"],[("exported fields and JSON tags of MemoryIndex and Doc","index_memory_index.go")],observe=["documents, postings and searches after decoding"])
p("J04","Decoding understands every JSON escape",
"Decoding a search result understands every JSON string escape, in values and in member names: the short escapes, \\u escapes of any character, and surrogate pairs. A text decodes to the same result however its characters are escaped.",
["inputs"],"every way of writing the same JSON value",
"Tests decode only what the encoder itself writes.",
["search_result_easyjson.go","search_result.go"],[("generated decoder for HitsSearchResult and Doc fields","search_result_easyjson.go")],observe=["decoded document, identifier and hits"])
p("X04","Indices built by one builder are independent",
"Every call of an index builder gives a new empty index, also for a name used before. Puts into and searches of one index never change what another index holds or returns, even though they share their analyser.",
["inputs","histories"],"every interleaving of puts and searches over several indices of one builder",
"Tests give every index its own analyser and never build two of one name.",
["index_memory_index.go"],[("NewMemoryIndexBuilder, NewMemoryIndex","index_memory_index.go")],observe=["documents, postings and searches of every index"])
p("S07","An engine gets the analysed query and its results are returned",
"A search, of an index or through a repository, calls the given engine once for every index searched with exactly the tokens the analyser makes of the query, repetitions and order included, and with access to all documents and postings of that index. It returns exactly the results the engine returned, and those of one index in the engine's order, whatever function the engine is.",
["inputs","configurations"],"every engine, every query and every index content",
"Tests only use the built-in engines, which hide repeated, reordered or missing tokens.",
["index_memory_index.go","repos_repo.go","search_search.go"],[("MemoryIndex.Search","index_memory_index.go"),("IndexRepo.Search","repos_repo.go")],observe=["calls received by the engine; results of the search"])
p("R07","A repository works with any index implementation",
"An index is created by the configured builder exactly when a document is put under a name that stands for nothing, once and with that name. Every document put and every query searched is passed on unchanged and once to each index its name stands for, renaming keeps the very same index, and a search yields exactly what these indices return.",
["configurations","inputs","histories"],"every builder and index implementation, every name and document",
"Tests only use memory indices, for which building twice or passing on an altered request goes unnoticed.",
["repos_repo.go","index_index.go"],[("indexBuilder call in IndexRepo.Put","repos_repo.go"),("Put and Search over the indices of a name","repos_repo.go")],observe=["calls received by builder and indices"])
p("P01","The printed form of an index or repository is complete",
"Printing an index shows its name and, for each of its tokens once, the number and the ascending positions of the documents that contain it. Printing a repository shows each of its indices once. Printing changes nothing.",
["inputs"],"every index content and every repository",
"No test prints an index or repository.",
["index_memory_index.go","repos_repo.go"],[("MemoryIndex.String","index_memory_index.go"),("IndexRepo.String","repos_repo.go")],observe=["result of String"])
order="TXSEJPRC"
P.sort(key=lambda x:(order.index(x["id"][0]),x["id"]))
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if __import__("os").path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for x in P: jsonschema.validate(x,sch)
print(len(P))
