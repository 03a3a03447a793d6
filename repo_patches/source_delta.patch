From 24842988a62bef9e780351dcb75e61280dc25fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:46 +0000
Subject: [PATCH 1/9] fix: count hits per document, not per identifier hash

Documents sharing an identifier were counted together, so hits search could
return a document lacking query words, and the same document twice.
---
 search_hits_search.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..e30c422 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,9 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using document index as key, as several
+	// documents may share an identifier)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -58,17 +59,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
-			doc := indexer.Document(index)
-			hashKey := doc.Hash()
-
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
-					Document: doc,
+				docHits[index] = SearchResult{
+					Document: indexer.Document(index),
 					Hits:     1,
 				}
 			}
@@ -81,11 +79,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From eb9949d4c8ef0d99a3ee673f3a4be2c2b88b52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:44 +0000
Subject: [PATCH 2/9] fix: release locks on every return of UnAlias

Unknown indices and unknown aliases left a lock held, blocking every later
writer. The index lock is kept until the alias is updated, so that a rename in
between cannot be missed.
---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From 965cf489fba0b766a689e4e471df848a987a5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:47 +0000
Subject: [PATCH 3/9] fix: remove an alias with its last index in UnAlias

An alias without indices swallowed every document put under it.
---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From 75b6db37c87fff8126a1dbf42e301efc66b10145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 4/9] fix: keep the index when renaming it to its own name

---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..fe63b66 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -146,6 +146,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From 5759cb9ff9ddf964e78b585efeda21a2e5412c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 5/9] fix: update aliases under their lock in Rename

Aliases were modified in place without the alias lock, racing with readers, and
an alias of both the old and the new name ended up holding the new one twice.
---
 repos_repo.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index fe63b66..f61480b 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -154,13 +154,25 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
+	h.aliasesMu.Lock()
+	for alias, indices := range h.aliases {
+		var newIndices []string
+		hasNew := false
+		for _, indexName := range indices {
 			if indexName == old {
-				indices[i] = new
+				indexName = new
 			}
+			if indexName == new {
+				if hasNew {
+					continue
+				}
+				hasNew = true
+			}
+			newIndices = append(newIndices, indexName)
 		}
+		h.aliases[alias] = newIndices
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From f47a2fdc59bf63233eed5ca438d8d1b30fb5f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 6/9] fix: resolve the index name under the write lock in Put

Two puts creating the same index could both find it missing, and the second
replaced the index, and the document, of the first.
---
 repos_repo.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index f61480b..ec5dbed 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -232,8 +232,8 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
@@ -298,12 +298,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices requires indicesMu to be held by the caller
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -311,14 +310,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From 64c4ee22f0dfe7dec81fa2d585e7f2a0c695e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:56 +0000
Subject: [PATCH 7/9] fix: check and drop an index under one lock

Concurrent drops of one index could both report success.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index ec5dbed..55284d4 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -256,14 +256,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From 4cc0df64a02f070f78ce48890a539d2180820349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 8/9] fix: return copies of the alias lists from ListAliases

The listing shared memory with the repository.
---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 55284d4..e01e23e 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -289,7 +289,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From c6c351fc8db35d8f7f6674dd4853706da02a6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 9/9] fix: compute RV for words without R1

Words such as "trae" have an RV although their R1 is empty.
---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0

