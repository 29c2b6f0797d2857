From 4458c6f030c5eaee1fd63faa3d9792a1192faff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:58 +0000
Subject: [PATCH 01/20] fix: col_match_results_get_relevancy returned the
 document ID

---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 5b6dc627d156f3351e1ea30f8a03e53a50f5d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:02 +0000
Subject: [PATCH 02/20] fix: charge unmatched leading query letters the
 insertion error

---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..7e532b3 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -105,7 +105,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From 6367ac4c838eb44a64919359eaac4bdd87ce13a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:05 +0000
Subject: [PATCH 03/20] fix: do not cut off branches that a transposition can
 still bring within the limit

---
 src/LevenshteinIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7e532b3..dcfd6cb 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -154,7 +154,8 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition skips one row, so the previous row also has to be considered.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From 0f5e1198f31f8aae753bb8c8c39cec063c7095a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:09 +0000
Subject: [PATCH 04/20] fix: do not write the terminating null past the end of
 the buffer

---
 src/ColumbusHelpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..4d56519 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -104,8 +104,12 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
         throw std::runtime_error("Could not create iconv converter.");
     }
 
+    if(bufsize == 0) {
+        iconv_close(ic);
+        throw std::runtime_error("Buffer too small for UTF-8 conversion.");
+    }
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize - 1; // Leave room for the terminating null.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
-- 
2.43.0


From 0eb8b6fe15e348734a8ea4bc78eacab8774d9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:12 +0000
Subject: [PATCH 05/20] fix: reject unpaired high surrogates instead of
 accepting or asserting

---
 src/Word.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..9975584 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -175,11 +175,10 @@ bool Word::hasBrokenSurrogates() {
 	}
 
         if(cur.isSurrogate()) {
-            if(expectHigh && !cur.isHighSurrogate()) {
+            if(expectHigh != cur.isHighSurrogate()) {
                 return true;
             }
 
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
             if(expectHigh) {
                 expectHigh = false;
                 expectSurrogate = true;
@@ -196,7 +195,7 @@ bool Word::hasBrokenSurrogates() {
         }
 #endif /* 0 */
     }
-    return false;
+    return expectSurrogate;
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From a7b06b15993464682d9735572872221dcf02be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:16 +0000
Subject: [PATCH 06/20] fix: do not read before the letters when building an
 empty word

---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 9975584..4aef14e 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -60,7 +60,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From 43471096d5cf17f81187dd88a0c8162f98f25968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:19 +0000
Subject: [PATCH 07/20] fix: leave a word empty when an assignment is refused

---
 src/Word.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 4aef14e..8375fd7 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -94,6 +94,7 @@ void Word::convertString(const char *utf8Word) {
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
@@ -101,6 +102,7 @@ void Word::convertString(const char *utf8Word) {
     else if(hasBrokenSurrogates()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
-- 
2.43.0


From abf7b17210ea38c4616cfbd5e8f166dd2f3c5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:23 +0000
Subject: [PATCH 08/20] fix: allow copy assignment to moved-from word lists and
 results

---
 src/MatchResults.cc | 2 ++
 src/WordList.cc     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..5ac3570 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -61,6 +61,8 @@ const MatchResults& MatchResults::operator=(MatchResults &&other) {
 
 const MatchResults& MatchResults::operator=(const MatchResults &other) {
     if(this != &other) {
+        if(!p) // We have been moved from.
+            p = new MatchResultsPrivate();
         *p = *other.p;
     }
     return *this;
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..c4eb6a6 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -64,6 +64,8 @@ void WordList::addWord(const Word &w) {
 const WordList& WordList::operator=(const WordList &l) {
     if(this == &l)
         return *this;
+    if(!p) // We have been moved from.
+        p = new WordListPrivate();
     p->words = l.p->words;
     return *this;
 }
-- 
2.43.0


From 1426d361599196e912e1ee6dc0ad5e8f4a5eba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:27 +0000
Subject: [PATCH 09/20] fix: copy the result that is visible at the given
 position

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index 5ac3570..6b9dd06 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -90,6 +90,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired();
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From f103ba022753a6fc79b3b50c5d9329228a57ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:31 +0000
Subject: [PATCH 10/20] fix: a refused error group must not change anything

---
 src/ErrorValues.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..df5261c 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -133,15 +133,14 @@ void ErrorValues::clearErrors() {
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     size_t newGroupID = p->groupErrors.size();
+    // Check everything first so that a refused group does not leave anything behind.
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters, error);
 
-- 
2.43.0


From 8b213991898fbb0295da9a4959548f8e94d0e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:38 +0000
Subject: [PATCH 11/20] fix: give letters in the lookup table the same costs as
 all other letters

---
 include/ErrorValues.hh | 2 +-
 src/ErrorValues.cc     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..054ae35 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -53,7 +53,7 @@ private:
 
     void clearLUT();
     void addToLUT(Letter l1, Letter l2, int value);
-    void addGroupErrorToLUT(const Word &groupLetters, const int error);
+    void addGroupErrorToLUT(const Word &groupLetters);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index df5261c..3f2586d 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -87,7 +87,7 @@ void ErrorValues::setError(Letter l1, Letter l2, const int error) {
     }
     pair<Letter, Letter> in(l1, l2);
     p->singleErrors[in] = error;
-    addToLUT(l1, l2, error);
+    addToLUT(l1, l2, substituteErrorSlow(l1, l2));
 }
 
 int ErrorValues::getSubstituteError(Letter l1, Letter l2) const {
@@ -142,19 +142,19 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     for(size_t i = 0; i < groupLetters.length(); i++) {
         p->groupMap[groupLetters[i]] = newGroupID;
     }
-    addGroupErrorToLUT(groupLetters, error);
+    addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
-void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error) {
+void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
             Letter l1 = groupLetters[i];
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
-            addToLUT(l1, l2, error);
+            addToLUT(l1, l2, substituteErrorSlow(l1, l2));
         }
     }
 }
-- 
2.43.0


From 1185ddfa55f4f721b0de04174210f8d6aaf17c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:41 +0000
Subject: [PATCH 12/20] fix: take all neighbouring number pad keys into account

---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 3f2586d..f41c8bf 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -247,11 +247,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i > 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j > 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From 0d062a312b1da87d1b34044e8476c010619c9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:45 +0000
Subject: [PATCH 13/20] fix: release conversion buffers when text is refused

---
 src/ColumbusHelpers.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 4d56519..3edde8c 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []txt;
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
@@ -173,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
-- 
2.43.0


From ec3c049e993761dfcb63f827f38dcaf8c15ab400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:48 +0000
Subject: [PATCH 14/20] fix: do not read before an empty COLUMBUS_DATADIR

---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..10d09ee 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -38,7 +38,7 @@ string findDataFile(const string &baseName) {
     envvarDir = getenv(varname);
     if(envvarDir) {
         s = envvarDir;
-        if(s[s.length()-1] != '/')
+        if(s.empty() || s[s.length()-1] != '/')
             s += "/";
         s += baseName;
     } else {
-- 
2.43.0


From 2e09d28e5f748a30fd94e1746d9197062425032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:51 +0000
Subject: [PATCH 15/20] fix: accept the empty word in word stores

---
 src/Trie.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..ab7aa4a 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -169,10 +169,9 @@ TrieOffset Trie::addNewSibling(const TrieOffset node, const TrieOffset sibling,
 TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
     size_t i=0;
     TrieOffset node = p->root;
-    Letter lw = word[0];
 
     // A word mustn't begin with a broken surrogate pair.
-    if(lw.isSurrogate() && !lw.isHighSurrogate()) {
+    if(word.length() > 0 && word[0].isSurrogate() && !word[0].isHighSurrogate()) {
         assert(false);
     }
 
-- 
2.43.0


From 877dc45500e7c52e9aecfc7e803a9b0e6fef2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:56 +0000
Subject: [PATCH 16/20] fix: filtering must not add words to the matcher

---
 src/Matcher.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..608e582 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,7 +237,9 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
-        bool termFound = p->reverseIndex.documentHasTerm(
+        // Do not add unknown words to the store just because someone filters with them.
+        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
+                p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
             return false;
-- 
2.43.0


From 3ebd217be49f4aabeebe9cceb70cafc6dfe88c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:01 +0000
Subject: [PATCH 17/20] fix: refuse a primary index that is only known as a
 word

---
 src/Matcher.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 608e582..d856f1d 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -416,7 +416,8 @@ MatchResults Matcher::onlineMatch(const WordList &query, const Word &primaryInde
     MatchResults results;
     set<DocumentID> exactMatched;
     map<DocumentID, double> accumulator;
-    if(!p->store.hasWord(primaryIndex)) {
+    if(!p->store.hasWord(primaryIndex) ||
+            p->indexes.find(p->store.getID(primaryIndex)) == p->indexes.end()) {
         string msg("Index named ");
         msg += primaryIndex.asUtf8();
         msg += " is not known";
-- 
2.43.0


From 5fd8b05ed503ebdef9e0e543ef61e8eb1ee7fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:05 +0000
Subject: [PATCH 18/20] fix: release the mapping, file and private data of a
 trie

---
 src/Trie.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index ab7aa4a..ab34c11 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
@@ -89,6 +96,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From 6426a0a1386acc04134be796e0b9200b57b1b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:08 +0000
Subject: [PATCH 19/20] fix: keep the trie intact when its file cannot be grown
 or mapped

---
 src/Trie.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index ab34c11..9992aef 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -102,30 +102,28 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
-    TrieOffset newSize;
-    if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
-        newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
-    } else {
-        newSize = 1024;
-    }
+    const TrieOffset oldSize = p->map ? p->h->totalSize : 0;
+    const TrieOffset newSize = p->map ? oldSize*2 : 1024;
     if(ftruncate(fileno(p->f), newSize) != 0) {
         string err = "Truncate failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    // Keep the old mapping until the new one is known to work.
+    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        string err = "Munmap failed: ";
+        err += strerror(errno);
+        munmap(newMap, newSize);
+        throw runtime_error(err);
+    }
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
-- 
2.43.0


From 8115fd274f4a80ee6ead4a860247ec0a58ed7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:15 +0000
Subject: [PATCH 20/20] fix: letters of a word are accessed by full size_t
 position

Word::operator[] took an unsigned int, so positions of 2^32 and above
were silently truncated and gave some letter instead of being refused.
---
 include/Word.hh | 2 +-
 src/Word.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Word.hh b/include/Word.hh
index 250f8bc..267c418 100644
--- a/include/Word.hh
+++ b/include/Word.hh
@@ -57,7 +57,7 @@ public:
 
     Word join(const Word &w) const;
 
-    Letter operator[](unsigned int i) const;
+    Letter operator[](const size_t i) const;
     bool operator==(const Word &w) const;
     bool operator==(const std::string &utf8Str) const;
     bool operator==(const char *utf8Word) const;
diff --git a/src/Word.cc b/src/Word.cc
index 8375fd7..f329e8d 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -123,7 +123,7 @@ void Word::duplicateFrom(const Word &w) {
     }
 }
 
-Letter Word::operator[](unsigned int i) const {
+Letter Word::operator[](const size_t i) const {
     if(i >= len) {
         std::string msg("Tried to access letter ");
         msg += i;
-- 
2.43.0

