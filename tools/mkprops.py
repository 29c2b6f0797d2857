#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A fuzzy lookup reports the true minimum edit cost of every match",
  "For every dictionary word returned by a fuzzy lookup, the reported error is exactly the cheapest total cost of turning the query into that word by insertions, deletions, letter substitutions and swaps of two adjacent letters (restricted Damerau-Levenshtein), under the currently configured costs. Letters of the dictionary word skipped before the first query letter cost the start-insertion error each, letters left over after the last query letter cost the end-deletion error each, every other skipped dictionary letter costs the deletion error and every superfluous query letter costs the insertion error. This holds for any combination of non-negative costs, including insertion and deletion costs that differ and the built-in substring mode.",
  ["inputs", "configurations"],
  "all query words, all dictionary words, all non-negative error configurations",
  "The tests compare a dozen hand-picked word pairs at the default costs; the claim ranges over all words and all cost settings, most of which (insertion cost different from deletion cost, cheap swaps, substring mode with short queries) no test sets.",
  ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/ErrorValues.cc", "include/ErrorValues.hh"],
  [("row-by-row dynamic programme over the trie", "src/LevenshteinIndex.cc: findWords, searchRecursive, findOptimalError"),
   ("boundary row/column of the error matrix", "src/ErrorMatrix.cc: constructor")],
  [("error matrix", "row d = cost of each query prefix against the current d-letter trie path", "src/ErrorMatrix.cc")],
  ["LevenshteinIndex::findWords", "IndexMatches::getMatchError"])

p("C02", "A fuzzy lookup finds exactly the words within the error limit, best first",
  "A fuzzy lookup returns every indexed word whose edit cost to the query is at most the given maximum error and no other word, each exactly once, listed in non-decreasing order of error. The outcome does not depend on the order in which words were inserted, on other words sharing prefixes, or on earlier lookups, and a lookup never changes the index. Cutting off branches of the search must never lose a word that is within the limit, whatever non-negative costs are configured.",
  ["inputs", "configurations", "histories"],
  "all dictionaries, insertion orders, queries, error limits and non-negative cost settings",
  "Tests check lookups over dictionaries of one to three words at default costs; pruning errors only show for particular combinations of prefix, limit and cost configuration.",
  ["src/LevenshteinIndex.cc", "src/IndexMatches.cc", "src/ErrorMatrix.cc", "src/Trie.cc"],
  [("row-minimum pruning", "src/LevenshteinIndex.cc: searchRecursive"), ("sort by error", "src/IndexMatches.cc: sort")],
  [("match list", "matched word IDs and errors", "src/IndexMatches.cc: IndexMatchesPrivate")],
  ["LevenshteinIndex::findWords", "IndexMatches"])

p("C03", "A word index is an exact multiset of the inserted words",
  "After any sequence of insertions, an index reports a word as present if and only if that word (not merely a prefix, extension or variant of it) was inserted; the number of distinct words, the count of each word and the highest count equal those of the insertion history; inserting the empty word changes nothing. This stays true when the backing storage has to grow while words are being added.",
  ["histories", "inputs"],
  "all insertion histories (with repeats, shared prefixes, words that are prefixes of others, storage growth)",
  "Tests insert at most four short ASCII words; they never exercise storage growth, prefix/extension interplay in every order, or letters beyond Latin-1.",
  ["src/LevenshteinIndex.cc", "src/Trie.cc"],
  [("sibling-list trie insert/find", "src/Trie.cc: insertWord, findWord"), ("growth by remapping", "src/Trie.cc: expand, append"), ("count table", "src/LevenshteinIndex.cc: insertWord")],
  [("trie nodes", "word ID or none, parent, sibling chain", "src/Trie.cc: TrieNode, TriePtrs"), ("wordCounts/maxCount", "how often each word was added", "src/LevenshteinIndex.cc")],
  ["LevenshteinIndex::hasWord/wordCount/maxCount/numWords"])

p("C04", "The word store is a stable one-to-one mapping between words and IDs",
  "Asking the word store for the ID of a word gives equal words the same ID and different words different IDs, numbered densely in order of first appearance, and an ID once handed out never changes. Looking an ID up gives back exactly the word it was issued for, a word is reported as known only once it has been given an ID, and an ID that was never issued is reported as unknown and its lookup is refused with an out-of-range error.",
  ["histories", "inputs"],
  "all sequences of words presented to the store and all IDs queried, including across storage growth",
  "Tests store two words; uniqueness and stability quantify over all histories and over all words.",
  ["src/WordStore.cc", "src/Trie.cc", "src/Word.cc"],
  [("trie lookup before insert", "src/WordStore.cc: getID"), ("word rebuilt by walking parents", "src/Trie.cc: getWord, getSiblingTo")],
  [("wordIndex", "trie node of every ID", "src/WordStore.cc: WordStorePrivate")],
  ["WordStore::getID/getWord/hasWord"])

p("C05", "Text becomes words faithfully: decoded, lower-cased, validated",
  "Building a word from well-formed UTF-8 text without whitespace yields exactly the UTF-16 code units of that text, each lower-cased, so texts differing only in (simple) case give equal words; the length is the number of code units. Text that contains a space, tab, newline or carriage return is rejected with an invalid-argument error, ill-formed UTF-8 (bad, overlong, truncated or surrogate sequences) is rejected with an error, and building a word directly from letters rejects whitespace and unpaired surrogates anywhere in the word, including at its end.",
  ["inputs"],
  "all byte strings and all letter sequences",
  "Tests try a handful of literals; acceptance and rejection are claims about every byte string and every letter sequence.",
  ["src/Word.cc", "src/ColumbusHelpers.cc", "include/ColumbusCore.hh.in"],
  [("conversion and lower-casing", "src/ColumbusHelpers.cc: utf8ToInternal"), ("whitespace and surrogate validation", "src/Word.cc: hasWhitespace, hasBrokenSurrogates"), ("surrogate classification", "include/ColumbusCore.hh.in: isHighSurrogate, isLowSurrogate")],
  [("text/len", "code units of the word", "include/Word.hh")],
  ["Word constructors", "Word::operator[]", "Word::length"])

p("C06", "Words convert back to the same text and never overrun the caller's buffer",
  "Converting any word to UTF-8 gives the UTF-8 encoding of exactly its letters, so building a word from that text again gives an equal word. When converting into a caller-supplied buffer, nothing outside the stated buffer size is ever written: if the encoded text and its terminating zero byte fit they are written, otherwise an error is raised.",
  ["inputs"],
  "all words and all buffer sizes",
  "Tests convert a few words into buffers that are known to be big enough; exact-fit and too-small buffers for arbitrary words are never tried.",
  ["src/Word.cc", "src/ColumbusHelpers.cc", "src/ColumbusCAPI.cc"],
  [("conversion with output limit", "src/ColumbusHelpers.cc: internalToUtf8"), ("worst-case sized temporary", "src/Word.cc: asUtf8")],
  [], ["Word::toUtf8", "Word::asUtf8", "col_word_as_utf8"])

p("C07", "Word equality, ordering, hashing and joining agree with the letters",
  "Two words are equal exactly when they have the same letters, 'less than' is the lexicographic order of the letters (a strict total order consistent with equality), equal words have equal hashes, and comparing a word with text agrees with comparing it with the text's encoding. Joining two words gives the letters of the first followed by the letters of the second and changes neither.",
  ["inputs"],
  "all words (all letters, all lengths, empty words included)",
  "Tests compare fixed ASCII words; total order and hash consistency are relations over all pairs and triples of words.",
  ["src/Word.cc"],
  [("letter-wise comparison", "src/Word.cc: operator==, operator<"), ("hash over code-unit bytes", "src/Word.cc: hash"), ("join", "src/Word.cc: join")],
  [], ["Word operators", "Word::hash", "Word::join"])

p("C08", "Words, word lists and result sets behave as independent values",
  "Copying a word, word list, result set or document gives an equal and fully independent value: later changes to or destruction of either side never affect the other, self-assignment changes nothing, and moving transfers the content. An assignment that is refused (for example because the text contains whitespace or is ill-formed) leaves the word in a usable state with a length that matches its letters, and a moved-from object can be assigned to and destroyed safely.",
  ["histories", "inputs"],
  "all sequences of copy, move, assign (successful and refused), self-assign and destroy",
  "Tests copy and assign each class once or twice and only check that a refused assignment throws, never what is left behind.",
  ["src/Word.cc", "src/WordList.cc", "src/MatchResults.cc", "src/Document.cc"],
  [("copy/move members", "src/Word.cc, src/WordList.cc, src/MatchResults.cc, src/Document.cc"), ("cleanup on rejected text", "src/Word.cc: convertString")],
  [], ["copy/move constructors and assignment operators"])

p("C09", "Splitting text yields exactly its maximal separator-free pieces, in order",
  "Splitting a text at a set of (ASCII) separator characters yields, in order, exactly the maximal non-empty runs of text between separators, each as the word that text denotes; nothing is lost, invented, merged or reordered, and text made only of separators yields no words. Splitting into words uses space, tab, newline and carriage return as separators, so it never fails on well-formed text.",
  ["inputs"],
  "all texts and all ASCII separator sets",
  "Tests split about fifteen fixed strings; the claim covers every placement and run length of separators.",
  ["src/ColumbusHelpers.cc"],
  [("begin/end scan with a reused buffer", "src/ColumbusHelpers.cc: split"), ("separator test", "src/ColumbusHelpers.cc: isInList, isWhitespace")],
  [], ["split", "splitToWords"])

p("C10", "Letter substitution costs follow the configuration for all letters alike",
  "The cost of substituting one letter for another is symmetric, is zero for a letter and itself, and is otherwise the most specific setting in force: the last error set for that pair, else the error of the group containing both letters, else the default error. Clearing errors restores the default for every pair, and all of this is the same for every letter of the alphabet, no matter how small or large its code is and in which order pair and group errors were set.",
  ["inputs", "histories", "configurations"],
  "all letter pairs and all sequences of pair settings, group settings and clears",
  "Tests probe a few letter pairs after one setting each; the fast table path and the general path are never compared on all letters or on mixed setting orders.",
  ["src/ErrorValues.cc", "include/ErrorValues.hh"],
  [("lookup table for small letters", "src/ErrorValues.cc: addToLUT, addGroupErrorToLUT, clearLUT"), ("general path", "src/ErrorValues.cc: substituteErrorSlow")],
  [("lut / singleErrors / groupMap / groupErrors", "two representations of the same costs", "src/ErrorValues.cc: ErrorValuesPrivate")],
  ["ErrorValues::getSubstituteError"])

p("C11", "A letter belongs to at most one error group; a refused group changes nothing",
  "Adding an error group that contains a letter already belonging to another group is refused with an error, and after the refusal every group membership and every substitution cost is as it was before. A successfully added group makes every one of its letters (and no other letter) a member and gives every pair of its letters the group's cost.",
  ["histories", "inputs"],
  "all sequences of group additions, overlapping or not, at every position of the offending letter",
  "No test adds an overlapping group at all.",
  ["src/ErrorValues.cc"],
  [("membership check while adding", "src/ErrorValues.cc: setGroupError, isInGroup")],
  [("groupMap", "letter to group number", "src/ErrorValues.cc")],
  ["ErrorValues::setGroupError", "ErrorValues::isInGroup", "ErrorValues::getSubstituteError"])

p("C12", "The built-in typo tables describe the real layouts, symmetrically",
  "With the number-pad errors loaded, a digit 2-9 costs nothing against the letters printed on its own key, half the default error against letters on a horizontally or vertically neighbouring key, and the default error against every other letter. With the keyboard errors loaded, every pair with a reduced cost costs exactly the typo error and lies on neighbouring keys, and horizontally neighbouring keys of the digit and two upper letter rows and vertically neighbouring keys are all covered. The accent tables load without conflict and make every two letters of one line cost the group error.",
  ["inputs"],
  "all pairs of letters, for each built-in table as shipped",
  "Tests look up about five pairs out of 2^32.",
  ["src/ErrorValues.cc", "share/latinAccentedLetterGroups.txt", "share/greekAccentedLetterGroups.txt"],
  [("pad adjacency loops", "src/ErrorValues.cc: addNumberpadErrors, setPadError"), ("keyboard rows", "src/ErrorValues.cc: addKeyboardErrors"), ("accent file reading", "src/ErrorValues.cc: addAccents")],
  [], ["ErrorValues::getSubstituteError"])

p("C13", "A result set lists what was added, ordered by falling relevancy",
  "A result set holds exactly the (document, relevancy) pairs that were added to, merged into or copied into it, and reads them back in non-increasing relevancy, ties in the order they were added, with each document still paired with its own relevancy. This holds for every interleaving of additions, merges, copies and reads, and copying the i-th result of another set copies exactly what reading position i of that set reports.",
  ["histories", "inputs"],
  "all interleavings of add, merge, copy and read operations and all finite relevancies",
  "The test adds three results and reads the top one.",
  ["src/MatchResults.cc"],
  [("lazy stable sort", "src/MatchResults.cc: sortIfRequired"), ("sorted flag", "src/MatchResults.cc: addResult, addResults, copyResult")],
  [("results/sorted", "pairs and whether they are ordered", "src/MatchResults.cc: MatchResultsPrivate")],
  ["MatchResults::getDocumentID/getRelevancy/size"])

p("C14", "A search returns exactly the documents with a sufficiently similar word",
  "A search returns a document exactly once if and only if some word in one of its searchable fields is within the allowed error of some query word (one default error for one-letter query words, two default errors otherwise, always two when dynamic errors are off); fields declared non-searching never make a document match. An empty query returns nothing.",
  ["inputs", "configurations", "histories"],
  "all corpora, queries, searchable-field settings and error limits",
  "Tests run a few fixed corpora and look at one or two of the results.",
  ["src/Matcher.cc", "src/SearchParameters.cc", "src/LevenshteinIndex.cc"],
  [("per-field lookups", "src/Matcher.cc: matchIndexes"), ("reverse index", "src/Matcher.cc: ReverseIndex, gatherMatchedDocuments"), ("limits", "src/SearchParameters.cc: getDynamicError")],
  [("indexes / reverseIndex", "word index per field; documents per (field, word)", "src/Matcher.cc: MatcherPrivate")],
  ["Matcher::match"])

p("C15", "Relevancy follows the documented formula and ranks better matches higher",
  "The relevancy of a returned document is the sum, over its searchable fields and over the distinct words of that field that matched, of 100/(100+error) times the rarity factor 1-count/(maxcount+1) times the field's weight, where error is the smallest error of that word against any query word and the counts are those of the field. Consequently a smaller error, a rarer word or a higher field weight never ranks a document lower, and setting a field's weight scales only that field's contribution.",
  ["inputs", "configurations"],
  "all corpora, queries and field weights",
  "Tests check the order of two documents in a few corpora; none checks a relevancy value.",
  ["src/Matcher.cc", "src/IndexWeights.cc", "src/LevenshteinIndex.cc"],
  [("relevancy calculation", "src/Matcher.cc: calculateRelevancy, gatherMatchedDocuments"), ("best error per word", "src/Matcher.cc: addMatches"), ("weights", "src/IndexWeights.cc")],
  [("bestIndexMatches", "smallest error of each matched word per field", "src/Matcher.cc")],
  ["Matcher::match", "MatchResults::getRelevancy"])

p("C16", "A result filter keeps exactly the documents satisfying one of its terms",
  "Searching with a filter returns exactly those results of the same unfiltered search whose document satisfies at least one term, a term being satisfied when for each of its subterms the document contains that word in that field; an empty term is satisfied by every document. Relevancies are unchanged, no document is duplicated when several terms match, and filtering never influences later searches.",
  ["inputs", "configurations"],
  "all corpora, queries and filters (any number of terms and subterms, words and fields known or unknown)",
  "One test with two documents and four filters.",
  ["src/Matcher.cc", "src/ResultFilter.cc"],
  [("any-term/all-subterms test", "src/Matcher.cc: match, subtermsMatch"), ("term list", "src/ResultFilter.cc")],
  [("termList", "disjunction of conjunctions", "src/ResultFilter.cc")],
  ["Matcher::match(query, params)"])

p("C17", "Online search lifts exact matches in the primary field above fuzzy ones",
  "An online search returns the documents of the ordinary search plus every document containing a query word exactly in the primary field; each gets its ordinary relevancy plus two for every exactly matching query word in the primary field, plus one hundred when all query words match exactly and are as many as the words of that field. Hence a perfect match is ranked above any document that is not one and has comparable fuzzy relevancy, and naming a primary field unknown to the matcher is refused with an invalid-argument error.",
  ["inputs"],
  "all corpora, queries and primary fields",
  "Tests check which document is first in five fixed corpora.",
  ["src/Matcher.cc"],
  [("exact counting", "src/Matcher.cc: countExacts"), ("bonus accumulation", "src/Matcher.cc: onlineMatch")],
  [("originalSizes", "number of words of each (document, field)", "src/Matcher.cc")],
  ["Matcher::onlineMatch"])

p("C18", "Documents and corpora give back exactly what was put in",
  "A document returns, for each field, the word list most recently set for it, lists every field exactly once, reports its own ID, refuses unknown fields with an invalid-argument error, and its word counts equal the number of occurrences in that field or in all fields together. A corpus returns its documents unchanged in the order added, unaffected by later changes to the originals.",
  ["histories", "inputs"],
  "all sequences of text settings and document additions",
  "Tests use two fields with two words each.",
  ["src/Document.cc", "src/Corpus.cc", "src/WordList.cc"],
  [("field map", "src/Document.cc: addText, getText, wordCount"), ("document vector", "src/Corpus.cc")],
  [("texts", "field name to words", "src/Document.cc: DocumentPrivate")],
  ["Document", "Corpus"])

p("C19", "The C API mirrors the C++ API and never lets an exception escape",
  "Every C function has the effect and returns the value of the C++ operation it stands for: in particular result size, document IDs and relevancies read through C equal those read through C++ for every position, and weights set are weights read. Failures (ill-formed text, whitespace in a word, out-of-range positions) are reported by the documented failure value and never as an exception or crash, and leave the objects usable.",
  ["inputs", "histories"],
  "all arguments and call sequences on valid handles",
  "The C test makes one happy-path call of most functions and never reads a relevancy.",
  ["src/ColumbusCAPI.cc", "include/columbus.h"],
  [("exception barrier in every wrapper", "src/ColumbusCAPI.cc")],
  [], ["col_* functions"])

p("C20", "Everything the library acquires is released, also when operations fail",
  "Once every library object a program created has been destroyed, all memory, file handles and memory mappings the library acquired have been released exactly once. This also holds when operations along the way were refused or failed, such as building words from ill-formed text, splitting text with ill-formed pieces or adding conflicting error groups.",
  ["histories", "inputs"],
  "all call sequences, successful and failing, ending with destruction of all objects",
  "Nothing in the test suite observes releases; valgrind is recommended in comments but not run, and would see only the tested histories.",
  ["src/Trie.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/Matcher.cc", "src/ErrorValues.cc"],
  [("destructors", "src/*.cc"), ("cleanup on error paths", "src/ColumbusHelpers.cc: utf8ToInternal, split")],
  [("mapping and temporary file", "backing storage of a trie", "src/Trie.cc: TriePrivate")],
  ["destructors"])

p("C21", "Out-of-range positions are always refused, never read",
  "Accessing a letter of a word, a word of a list, a document of a corpus, an entry of a result set or match list, a term or subterm of a filter, or a word ID of a word store at any position that does not exist raises an out-of-range error; positions that exist never do. This holds for every position value, however large, and for empty containers.",
  ["inputs"],
  "all container sizes and all position values of the full index type",
  "Tests try one out-of-range index for two of the classes.",
  ["src/Word.cc", "src/WordList.cc", "src/Corpus.cc", "src/MatchResults.cc", "src/IndexMatches.cc", "src/ResultFilter.cc", "src/WordStore.cc"],
  [("explicit bound checks", "the accessor of each class")],
  [], ["operator[]", "getDocument", "getDocumentID/getRelevancy/copyResult", "getMatch/getMatchError", "getField/getWord/numSubTerms", "WordStore::getWord"])

p("C22", "Failing backing storage is reported as an error, not as a crash",
  "If the temporary file behind an index cannot be created, grown or mapped, the operation that needed it reports a runtime error; nothing outside live memory is touched, and the object that was being built or extended can still be destroyed safely and without leaking. If storage works, no such error is reported.",
  ["fault_sequences"],
  "every point at which creating, growing, unmapping or mapping the backing file can fail",
  "No test injects a failing system call.",
  ["src/Trie.cc", "src/LevenshteinIndex.cc", "src/WordStore.cc"],
  [("checked system calls", "src/Trie.cc: Trie, expand")],
  [("f/map/h", "file, mapping, header", "src/Trie.cc: TriePrivate")],
  ["Trie constructor", "insertWord", "destructor"])

p("C23", "Data files are looked up exactly where the configuration says",
  "Data files are looked up in the directory named by the COLUMBUS_DATADIR environment variable when it is set, joined with a single separating slash whether or not the variable ends in one, and in the compiled-in data directory when it is not. If the file does not exist there, loading accents fails with an error that leaves the error values usable; no value of the variable, including an empty one, makes the lookup read outside the variable's text.",
  ["configurations", "fault_sequences"],
  "all values of the environment variable and presence or absence of the file",
  "Tests run with one valid setting of the variable.",
  ["src/ColumbusSlow.cc", "src/ErrorValues.cc"],
  [("path building", "src/ColumbusSlow.cc: findDataFile"), ("error reporting", "src/ErrorValues.cc: addAccents")],
  [], ["ErrorValues::addAccents", "findDataFile"])

p("C24", "Arbitrary text can be indexed and searched without crashing",
  "Whatever bytes are given as document text, field name or query, adding, indexing and searching either succeeds or raises one of the documented errors; it never aborts, reads or writes memory it does not own, uses uninitialised data or runs forever, and after an error the objects involved can still be used and destroyed.",
  ["inputs", "histories"],
  "all texts, through the C++ and the C interface",
  "Tests use well-formed text only.",
  ["src/Matcher.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/Trie.cc", "src/ColumbusCAPI.cc"],
  [("validation at word construction", "src/Word.cc"), ("bounds by construction in the search", "src/LevenshteinIndex.cc, src/ErrorMatrix.cc")],
  [], ["Document::addText", "Matcher::index", "Matcher::match"])

p("C25", "Indexing order and batching do not change search results",
  "A search gives the same documents with the same relevancies no matter in which order the documents were added to the corpus, in which order fields were set, or whether the documents were indexed in one call or in several; and searching has no side effects, so repeating a search gives the same answer.",
  ["histories"],
  "all permutations and partitions of the documents, all repetitions of searches",
  "Tests index each corpus once in one order and search it once.",
  ["src/Matcher.cc", "src/MatcherStatistics.cc", "src/WordStore.cc"],
  [("accumulating index structures", "src/Matcher.cc: buildIndexes, addToIndex")],
  [("store", "assigns IDs by first appearance, including during searches", "src/Matcher.cc, src/WordStore.cc")],
  ["Matcher::index", "Matcher::match"])

p("C26", "Search settings read back as set and affect only what they name",
  "Every search setting reads back as last set: field weights (1 for a field never set), non-searching fields, dynamic errors, filter terms and subterms in order, and the individual error costs. Setting one changes no other; the start-insertion error applies only to queries at least as long as the substring limit (shorter ones use the insertion error), and substring mode sets exactly the documented costs.",
  ["configurations", "histories"],
  "all sequences of settings with arbitrary values and field names",
  "Tests set one or two values and read them back.",
  ["src/IndexWeights.cc", "src/SearchParameters.cc", "src/ResultFilter.cc", "include/ErrorValues.hh", "src/ErrorValues.cc"],
  [("maps keyed by word", "src/IndexWeights.cc, src/SearchParameters.cc"), ("plain accessors", "include/ErrorValues.hh")],
  [], ["IndexWeights", "SearchParameters", "ResultFilter", "ErrorValues accessors"])

p("C27", "The Python module behaves as the C++ library it wraps",
  "Every function the Python module exposes gives the result the C++ library gives for the same arguments, converts library errors into Python exceptions, and keeps returned inner objects alive as long as they are used.",
  ["inputs", "histories"],
  "all calls through the Python bindings",
  "The Python tests exercise each class once.",
  ["python/columbus.cc"],
  [("Boost.Python bindings", "python/columbus.cc")],
  [], ["python module columbus"])

p("C28", "Documents sharing an ID are one search result",
  "When several documents with the same ID are indexed, in one corpus or several, in one call or several, a search returns that ID at most once. The result is matched by the words of every indexed version, each distinct word of a field counts once no matter how many versions contain it, filters judge it by the words of all versions, and the results for other IDs are unaffected.",
  ["histories"],
  "all sequences of indexed documents with repeated IDs and all texts",
  "Tests index every document once under an ID of its own.",
  ["src/Matcher.cc", "src/MatchResults.cc"],
  [("per-field index of document IDs", "src/Matcher.cc: buildIndexes, addToIndex"), ("results keyed by ID", "src/MatchResults.cc: addResult")],
  [("reverseIndex", "word and field to the documents holding it", "src/Matcher.cc")],
  ["Matcher::index", "Matcher::match", "Matcher::onlineMatch"])

p("C29", "Objects are independent of one another",
  "What is done to one matcher, word store, word index, cost set or result object never changes what another one answers: several can live at once and be created, filled, searched, cleared and destroyed in any order, and a cost set used with one of them does not carry state to the next.",
  ["histories"],
  "all interleavings of operations on two or more objects, in every order of creation and destruction",
  "Tests use one object at a time.",
  ["src/Matcher.cc", "src/WordStore.cc", "src/Trie.cc", "src/LevenshteinIndex.cc", "src/ErrorValues.cc", "src/ColumbusHelpers.cc"],
  [("private implementation per object", "src/*.cc: each class's Private struct"), ("one backing file per trie", "src/Trie.cc: Trie")],
  [("p", "the private state of each object", "src/*.cc")],
  ["Matcher", "WordStore", "LevenshteinIndex", "ErrorValues", "IndexMatches"])

p("C30", "Searching ignores letter case and white-space layout",
  "Changing the case of letters, or the amount and kind of white space between words and around them, in a query, a document text or a filter term changes neither which documents are found nor their relevancies; and the overloads that take a text and a word list give the same results for the same words.",
  ["inputs"],
  "all spellings of the same words in upper and lower case with any white space around them",
  "Tests use lower-case text with single spaces.",
  ["src/ColumbusHelpers.cc", "src/Word.cc", "src/Matcher.cc", "src/ResultFilter.cc"],
  [("splitting and lower-casing", "src/ColumbusHelpers.cc: splitToWords; src/Word.cc")],
  [], ["Matcher::match", "Document::addText", "ResultFilter::addNewTerm"])

p("C31", "The trie is a consistent tree and word counts equal the history",
  "Walking a trie from its root by children and siblings visits exactly the inserted words, each once, with children, siblings and parents mutually consistent, each node's letter and word equal to the path to it, and the word count equal to the number of distinct words, also after its storage grew. The statistics report for every word ID exactly the number of times it was processed.",
  ["inputs", "histories"],
  "all sequences of insertions including prefixes of one another, at every position relative to the growth of the storage",
  "Tests walk one small trie and count a few words.",
  ["src/Trie.cc", "src/MatcherStatistics.cc"],
  [("node links", "src/Trie.cc: insertWord, addNewSibling, addNewNode, append"), ("counters", "src/MatcherStatistics.cc")],
  [("h/map", "header and nodes in the mapping", "src/Trie.cc: TriePrivate"), ("counts", "times each word was processed", "src/MatcherStatistics.cc")],
  ["Trie::getChild", "Trie::getSibling", "Trie::getParent", "Trie::getWord", "MatcherStatistics::getTotalWordCount"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
