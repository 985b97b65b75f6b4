#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

P = []

def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state, observe=observe, note=note))

DISK = ["storage/DiskStorage.go", "storage/DiskIO.go"]
MEM = ["storage/Memory.go"]

prop("C01", "Postings are exactly what was saved",
     "After any sequence of saves to a memory or disk store, the documents of a field and term are exactly the ids saved with that term in that field, whether they were saved fully or only added to the index. A document set that was returned does not change with later saves.",
     ["inputs", "histories"], "every sequence of saves of any documents, fields and terms, with and without flushes in between, and every field and term asked for",
     "the tests save a few fixed documents; which ids, fields and terms coincide, and when the disk store flushes, decide whether postings mix",
     MEM + DISK + ["model/Set.go"], [("one set of ids per field and term", "storage/Memory.go updateIndex, storage/DiskStorage.go updateIndex")],
     state=[("Index / index", "field -> term -> set of document ids", "Memory, Disk")], observe=["GetDocuments", "GetIndex"])
prop("C02", "Field statistics count every saved field once",
     "For every field a memory or disk store reports the number of documents saved with it, the sum of their lengths, and for each requested term the number of documents that have it (0 for a term nobody has), for exactly the requested terms.",
     ["inputs", "histories"], "every sequence of saves, lengths and frequencies, and every field and terms asked for, flushes in between or not",
     "the tests check totals of one collection; a statistic that is off only when names coincide or after a flush changes every score silently",
     MEM + DISK, [("counters changed with every save", "storage/Memory.go SaveOrUpdate, storage/DiskStorage.go updateFieldSizeLength, updateNumberFieldTerm")],
     state=[("FieldSize, FieldLength, NumberFieldTerm", "statistics per field", "Memory, Disk")], observe=["GetFieldSize", "GetFieldLength", "GetNumberFieldTerm"])
prop("C03", "Stored fields come back verbatim",
     "Asking a memory or disk store for a field of some documents returns, for exactly those of them that have it, the name, length and term frequencies saved last for that document. This holds whatever the cache holds, also when the document was evicted before it was written to disk, and when a document gets its fields one after the other.",
     ["inputs", "histories", "configurations"], "every order of saves of documents and fields, every cache capacity, flushes in between or not, and every set of documents asked for",
     "the tests use a cache larger than the collection, so eviction before a flush never happens",
     MEM + DISK + ["cache/LRU.go"], [("cache, buffer of unwritten documents and files are read in that order", "storage/DiskStorage.go GetFields, updateFieldDocument; storage/DiskIO.go LoadFieldDocumentOnHD")],
     state=[("fieldDocumentCache", "recently used documents", "Disk"), ("pending", "documents not yet written", "DiskIO")], observe=["GetFields"])
prop("C04", "A reopened disk store serves what was flushed",
     "After the periodic writers have had their turn, a process that opens the folder serves the same postings, statistics and stored fields as the one that wrote them. Saves of the new process add to what was there, and a third process serves both.",
     ["inputs", "histories"], "every sequence of saves, split over two processes at any point, read by a third",
     "no test restarts a store whose files were written by the periodic writers in several rounds",
     DISK + ["storage/Serialize.go", "file/File.go"], [("files per field and per document, read when the store opens", "storage/DiskIO.go Load*, Save*")],
     observe=["NewDiskStore", "GetDocuments", "GetFields", "GetFieldSize", "GetFieldLength", "GetNumberFieldTerm"])
prop("C05", "A killed process loses nothing that was flushed",
     "If the process is killed at any moment, also while it writes a file or while it opens the store and merges, the store opens again and still serves everything flushed earlier, and of later saves serves only what was really saved. Size and length of a field stay those of one moment, and the store takes new documents.",
     ["crash_points", "histories"], "every point between and inside changes of files at which the process can be killed, while it saves, flushes, merges or opens",
     "no test kills a process; a crash window is one of dozens of file operations",
     DISK + ["file/File.go"], [("files are replaced in one step; fragments appear complete and are deleted after the merge is written", "file/File.go SecureSaveFile, storage/DiskIO.go SaveIndexOnDisk, LoadIndexOnHD")],
     observe=["NewDiskStore after a kill"])
prop("C06", "Secure saving replaces a file in one step",
     "While a file is replaced by a secure save, and after a kill at any point of it, the file has its whole old or its whole new content, never none or a part, and other files are untouched. If an operation of the file system fails the error is reported and the old file is kept; without an error the new content is there. Saving again works afterwards.",
     ["crash_points", "fault_sequences", "schedules"], "every kill point, every single failing file operation, and readers at any moment",
     "the tests only save and read back",
     ["file/File.go"], [("temporary file and rename", "file/File.go SecureSaveFile")], observe=["SecureSaveFile", "ReadFileOnDisk", "Exists"])
prop("C07", "Merging index fragments loses and invents nothing",
     "The index of a field after merging holds exactly the postings that were written in fragments or were in its file before, however writing and merging alternate or overlap and however often merging is repeated. A kill during a merge or a flush loses no posting that was written before.",
     ["histories", "crash_points", "schedules"], "every division of postings over fragments and merges, every kill point, overlapping merge and flush",
     "the tests merge once without overlap or kill",
     ["storage/DiskIO.go"], [("union of the file and the fragments, then deletion of exactly the merged fragments", "storage/DiskIO.go LoadIndexOnHD, SaveIndexOnDisk")],
     observe=["LoadIndexOnHD", "LoadTermDocumentsFromIndex"])
prop("C08", "Serialized data reads back unchanged",
     "Field metrics, term counts, stored documents and postings that are serialized and read back are equal to what was given, for all names and numbers in 32 bits, including empty maps and names. Serializing does not change its input, and what was read does not depend on the buffer.",
     ["inputs"], "every map with any names and numbers, in every order of iteration",
     "the tests round-trip a few fixed maps",
     ["storage/Serialize.go", "storage/buffers"], [("flatbuffers tables", "storage/Serialize.go")], observe=["Serialize*/Deserialize* pairs"])
prop("C09", "Document ids and field names cannot leave their place on disk",
     "Any document id and field name, including empty ones and ones with slashes, dots, NUL bytes, percent signs or the names of the store's own files and folders, can be saved in a disk store, is served after a restart, does not disturb other documents or fields and makes no file outside the store's folder. The file name of a name is unique, never special and gives the name back.",
     ["inputs"], "every id and field name",
     "the tests use harmless names",
     ["file/File.go"] + DISK, [("escaped names", "file/File.go EscapeName, UnescapeName")], observe=["SaveOrUpdate", "NewDiskStore", "EscapeName", "UnescapeName"])
prop("C10", "The LRU cache keeps exactly the most recently used keys",
     "After any sequence of puts and gets an LRU cache holds exactly the most recently used keys, at most its capacity, each with the value put last; both a get that finds its key and a put count as use. A cache of capacity zero or less holds nothing, and a value handed out does not change later.",
     ["inputs", "histories", "configurations"], "every sequence of operations over any keys and values and every capacity",
     "the tests run one fixed sequence",
     ["cache/LRU.go"], [("recency list and map", "cache/LRU.go Get, Put")], observe=["Get", "Put"])
prop("C11", "The LRU cache is safe for concurrent use",
     "Goroutines that use one LRU cache at the same time cause no data race, panic or deadlock, and every result is one that some order of the operations explains.",
     ["schedules"], "every interleaving of the operations of two goroutines within the stated bounds",
     "a test run sees one schedule",
     ["cache/LRU.go"], [("exclusive lock in every operation", "cache/LRU.go")], observe=["Get", "Put"])
prop("C12", "The RCU cache shows every value within its delay",
     "A value put in the RCU cache is visible after the background writer has had its turn (three seconds), the last put of a key wins, and only values that were put are visible. Readers and writers at the same time cause no data race and no deadlock, lose no value, and a reader never goes back to an older value.",
     ["inputs", "histories", "schedules"], "every sequence of puts, reads and pauses, and interleavings of two writers, a reader and the background writer",
     "the tests sleep for fixed times with fixed keys",
     ["cache/RCU.go"], [("writer goroutine that replaces the map", "cache/RCU.go")], observe=["Get", "Put"])
prop("C13", "A shard map finds every key in one fixed shard",
     "For any number of fragments and any key, also an empty one, a shard map returns one of its maps, always the same for the same key, and the maps together behave like one map: a set key is found with its value, others are not disturbed. Different goroutines may use it at the same time.",
     ["inputs", "configurations", "schedules"], "every key and number of fragments",
     "the tests use a few keys; a checksum that gives a negative or too large shard number occurs for some keys only",
     ["cache/Shard.go", "cache/LocalMap.go"], [("checksum modulo the number of fragments", "cache/Shard.go Get")], observe=["Get"])
prop("C14", "A local map holds the value set last for every key",
     "A local map returns for every key the value set last and nothing for other keys, its data hold exactly the keys set, and a value handed out does not change when the key is set again. Goroutines may use it at the same time without data races or lost values.",
     ["inputs", "histories", "schedules"], "every sequence of sets and gets, and interleavings of two goroutines",
     "the tests set a few fixed keys", ["cache/LocalMap.go"], [("map behind a lock", "cache/LocalMap.go")], observe=["Get", "Set", "GetData"])
prop("C15", "The synchronous map shows every value within its delay",
     "A value put in the SyncMap is visible after the background writer has had its turn (three seconds), the last put of a key wins, and only values that were put are visible. Readers and writers at the same time cause no data race and no deadlock, lose no value, and a reader never goes back to an older value.",
     ["inputs", "histories", "schedules"], "every sequence of puts, reads and pauses, and interleavings of two writers, a reader and the background writer",
     "the map has no test that reads after a write", ["cache/Map.go"], [("writer goroutine and read map", "cache/Map.go")], observe=["Get", "Put"])
prop("C16", "An index search returns the matching documents and statistics",
     "Searching an index for terms in a field returns exactly the documents whose field has at least one of the terms, each with its stored field, the number of documents with the field, their average length, and for every term of the query the number of documents with it. This holds for queries with no, unknown or repeated terms and for more documents than batches or processors, and no goroutine is left over.",
     ["inputs", "histories", "configurations"], "every collection, every query, every number of processors",
     "the tests search one collection with fixed words",
     ["index/InvertedIndex.go"], [("documents of every term are collected by goroutines, then their fields are fetched in batches", "index/InvertedIndex.go Search")], observe=["IndexDocument", "Search"])
prop("C17", "Search ranks every matching document by its BM25 score",
     "A search over one or more field queries returns every document that has a term of a query in its field exactly once and no other, with the sum over the queries of boost times BM25 as score (a boost of 0 counts as 1), ordered by falling score. This holds over the memory store and over the disk store before and after its files are written, and for no query at all.",
     ["inputs", "histories"], "every collection and every list of queries",
     "the tests check fixed queries on a fixed collection; missing, repeated and common terms and documents in several fields are not combined",
     ["search/Standard.go", "index/InvertedIndex.go", "similarity/BM25.go"], [("scores per field are added, then sorted", "search/Standard.go Search")], observe=["Search"])
prop("C18", "BM25 scores follow the formula",
     "The BM25 score of a field is the sum over the terms of the query of boost times IDF times f(k1+1)/(f+k1(1-b+b*length/average)), up to rounding (1e-9 relative), where a boost of 0 counts as 1, a repeated term counts each time and a term that is not in the field counts nothing. It is never negative, positive exactly when a term is in the field, does not fall with more occurrences and does not rise with a longer field.",
     ["inputs"], "all frequencies, lengths, averages and document counts",
     "the tests compare a handful of numbers", ["similarity/BM25.go", "metric/IDF.go"], [("the formula", "similarity/BM25.go")], observe=["BM25"])
prop("C19", "IDF follows the formula and orders terms",
     "The inverse document frequency is ln(1+(N-n+0.5)/(n+0.5)) up to rounding (1e-9 relative), positive for every n up to N, not larger for a more frequent term and not smaller in a larger collection.",
     ["inputs"], "all document counts up to 2^27", "the tests compare a few numbers", ["metric/IDF.go"], [("the formula", "metric/IDF.go")], observe=["IdfBM25"])
prop("C20", "Searches are safe and exact under every schedule",
     "Under every schedule of its goroutines and every order of map entries a search gives the same result, without data race, panic or deadlock, and leaves no goroutine behind. A search while a document is saved finds every document saved before it, the new document as it was saved or not at all, and no score that is not a number.",
     ["schedules"], "interleavings of the goroutines of a search, and of a search with a save",
     "a test run sees one schedule",
     ["search/Standard.go", "index/InvertedIndex.go"] + MEM, [("channels and wait groups; statistics are read after the documents", "index/InvertedIndex.go Search, search/Standard.go Search")], observe=["Search"])
prop("C21", "Tokens are the maximal runs of letters, digits and apostrophes",
     "Tokenizing any text gives, in order, its longest runs of letters, numbers (of any script) and apostrophes, and nothing else; text without such characters gives no tokens, and bytes that are not valid UTF-8 separate tokens.",
     ["inputs"], "every text", "the tests tokenize a few sentences", ["tokenizer/Standard.go"], [("fields between characters that belong to no token", "tokenizer/Standard.go Tokenize")], observe=["Tokenize"])
prop("C22", "Stop word removal keeps exactly the other words",
     "Removing stop words keeps, in order and with repetitions, exactly the words that are not stop words, and leaves its input unchanged. The English and Portuguese lists contain exactly the words of their language files on every call, and an unknown language is refused with a panic.",
     ["inputs"], "every list of words and stop words, every word against the English list",
     "the tests filter one sentence", ["filter/StopWords.go", "language/Language.go", "language/StopEnglish.go", "language/StopPortuguese.go"], [("word lists", "language/*.go")], observe=["NewStopWords", "GetWords"])
prop("C23", "Stemming keeps the order and number of words",
     "Stemming a list of words gives one stem per word, the Porter2 stem, at the place of the word, for every schedule of the goroutines it uses, without data race, deadlock or goroutine left over, and leaves its input unchanged. An unknown algorithm is refused with a panic.",
     ["inputs", "schedules"], "every list of words and every schedule", "a test run sees one schedule and a few words",
     ["filter/Stemmer.go", "filter/stemmer/Algorithm.go"], [("one goroutine per word writes its place", "filter/Stemmer.go Process")], observe=["Process"])
prop("C24", "Lowercasing and accent folding change only case and accents",
     "The lowercase filter gives every word in lower case (ASCII and accented Latin letters), in order, and doing it twice changes nothing more. The ASCII filter takes the accents off Latin letters, in order, and leaves every other character, every word without accents and its input unchanged.",
     ["inputs"], "every list of words", "the tests use a few words",
     ["filter/Lowercase.go", "filter/ASCII.go"], [("Unicode case mapping; decomposition and removal of marks", "filter/Lowercase.go, filter/ASCII.go")], observe=["Process"])
prop("C25", "Flattening keeps every leaf, ids are found",
     "Flattening a nested object gives exactly one entry per path of keys (joined with dots) that leads to a leaf, with that leaf as its value; lists and null are leaves, empty objects give nothing. The id of an object is the text of its Id entry whatever its type, and empty if it has none.",
     ["inputs"], "every nested object", "the tests flatten one object", ["field/FieldProcess.go"], [("recursion over nested objects", "field/FieldProcess.go")], observe=["Flatten", "GetID"])
prop("C26", "Sets of documents behave like sets",
     "After any sequence of additions and removals a set contains exactly the elements added and not removed since, its size is their number and its data hold them. Sets and copies of sets share nothing.",
     ["inputs", "histories"], "every sequence of operations", "the tests add a few elements", ["model/Set.go"], [("map", "model/Set.go")], observe=["Add", "Remove", "Contains", "Size", "GetData", "Clone"])
prop("C27", "Stores are safe for concurrent use",
     "Goroutines that save to and read from one memory or disk store at the same time, also while its files are written and merged, cause no data race, panic or deadlock and lose no save; a read sees each save wholly or not at all, and sets handed out do not change. What was saved at the same time is all there after a restart.",
     ["schedules"], "interleavings of two saving goroutines, a reader and the periodic writers", "a test run sees one schedule",
     MEM + DISK, [("one lock per store, held for the whole save", "storage/Memory.go, storage/DiskStorage.go")], observe=["SaveOrUpdate", "Get*"])
prop("C28", "Term frequencies count every occurrence",
     "The term frequencies of a list of terms have exactly its different terms as keys, each with its number of occurrences, so that they add up to the length of the list; the list is unchanged.",
     ["inputs"], "every list of terms", "the tests count one list", ["metric/TF.go"], [("one count per occurrence", "metric/TF.go")], observe=["TermFrequency"])
prop("C29", "Preprocessing gives the stems of the words that matter, in order",
     "The terms of a text are the Porter2 stems, with accents taken off, of its lower-case words in the order of the text, repetitions kept and English stop words left out. Texts that differ only in case or in the blanks and punctuation (other than apostrophes) between words give the same terms.",
     ["inputs", "schedules"], "every text", "no test runs the whole chain on arbitrary text",
     ["main.go", "tokenizer/Standard.go", "filter/Lowercase.go", "filter/StopWords.go", "filter/Stemmer.go", "filter/ASCII.go"], [("chain of filters", "main.go Preprocessing")], observe=["Preprocessing"])
prop("C30", "The HTTP service accepts documents and finds them",
     "A POST with a JSON object that has a text id is answered 201 and the document is found by later searches for its words; one without an id, with an id that is not text, or that is not JSON is answered 400 and not indexed. A GET is answered 200, exactly once, with the at most ten best documents that have a term of the query in title or text, each once with its id and BM25 score, in falling order, with the number of results given as total; a query without known words gives an empty answer. What was accepted and written to disk is found after a restart of the service.",
     ["inputs", "histories"], "every sequence of requests with any ids, words and queries", "there is no test of the handlers",
     ["main.go"], [("handlers", "main.go")], observe=["POST /nir", "GET /nir"],
     note="gin is replaced by a stand-in that calls the handlers directly and encodes and decodes JSON by its rules; the network and gin itself are outside")
prop("C31", "The HTTP service answers requests at the same time",
     "Requests that are handled at the same time cause no data race, panic or deadlock; every document that was accepted is found by later searches with the scores of the whole collection, and a search during saves finds the documents accepted before it.",
     ["schedules"], "interleavings of two POST and a GET, and of two GET", "there is no test of the handlers",
     ["main.go", "storage/DiskStorage.go", "index/InvertedIndex.go"], [("shared store and index", "main.go")], observe=["POST /nir", "GET /nir"],
     note="gin is replaced by a stand-in that calls the handlers directly; the network and gin itself are outside")
prop("C32", "JSON text is parsed into the object it denotes",
     "Parsing the text of a JSON object gives the object that the text denotes: every key and value, strings with their escapes and characters, numbers as floating point numbers, lists, nested objects, true, false and null, whatever the blanks between them; if a key is repeated the last value counts. Text that is not the text of one JSON object and nothing else is refused (the parser panics), except null, which is no entries.",
     ["inputs"], "every text",
     "the tests parse one text; which texts are accepted and what a character or an escape becomes depends on the content",
     ["field/FieldProcess.go"], [("encoding/json", "field.StringToObject")], observe=["StringToObject"],
     note="encoding/json decodes through reflection, which the executor does not encode: it is replaced by a model of its rules, whose results are compared with encoding/json itself in the native runs of every check")
prop("C33", "Compressed data reads back unchanged",
     "What CompressData returns is a complete gzip stream, and DecompressData gives the same bytes back, for data of every content and length. Neither changes what it is given, results do not share memory, and both can be used by several goroutines at once without data races.",
     ["inputs", "schedules"], "every byte sequence, and compressions at the same time",
     "the tests compress one text; a stream that is not closed, a buffer that is reused or a short read shows with other lengths or with two uses at once",
     ["file/File.go"], [("one writer and one reader per call, closed and read to the end", "file/File.go CompressData, DecompressData")], observe=["CompressData", "DecompressData"],
     note="compress/gzip itself is replaced by a model of its contract (a stream is complete only after Close; reading gives the bytes or an error); deflate is outside")

prop("C34", "A failing file operation costs nothing that was flushed",
     "If an operation of the file system fails (a full disk, an unreadable file or folder) while a disk store is opened, writes or merges, opening reports the error or the process stops, or it carries on and everything is written all the same. The next process that opens the folder serves everything that was flushed before, of later saves only what was really saved, and takes new documents. A merge that fails loses no posting, and the next one has them all.",
     ["fault_sequences", "histories"], "every single failing change or read of files while the store is opened, written and merged, in several histories",
     "no test lets a file operation fail; an error that is passed over shows only when files are deleted or buffers emptied afterwards",
     DISK + ["file/File.go"], [("every error of a file operation ends the writer's process or is returned, before buffers are emptied and fragments deleted", "storage/DiskIO.go LoadIndexOnHD, Save*; storage/DiskStorage.go NewDiskStore")],
     observe=["NewDiskStore", "LoadIndexOnHD", "what is served after a restart"])

prop("C35", "The parts of a save to disk are independent",
     "The disk store's four updates (size and length of a field, postings, term counts, stored field) each change exactly their part of what the store tells, in any order and combination; all four together are a save. What was updated is served after a flush and a restart, and different goroutines may make updates at the same time without data race or lost update.",
     ["inputs", "histories", "schedules"], "every subset and order of the updates of arbitrary documents, and updates at the same time",
     "no test calls the updates on their own; which part an update leaves out or makes twice shows only when they are called separately",
     DISK, [("one lock, one update per part", "storage/DiskStorage.go UpdateFieldSizeLength, UpdateIndex, UpdateNumberFieldTerm, UpdateFieldDocument")],
     observe=["Disk.Update*", "GetDocuments", "GetFields", "GetFieldSize", "GetFieldLength", "GetNumberFieldTerm"])

NA = []

def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech)
    P[-1]["na"] = reason
    NA.append(dict(property=id, reason=reason))

exec(open("tools/na.py").read())

NOTE = "Bounded: every input, schedule, crash point and map order within the bounds stated in the evidence is decided by z3 over the SSA form of the current tree; nothing beyond them. Trusts the SSA construction, the interpreter (sampled paths are run natively on every check) and the models of os, sync, sort and time."

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p["observe"]), hook_needed=None)), ensure_ascii=False) + "\n")
checks = []
for p in P:
    if "na" in p:
        continue
    note = NOTE
    if p["note"]:
        note += " " + p["note"][0].upper() + p["note"][1:] + "."
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the Go SSA form with z3 deciding every assertion, branch and race query",
        level="model_checking", level_note=note))
with open("MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
        notes="engine/ is the symbolic executor, harness/ the properties as Go code over the real packages; see DESIGN.md. No hooks in /repo."), f, indent=1)
    f.write("\n")
