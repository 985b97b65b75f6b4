package main

const (
	saves3 = "3 saves (4 thorough) of arbitrary distinct (document, field) pairs out of 5x5 names, terms out of 5 names with 0..2 per save, lengths and frequencies arbitrary below 2^28"
	saves2 = "2 saves of arbitrary distinct (document, field) pairs out of 4x4 names, 0..1 terms each (0..2 thorough), lengths and frequencies arbitrary below 2^28, a pause longer than every flush interval after each save or not"
	resv   = "one (document, field) pair saved twice, arbitrary lengths, second term arbitrary"
	upd    = "2 operations, each SaveOrUpdate or UpdateIndex alone, with 2 different terms each, 6 names each for documents, fields and terms"
	restt  = "3 saves of arbitrary distinct pairs over 2 names (3 thorough) in two processes, every split, read in a third; lengths and frequencies arbitrary below 2^28"
	crashb = "one flushed save and one later save (same document and other field, other document and same field, both other), the writing process killed before or in the middle of any change of the file tree; the store is opened, checked, opened again, written and opened again; lengths arbitrary"
	wideb  = "24 (60), in memory 140 (300), documents with two fields each and 0..4 terms out of 7; lengths and frequencies of a seventh of them arbitrary below 2^26, which quarter has one of the terms arbitrary"
	flt    = "every floating-point operation with an arbitrary relative rounding error of at most 2^-53, integers exact"
)

// checks lists the harnesses that decide each property.
var checks = map[string][]harn{
	"C01": {
		{pkg: "stores", fn: "H_mem_postings", bounds: saves3},
		{pkg: "stores", fn: "H_disk_postings", bounds: saves2},
		{pkg: "stores", fn: "H_mem_updateindex", bounds: upd},
		{pkg: "stores", fn: "H_disk_updateindex", bounds: upd},
		{pkg: "stores", fn: "H_mem_snapshot", bounds: "a set of 1 or 41 documents handed out, then one arbitrary save"},
		{pkg: "stores", fn: "H_disk_snapshot", bounds: "a set of 1 or 41 documents handed out, then one arbitrary save"},
		{pkg: "stores", fn: "H_mem_many_postings", bounds: wideb},
		{pkg: "stores", fn: "H_disk_many_postings", bounds: wideb},
		{pkg: "stores", fn: "H_disk_broad_postings", bounds: "130 (260) documents, a length and a frequency arbitrary, a cache of 0, 20 or 500 documents, before and after a flush and by another process"},
		{pkg: "stores", fn: "H_mem_names_postings", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_disk_names_postings", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_mem_own_sets", bounds: "a term with 2 or 42 documents, 3 rounds in which one of two answers is changed by Remove, Add or through GetData, another document saved in between"},
		{pkg: "stores", fn: "H_disk_own_sets", bounds: "a term with 2 or 42 documents, 3 rounds in which one of two answers is changed by Remove, Add or through GetData, another document saved in between"},
		{pkg: "stores", fn: "H_mem_two_postings", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_disk_two_postings", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_mem_alike_postings", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms of two saves"},
		{pkg: "stores", fn: "H_disk_alike_postings", bounds: "the same over a disk store with a cache of 0 or 2, written in between or not"},
		{pkg: "stores", fn: "H_mem_numbers_postings", bounds: "lengths and frequencies of 32 bits, zero and below included"},
		{pkg: "stores", fn: "H_disk_numbers_postings", bounds: "the same over a disk store, also opened again"},
		{pkg: "stores", fn: "H_mem_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency), a save after them: answers stay as they were"},
		{pkg: "stores", fn: "H_disk_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency, cache of 0..2, flushed or not), a save after them: answers stay as they were"},
	},
	"C02": {
		{pkg: "stores", fn: "H_mem_stats", bounds: "3 saves of arbitrary distinct pairs out of 5x5 names, 0..1 terms each (0..2 thorough)"},
		{pkg: "stores", fn: "H_disk_stats", bounds: saves2},
		{pkg: "stores", fn: "H_mem_resave_stats", bounds: resv},
		{pkg: "stores", fn: "H_disk_resave_stats", bounds: resv},
		{pkg: "stores", fn: "H_mem_many_stats", bounds: wideb},
		{pkg: "stores", fn: "H_disk_many_stats", bounds: wideb},
		{pkg: "stores", fn: "H_disk_broad_stats", bounds: "130 (260) documents, a length and a frequency arbitrary, a cache of 0, 20 or 500 documents, before and after a flush and by another process"},
		{pkg: "stores", fn: "H_mem_names_stats", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_disk_names_stats", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_mem_large_stats", bounds: "2 or 5 saves whose lengths add up to 2^30..2^33, one length arbitrary"},
		{pkg: "stores", fn: "H_disk_large_stats", bounds: "2 or 5 saves whose lengths add up to 2^30..2^33, one length arbitrary"},
		{pkg: "stores", fn: "H_mem_questions", bounds: "4 saves; 0..3 (4) terms and documents per question, repeated and unknown ones included, 3 fields"},
		{pkg: "stores", fn: "H_disk_questions", bounds: "4 saves; 0..3 (4) terms and documents per question, repeated and unknown ones included, 3 fields"},
		{pkg: "stores", fn: "H_mem_two_stats", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_disk_two_stats", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_mem_alike_stats", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms of two saves"},
		{pkg: "stores", fn: "H_disk_alike_stats", bounds: "the same over a disk store with a cache of 0 or 2, written in between or not"},
		{pkg: "stores", fn: "H_mem_numbers_stats", bounds: "lengths and frequencies of 32 bits, zero and below included"},
		{pkg: "stores", fn: "H_disk_numbers_stats", bounds: "the same over a disk store, also opened again"},
		{pkg: "stores", fn: "H_mem_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency), a save after them: answers stay as they were"},
		{pkg: "stores", fn: "H_disk_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency, cache of 0..2, flushed or not), a save after them: answers stay as they were"},
		{pkg: "stores", fn: "H_mem_own", bounds: "the caller changes one of 3 kinds of answers, then everything is asked again"},
		{pkg: "stores", fn: "H_disk_own", bounds: "the caller changes one of 3 kinds of answers, then everything is asked again, cache of 0..2, flushed or not"},
	},
	"C03": {
		{pkg: "stores", fn: "H_mem_fields", bounds: saves3},
		{pkg: "stores", fn: "H_disk_fields", bounds: "cache of 0..1 (0..2 thorough) documents, 2 (3) saves of one term out of 3x3 names, pauses longer than every flush interval or not"},
		{pkg: "stores", fn: "H_disk_fields_evict", bounds: "cache of 1 document, 3 (4) saves over 2 documents and 3 fields in every order, saving again included, pauses of 11 s or not"},
		{pkg: "stores", fn: "H_mem_resave", bounds: resv},
		{pkg: "stores", fn: "H_disk_resave", bounds: resv},
		{pkg: "stores", fn: "H_mem_many_fields", bounds: wideb},
		{pkg: "stores", fn: "H_disk_many_fields", bounds: wideb},
		{pkg: "stores", fn: "H_disk_broad_fields", bounds: "130 (260) documents, a length and a frequency arbitrary, a cache of 0, 20 or 500 documents, before and after a flush and by another process"},
		{pkg: "stores", fn: "H_mem_names_fields", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_disk_names_fields", bounds: "2 saves whose document, field and term have 0..3 arbitrary bytes each (5 combinations of lengths; disk: printable ASCII but / \\ % . in documents and fields), arbitrary numbers"},
		{pkg: "stores", fn: "H_mem_questions", bounds: "4 saves; 0..3 (4) terms and documents per question, repeated and unknown ones included, 3 fields"},
		{pkg: "stores", fn: "H_disk_questions", bounds: "4 saves; 0..3 (4) terms and documents per question, repeated and unknown ones included, 3 fields"},
		{pkg: "stores", fn: "H_mem_two_fields", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_disk_two_fields", bounds: "two stores in one process (memory or disk, cache of 1 document), one arbitrary save each out of 3 names, asked for the names of either; disk: with or without a pause and a new open"},
		{pkg: "stores", fn: "H_mem_alike_fields", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms of two saves"},
		{pkg: "stores", fn: "H_disk_alike_fields", bounds: "the same over a disk store with a cache of 0 or 2, written in between or not"},
		{pkg: "stores", fn: "H_mem_numbers_fields", bounds: "lengths and frequencies of 32 bits, zero and below included"},
		{pkg: "stores", fn: "H_disk_numbers_fields", bounds: "the same over a disk store, also opened again"},
		{pkg: "stores", fn: "H_mem_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency), a save after them: answers stay as they were"},
		{pkg: "stores", fn: "H_disk_answers", bounds: "two answers of 7 kinds (postings, numbers of documents, fields, sizes) of a store with 3 saves (arbitrary length and frequency, cache of 0..2, flushed or not), a save after them: answers stay as they were"},
		{pkg: "stores", fn: "H_mem_own", bounds: "the caller changes one of 3 kinds of answers, then everything is asked again"},
		{pkg: "stores", fn: "H_disk_own", bounds: "the caller changes one of 3 kinds of answers, then everything is asked again, cache of 0..2, flushed or not"},
	},
	"C04": {
		{pkg: "stores", fn: "H_disk_restart_postings", bounds: restt, secs: 120},
		{pkg: "stores", fn: "H_disk_restart_stats", bounds: restt, secs: 120},
		{pkg: "stores", fn: "H_disk_restart_fields", bounds: restt, secs: 120},
		{pkg: "stores", fn: "H_disk_restart_large", bounds: "two documents whose lengths add up to 2^30..2^31+2^30"},
		{pkg: "stores", fn: "H_disk_many_reopened", bounds: wideb},
		{pkg: "stores", fn: "H_disk_many_restarts", bounds: wideb},
		{pkg: "stores", fn: "H_disk_long_field", bounds: "a field of 130 (300) terms, more than the channels of the store hold"},
		{pkg: "stores", fn: "H_disk_burst", bounds: "75 (150) documents with two fields saved in one go, cache of 0 or 5 documents, one frequency arbitrary"},
		{pkg: "stores", fn: "H_disk_wide", steps: 40000000, bounds: "40 (120) fields written in one turn, a length and a frequency arbitrary"},
		{pkg: "stores", fn: "H_disk_broad", bounds: "130 (260) documents, a length and a frequency arbitrary, a cache of 0, 20 or 500 documents, before and after a flush and by another process"},
		{pkg: "stores", fn: "H_disk_run", bounds: "a store that runs for 1..10 (24) turns of the writer of postings with a save before each (at 3 distances), then a restart"},
		{pkg: "stores", fn: "H_disk_shapes", bounds: "1..4 (5) fields of each of 1..3 documents of 0..3 terms shared by the fields or not, saved in one or two turns, the lengths of one field arbitrary, opened again"},
		{pkg: "stores", fn: "H_disk_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms of two saves, cache of 0 or 2, opened again"},
		{pkg: "stores", fn: "H_disk_numbers", bounds: "lengths and frequencies of 32 bits, zero and below included, opened again"},
	},
	"C05": {
		{pkg: "stores", fn: "H_crash", bounds: crashb, secs: 120},
		{pkg: "stores", fn: "H_crash_recovery", bounds: "the same with the kill while the store is opened and merges after a fragment was written", secs: 120},
	},
	"C06": {
		{pkg: "files", fn: "H_replace_crash", bounds: "contents of 0..3 arbitrary bytes, file there before or not, the process killed before or in the middle of any change of the file tree, a second attempt killed likewise"},
		{pkg: "files", fn: "H_replace_fault", bounds: "any one of the first 7 changes of the file tree fails, file there before or not, contents of 0..2 arbitrary bytes"},
		{pkg: "files", fn: "H_replace_reader", bounds: "a reader with 2 reads, schedules with at most 4 (6) delays"},
		{pkg: "files", fn: "H_plain", bounds: "contents of 1..3 arbitrary bytes, two files"},
		{pkg: "files", fn: "H_replace_fault_crash", bounds: "any one of the first 6 changes of the file tree fails and the process is killed before or in the middle of any change after or before that"},
		{pkg: "files", fn: "H_replace_two", bounds: "two files of one folder replaced at the same time, schedules with at most 3 (5) delays"},
		{pkg: "files", fn: "H_large", bounds: "files of 5000, 70000 and 270000 (2 M) bytes, five of them arbitrary, over none, a short or a longer one, saved in either way"},
	},
	"C07": {
		{pkg: "stores", fn: "H_merge", bounds: "3 (4) postings out of 2x2x2 names, after each nothing, a flush, or a flush and a merge"},
		{pkg: "stores", fn: "H_merge_crash", bounds: "3 arbitrary postings out of 2x2x2 names, the merging process killed before or in the middle of any change of the file tree, once (twice thorough)"},
		{pkg: "stores", fn: "H_fragment_crash", bounds: "4 postings of 2 fields, the flushing process killed at any point"},
		{pkg: "stores", fn: "H_merge_flush", bounds: "a merge and a flush at the same time, schedules with at most 3 (4) delays"},
		{pkg: "stores", fn: "H_merge_many", bounds: "3 (5) rounds of 9, 18, 27 (20, 40, ...) postings over 3 fields, 9 terms and 26 documents and one arbitrary posting, merged after any of the rounds"},
		{pkg: "stores", fn: "H_merge_fragments", bounds: "70 (300) fragments of one field, one posting arbitrary, merged at once"},
		{pkg: "stores", fn: "H_merge_names", bounds: "3 postings, the field, term or document of one of them empty or of 1..2 arbitrary bytes, in two fragments"},
	},
	"C08": {
		{pkg: "serial", fn: "H_metrics", bounds: "names of 0..3 arbitrary bytes, size and length any 32-bit numbers"},
		{pkg: "serial", fn: "H_counts", bounds: "0..2 (3) terms of 0..1 (2) arbitrary bytes, counts any 31-bit numbers, every map order"},
		{pkg: "serial", fn: "H_fields", bounds: "up to 2 fields with up to 2 terms, names of up to 1 byte, numbers arbitrary, every map order"},
		{pkg: "serial", fn: "H_fields_long", bounds: "two terms of several bytes"},
		{pkg: "serial", fn: "H_index", bounds: "up to 2 terms with up to 2 (3) documents, names of up to 1 byte, every map order"},
		{pkg: "serial", fn: "H_large", bounds: "40 (90) entries, two counts arbitrary"},
		{pkg: "serial", fn: "H_pure", bounds: "two entries with arbitrary counts"},
		{pkg: "serial", fn: "H_huge", bounds: "2200 (6000) terms, documents or fields, names of 72000 bytes, and nothing at all"},
		{pkg: "serial", fn: "H_serial_concurrent", bounds: "two goroutines that serialize and read everything, at most 1 (3) delays, races in every reordering of the synchronisation"},
	},
	"C09": {
		{pkg: "stores", fn: "H_disk_restart_names", bounds: "document id and field name of 1 (2) arbitrary bytes beside another document, saved, flushed and read by another process", secs: 120},
		{pkg: "stores", fn: "H_disk_restart_reserved", bounds: "14 document ids x 13 field names that look like paths, files or folders of the store", secs: 120},
		{pkg: "stores", fn: "H_disk_longname", bounds: "a document id of 300 bytes"},
		{pkg: "text", fn: "H_names", bounds: "two names of 0..2 (3) arbitrary bytes"},
		{pkg: "text", fn: "H_names_long", bounds: "a name of 4 arbitrary bytes"},
		{pkg: "text", fn: "H_names_alike", bounds: "two names of 10, 61, 121 or 251 bytes that differ in one arbitrary byte at the start, in the middle or at the end"},
		{pkg: "stores", fn: "H_disk_restart_words", bounds: "a document id or a field name of 1..8 arbitrary small letters beside another document"},
		{pkg: "stores", fn: "H_disk_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms of two saves, cache of 0 or 2, opened again"},
		{pkg: "text", fn: "H_file_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order"},
	},
	"C10": {
		{pkg: "caches", fn: "H_lru", bounds: "capacity -1..3, 5 (7) operations and a last read over 4 keys, arbitrary values"},
		{pkg: "caches", fn: "H_lru_content", bounds: "capacity 1..3, 5 (6) operations over 5 keys, then all keys read", secs: 120},
		{pkg: "caches", fn: "H_lru_many", bounds: "capacity 7, 16 or 33, 120 (400) operations over 41 keys in 72 different orders, arbitrary values"},
		{pkg: "caches", fn: "H_lru_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys"},
	},
	"C11": {
		{pkg: "caches", fn: "H_lru_concurrent", bounds: "capacity 1..2, two goroutines with 2 and 1 (2) operations over 3 keys, schedules with at most 2 (4) delays; the race query covers every reordering of the synchronisation of each explored path", secs: 120},
	},
	"C12": {
		{pkg: "caches", fn: "H_rcu", bounds: "3 (4) puts over 4 keys, arbitrary values, pauses of 0, 1, 3 and 7 s"},
		{pkg: "caches", fn: "H_rcu_concurrent", bounds: "two writers and a reader beside the cache's own writer, schedules with at most 2 delays, timers at any moment"},
		{pkg: "caches", fn: "H_rcu_burst", bounds: "1300 (2600) puts in one go over 1300 (2600), 700 or 3 keys, right before the writer's turn or not, then one more"},
		{pkg: "caches", fn: "H_rcu_steady", bounds: "40 (120) puts of one or of different keys, one every 0.25, 1, 2.9 or 3 s, reads of five of the keys after each"},
		{pkg: "caches", fn: "H_rcu_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys"},
	},
	"C13": {
		{pkg: "caches", fn: "H_shard", bounds: "1..4 (8) fragments, two keys of 0..1 arbitrary bytes"},
		{pkg: "caches", fn: "H_shard_keys", bounds: "1..12 fragments, keys of 4 (5) arbitrary bytes"},
		{pkg: "caches", fn: "H_shard_concurrent", bounds: "3 fragments, two goroutines, schedules with at most 2 (4) delays"},
		{pkg: "caches", fn: "H_shard_many", bounds: "1, 16, 37, 64, 257 or 1000 fragments, 116 (256) keys of 0..330 bytes, one of them arbitrary with 16 fragments"},
		{pkg: "caches", fn: "H_shard_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys, 1, 7 or 13 fragments"},
	},
	"C14": {
		{pkg: "caches", fn: "H_localmap", bounds: "4 (6) operations with keys of one arbitrary byte and arbitrary values"},
		{pkg: "caches", fn: "H_localmap_concurrent", bounds: "two goroutines, schedules with at most 3 (5) delays"},
		{pkg: "caches", fn: "H_localmap_many", bounds: "300 (1500) operations over half as many keys, arbitrary values"},
		{pkg: "caches", fn: "H_localmap_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys"},
	},
	"C15": {
		{pkg: "caches", fn: "H_syncmap", bounds: "3 (4) puts over 4 keys, arbitrary values, pauses of 0, 1, 3 and 7 s"},
		{pkg: "caches", fn: "H_syncmap_concurrent", bounds: "two writers and a reader beside the cache's own writer, schedules with at most 2 delays, timers at any moment"},
		{pkg: "caches", fn: "H_syncmap_burst", bounds: "1300 (2600) puts in one go over 1300 (2600), 700 or 3 keys, right before the writer's turn or not, then one more"},
		{pkg: "caches", fn: "H_syncmap_steady", bounds: "40 (120) puts of one or of different keys, one every 0.25, 1, 2.9 or 3 s, reads of five of the keys after each"},
		{pkg: "caches", fn: "H_syncmap_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys"},
	},
	"C16": {
		{pkg: "searching", fn: "H_index", bounds: "3 documents out of 4x2 names with 1 (2) of 3 terms, queries of 0..2 terms"},
		{pkg: "searching", fn: "H_index_fields", bounds: "2 documents with 2 fields each"},
		{pkg: "searching", fn: "H_index_many", bounds: "23 (60) documents, 1 or 2 processors, 4 queries, which quarter of the documents has the second term is arbitrary"},
		{pkg: "searching", fn: "H_index_wide", bounds: "130 (300) documents with a term each and a common one, queries of 1, 130 and 132 (300, 302) terms, 1, 4 or 64 processors"},
		{pkg: "searching", fn: "H_index_empty_fields", bounds: "2 documents of 3 fields (one without a name) that are empty, have one term or the empty term, and one document without fields; queries of 1..2 terms"},
		{pkg: "searching", fn: "H_index_schedules", bounds: "6 documents, 4 queries, schedules with at most 1 (2) delays"},
		{pkg: "searching", fn: "H_search_many", bounds: "30 (120) documents with 2..3 fields, 4 lists of up to 12 queries of up to 80 terms, 1 or 4 processors"},
		{pkg: "searching", fn: "H_searches_together", bounds: "two searches at the same time over the memory or the disk store with a cache of 1, 2 query lists, 1 or 2 processors, at most 1 delay"},
		{pkg: "searching", fn: "H_shared_terms", bounds: "two searches at the same time with one slice of 1..3 terms, at most 1 delay, races in every reordering"},
		{pkg: "searching", fn: "H_search_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms"},
		{pkg: "searching", fn: "H_index_again", bounds: "3 (4) questions in a row out of 3 (12) over a memory or a disk store, flushed or not, a document saved before any of them: every answer is that of its moment and stays so"},
	},
	"C17": {
		{pkg: "searching", fn: "H_search", bounds: "3 saves out of 3x2 names with 1 of 2 terms, 0..2 queries of 1 (2) terms with boost 1, 2.5 or 0"},
		{pkg: "searching", fn: "H_search_terms", bounds: "2 saves with 2 of 3 terms, a query of two terms out of 4"},
		{pkg: "searching", fn: "H_search_long", bounds: "1..3 documents, 1..2 queries of 0..6 (11) terms of which at most one occurs, at any place"},
		{pkg: "searching", fn: "H_search_disk", bounds: "disk store with a cache of one document, 2 saves out of 2x2 names, pauses longer than the flush intervals or not"},
		{pkg: "searching", fn: "H_search_many", bounds: "30 (120) documents with 2..3 fields, 4 lists of up to 12 queries of up to 80 terms, 1 or 4 processors; which quarter of the documents has one of the terms is arbitrary"},
		{pkg: "searching", fn: "H_search_disk_many", bounds: "the same with 20 (60) documents over the disk store with a cache of 4, pauses of 4 s in between or not, flushed or not"},
		{pkg: "searching", fn: "H_order_close", bounds: "140 (300) documents with scores that differ by 1e-13 and more, 3 sizes, 3 queries, 2 boosts"},
		{pkg: "searching", fn: "H_search_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as documents, fields or terms"},
		{pkg: "searching", fn: "H_searches_again", bounds: "3 (4) searches in a row out of 3 (4) on one searcher over a memory or a disk store, flushed or not, a document saved before any of them: every result is that of its moment and stays so"},
		{pkg: "searching", fn: "H_search_empty", bounds: "1..4 documents with an empty field and one of 1..3 words at any place, another field that every second document has empty, 3 queries, memory or disk store"},
	},
	"C18": {
		{pkg: "score", fn: "H_bm25", float: FloatErr, tmo: 8, bounds: "one term; frequencies, lengths, averages and document counts arbitrary up to 2^20; boost 1, 0 or 2.5; k1, b out of 3 pairs; " + flt},
		{pkg: "score", fn: "H_bm25_sum", float: FloatErr, tmo: 8, bounds: "8 queries over 4 terms, frequencies up to 1000, lengths up to 10000; " + flt},
		{pkg: "score", fn: "H_bm25_many", bounds: "12, 33, 70 or 300 terms, boost 1, 0 or 2.5, numbers given"},
		{pkg: "score", fn: "H_bm25_sign", float: FloatErr, tmo: 8, bounds: "as H_bm25"},
		{pkg: "score", fn: "H_bm25_order", float: FloatErr, tmo: 20, bounds: "as H_bm25, frequency or length larger by 1..2^20"},
	},
	"C19": {
		{pkg: "score", fn: "H_idf", float: FloatErr, bounds: "document counts arbitrary up to 2^27; " + flt},
		{pkg: "score", fn: "H_idf_order", float: FloatErr, bounds: "document counts arbitrary up to 2^27, differences up to 2^20; " + flt},
	},
	"C20": {
		{pkg: "searching", fn: "H_search_schedules", bounds: "5 saved fields, 4 query lists, schedules with at most 1 (2) delays, the race query covers every reordering of the synchronisation of each explored path"},
		{pkg: "searching", fn: "H_search_while_saving", bounds: "a search and a save at the same time, 0 or 1 documents before, schedules with at most 2 (3) delays"},
		{pkg: "searching", fn: "H_index_schedules", bounds: "6 documents, 4 queries, schedules with at most 1 (2) delays"},
		{pkg: "searching", fn: "H_search_many", bounds: "30 (120) documents with 2..3 fields, 4 lists of up to 12 queries of up to 80 terms, 1 or 4 processors"},
		{pkg: "searching", fn: "H_index_many", bounds: "23 (60) documents, 1 or 2 processors, 4 queries, races in every reordering of the synchronisation"},
		{pkg: "searching", fn: "H_searches_together", bounds: "two searches at the same time over the memory or the disk store with a cache of 1, 2 query lists, 1 or 2 processors, at most 1 delay"},
		{pkg: "searching", fn: "H_shared_terms", bounds: "two searches at the same time with one slice of 1..3 terms, at most 1 delay, races in every reordering"},
		{pkg: "searching", fn: "H_shared_queries", bounds: "two searches at the same time with one list of 2 queries on one or two searchers, at most 1 delay, races in every reordering"},
	},
	"C21": {
		{pkg: "text", fn: "H_tokens_ascii", bounds: "texts of 5 (7) arbitrary ASCII characters"},
		{pkg: "text", fn: "H_tokens_bytes", bounds: "texts of 2 (3) arbitrary bytes"},
		{pkg: "text", fn: "H_tokens_unicode", bounds: "two arbitrary ASCII characters, each followed by an arbitrary two-byte character of Latin-1 or by a letter or digit of another script"},
		{pkg: "text", fn: "H_tokens_long", bounds: "a text of 170 (400) words, arbitrary ASCII characters in three places"},
		{pkg: "text", fn: "H_tokens_word", bounds: "a word of 10000 (140000) letters with an arbitrary ASCII character in the middle"},
		{pkg: "text", fn: "H_tokens_together", bounds: "two texts, one with an arbitrary ASCII character, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
	},
	"C22": {
		{pkg: "text", fn: "H_stopwords", bounds: "1..3 stop words and 0..3 (4) words of one arbitrary byte"},
		{pkg: "text", fn: "H_language", bounds: "words of 1..3 (5) arbitrary ASCII characters between two other words; every English and every Portuguese stop word"},
		{pkg: "text", fn: "H_language_unknown", bounds: "language names of 0..3 arbitrary bytes"},
		{pkg: "text", fn: "H_stopwords_long", bounds: "a list of 150 (600) words, one of them of 2 arbitrary ASCII characters"},
		{pkg: "text", fn: "H_language_lists", bounds: "any word of 3 ASCII characters asked for twice in the lists of both languages"},
		{pkg: "text", fn: "H_stopwords_together", bounds: "two lists of words, one word arbitrary, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_stopwords_words", bounds: "a word of 1..80 (300) letters, one arbitrary, a stop word or not, three times"},
		{pkg: "text", fn: "H_stop_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as words"},
	},
	"C23": {
		{pkg: "text", fn: "H_stemmer", bounds: "0..3 words out of 8, schedules with at most 1 (3) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_stemmer_words", bounds: "words of 3 (4) arbitrary small letters"},
		{pkg: "text", fn: "H_stemmer_unknown", bounds: "any algorithm number"},
		{pkg: "text", fn: "H_stemmer_long", bounds: "a list of 150 (600) words, one of them of 2 arbitrary ASCII characters"},
		{pkg: "text", fn: "H_stemmer_letters", bounds: "words of 7 to 300 (3000) letters, one arbitrary, with 5 endings"},
		{pkg: "text", fn: "H_stemmer_together", bounds: "two lists of words and one or two stemmers, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_stem_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as words"},
	},
	"C24": {
		{pkg: "text", fn: "H_lower", bounds: "0..3 words of 2 (4) arbitrary ASCII characters"},
		{pkg: "text", fn: "H_lower_latin", bounds: "an arbitrary letter of Latin-1 after an arbitrary ASCII character"},
		{pkg: "text", fn: "H_ascii_words", bounds: "0..2 words of 2 (3) arbitrary ASCII characters"},
		{pkg: "text", fn: "H_ascii_accents", bounds: "pairs of 8 words with accents, combining marks and other scripts, an arbitrary ASCII character before"},
		{pkg: "text", fn: "H_ascii_latin", bounds: "every character U+00C0..U+00FF after an arbitrary ASCII character"},
		{pkg: "text", fn: "H_lower_long", bounds: "a list of 150 (600) words, one of them of 2 arbitrary ASCII characters"},
		{pkg: "text", fn: "H_ascii_long", bounds: "44 words, some of 200 (1000) characters, many with accents"},
		{pkg: "text", fn: "H_folding_together", bounds: "lists of words with accents and an arbitrary letter, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_fold_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as words"},
	},
	"C25": {
		{pkg: "text", fn: "H_flatten", bounds: "two levels of up to 2 entries, keys of 0..1 arbitrary bytes (dots included), leaves text, number, null or list"},
		{pkg: "text", fn: "H_flatten_deep", bounds: "5 (7) levels of one entry beside another leaf"},
		{pkg: "text", fn: "H_flatten_together", bounds: "two objects, one value arbitrary, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_getid", bounds: "0..2 entries with keys of 0..2 arbitrary bytes, values text of 0..3 bytes, numbers or booleans, every map order"},
		{pkg: "text", fn: "H_flatten_wide", bounds: "25 (100) branches of depth 0..24 (99), a key of an arbitrary ASCII character in each level"},
		{pkg: "text", fn: "H_flat_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as keys"},
	},
	"C26": {
		{pkg: "text", fn: "H_set", bounds: "4 (6) operations on elements of one arbitrary byte"},
		{pkg: "text", fn: "H_set_two", bounds: "two sets and copies, of an empty set too, elements of one arbitrary byte"},
		{pkg: "text", fn: "H_set_many", bounds: "300 (2000) elements, a third of them taken out"},
		{pkg: "text", fn: "H_set_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as elements"},
	},
	"C27": {
		{pkg: "stores", fn: "H_mem_concurrent", bounds: "one save before, two goroutines that save (4 cases of shared and different documents, fields and terms) and a reader (5 kinds of reads), schedules with at most 2 (4) delays; the race query covers every reordering of the synchronisation of each explored path"},
		{pkg: "stores", fn: "H_mem_large_sets", bounds: "a set of 20 or 40 documents that is read and changed while another document is saved, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "stores", fn: "H_disk_large_sets", bounds: "the same over the disk store, at most 1 (2) delays"},
		{pkg: "stores", fn: "H_disk_concurrent", bounds: "the same over the disk store, at most 1 (2) delays"},
		{pkg: "stores", fn: "H_disk_concurrent_restart", bounds: "two goroutines that save, at most 1 (3) delays, then everything read before and after a restart"},
		{pkg: "stores", fn: "H_disk_flush_concurrent", bounds: "a save and a read at the moment of each of the five periodic writers, at most 1 (2) delays, then everything read before and after a restart"},
		{pkg: "stores", fn: "H_disk_writers_meet", bounds: "9 moments at which two or more of the periodic writers and the merge have their turn, two saves before, at most 2 (3) delays, races in every reordering of the synchronisation, then a restart"},
		{pkg: "stores", fn: "H_mem_wholly", bounds: "a save of several terms and a reader that asks twice, at most 2 delays: a save is seen wholly or not at all"},
		{pkg: "stores", fn: "H_disk_wholly", bounds: "the same over the disk store"},
		{pkg: "stores", fn: "H_disk_again_flush", bounds: "a stored field saved again at the moment documents are written, cache of 0 or 1, another save or read at that moment, at most 2 (3) delays, everything read again before and after a restart", secs: 100},
		{pkg: "stores", fn: "H_mem_readers", bounds: "two readers at the same time, each with any of 7 kinds of reads, over 3 saves with an arbitrary length and frequency, at most 2 (3) delays, races in every reordering of the synchronisation"},
		{pkg: "stores", fn: "H_disk_readers", bounds: "two readers at the same time, each with any of 7 kinds of reads, over 3 saves with an arbitrary length and frequency, cache of 0..2, flushed or not, at most 1 (2) delays, races in every reordering of the synchronisation", secs: 100},
	},
	"C28": {
		{pkg: "text", fn: "H_tf", bounds: "lists of 0..4 (5) terms of 0..1 arbitrary bytes"},
		{pkg: "text", fn: "H_tf_together", bounds: "two lists of terms, one term arbitrary, at the same time in two goroutines, at most 2 (4) delays, races in every reordering of the synchronisation"},
		{pkg: "text", fn: "H_tf_many", bounds: "a list of 700 (3000) terms, half of them equal and arbitrary"},
		{pkg: "text", fn: "H_tf_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as terms"},
	},
	"C29": {
		{pkg: "root", fn: "H_preprocess", bounds: "texts of 2 (3) arbitrary letters, blanks, hyphens and digits"},
		{pkg: "root", fn: "H_preprocess_long", bounds: "texts of 4 (5) characters out of 5"},
		{pkg: "root", fn: "H_preprocess_texts", bounds: "pairs of 6 texts, races in every reordering of the synchronisation"},
		{pkg: "root", fn: "H_preprocess_many", bounds: "texts of 40 (200) words, one kind of word of two arbitrary letters"},
		{pkg: "root", fn: "H_preprocess_together", bounds: "pairs of 4 texts, at most 1 (2) delays, races in every reordering of the synchronisation"},
	},
	"C30": {
		{pkg: "root", fn: "H_http", bounds: "2 documents with 1 word titles and 1..2 word texts out of 2 (3) words, queries of 1..2 words"},
		{pkg: "root", fn: "H_http_many", bounds: "9..12 or 26 documents, queries of 2, 3 or 6 words"},
		{pkg: "root", fn: "H_http_long", bounds: "3 documents with ids of 141 and texts of 31 to 3732 (9032) characters or more, a word arbitrary out of 4 in each, queries of 1, 42 and 2 words, one of 3000 letters"},
		{pkg: "root", fn: "H_http_accept", bounds: "ids of 0..2 arbitrary printable bytes, 5 content types, bodies that are not JSON or have an id that is not text"},
		{pkg: "root", fn: "H_http_shapes", bounds: "2 documents with title or text missing, empty, null or blank, or with other entries, one word out of 2, queries of 2 words"},
		{pkg: "root", fn: "H_http_forms", bounds: "pairs of 4 texts, 6 queries in other case, inflection and accents"},
		{pkg: "root", fn: "H_http_queries", bounds: "0..1 documents, 2 queries of 0..1 (2) arbitrary printable bytes"},
		{pkg: "root", fn: "H_http_schedules", bounds: "a few documents and a query under schedules with at most 1 (2) delays"},
		{pkg: "root", fn: "H_http_restart", bounds: "3 documents, one title word out of 3, 1..3 of them posted before a restart, the rest after it, a query of a word out of 4 and another one"},
		{pkg: "root", fn: "H_http_ties", bounds: "2..13 documents with the same words, all or in two groups of every size, 3 queries"},
		{pkg: "root", fn: "H_http_again", bounds: "3 posts of 2 documents, 3 words arbitrary, 3 queries"},
		{pkg: "root", fn: "H_http_alike", bounds: "18 pairs of names that are easily taken for one (equal checksums, case, accents, blanks, beginnings, ends), in either order, as ids"},
	},
	"C31": {
		{pkg: "root", fn: "H_http_concurrent", bounds: "two POST and one GET at the same time over one document, at most 1 (2) delays, races in every reordering of the synchronisation", secs: 120},
		{pkg: "root", fn: "H_http_searches", bounds: "two GET at the same time, at most 1 (2) delays, races in every reordering of the synchronisation", secs: 120},
		{pkg: "root", fn: "H_http_schedules", bounds: "two POST and a GET one after the other, schedules with at most 1 (2) delays"},
	},
	"C32": {
		{pkg: "text", fn: "H_json_object", bounds: "objects of 0..1 entries, nested once (twice), keys and strings of 0..1 arbitrary ASCII characters, 6 numbers, lists of 0..2 elements, 4 kinds of blanks"},
		{pkg: "text", fn: "H_json_entries", bounds: "two entries with keys of 0..2 arbitrary ASCII characters"},
		{pkg: "text", fn: "H_json_unicode", bounds: "every letter of Latin-1 as it is and as an escape, the other escapes, surrogates"},
		{pkg: "text", fn: "H_json_accepted", bounds: "two arbitrary bytes as the value of an entry"},
		{pkg: "text", fn: "H_json_refused", bounds: "objects with an arbitrary byte behind or before them, or cut; 27 texts"},
		{pkg: "text", fn: "H_json_document", bounds: "a document with an id of 0..2 and a title of 2 arbitrary ASCII characters"},
	},
	"C33": {
		{pkg: "serial", fn: "H_gzip", bounds: "0..3 (5) arbitrary bytes"},
		{pkg: "serial", fn: "H_gzip_two", bounds: "two pieces of data of 0..2 arbitrary bytes"},
		{pkg: "serial", fn: "H_gzip_large", bounds: "511..150000 bytes, two of them arbitrary"},
		{pkg: "serial", fn: "H_gzip_concurrent", bounds: "two goroutines with 0..1 arbitrary bytes each, at most 2 (4) delays, races in every reordering of the synchronisation"},
	},
	"C34": {
		{pkg: "stores", fn: "H_fault_running", bounds: "an arbitrary save that was flushed, 3 kinds of a second one, in one process or two; any one of the first 36 (60) changes of the file tree after it fails (a write in its middle)", secs: 120},
		{pkg: "stores", fn: "H_fault_opening", bounds: "the same saves, the second in a fragment; any one of the first 16 changes of the file tree fails while the store is opened"},
		{pkg: "stores", fn: "H_fault_reading", bounds: "the same saves; any one of the first 14 (30) reads of files and folders fails while the store is opened, or while it writes and merges a third save", secs: 120},
		{pkg: "stores", fn: "H_fault_document", bounds: "a document that gets another field, one of 3 reads fails"},
		{pkg: "stores", fn: "H_fault_fields", bounds: "one of 3 reads fails while a stored field of arbitrary length is asked for, cache of 0..2; then another field saved, a flush, or neither, the same asked again before and after a restart"},
		{pkg: "stores", fn: "H_merge_fault", bounds: "4 (5) postings in fragments and an index file, one (two) of them arbitrary, any one of the first 20 changes or reads fails during a merge"},
	},
	"C35": {
		{pkg: "stores", fn: "H_disk_parts", bounds: "a whole save or one part of one, then any of the 16 subsets of the parts of an arbitrary second save out of 3x3x3 names in 4 orders, cache of 0 or 1"},
		{pkg: "stores", fn: "H_disk_parts_restart", bounds: "the same, flushed and opened again", secs: 200},
		{pkg: "stores", fn: "H_disk_parts_concurrent", bounds: "the parts of two saves divided over two goroutines in 3 ways, one document or two, at most 1 (2) delays, races in every reordering of the synchronisation"},

		{pkg: "stores", fn: "H_disk_parts_together", bounds: "one of the parts of two saves on two goroutines at the same time, at most 2 (3) delays, races in every reordering of the synchronisation, flushed and opened again"},
	},
}
