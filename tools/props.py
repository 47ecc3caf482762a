prop("C01", "Scalar maps and sets answer every query correctly",
     "A frozen map or set built at run time from any list of entries with integer-like keys answers every lookup (value, mutable value, key and value, membership, length) exactly as the list does when the last of several entries with equal keys wins. This holds for every key distribution, including contiguous keys, keys with gaps, widely scattered keys and keys at the limits of their type, and for every query value, present or not.",
     ["inputs"], "all key lists and all queries over each integer-like key type",
     "Which representation is chosen, and all index arithmetic, depends on the numeric distribution of the keys; tests use a few hand-picked lists and query mostly keys that are present.",
     ["fz_maps/fz_scalar_map.rs", "fz_sets/fz_scalar_set.rs", "maps/dense_scalar_lookup_map.rs", "maps/sparse_scalar_lookup_map.rs", "maps/decl_macros.rs", "analyzers/scalar_key_analyzer.rs", "utils/dedup.rs", "traits/scalar.rs"],
     [("choice of representation from minimum, maximum and count", "analyzers/scalar_key_analyzer.rs"), ("lookup arithmetic with unchecked indexing", "maps/decl_macros.rs"), ("last entry wins", "utils/dedup.rs")],
     "lists of up to 2 entries over whole 8-bit types; 2 entries less than 131 apart or further than 128 apart anywhere in 16/32/64-bit types; 3 to 4 entries in windows of 5 to 12 values at the bottom, middle and top of the type; fixed lists of up to 250 keys of every representation with any query; 300 and 1100 keys of each representation with queries in windows of 64 values at eight places, 70000 keys with windows of 8.")
prop("C02", "Ordered maps and sets answer every query correctly",
     "A frozen map or set built at run time from any list of entries whose keys have a total order answers every lookup exactly as the list does when the last of several entries with equal keys wins. This holds for every number of entries, every order in which they are given and every query, including queries below, between and above all keys.",
     ["inputs"], "all key lists (any size, order, repetition) and all queries",
     "The search tree's layout and descent depend on the exact number of entries and on where a query falls between the keys; tests use a few sizes and mostly look up keys that are present.",
     ["fz_maps/fz_ordered_map.rs", "fz_sets/fz_ordered_set.rs", "maps/eytzinger_search_map.rs", "maps/scan_map.rs", "utils/eytzinger.rs", "utils/dedup.rs"],
     [("search layout and branch-free descent", "utils/eytzinger.rs"), ("sort and last entry wins", "utils/dedup.rs")],
     "up to 4 entries (thorough 5) with arbitrary keys over 8- to 64-bit types; every size 0..=32 (thorough 0..=130 and up to 1000) of distinct keys in three input orders with any query; string keys up to 2 bytes; keys comparing equal but distinguishable; 300 and 1100 keys with any query, 70000 with windows of 8.")
prop("C03", "Hash maps and sets answer every query for every hash function",
     "A frozen map or set built at run time from any list of entries with hashable keys answers every lookup exactly as the list does when the last of several entries with equal keys wins. This holds whatever hash codes the user's hash function returns, including all keys colliding and codes differing only in a few bits, and for every query.",
     ["inputs", "configurations"], "all key lists, all hash functions and all queries",
     "Slot counts, bucket ranges and masks are computed from the hash codes; tests use one well-behaved hash function and a few lists.",
     ["fz_maps/fz_hash_map.rs", "fz_sets/fz_hash_set.rs", "maps/hash_map.rs", "hash_tables/hash_table.rs", "hash_tables/decl_macros.rs", "analyzers/hash_code_analyzer.rs", "utils/dedup.rs", "utils/bitvec.rs"],
     [("slot table and bucket ranges", "hash_tables/hash_table.rs"), ("choice of the number of slots", "analyzers/hash_code_analyzer.rs"), ("last entry wins", "utils/dedup.rs")],
     "1 to 3 entries over 2 to 4 keys under arbitrary hash-code tables (64-bit codes for 2 keys, ranges of codes for more); every size 0..=24 (thorough 0..=64, up to 1001) under five hash functions with any 16-bit query; default hash function on concrete key lists with any query; 300, 1000 and 1100 keys with windows of 64 or 4 values, 70000 with windows of 8.")
prop("C04", "String maps and sets answer every query correctly",
     "A frozen map or set built at run time from any list of string keys answers every lookup exactly as the list does when the last of several entries with equal keys wins. This holds whatever part of the strings (a range of bytes at either end, the length, everything) is used to tell the keys apart, and for every query string, including ones shorter than that part, empty, or containing multi-byte characters.",
     ["inputs"], "all lists of strings and all query strings",
     "Which bytes are hashed depends on the keys; a query shorter than the hashed range or differing only outside it takes paths tests do not reach.",
     ["fz_maps/fz_string_map.rs", "fz_sets/fz_string_set.rs", "analyzers/slice_key_analyzer.rs", "hashers/left_range_hasher.rs", "hashers/right_range_hasher.rs", "hashers/length_hasher.rs", "hashers/bridge_hasher.rs", "maps/hash_map.rs"],
     [("choice of the distinguishing byte range", "analyzers/slice_key_analyzer.rs"), ("hashing a range of a possibly shorter string", "hashers/left_range_hasher.rs"), ("hashing a range counted from the end", "hashers/right_range_hasher.rs")],
     "0 to 4 keys of up to 3 letters out of 2 or 3 with queries of up to 6 arbitrary ASCII bytes; seven families of fixed keys (shared prefix, suffix, distinct lengths, long, UTF-8, 64 keys) with queries one arbitrary byte edit away; four hash functions plus the default one; 300 and 1100 fixed keys with queries one edit from two of them; keys of up to 300 bytes that differ in one byte.")
prop("C05", "Macro-generated and emitted collections mean what is written",
     "A collection written with the collection macros, or emitted by a build script through the code emitter, behaves exactly like the list of entries written down: every lookup, length and iteration agree with it for every query, with the last of several entries with equal literal keys winning. This holds for every number and distribution of keys, for literal and computed keys, and for every form of the macro and of the emitter; computed keys that turn out equal at run time may instead be refused with a panic. Computed keys and values are computed exactly once each, except that a value superseded by a later equal literal key need not be.",
     ["programs", "inputs"], "all programs that use the macros or the emitter, and all queries on the resulting collections",
     "The generator computes tables, masks, ranges and magnitudes at compile time from the literals; tests instantiate a few dozen programs and look up present keys.",
     ["emit/collection_emitter.rs", "emit/generator.rs", "emit/collection_entry.rs", "macros/processor.rs", "macros/macro_api.rs", "inline_maps/inline_hash_map.rs", "inline_maps/inline_hash_map_no_collisions.rs", "inline_maps/inline_dense_scalar_lookup_map.rs", "inline_maps/inline_sparse_scalar_lookup_map.rs", "inline_maps/inline_eytzinger_search_map.rs", "inline_maps/inline_scan_map.rs", "hash_tables/inline_hash_table.rs", "hash_tables/inline_hash_table_no_collisions.rs"],
     [("choice of the collection and of its constants", "emit/collection_emitter.rs"), ("emission of tables and hashers", "emit/generator.rs"), ("classification of the keys of a macro", "macros/processor.rs")],
     "about 110 generated programs (regenerated from the current emitter and macros on every run): scalar key lists of 1 to 300 keys of every representation and integer width around the 8- and 16-bit magnitude limits, hash, ordered and string key lists, repeated keys, computed symbolic keys, computed values of any u16 value, keys of other types (tuples, arrays, characters, owned strings, user types), all macro forms and all forms of the emitter (expression, local, mutable, alias, lazily built static, visibilities); every query of the key type, or string queries one byte edit away from a key.",
     note="The quantifier over programs is covered by representative programs, the one over queries by the solver.", programs=True)
prop("C06", "Writes through a map change the addressed entry and nothing else",
     "Writing through any mutable reference a map hands out (from a mutable lookup, a mutable iterator over entries or values, or a loop over the mutable map) changes exactly the entry it was obtained for: later lookups and iterations see the new value for that key, every other entry, every key and the length stay as they were, and a clone made before is unaffected.",
     ["inputs", "histories"], "all map kinds, all keys, all written values and sequences of writes",
     "A mutable lookup has its own copy of the lookup code in each representation; tests write to one key of one map and rarely look at the others afterwards.",
     ["maps/decl_macros.rs", "maps/iterators.rs", "fz_maps/fz_scalar_map.rs", "fz_maps/fz_string_map.rs", "fz_maps/fz_hash_map.rs", "fz_maps/fz_ordered_map.rs", "inline_maps/inline_hash_map.rs", "traits/map_query.rs"],
     [("mutable lookups", "maps/decl_macros.rs"), ("mutable iterators", "maps/iterators.rs")],
     "19 kinds of map over u8 keys with 1 to 8 entries and 7 over strings; one or two writes for any query, any value written; all mutable iterators, whole or first item; clones; 300 and 1100 entries in ten representations, one write.")
prop("C07", "Disjoint mutable access never aliases",
     "Asking a map for mutable references to several keys at once either panics or returns, for each key, what an individual lookup would find, with no entry handed out twice; it panics when the same key is asked for twice (for the standard hash maps: when that key is present), and does not panic when the keys select different entries. This also holds for query types whose own equality is finer than their equivalence with the map's keys.",
     ["inputs"], "all map kinds and all lists of keys asked for",
     "Aliasing needs a particular pattern of equal and present keys among those asked for; tests try one present pair and one repeated key.",
     ["maps/decl_macros.rs", "traits/map_extras.rs", "fz_maps/fz_string_map.rs", "fz_maps/fz_scalar_map.rs"],
     [("duplicate detection and pointer collection", "maps/decl_macros.rs"), ("forwarding to the standard maps", "traits/map_extras.rs")],
     "16 frozen map kinds and 3 standard ones over u8 keys, 7 over strings; any 1 to 3 keys (thorough 4), every equality and presence pattern; query types with finer equality; zero-sized values; ten and seventeen keys at once, two of them any; maps of 300 and 1100 entries.")
prop("C08", "Iterators yield every entry exactly once and know their length",
     "Every iterator over a map or set (entries, keys, values, mutable and consuming forms) yields each entry exactly once, with the key and value that belong together, however it is consumed (one by one, folding, counting, skipping, asking for the last) and however many items were taken before, always in the order in which taking them one by one yields them; its size hint and length are exact at every point, it stays finished once finished, and a clone yields what the original has left.",
     ["inputs", "histories"], "all collections and all ways of consuming their iterators",
     "Overridden iterator methods only matter after partial consumption; tests consume whole iterators from the start.",
     ["maps/iterators.rs", "sets/iterators.rs", "maps/decl_macros.rs", "sets/decl_macros.rs", "fz_maps/fz_string_map.rs", "traits/map_iteration.rs", "traits/set_iteration.rs"],
     [("map iterators", "maps/iterators.rs"), ("set iterators", "sets/iterators.rs")],
     "19 map kinds, 7 string map kinds and 16 set kinds with 1 to 8 entries, 8 (sets: 2) iterators, 5 ways of consuming after any number of items, any skip; maps built from any 2 to 4 keys with repeats; 300 and 1100 entries in ten representations.")
prop("C09", "Everything put into a collection is dropped exactly once",
     "Every key and value handed to a collection is owned by it or by whoever it was moved out to, and is dropped exactly once: entries superseded by a later entry with an equal key, entries left in a partly consumed consuming iterator, replaced values, clones and whole collections alike. Nothing is used after it was dropped, nothing is leaked, and no memory is read or written outside live allocations.",
     ["inputs", "histories"], "all collections with owning keys or values, all lists with repeats, all points at which a consuming iterator is abandoned",
     "Leaks and double drops are invisible to value assertions; the code moves entries with unsafe code and raw iterators, and tests mostly use copyable keys.",
     ["maps/iterators.rs", "sets/iterators.rs", "utils/dedup.rs", "maps/hash_map.rs", "hash_tables/hash_table.rs", "fz_maps/fz_string_map.rs", "maps/decl_macros.rs"],
     [("removal of superseded entries", "utils/dedup.rs"), ("consuming iterators", "maps/iterators.rs"), ("moving entries into slots", "hash_tables/hash_table.rs")],
     "19 map kinds and 7 string map kinds with owning values; ordered, hash, scalar and string collections from any 3 (thorough 5) keys below 3 to 6 with owning keys and values; consuming iterators abandoned after any number of items; live allocations counted by the executor; panics inside user code (unwinding) are not modelled.")
prop("C10", "Set algebra is the mathematical one for any two kinds of set",
     "Union, intersection, difference and symmetric difference of any two sets of the same element type, frozen or standard and of different kinds, yield each value of the mathematical result exactly once and nothing else, within their size hints at every point and however they are consumed; the operators | & ^ - produce a set with exactly those values; is_disjoint, is_subset and is_superset agree with the mathematical relations, including for empty and equal sets.",
     ["inputs"], "all pairs of sets of all kinds",
     "Each operation chooses which operand to iterate by size and forwards size hints of filtered chains; tests combine a few fixed sets of the same kind.",
     ["traits/set_ops.rs", "sets/iterators.rs", "sets/decl_macros.rs", "fz_sets/fz_hash_set.rs", "fz_sets/fz_ordered_set.rs", "fz_sets/fz_scalar_set.rs", "fz_sets/fz_string_set.rs"],
     [("choice of the iterated operand", "sets/iterators.rs"), ("relations", "traits/set_ops.rs"), ("operators", "sets/decl_macros.rs")],
     "14 pairs of set kinds from any lists of up to 3 and 2 (quick: 2 and 2, 3 and 1) arbitrary 8-bit values, 6 pairs with scalar sets of values below 4, the operators for 9 pairs, four iterators consumed in five ways after any number of items; macro-written sets and string sets with fixed contents.")
prop("C11", "Equality, indexing, clones and debug output follow the contents",
     "Two maps compare equal exactly when they have the same keys with equal values, and two sets exactly when they have the same values, whatever kinds of frozen or standard collections they are and in whatever order they were given; equality is symmetric and reflexive. A clone equals its original and answers every query alike, also after the original is gone. Indexing a map returns the value a lookup finds and panics exactly when there is none. Debug output shows every entry exactly once, each key with its value.",
     ["inputs"], "all pairs of collections of all kinds, all queries",
     "Each of the thirty or so collection types has its own implementation of these traits; tests compare a few equal and obviously different collections of the same kind.",
     ["maps/decl_macros.rs", "sets/decl_macros.rs", "fz_maps/fz_hash_map.rs", "fz_maps/fz_ordered_map.rs", "fz_maps/fz_scalar_map.rs", "fz_maps/fz_string_map.rs", "fz_sets/fz_hash_set.rs", "inline_maps/inline_hash_map.rs", "inline_sets/inline_hash_set.rs", "maps/hash_map.rs", "maps/scan_map.rs"],
     [("comparison by length and lookup", "maps/decl_macros.rs"), ("comparison of sets", "sets/decl_macros.rs"), ("indexing", "maps/decl_macros.rs")],
     "9 pairs of map kinds and 7 of set kinds from any lists of up to 2 and 2, 3 and 1 (thorough 3 and 3) 8-bit keys with any values, 5 pairs with scalar collections of keys below 4 (thorough 8); 16 map kinds, 13 set kinds and 7 string kinds against standard collections that differ in at most one entry; indexing and clones with any query; debug output of fixed contents.")
prop("C12", "Scalar indexes preserve order and adjacency",
     "The index of a scalar value is an order-preserving, gap-preserving numbering of its type: smaller values have smaller indexes, different values have different indexes and neighbouring values have neighbouring indexes, for every built-in integer and non-zero integer type. For an enum deriving Scalar the index is the position of the variant in its declaration, for every number of variants and way of writing them, and scalar maps and sets over such enums and over signed and non-zero integers answer every query correctly.",
     ["inputs", "programs"], "all values of all scalar types and all enums deriving Scalar",
     "Range lookups are only correct if the numbering is exact over the whole type; tests check one or two values per type and derive one three-variant enum without looking at its indexes.",
     ["traits/scalar.rs", "macros/derive_scalar_macro.rs", "analyzers/scalar_key_analyzer.rs", "fz_maps/fz_scalar_map.rs", "hashers/scalar_hasher.rs"],
     [("sign-flipping masks", "traits/scalar.rs"), ("derived match arms", "macros/derive_scalar_macro.rs")],
     "any two values and every neighbour in all 20 types; seven enums of 1 to 300 variants (raw identifiers, attributes, representations, const generics), any variant; scalar collections of 0 to 4 (thorough 5) enum keys and of two integer keys less than 12 apart, any query near them.", programs=True)
prop("C13", "Serialized collections read back equal, from any well-formed data",
     "Serializing a map or set announces its length, writes every entry exactly once (each key followed by its value) and reports the first failure of the serializer. Deserializing a map or set from any sequence of entries yields the collection that list means, with the last of several equal keys winning, whatever length the data announces, and for strings whether they are borrowed, transient or owned; a failure of the data is reported without leaking or panicking, data of another shape is refused with an error, and reading back what was written gives an equal collection.",
     ["inputs", "fault_sequences"], "all collections, all sequences of entries, all announced lengths and all points of failure",
     "Round-trip tests go through one format that always announces exact lengths and lends its strings; other formats take other paths.",
     ["maps/decl_macros.rs", "sets/decl_macros.rs", "fz_maps/fz_hash_map.rs", "fz_maps/fz_ordered_map.rs", "fz_maps/fz_scalar_map.rs", "fz_maps/fz_string_map.rs", "fz_sets/fz_hash_set.rs", "fz_sets/fz_ordered_set.rs", "fz_sets/fz_scalar_set.rs", "fz_sets/fz_string_set.rs"],
     [("serialization", "maps/decl_macros.rs"), ("reading of string keys", "fz_maps/fz_string_map.rs"), ("reservation from the announced length", "fz_maps/fz_hash_map.rs")],
     "16 map kinds, 13 set kinds and 10 string collections written to a recording serializer failing at every point; ordered and hash collections read from any 0 to 3 entries, scalar ones from keys below 8 (3 entries: below 4), string ones from 0 to 2 (thorough 3) of six strings in three forms, with five kinds of announced length (none, exact, too small, huge, the largest number) and failures at every point; 40 entries with any query; 300 and 4097 entries, in and out.")
prop("C14", "Equivalent queries find the same entry",
     "A lookup finds the same entry in whatever form the query is given, as long as that form is equivalent to the key: text as str, String, boxed, shared, copy-on-write or any type that can be viewed as text; byte vectors by slice; user-defined query types that hash and compare like the key, including wider scalar types with values no key can have. The hash functions the library derives (ranges of bytes from either end, length, whole key) give all forms of the same text the same code, agree between their run-time and compile-time versions, and work for text of any length.",
     ["inputs"], "all queries in all equivalent forms",
     "Each hasher has three implementations (slice, text, text-like) and two versions that must agree; tests query mostly with the key type itself.",
     ["hashers/left_range_hasher.rs", "hashers/right_range_hasher.rs", "hashers/inline_left_range_hasher.rs", "hashers/inline_right_range_hasher.rs", "hashers/length_hasher.rs", "hashers/bridge_hasher.rs", "hashers/scalar_hasher.rs", "fz_maps/fz_string_map.rs", "fz_maps/fz_hash_map.rs", "fz_maps/fz_ordered_map.rs", "traits/map_query.rs"],
     [("three forms of every hasher", "hashers/left_range_hasher.rs"), ("ranges counted from the end", "hashers/right_range_hasher.rs"), ("queries as text", "fz_maps/fz_string_map.rs")],
     "six lists of four string keys, any query of up to 5 or 6 (thorough 16 or 20) ASCII characters in up to eight forms; other key types queried with any 16-bit value of a user-defined type; hashers over seven ranges and any text of up to 6 ASCII characters; macro-written string collections with 18 queries in three forms.")
prop("C15", "Each representation built directly is right or refuses",
     "The individual representations behind the frozen collections, when built directly from any list of entries, either answer every query exactly as the list does with the last of several equal keys winning, or refuse to be built: a dense range exactly when the keys are not contiguous, a hash map of limited magnitude exactly when it has more distinct keys than the magnitude allows (255, 65535), repeated keys not counting. A hash map that only looks at part of its keys still tells all keys apart.",
     ["inputs", "configurations"], "all lists of entries, all magnitudes, all hashers and all queries",
     "At the limit of a magnitude indexes wrap silently; tests build maps of a handful of entries and do not go to the limits.",
     ["maps/dense_scalar_lookup_map.rs", "maps/sparse_scalar_lookup_map.rs", "maps/scan_map.rs", "maps/eytzinger_search_map.rs", "maps/hash_map.rs", "hash_tables/hash_table.rs", "hash_tables/hash_table_slot.rs", "traits/collection_magnitude.rs", "utils/dedup.rs"],
     [("limits", "hash_tables/hash_table.rs"), ("contiguity", "maps/dense_scalar_lookup_map.rs"), ("removal of repeats", "utils/dedup.rs")],
     "dense maps from any 0 to 2 keys of seven integer types or 3 keys below 12 (thorough: any 3, 4 below 8), sparse maps from any 2 keys less than 5 apart in four wider types, from any 2 keys below 24 or 3 below 6, scan and search maps from any 0 to 4 keys, hash maps from any 0 to 3 keys under three hash functions; hash maps of 254 to 257 and 300 distinct keys (with and without repeats) at the 8-bit limit and of 65535 and 65536 at the 16-bit limit; six hashers seeing parts of the keys.")
prop("C16", "The traits mean the same on standard collections",
     "Code written against the library's traits behaves the same on standard and hashbrown collections as on frozen ones: lookups, membership, length and emptiness, every form of iteration, and writes through them agree with the contents for every key, through generic code and trait objects alike. Everything that has a length (text, slices, owned and shared pointers to them, vectors, queues, lists, heaps, maps, sets, C and OS strings) reports the number of its elements or bytes.",
     ["inputs"], "all standard collections and contents, all queries",
     "These implementations exist so generic code can switch collections; tests call a few of them on one collection each.",
     ["traits/len.rs", "traits/map_query.rs", "traits/map_extras.rs", "traits/map_iteration.rs", "traits/set_query.rs", "traits/set_extras.rs", "traits/set_iteration.rs", "traits/map.rs", "traits/set.rs"],
     [("map iteration over standard maps", "traits/map_iteration.rs"), ("length", "traits/len.rs"), ("queries", "traits/map_query.rs")],
     "five map types and four set types of any 0 to 3 entries, any query, any value written; 22 types with a length of 0 to 4 arbitrary elements; multi-byte text; seven trait objects; standard collections of 300 and 1100 entries; slices of any length below 2^62.")
prop("C17", "Every way of constructing a collection gives the same collection",
     "A collection built from an array, collected from an iterator (whatever length the iterator announces), converted from the corresponding map, built with or without an explicit hash function or from owned or borrowed strings means exactly the list of entries given, with the last of several equal keys winning, as if built from a vector. Default collections of every kind are empty: no query finds anything, nothing is iterated and nothing panics.",
     ["inputs"], "all lists of entries, all construction paths and all queries",
     "Each collection type has five or so construction paths of its own; tests build through one or two with distinct keys.",
     ["fz_maps/fz_hash_map.rs", "fz_maps/fz_ordered_map.rs", "fz_maps/fz_scalar_map.rs", "fz_maps/fz_string_map.rs", "fz_sets/fz_hash_set.rs", "fz_sets/fz_ordered_set.rs", "fz_sets/fz_scalar_set.rs", "fz_sets/fz_string_set.rs", "maps/dense_scalar_lookup_map.rs", "maps/sparse_scalar_lookup_map.rs", "hash_tables/hash_table.rs"],
     [("conversions", "fz_maps/fz_string_map.rs"), ("empty collections", "hash_tables/hash_table.rs")],
     "ordered and hash collections from any 0 to 3 entries in nine ways each, scalar ones from any 0 to 2 keys below 8 or 3 below 4 in four ways, string ones from 0 to 2 (thorough 3) of six strings in eleven ways; 13 default collections; any query; 310 entries over 300 keys from arrays and iterators.")
prop("C18", "No trait implementation can make safe use of a collection unsafe",
     "Whatever the trait implementations of keys, queries and hashers answer, be it comparisons, equality, hash codes or scalar indexes that contradict each other or change from call to call, using a collection through its safe interface never touches memory outside what is alive, never hands out two mutable references to one value, never drops anything twice and never yields an entry that was not put in. A lookup may then find nothing or another entry, entries may be taken for repeats, and an operation may panic.",
     ["inputs", "histories"], "all answers any implementation of Ord, Eq, Hash, Scalar, Equivalent, Comparable, BuildHasher or AsRef<str> can give on each single call",
     "These traits are safe to implement, so no answer may lead to undefined behaviour; the lookups index without bounds checks on the strength of what the traits said during construction. Tests only use lawful implementations.",
     ["maps/decl_macros.rs", "maps/dense_scalar_lookup_map.rs", "maps/sparse_scalar_lookup_map.rs", "maps/eytzinger_search_map.rs", "utils/eytzinger.rs", "utils/dedup.rs", "hash_tables/hash_table.rs", "hash_tables/decl_macros.rs", "hash_tables/inline_hash_table_no_collisions.rs", "analyzers/scalar_key_analyzer.rs", "fz_maps/fz_string_map.rs", "traits/map_extras.rs"],
     [("unchecked indexing", "maps/decl_macros.rs"), ("unchecked search results", "utils/eytzinger.rs"), ("pointers to several values", "maps/decl_macros.rs"), ("slots computed from hash codes", "hash_tables/hash_table.rs")],
     "maps and sets of 1 to 2 entries (thorough 3 to 4) whose order and equality are any answer on every call, hash codes any of 3, indexes any of 3 (one entry: of 5, both ends of the type included); 16 kinds of map and 6 of set over fixed u8 keys with queries whose every answer (and 64-bit index) is arbitrary; string maps of 1 to 4 keys with queries that are another string and hashers that are another function on every call; lookups, 2 and 3 keys at once, clones, iteration.")
prop("C19", "Memory and the work of a lookup stay in proportion to what a collection holds",
     "Whatever the keys and whatever their hash codes, a collection built at run time from n entries keeps at most 2048 + 256 n bytes of heap beside what its keys and values own (for strings: beside twice their bytes), and building it never uses more than 8192 + 640 n (for entries of at most 16 bytes; strings: plus four times their bytes); keys at opposite ends of their type or hash codes that all collide change nothing about that. Looking a key up, iterating, writing values through iterators and set algebra by reference allocate nothing. A lookup in an ordered collection of n entries makes at most 2 (log2 n + 1) + 2 comparisons, as does one in a scalar collection whose keys lie evenly less than 64 apart; one in a hash collection whose hash codes are consecutive numbers computes one hash code and compares at most 4 keys. Building makes at most 4 n (log2 n + 1) comparisons, or 16 n equality tests and 4 n + 16 hash computations when the hash codes are well spread, in whatever order and however often keys are given.",
     ["inputs"], "all keys, hash codes, numbers of entries and queries",
     "The reason to use these collections is how fast and compact they are; which representation is chosen depends on the spread of keys and hash codes, and a wrong choice answers every test correctly while it takes gigabytes or scans.",
     ["analyzers/scalar_key_analyzer.rs", "analyzers/hash_code_analyzer.rs", "maps/sparse_scalar_lookup_map.rs", "hash_tables/hash_table.rs", "utils/eytzinger.rs", "utils/dedup.rs", "sets/iterators.rs", "fz_maps/fz_scalar_map.rs", "fz_maps/fz_string_map.rs"],
     [("choice of tables for scalars", "analyzers/scalar_key_analyzer.rs"), ("number of slots", "analyzers/hash_code_analyzer.rs"), ("search", "utils/eytzinger.rs"), ("removal of repeats", "utils/dedup.rs")],
     "memory: any 2 u64 (thorough i64) keys 4096 or more apart, 3 keys out of 5 to 14 places across six types, 8 to 1100 keys 1 to 2^40 apart, 2 (thorough 3) entries with any hash codes, 40 to 1100 entries with six kinds of hash codes, 0 to 1100 ordered keys, 1 to 130 strings of 1 to 1200 bytes; allocations: 16 kinds of map, 7 of string map, 13 of set, any query; comparisons: ordered collections of 1 to 64, 300, 1100 entries, scalar of 4 to 300, hash of 1 to 300, three sizes of macro-made ordered maps; building: 2 to 1100 entries in seven orders.",
     note="The constants are about twice what the library needs now, so that they bind the order of magnitude and leave other layouts room. Scalar keys spread far apart by powers of two all share one slot of the hash table used for them; their lookups are linear today and nothing is claimed about them.")
