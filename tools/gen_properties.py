#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })
BL="src/bloom/bloom_filter.rs"; PB="src/bloom/partitioned_bloom_filter.rs"; SB="src/bloom/scalable_bloom_filter.rs"; DD="src/bloom/dd_bloom_filter.rs"
CK="src/cuckoo/cuckoo_filter.rs"; SC="src/cuckoo/scalable_cuckoo_filter.rs"; QF="src/quotient.rs"; CM="src/count_min_sketch.rs"; HL="src/hyperloglog.rs"
MH="src/similarity/min_hash.rs"; SH="src/similarity/sim_hash.rs"; SM="src/similarity/mod.rs"; UT="src/util.rs"; BV="src/bit_vec.rs"; BS="src/bitstring_vec.rs"

p("C01","Bloom-family filters never forget an inserted item",
  "After any history of insertions and clears, a Bloom, partitioned Bloom or scalable Bloom filter answers `contains` = true for every item inserted since the last clear. This holds for every accepted sizing, hash builder, key type and borrowed key form, however far the filter is overfilled, and across every growth of a scalable filter.",
  ["inputs","histories","configurations"],"All histories of insert/contains/clear/clone over all constructors, sizes (1 bit to more than 2^32 bits), hash counts, growth and tightening ratios, hash builders.",
  "The unit tests insert one or a few strings into one fixed geometry; a lost item needs a particular geometry, collision or growth step.",
  [BL,PB,SB,BV,UT],[("insert sets, contains reads, the same k positions",BL),("partition offset index*bit_count + hash%bit_count",PB),("contains looks at every layer; layers are never dropped on growth",SB),("DoubleHasher/HashIter",UT)],["insert","contains","clear"])
p("C02","Bloom filter state is the union of its items' bits",
  "The state of a Bloom or partitioned Bloom filter depends only on the set of items inserted since the last clear: order, repetition and interleaved queries make no difference, and re-inserting a contained item changes nothing. `contains(x)` is true exactly when inserting x would set no new bit; one insertion sets at most `hasher_count` bits (one per partition when partitioned); `count_ones + count_zeros = len` always, and `estimated_fpp` equals (ones/len)^hasher_count.",
  ["inputs","histories","configurations"],"All sets, permutations and multiplicities of items, all geometries, after every step of every history.",
  "Tests check the counters after one or two insertions of one key; they never compare different orders or check the counter against membership.",
  [BL,PB,BV],[("one_count maintained by set/set_all",BV),("insert/contains/estimated_fpp",BL),("insert/contains/estimated_fpp",PB)],["count_ones","count_zeros","contains","estimated_fpp"])
p("C03","Bloom filters honour the configured false positive probability",
  "A Bloom or partitioned Bloom filter built for n items and probability p (or for a bit budget and p, filled to the capacity these imply; or for a bit budget and n), then filled with n distinct items, reports a never-inserted item as present with probability at most p up to the integer rounding of the hash count (or the textbook optimum for that bit budget). `estimated_fpp` predicts the measured rate. Each item uses `hasher_count` positions spread evenly over the filter (or one per partition), so that the fill follows the expected 1-(1-1/m)^(kn) even where the probability is too small to be measured.",
  ["inputs","configurations"],"All (n, p), (bits, p), (bits, n), all hash seeds and key sets.",
  "The tests assert the computed sizes for one or two parameter pairs and never measure a false positive rate.",
  [BL,PB,UT,BV],[("bit and hash count formulas",BL),("per-partition sizing",PB),("enhanced double hashing",UT)],["contains over non-members","estimated_fpp","len","hasher_count"])
p("C04","A scalable Bloom filter grows at half full, on schedule, within its bound",
  "A scalable Bloom filter adds exactly one new, empty layer as soon as at least half of the newest layer's bits are set, and at no other time; layer i has growth_ratio times the bits of the previous layer (rounded up) and a false positive target of fpp*tightening_ratio^i, and an item already reported as present adds no bits. Hence it behaves as that sequence of Bloom filters, and its overall false positive probability stays below fpp/(1 - tightening_ratio) however many items are inserted.",
  ["inputs","histories","configurations"],"All initial sizes, fpp, growth and tightening ratios, and all insertion histories through many growth steps.",
  "The tests trigger growth with one parameter set and look at filter_count only; neither the rule's exact moment nor the compound probability is checked.",
  [SB,BL],[("try_grow with approximate_bits_used re-synchronised from the exact count",SB)],["len","filter_count","count_ones","contains","estimated_fpp"],None,
  [("approximate_bits_used","upper bound of set bits in the newest layer",SB)])
p("C05","Cuckoo filters never lose an accepted item",
  "In a cuckoo filter every item that was reported absent just before it was inserted stays reported present until that item is removed, for any number of insertions (including far beyond capacity, when entries overflow into the extra-item list) and any interleaving with removals of other such items. The number of stored entries, `len() + extra_items_len()`, equals the number of such live items.",
  ["inputs","histories","configurations"],"All histories of insert/remove/clear, all geometries (1 bucket upwards, 1..n entries, 2..64 bit fingerprints), all kick sequences of the internal random generator.",
  "Eviction chains depend on a random generator and on full tables; the tests insert a handful of strings into a mostly empty table.",
  [CK,BS],[("two candidate buckets, XOR partner, kick loop up to max_kicks, then extra_items",CK),("set/get/occupied_len",BS)],["contains","len","extra_items_len"],None,
  [("extra_items","fingerprints that found no slot, keyed by the smaller of their two buckets",CK)])
p("C06","A cuckoo filter is exactly a set of fingerprint classes",
  "Items of a cuckoo filter fall into equivalence classes (those that a filter holding just one of them already reports as present), and the filter behaves as a set of classes: `contains` is true exactly when some live class matches, inserting a present class changes nothing, removing erases exactly that class and nothing else, and removing an absent item changes nothing. Evictions, overflow entries and removals never create, duplicate or merge classes.",
  ["inputs","histories","configurations"],"All histories over item pools with many fingerprint collisions, tables from nearly empty to overflowing.",
  "Needs collisions between chosen items and tables full enough to evict; tests use a few distinct strings.",
  [CK,BS],[("contains_fingerprint / remove_fingerprint over both buckets and extra_items",CK)],["contains","len","extra_items_len","is_nearly_full"])
p("C07","Cuckoo filter geometry and false positive rate are as configured",
  "A cuckoo filter has a power-of-two number of buckets, just enough for the requested item count at the given entries per bucket, `capacity() = bucket_len()*entries_per_index()`, and the fingerprint size or bucket size asked for or derived from the requested probability. Filled to capacity it reports never-inserted items as present with probability at most the requested one, and `estimated_fpp` predicts the measured rate at any load.",
  ["inputs","configurations"],"All item counts, probabilities, entries per bucket, fingerprint sizes, hash seeds, loads.",
  "Tests assert geometry for one parameter set per constructor and never measure a false positive rate.",
  [CK,BS],[("constructor formulas",CK),("estimated_fpp from the occupied ratio",CK)],["capacity","bucket_len","fingerprint_bit_count","estimated_fpp","contains"])
p("C08","A cuckoo filter reaches a high load before it overflows",
  "A cuckoo filter stores items without any overflow entry until its load factor reaches what partial-key cuckoo hashing with 512 displacements achieves (above 90% with 4 entries per bucket, above 75% with 2, above 95% with 8), and overflow only begins when both buckets of some item are full. Items beyond that go to the overflow list and are still found.",
  ["inputs","histories","configurations"],"All key sets, hash seeds and table sizes of 256 buckets and more.",
  "Tests never fill a table of realistic size; a broken displacement loop keeps every small test passing.",
  [CK],[("kick loop: random victim, partner bucket, max_kicks",CK)],["extra_items_len","is_nearly_full","len","capacity"])
p("C09","Scalable cuckoo filters keep, count and remove items exactly across growth",
  "In a scalable cuckoo filter every item that was reported absent just before it was inserted stays present until that item is removed, whichever layer holds it and however many layers there are; removing it erases exactly one entry and never another accepted item. `len()` is always the number of accepted live items, removing a never-accepted absent item changes nothing, and clearing restores the initial single layer.",
  ["inputs","histories","configurations"],"All insert/remove/clear histories through several growths, with collisions inside and across layers, any fpp, growth, tightening, entries per bucket.",
  "Cross-layer collisions and removals after growth do not occur in the tests (whose module is also excluded from the reliable set).",
  [SC,CK],[("insert into the newest layer unless some layer contains it; try_grow; remove",SC)],["contains","len","filter_count","capacity"])
p("C10","A scalable cuckoo filter grows on schedule and within its FPP bound",
  "A scalable cuckoo filter adds one layer after an insertion that leaves its newest layer full or overflowing, and only then; the new layer has about growth_ratio times the capacity (rounded up to a power of two of buckets) and its false positive target is tightened by tightening_ratio. Hence its overall false positive probability stays below fpp/(1 - tightening_ratio) for any number of items, and any number of growths succeeds.",
  ["inputs","histories","configurations"],"All initial sizes, fpp, ratios and insertion histories through many growths.",
  "The tests reach at most a second layer with one parameter set and never measure the false positive rate.",
  [SC,CK],[("try_grow: is_nearly_full or len == capacity; ratio powers",SC)],["filter_count","capacity","len","estimated_fpp","contains"])
p("C11","A quotient filter is exactly a set of fingerprints",
  "A quotient filter behaves as a set of (quotient,remainder) fingerprints under any history of insertions, removals and clears, up to and including a completely full table: `contains(x)` is true exactly when an item with x's fingerprint is live, removing an absent item changes nothing, removing a present one erases it and nothing else, and `len` counts the distinct live fingerprints.",
  ["inputs","histories","configurations"],"All histories over all quotient/remainder sizes, in particular dense clusters, wrap-around clusters, runs shifted far from their canonical slots, full tables.",
  "Cluster shifting has many cases that depend on neighbouring runs; the tests exercise a few hand-made clusters and rarely remove.",
  [QF,BS],[("get_run_start, insert_and_shift_right, remove's shift-left with the three metadata bits",QF)],["contains","len","is_empty"],None,
  [("occupied/continuation/shifted bits","run and cluster structure",QF)])
p("C12","A full quotient filter rejects only new items and stays intact",
  "A quotient filter accepts new items until exactly 2^quotient_bits distinct fingerprints are stored; then inserting another one panics and leaves the contents unchanged, while inserting a present item is accepted silently, and queries and removals keep working exactly. After removals it accepts new items again.",
  ["inputs","histories","configurations"],"All fillings of all geometries, with operations before, at and after the full state.",
  "One test reaches a full table with one layout; queries and removals in a full table (a single cluster without a start gap) are untested.",
  [QF],[("len < capacity assertion after the contains check",QF)],["insert panic","contains","len","capacity"])
p("C13","Quotient filter sizing meets the requested capacity and probability",
  "A quotient filter built for a capacity and a probability p stores at least that many items at no more than about 75% fullness, and at that many items both its estimated and its measured false positive probability are at most p (up to sampling error), for every p in (0,1). `estimated_fpp` predicts the measured rate at any fullness, and `capacity() = 2^quotient_bits`.",
  ["inputs","configurations"],"All capacities, all p in (0,1), all fullness levels and hash seeds.",
  "The test asserts the derived bit counts for one pair of parameters.",
  [QF],[("from_fpp_with_hasher formulas; estimated_fpp",QF)],["capacity","quotient_bits","remainder_bits","estimated_fpp","contains"])
p("C14","Count-min sketch estimates never undershoot and are linear",
  "As long as no item's net count is negative, the count-min estimate of every item is at least its true net count, and exact when the item shares no counter with others. The sketch is linear: the result depends only on the net counts, not on order or batching of insertions and removals, removing what was inserted restores the earlier estimates, and clearing restores the empty sketch.",
  ["inputs","histories","configurations"],"All insert/remove/clear histories with positive, zero and negative amounts, all grid shapes, hash builders.",
  "Tests insert one key with one amount; lower-bound violations need colliding keys or removals.",
  [CM,UT],[("grid row/column addressing shared by insert and ItemValueIter; items total",CM)],["count","insert","remove","clear"])
p("C15","Count-min sketch meets its (epsilon, delta) guarantee",
  "A sketch built from (epsilon, delta) over a non-negative stream of total N overestimates an item by more than epsilon*N with probability at most delta, for any stream. It has at least e/epsilon columns and ln(1/delta) rows (and no more than rounding requires), and its reported confidence and error values correspond to those dimensions.",
  ["inputs","configurations"],"All epsilon, delta in (0,1), all streams including the extremal equal-heavy-hitter stream, all hash seeds.",
  "Tests assert rows and columns for one pair of parameters and never measure the error probability.",
  [CM,UT],[("from_error dimensions; independent rows through double hashing",CM)],["rows","cols","count","error","confidence"])
p("C16","Count-mean and median-bias estimates follow their definitions",
  "For every item the estimate is computed from its counters, one per row: minimum for the min strategy, mean rounded to the nearest integer for the mean strategy, and for the median-bias strategy the lower median of the counters after subtracting from each the expected noise of the other items in its row, (total - counter)/(columns - 1) rounded up, but never more than the minimum. Custom strategies see the same total, dimensions and counters.",
  ["inputs","histories","configurations"],"All counter values reachable by any history (including removals and negative nets), all row counts (odd, even, one), columns of 2 and more.",
  "The tests evaluate one item in a nearly empty sketch where all strategies agree.",
  [CM],[("CountStrategy implementations over ItemValueIter",CM)],["count under each strategy"])
p("C17","HyperLogLog meets its configured error at every cardinality",
  "A HyperLogLog built with error e estimates the number of distinct inserted items with relative standard error of about e (and negligible bias), from empty through small cardinalities to beyond 2^32, for every e up to 1/2 and every hash seed, with the estimate always finite and non-negative for any accepted e. Duplicates do not change the estimate.",
  ["inputs","configurations"],"All error settings, cardinalities from 0 to beyond 2^32, hash seeds, key sets.",
  "Tests count three items with one setting; register count, bias constant, and the three estimator ranges are never exercised.",
  [HL],[("register count from e, alpha, harmonic mean, linear counting and large range correction",HL)],["len"])
p("C18","HyperLogLog is a function of the item set, and merge is union",
  "The state of a HyperLogLog depends only on the set of items inserted since the last clear (not on order or repetition); merging two compatible sketches gives exactly the sketch of the union, so merge is commutative, associative and idempotent, and leaves its argument unchanged. Merging sketches of different precision or hash builder panics and changes nothing; it is empty exactly when nothing was inserted.",
  ["inputs","histories","configurations"],"All partitions of all item streams over sketches, all merge orders, all precisions.",
  "One test merges two three-item sketches.",
  [HL],[("register-wise maximum; insert's rank",HL)],["merge","len","is_empty","serialized form"])
p("C19","Stream filters always recognise the item just inserted, with bounded forgetting",
  "In a biased-sampling, single-deletion or randomised load-balanced stream filter, an item is reported present immediately after it is inserted, and inserting an item already reported present changes nothing. Each other insertion sets at most one bit per sub-filter and clears at most one bit in each (at most one bit overall for single deletion, none in empty sub-filters), so nothing is reported present that a filter without deletions would not report.",
  ["inputs","histories","configurations"],"All streams, sub-filter sizes (1 bit upwards), fpp, hash builders, and all draws of the internal random generator.",
  "Tests insert one or two keys; which bits are cleared depends on the random generator and a populated filter.",
  [DD,BV],[("evict then set in insert; contains before insert",DD)],["contains","count_ones","count_zeros","len"])
p("C20","Stream filters keep a stable load and keep recent items",
  "Over a stream of distinct items, each inserted only when it is reported absent, the load p (fraction of set bits) of a stream filter with k sub-filters moves by what its deletion rule implies: an inserted item sets its k bits, and deletes one uniformly random position per sub-filter (biased sampling), one in a single random sub-filter (single deletion), or one per sub-filter with probability equal to that sub-filter's load (load balancing). Hence, independent of the stream length, biased sampling settles where p = (1-p)/(1-p^k) (about 1/2), load balancing where p^2 = (1-p)/(1-p^k) (about 0.618), and the false positive rate stays p^k. An item is still recognised after t further insertions with at least the probability that those random deletions leave its bits alone.",
  ["inputs","histories","configurations"],"All long streams, sizes, fpp settings, seeds.",
  "Needs streams many times the filter size; tests insert a few items.",
  [DD],[("eviction probability and index draw",DD)],["count_ones","contains"])
p("C21","Shingles and exact Jaccard similarity are correct for every input",
  "Shingling a token list with width w >= 1 yields exactly the consecutive windows of w tokens in order (none when there are fewer than w tokens), and then keeps returning none. The exact Jaccard similarity of two iterators is |A and B| / |A or B| over their distinct items (not both empty): symmetric, in [0,1], 1 exactly for equal non-empty sets, 0 exactly for disjoint ones, independent of order and repetition.",
  ["inputs"],"All token lists (including short and empty), widths, multisets.",
  "Tests shingle two fixed sentences.",
  [SM],[("ShingleIterator::next; HashSet intersection/union",SM)],["ShingleIterator","get_jaccard_similarity"])
p("C22","MinHash signatures compose and estimate Jaccard similarity",
  "A MinHash signature has `hasher_count` components and depends only on the set of items; the signature of a union is the component-wise minimum of the signatures. The similarity of two inputs is the fraction of equal components: symmetric, 1 for equal sets, and an unbiased estimate of their Jaccard similarity with standard deviation about sqrt(J(1-J)/hasher_count).",
  ["inputs","configurations"],"All non-empty sets, repetitions, orders, hash counts, seeds.",
  "Tests pin one similarity value of two fixed sentences.",
  [MH,UT],[("per-hash minimum over all shingles; match fraction",MH)],["get_min_hashes","get_similarity","get_similarity_from_hashes"])
p("C23","SimHash fingerprints are bitwise majority votes",
  "Each bit of the SimHash of a multiset is the majority of that bit over the fingerprints of its single items (ties give one), so it is independent of order, and repeating the whole multiset changes nothing. All 64 bits carry information, so that the expected fraction of differing bits between two weighted feature sets follows the angle between them.",
  ["inputs","configurations"],"All multisets of items with multiplicities, hash builders.",
  "Tests only check which pairs are reported for three short sentences.",
  [SH],[("per-bit signed counters and fold",SH)],["get_sim_hash"])
p("C24","SimHash reports exactly the window neighbours under rotation",
  "`report_similarities` returns each pair of input positions (smaller first, no repetition, no self pairs) exactly when, for at least one of the 64 rotations of the fingerprints, the two are within window_size consecutive positions of the list sorted by rotated fingerprint and position. In particular duplicates of the same document are found when they fit in a window, results do not depend on anything but the fingerprints, and any number of documents (fewer than the window, or none) is accepted.",
  ["inputs","configurations"],"All document lists of any length including 0 and 1, window sizes of 2 and more, duplicate documents.",
  "Tests use three documents and window size 2.",
  [SH],[("64 sorts with rotate_left, sliding window pair collection",SH)],["report_similarities"])
p("C25","Serialisation round trips preserve every collection",
  "With the serde feature, serialising and deserialising any collection in any reachable state (binary or JSON) gives a collection with the same answers, counters, parameters and hash builders, and the same behaviour under every later operation. Collections with an internal random generator stay correct afterwards, and re-serialising gives the same bytes.",
  ["histories","inputs","configurations"],"All reachable states of all collections, including overflowing, grown, full and cleared ones; all continuations.",
  "Tests round-trip one lightly filled instance per type and check one or two lookups.",
  [BL,PB,SB,DD,CK,SC,QF,CM,HL,MH,SH,UT,BV,BS],[("derived Serialize/Deserialize, rng skipped and re-created",CK)],["serde"])
p("C26","Results are determined by hash seeds, and entropy constructors are seeded apart",
  "Two collections with equal parameters and equal hash builders (the documented `hashers()`/`hasher()` values can be reused to build the second) give equal answers to equal histories whatever borrowed form of the key is used, except that cuckoo and stream filters may differ in their random choices only. Collections built from entropy use hash builders that differ between instances and between the two of a pair in all bits of their keys, and otherwise equal the collection built from those hash builders; builders made from equal seeds are equal and from different seeds unequal and hash differently.",
  ["inputs","histories","configurations"],"All key types and borrowed forms, seeds, histories, constructors.",
  "Tests use String keys with str lookups on single instances only.",
  [UT,BL,PB,SB,DD,CK,SC,QF,CM,HL,MH,SH],[("SipHasherBuilder, DoubleHasher, hashers accessors; from_entropy calls in constructors",UT)],["hashers","contains/count/len","SipHasherBuilder equality"])
p("C27","A cleared collection is indistinguishable from a new one",
  "After `clear`, in any reachable state, every collection that has it answers and counts exactly as a newly built one with the same parameters and hash builders, keeps its parameters, and behaves like the new one under every later history (growth schedule included).",
  ["histories","configurations"],"All states of all collections with `clear`, all continuations.",
  "Tests clear after one insertion and look up one key.",
  [BL,PB,SB,DD,CK,SC,QF,CM,HL,BV,BS],[("clear implementations, set_all, BitstringVec::clear",BV)],["clear"])
p("C28","Clones are equal in behaviour and independent",
  "A clone of any collection in any state gives the same answers and counters as the original, evolves the same way under the same later operations (random choices included, except in layers a scalable filter makes later), and neither is affected by operations on the other.",
  ["histories","configurations"],"All reachable states of all cloneable collections, all interleavings of operations on the original and the clone.",
  "No test clones a filter.",
  [BL,PB,SB,DD,CK,SC,QF,CM,HL,BV,BS],[("derived Clone; manual Clone of the bit array",BV)],["clone"])
p("C29","Constructors accept exactly the documented domain",
  "Every constructor with a documented panic condition (cuckoo, quotient, HyperLogLog; also HyperLogLog merge, MinHash length mismatch, SimHash window) panics on exactly those arguments, in debug and release builds alike, and otherwise yields an empty collection whose accessors report the requested or derived parameters. All other constructors yield an empty collection of the derived size for every sensible argument.",
  ["inputs","configurations"],"All argument combinations, boundary values and values next to them, both arithmetic-checking modes.",
  "Tests check a few panics with one argument each; boundaries, overflow and the non-panicking side are not covered.",
  [QF,CK,HL,BL,PB,DD,CM,SH,MH],[("assertions in constructors",CK)],["panics","accessors"])
p("C30","Memory use is set by the parameters, not by the data",
  "The storage of every fixed-size collection, as visible in its serialised size and in the memory it allocates, is constant over any history (cuckoo overflow entries aside) and equals its nominal bits plus a small constant: len bits for Bloom-type filters, fingerprint bits times slots for cuckoo filters, (remainder bits + 3) times 2^quotient_bits for quotient filters, rows*cols counters for sketches, one byte per register for HyperLogLog. Scalable filters use the sum over their layers.",
  ["histories","configurations"],"All parameters and all histories.",
  "No test looks at size at all; wasting or leaking storage keeps every functional test passing.",
  [BL,PB,SB,DD,CK,SC,QF,CM,HL,BV,BS],[("BitVec, BitstringVec packing",BS)],["serialized size"])
p("C31","The bit array behaves as a vector of booleans",
  "Under any sequence of its operations the packed bit array holds exactly what a plain vector of booleans would: element reads, iteration, length, byte conversions, set operations and equality agree, and the numbers of ones and zeros are exact after every operation. Appending reserves no more than a constant multiple of what is needed.",
  ["inputs","histories"],"All operation sequences, lengths that are and are not multiples of eight, clone_from, set operations between differently produced arrays.",
  "Tests apply each operation once to one short array.",
  [BV],[("one_count bookkeeping and extra-bit clearing",BV)],["all methods"],"pcrs_verif re-export of the private module")
p("C32","The packed integer array behaves as a vector of small integers",
  "Under any sequence of its operations the packed array of b-bit integers (1 <= b <= 64) holds exactly what a plain vector of integers would: reads, iteration, length, pops and equality agree for elements inside and across 64-bit words, neighbours are never disturbed, and the count of non-zero elements is exact. Appending reserves no more than a constant multiple of what is needed.",
  ["inputs","histories"],"All widths 1..64, lengths, operation sequences.",
  "Tests use two or three widths and one operation each.",
  [BS],[("cross-word set/get, occupied_len bookkeeping",BS)],["all methods"],"pcrs_verif re-export of the private module")
p("C33","Equality of filters is equality of parameters and contents",
  "Two Bloom filters compare equal exactly when they have the same number of bits and of hash functions, equal hash builders and the same bits set. Two cuckoo filters that compare equal have the same geometry and hash builders, hold the same stored and overflow entries and answer every query alike. Clones and deserialised copies compare equal to the original and stay so under equal steps, a cleared filter equals a new one, and any step that changes what is held makes them unequal; `==` is symmetric and `!=` its negation. Hash builders are equal exactly when their seeds are.",
  ["histories","configurations"],"All pairs of filters: equal, differing in one item, one parameter, one bit of one seed, or in overflow entries only.",
  "Tests compare one pair after a serde round trip; a comparison that skips a field passes them.",
  [BL,CK,UT,BV,BS],[("derived PartialEq of BloomFilter, BitVec and BitstringVec",BL),("manual PartialEq of CuckooFilter (rng left out)",CK),("PartialEq of SipHasherBuilder",UT)],["==","!="])
p("C34","Queries change nothing and may run concurrently",
  "Looking at a collection (queries, counters, estimates, parameters, cloning, serialising, `Debug` output) never changes it: the same history with any queries between its steps leads to the same state and the same later answers, random choices included. Collections can be shared between threads, and any number of threads that query one at the same time get the answers a single one would.",
  ["histories","schedules"],"All histories with arbitrary queries between the steps; several threads on one collection in every order.",
  "Tests never repeat a query or look at the state after one, and have no threads.",
  [BL,PB,SB,DD,CK,SC,QF,CM,HL,MH,SH],[("queries take &self, except the scalable cuckoo filter's contains",SC),("internal random generators used by insertions only",DD)],["contains","count","len","estimated_fpp","clone","serialize"])
p("C35","Placement is a fixed function of the seeds",
  "Where items go depends on hash builders and parameters only, by fixed formulas, so that stored collections and signatures stay valid across builds. A seeded `SipHasherBuilder` is SipHash-2-4 under its two keys. The i-th hash of an item is h1 + i*h2 + i(i-1)(i-2)/6 modulo 2^64 (h1, h2 from the two builders); it is the item's MinHash value i, and modulo the size of the filter, partition, sub-filter or row it gives the position in Bloom, partitioned and stream filters and count-min rows. Cuckoo fingerprints are the low bits of h1 (rehashing h1+1 while zero), the buckets h2 and its xor with the fingerprint's second hash; quotient fingerprints are the low bits; HyperLogLog takes the register from the low p bits and the rank from the ones that follow; SimHash starts with the lowest bit and ties give one.",
  ["inputs","configurations"],"All keys, seeds, hash builders and geometries, many hash functions, overflowed tables.",
  "Tests fix a few answers for one seed pair and tiny filters, in which most other placements give the same answers.",
  [UT,BL,PB,DD,CM,CK,QF,HL,MH,SH],[("HashIter (enhanced double hashing)",UT),("SipHasherBuilder",UT),("get_fingerprint_and_indexes",CK),("get_quotient_and_remainder",QF)],["contains","count","get_min_hashes","get_sim_hash","len"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
