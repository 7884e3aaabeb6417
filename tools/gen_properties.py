#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json. Run by hand after editing; the outputs are committed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Running out of memory is a reported error, and the call works when retried",
 "When any memory allocation fails while a document is built (with builders or from a parsed JSON value), copied into a buffer (`to_yason_buf`; the infallible `Clone` and `to_owned` of the standard traits cannot report anything and are outside), queried, tested for existence, read, compared, serialised or deserialised as bytes, formatted into the caller's writer, or while a path is compiled, the call either reports the failed reservation as its error or still gives exactly the answer it gives with enough memory. It never panics, aborts the process, or returns a different answer. The same call made again once memory is available gives the answer of an undisturbed call.",
 ["fault_sequences", "inputs"], "every operation of the crate on every document and path, and every single allocation, run of allocations or size class that can fail during it",
 "No test makes an allocation fail; the fallible-allocation code (try_reserve everywhere, no infallible growth) is never run on its error side.",
 ["src/vec.rs", "src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/json.rs", "src/path/mod.rs", "src/path/parse.rs", "src/path/query.rs", "src/yason/mod.rs", "src/serde.rs"],
 [("reserve before every growth", "src/vec.rs: try_with_capacity; try_reserve calls in src/builder/*.rs"), ("reserve for query results", "src/path/mod.rs: push_value, values_to_yason"), ("fallible number text buffer", "src/json.rs: number2decimal"), ("errors carried up", "BuildError::TryReserveError, YasonError::TryReserveError, PathParseErrorKind::TryReserveError")],
 ["result of the call under a failing global allocator", "process survival"])

prop("C02", "A finished document holds exactly the pushes that were acknowledged",
 "A document that finishes successfully contains exactly the keys, values and elements whose pushes returned success, in order for arrays, at every nesting level. A push that returned an error, for whatever reason, leaves no trace in the document and does not use up one of the declared elements, so the caller can retry it or push something else. Building can always be completed afterwards.",
 ["fault_sequences", "histories", "inputs"], "every sequence of pushes on objects and arrays (owned, by reference, nested, sorted or not, from JSON), with any of them refused for lack of memory, excessive length, depth or count, or unwound in the caller's conversion",
 "Tests push a few fixed sequences where every push succeeds; refusal in the middle of a build and going on afterwards is never tried.",
 ["src/builder/object.rs", "src/builder/array.rs", "src/builder/mod.rs", "src/json.rs"],
 [("count only after success", "src/builder/object.rs: push_key_value_by; src/builder/array.rs: push_value"), ("key order kept by insertion", "src/builder/object.rs: binary_search"), ("nested builders share the buffer", "InnerObjectBuilder / InnerArrayBuilder over &mut Vec<u8>")],
 ["content read back through the accessors", "Ok/Err of each push"],
 [("value_count / element_count", "pushes acknowledged / declared", "src/builder/object.rs, src/builder/array.rs"), ("current_depth / total depth", "nesting accounting that tells an unfinished inner builder", "src/builder/mod.rs: Depth")])

prop("C03", "Builders that are misused or abandoned are refused, never turned into garbage",
 "If a nested builder is dropped, leaked or unwound past before it is finished, or a container received fewer or more elements than declared, then finishing or going on with it is refused with an error that says so. No such history panics, corrupts memory, or yields a document whose content differs from what was pushed. Other builders, and new ones over the same buffer, are unaffected.",
 ["histories", "programs", "fault_sequences"], "every sequence of builder calls including abandoning nested builders at any depth by drop, forget or unwinding, finishing early, and pushing beyond the declared count",
 "Tests cover three fixed misuses; the histories are unbounded and include the caller's own panics, which no test has.",
 ["src/builder/object.rs", "src/builder/array.rs", "src/builder/mod.rs", "src/json.rs"],
 [("depth check on finish and push", "src/builder/*.rs: InnerUncompletedError"), ("count check on finish and push", "src/builder/*.rs: InconsistentElementCount")],
 ["Ok/Err of each call", "content of documents that do finish"],
 [("total nested depth", "shared by the builders of one document", "src/builder/mod.rs: Depth")])

prop("C04", "A caller's buffer is only appended to, whatever happens",
 "Building into a buffer the caller supplies never changes the bytes that were in it before the call, whether the call succeeds, is refused or is abandoned, and the document returned is exactly the appended region. Reading, comparing, formatting or querying never changes the document it works on. Buffers handed to a query for its results are replaced by the new results, with nothing of their former contents in the answer.",
 ["histories", "fault_sequences", "inputs"], "every history of appends, refused appends and queries that share buffers, every earlier content, length and spare capacity of the buffers",
 "Tests check one fixed prefix after one successful build; failures between appends and reuse over many operations are not sampled.",
 ["src/builder/object.rs", "src/builder/array.rs", "src/builder/scalar.rs", "src/yason/mod.rs", "src/json.rs", "src/path/mod.rs"],
 [("positions relative to the start of the new document", "src/builder/object.rs, src/builder/array.rs: start_pos"), ("slice of what was appended", "*_with_vec in src/builder/scalar.rs, RefBuilder::finish"), ("buffers cleared at the start of a query", "src/path/mod.rs: query, values_to_yason")],
 ["bytes of the caller's buffers before and after every call"])

prop("C05", "Encoded bytes depend only on the content and the build steps",
 "Building the same content with the same sequence of successful steps yields the same bytes, no matter what the memory held before, where the buffers are and how much spare room they have, whether pushes were refused and retried in between, which other documents were built, or what the clock and entropy sources say. No byte of an encoded document comes from uninitialised or stale memory. Copies of a document are byte-identical to it.",
 ["configurations", "histories", "fault_sequences"], "every document and build sequence, in every environment of stale memory, addresses, capacities, retries, clock and entropy",
 "Tests compare a few encodings in one environment, where fresh memory is usually zero, so a byte that was never written goes unnoticed.",
 ["src/builder/array.rs", "src/builder/object.rs", "src/vec.rs", "src/yason/mod.rs", "src/serde.rs"],
 [("headers skipped, then written", "src/vec.rs: skip_size, skip_key_offset, skip_value_entry, write_offset, write_total_size"), ("inlined values written in full", "push_null, push_bool in src/builder/*.rs")],
 ["bytes of the finished documents"])

prop("C06", "Stored documents read back completely wherever they are loaded",
 "A document that was written to storage and read back into memory at any address, aligned or not, has exactly its original content through every accessor, iterator, query, format and comparison, also after a crash and recovery, several times over. The same holds for a nested value that was taken out of its document and stored on its own. Reading never depends on bytes before or after the document.",
 ["crash_points", "configurations", "inputs", "histories"], "every document, every crash point of the store, every load address and surrounding bytes, every nested value, over several generations of store and load",
 "Tests read documents from the very buffer they were built in, which the allocator has aligned; placement and re-loading are not explored.",
 ["src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs", "src/builder/object.rs", "src/util.rs"],
 [("bytewise reads", "src/yason/mod.rs: read_i32/read_u16..., src/util.rs"), ("offsets relative to the document", "src/yason/object.rs, src/yason/array.rs")],
 ["content through all accessors of the re-loaded bytes"])

prop("C07", "A document cut short gives errors or intact answers, never crashes or lies",
 "If only a prefix of a document's bytes survived (torn write, short read), every accessor, iterator, query, comparison and formatting call on it either reports an error or returns exactly what the intact document would return. Formatting that fails has written only a prefix of the intact text. Nothing panics or reads outside the bytes (judged in builds without debug assertions, which is how the crate ships).",
 ["crash_points", "fault_sequences", "inputs"], "every document and every length at which it can be cut, and every read operation",
 "No test reads an incomplete document; the number of cut points is the size of the document times the operations.",
 ["src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs", "src/format/mod.rs", "src/path/query.rs"],
 [("bounds-checked reads", "src/yason/mod.rs: get / get_from_offset helpers returning YasonError::IndexOutOfBounds and kin"), ("errors carried through iterators", "ObjectIter, KeyIter, ValueIter, ArrayIter")],
 ["Ok/Err and value of every read call on every prefix"])

prop("C08", "Formatting to a failing writer is exact up to the failure and reports it",
 "Formatting a document or a query result, compact or pretty, hands the writer exactly the text of the value and nothing else, in pieces that are each a valid string; if the writer reports an error, formatting stops and reports an error, and what was written is an exact prefix of that text. It never reports success unless everything was written. The failure (or the writer unwinding) has no effect on later formatting of the same value.",
 ["fault_sequences", "inputs", "crash_points"], "every document and query result, both styles, every entry point (format_to, Display, query results), every point at which the writer fails, fails once, is full or unwinds",
 "Tests format a few values into a String, which cannot fail.",
 ["src/format/mod.rs", "src/format/pretty.rs", "src/path/mod.rs", "src/yason/mod.rs"],
 [("every write's result is propagated", "src/format/mod.rs, src/format/pretty.rs: ? on each writer call"), ("escaping in chunks", "src/format/mod.rs: format_escaped_str")],
 ["bytes accepted by the writer", "result of the format call"])

prop("C09", "Replicating documents as text or through serde yields equal documents",
 "A document formatted as text and parsed back, or serialised through serde in human-readable or binary form and deserialised, equals the original in content, over any number of hops. When frames of the transfer are lost, duplicated, reordered, delayed or cut short, a receiver never ends up with a document different from one that was sent: an incomplete frame is an error. Once the link works again, everything is delivered.",
 ["fault_sequences", "histories", "inputs"], "every document, both serde forms and text, every sequence of link faults, every read chunking, several hops",
 "Tests round-trip one small document through two serialisers in memory; link faults, chunked readers, repeated hops and generated content are not covered.",
 ["src/serde.rs", "src/json.rs", "src/format/mod.rs", "src/yason/mod.rs"],
 [("text form is the compact JSON text", "src/serde.rs: serialize, src/format/mod.rs"), ("binary form is the encoded bytes", "src/serde.rs: serialize_bytes / visit_bytes"), ("parsing", "src/json.rs: FromStr / parse, number2decimal")],
 ["content of every received document", "errors for incomplete frames"])

prop("C10", "A query's answer is what the path means on that document, whatever ran before",
 "A query returns the values its path selects from the document, in document order, with wrapper and function steps applied as documented; its error cases are exactly the documented ones. The answer depends only on path and document: not on earlier queries, failed queries, reused expressions or buffers, other documents, or how the path was spaced and quoted. An existence test is true exactly when the path selects something.",
 ["histories", "inputs", "fault_sequences"], "every document, path, query mode, and every history of earlier successful, refused or memory-starved queries with shared expressions and buffers",
 "Tests sample about a hundred path/document pairs on fresh buffers; the combinations of steps, relaxed array handling and histories are unbounded.",
 ["src/path/mod.rs", "src/path/query.rs", "src/path/parse.rs"],
 [("step by step matching with relaxed array handling", "src/path/query.rs"), ("range and last selection", "src/path/query.rs: find_range, non_array_relaxed_match"), ("buffer reset", "src/path/mod.rs: query")],
 ["result or error of query and exists, compared with a reference evaluator"])

prop("C11", "All ways of asking the same query agree",
 "For one path and document, the answers with and without the caller's result buffers, as values, references or encoded array, with and without wrapper, the existence test, and the formatted text of the answer are consistent with each other; a wrapped answer is one encoded array exactly when the caller gave a buffer for it. A failed or memory-starved attempt in one way of asking does not change the others. Asking again gives the same answer.",
 ["configurations", "histories", "fault_sequences"], "every document and path, every combination of wrapper, query buffer, result buffer, formatting style, and any order of asking them with failures in between",
 "Tests look at each result mode on its own with fixed queries; agreement between the modes on arbitrary queries is never compared.",
 ["src/path/mod.rs", "src/path/query.rs", "src/format/mod.rs"],
 [("one matcher, several result forms", "src/path/mod.rs: query, exists, values_to_yason, QueriedValue::format_to")],
 ["all result forms of one query, compared with each other"])

prop("C12", "Nesting is limited to exactly 100 levels, and documents at the limit work",
 "Containers nest to exactly 100 levels: the builders, the conversion from a JSON value and the text parser accept any document of that depth and refuse any deeper one with an error. A refusal leaves the enclosing builder usable and the rest of the document unharmed. Documents at the limit can be read, queried, formatted in both styles, compared, copied and sent like any other.",
 ["inputs", "histories", "fault_sequences"], "every shape of nesting of objects and arrays around the limit, every point at which the limit is hit and building goes on, with failed allocations in between",
 "Tests nest one straight chain of arrays and one of objects and look at the refusal only; what still works afterwards, mixed nesting, other entry points and use of such documents is not tried.",
 ["src/builder/mod.rs", "src/builder/object.rs", "src/builder/array.rs", "src/json.rs", "src/format/pretty.rs"],
 [("depth counter shared by nested builders", "src/builder/mod.rs: Depth, MAX_NESTED_DEPTH"), ("indentation for any depth", "src/format/pretty.rs: indent")],
 ["Ok/Err at each depth", "content, text, queries of documents at the limit"])

prop("C13", "Concurrent and re-entrant users are isolated from each other",
 "Documents and compiled paths may be shared by several threads, and each thread may build, query, format and compare at the same time, also from inside the callbacks (writers, conversions) of another call. Every user sees exactly the results it would see alone. This includes users that run out of memory or whose callbacks fail or unwind.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of two to four users at allocation, callback and operation granularity, with faults in any of them",
 "All tests are single-threaded and none re-enters the crate from a callback.",
 ["src/path/mod.rs", "src/path/query.rs", "src/builder/mod.rs", "src/format/mod.rs", "src/yason/mod.rs"],
 [("no shared mutable state", "whole crate: no statics with interior mutability, no thread-locals"), ("expressions are immutable during queries", "src/path/mod.rs: query(&self)")],
 ["each user's history of results, alone and interleaved"])

prop("C14", "Equality means equal content, whatever the documents' histories",
 "Two documents compare equal exactly when their content is equal: the same keys with equal values, the same elements in order, numerically equal numbers, equal strings and booleans. This does not depend on how they were built, laid out, stored, moved or transferred, on whether they are whole documents or parts of others, or on the order of comparison. Comparing has no side effects.",
 ["histories", "inputs", "configurations"], "every pair of documents with equal or slightly different content, every pair of histories that produced them",
 "Tests compare a handful of documents built the same way; layouts that differ for the same content never occur in them.",
 ["src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs"],
 [("structural comparison", "src/yason/mod.rs: equals, PartialEq; src/yason/object.rs, src/yason/array.rs: equals")],
 ["result of equality in both directions"])

prop("C15", "Sizes the format cannot hold are refused, never silently truncated",
 "When a key, string, element count, container or query result is too large for the format's length fields, the call is refused with an error naming the reason; it is never stored truncated, wrapped around or merged with neighbouring data. Everything up to the limits is stored and read back exactly. After a refusal the builder or buffer remains usable.",
 ["inputs", "histories", "fault_sequences"], "every key length, string length, element count, container size and result count around the limits, in every builder and conversion, with going on after the refusal",
 "No test comes near a size limit; the limits lie at 65 535 bytes or elements, 2^28-1 bytes and 2^31-1 bytes.",
 ["src/vec.rs", "src/builder/object.rs", "src/builder/array.rs", "src/json.rs", "src/path/mod.rs"],
 [("length check", "src/vec.rs: push_data_length"), ("key length check", "src/builder/object.rs: push_key_value_by"), ("count check", "src/builder/*.rs, src/json.rs, src/path/mod.rs: values_to_yason"), ("container size check", "src/builder/*.rs: finish")],
 ["Ok/Err of the call", "content read back"])

prop("C16", "Documents interoperate with any implementation of the documented format",
 "The bytes produced follow the documented binary layout (type tag, sizes, counts, key offsets in key order, value entries with inlined nulls, booleans and so on), so a reader written from the documentation alone finds exactly the content. Conversely every document laid out by another writer in any way the layout permits is read with exactly its content. Mixed chains of this and other implementations preserve the content.",
 ["configurations", "inputs", "histories", "fault_sequences"], "every document, every layout the format permits (padding, order of data, key order by length then bytes), every chain of encoders and decoders, over a faulty link",
 "Tests compare some encodings against fixed bytes; data laid out differently from this crate's own builders is never read.",
 ["src/lib.rs", "src/vec.rs", "src/builder/object.rs", "src/builder/array.rs", "src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs", "src/data_type.rs"],
 [("layout documented in the crate documentation", "src/lib.rs"), ("writer", "src/vec.rs, src/builder/*.rs"), ("reader", "src/yason/*.rs")],
 ["bytes decoded by an independent codec", "content of independently encoded bytes through the accessors"])

prop("C17", "Every key of an object is found, in order, however it was pushed",
 "In a finished object every key that was pushed is found with its own value and no other key is found, and iteration yields each key exactly once in the format's key order, whatever the order of the pushes and whatever pushes failed in between. This holds for keys that share prefixes, differ only in length, are empty, or contain any characters. Objects declared as sorted behave the same.",
 ["histories", "inputs", "fault_sequences"], "every key set and push order, with refused and failed pushes in between, nested objects as values, for sorted and unsorted objects",
 "Tests use a few keys in one or two orders; the key order (length first) makes most mistakes invisible with them.",
 ["src/builder/object.rs", "src/yason/object.rs", "src/util.rs"],
 [("insertion by binary search", "src/builder/object.rs: binary_search"), ("lookup by binary search", "src/yason/object.rs: find_key"), ("one comparison of keys", "src/util.rs / cmp_key")],
 ["get, contains_key, iteration order"])

prop("C18", "Every call ends after work in proportion to what it has to look at",
 "Every call ends within a number of steps, and asks for no more memory, than a fixed factor times the size of what it has to look at. Looking something up does not go through the document: the type, length or an element of a value by index takes a constant number of steps, a member by key (present or not) and a path of plain keys and indexes the logarithm of the number of members of each object on the way, however large the document is and whatever lies beside them; creating an iterator and taking its next item likewise. Comparing, copying, formatting, serialising, parsing, converting and compiling take steps in proportion to the values and text gone through, a query in proportion to the values its steps visit and the results it copies, and an existence test stops at the first match. Building takes a search by binary division per key and the shifting of the table of key positions behind it (four bytes for each greater key already pushed), independent of the sizes of what was pushed before and of what the buffer held before. A call that is refused or fails (no memory, failing writer, wrong type, no such key, malformed text or path, full builder) takes no more than the call would take if it did not fail.",
 ["inputs", "histories", "fault_sequences"], "every operation of the crate on documents of every size and shape up to the most elements a container can have, on nested values in them, with failing allocations and writers, refused pushes, stale buffers and appended-to buffers, and after long histories of other calls",
 "Tests use documents of a few values and look at results only; a search that has become linear or a walk that has become quadratic gives the same results.",
 ["src/yason/object.rs", "src/yason/array.rs", "src/yason/mod.rs", "src/builder/object.rs", "src/builder/array.rs", "src/format/mod.rs", "src/path/query.rs", "src/path/mod.rs", "src/path/parse.rs", "src/json.rs", "src/serde.rs"],
 [("lookup by binary search", "src/yason/object.rs: find_key; src/builder/object.rs: binary_search"), ("elements at computed positions", "src/yason/array.rs: read_type_and_value_entry_pos"), ("existence tests stop at the first match", "src/path/query.rs: for_exists"), ("values are read where they lie", "src/yason/mod.rs: LazyValue")],
 ["number of steps inside the crate, of bytes copied or compared and of bytes asked from the allocator during each call"])

prop("C19", "Memory taken is given back, once, and nothing is written outside of it",
 "Whatever is done with the library (builds that complete, fail, are refused, abandoned or unwound past; conversions, parses, compilations, copies, queries, formatting and serialisation that succeed, or fail at any point for want of memory, a failing writer or an unwinding conversion), once the values obtained from it have been dropped, all the memory it took has been given back: neither repeating the same calls nor making ever new ones (new keys, texts, paths, documents) adds without bound to what it holds. Every block of memory is given back exactly once, with the size and alignment it was taken with. Nothing is written outside the blocks taken and the buffers handed in, whatever the length and capacity of those buffers, nor to a block after it was given back.",
 ["histories", "fault_sequences", "inputs"], "every sequence of calls in every combination with failing allocations and writers, refused pushes, abandoned builders and unwinding callbacks, repeated any number of times",
 "Tests end after a few calls and never look at the allocator; a block kept on an error path or a few bytes written into spare room that is not there change no result.",
 ["src/vec.rs", "src/builder/object.rs", "src/builder/array.rs", "src/builder/scalar.rs", "src/builder/mod.rs", "src/yason/mod.rs", "src/path/mod.rs", "src/path/parse.rs", "src/path/query.rs", "src/format/mod.rs", "src/json.rs", "src/serde.rs"],
 [("room is reserved before it is filled through set_len", "src/vec.rs: try_reserve, skip_size, skip_key_offset, skip_value_entry, push_number; src/builder/*.rs"), ("shifting of the key table by ptr::copy", "src/builder/object.rs"), ("buffers of a builder are owned by it and dropped with it", "src/builder/object.rs, src/builder/array.rs")],
 ["blocks and bytes taken from the allocator and given back", "bytes next to each block", "bytes of blocks given back"])

prop("N01", "Path grammar: which texts are accepted and where errors are reported",
 "A text is accepted as a path exactly if it follows the path grammar; otherwise the error names the kind of mistake and its position.",
 ["inputs"], "every text", "Infinite inputs; tests sample about sixty.", ["src/path/parse.rs"], [("hand-written parser", "src/path/parse.rs")], ["result of parsing"])
prop("N02", "Decimal conversion: rounding and overflow of JSON numbers",
 "A JSON number is stored as the decimal nearest to it within the precision of the decimal type, and numbers out of range are refused.",
 ["inputs"], "every number literal", "Infinite inputs.", ["src/json.rs"], [("number2decimal", "src/json.rs")], ["stored number"])
prop("N03", "Acceptance of JSON text",
 "Exactly the texts that are JSON are accepted by the parser, apart from the documented limits.",
 ["inputs"], "every text", "Infinite inputs.", ["src/json.rs"], [("serde_json", "src/json.rs")], ["result of parsing"])
prop("N04", "Bytes that are not a document are handled without undefined behaviour",
 "Bytes altered arbitrarily (bit flips, hostile input) are reported as errors by every reader, without panics or undefined behaviour.",
 ["inputs"], "every byte string", "Infinite inputs.", ["src/yason/mod.rs", "src/yason/object.rs", "src/yason/array.rs"], [("none: loading unvalidated bytes is an unsafe contract", "src/yason/mod.rs: new_unchecked")], ["results of reads"])

NA = {
 "N01": "A pure function of one text: no schedule, fault, clock, I/O or second party for a simulator to control; path texts are only exercised as part of C10's and C01's runs.",
 "N02": "A pure function of one literal, done inside decimal-rs; no nondeterminism or fault to simulate (failing allocations during it are part of C01, exact round trips part of C09).",
 "N03": "A pure function of one text, done inside serde_json; nothing to schedule or to inject (cut-short text is part of C09).",
 "N04": "Loading bytes is `unsafe` with the contract that they are a document; arbitrary corruption is outside what the code promises (a bit flip makes it panic today), and truncation, the fault a medium really produces, is C07.",
}
NOTE = {
 "C07": "Sampled documents and cut lengths, shipped profile only: debug assertions state the unsafe contract of loading bytes and may fire on truncated data.",
 "C13": "Threads take turns: they are switched between any two basic blocks, loads and stores of yason (stepped build), at allocations, callbacks, lock waits and between operations; weaker memory orders are not simulated, and non-generic code of other crates is one step.",
 "C18": "Steps are the basic blocks, loads and stores of yason's code (generic code included), counted by the stepped build; copies, comparisons and requests for memory count by their bytes; precompiled library code (UTF-8 validation, decimal arithmetic) is one step. The factors are five to ten times what the calls take on the current tree.",
 "C19": "Growth is judged over thousands of repetitions, so caches and spare room that stay bounded by a few thousand entries are allowed. Writes outside a block are seen if they change one of the up to 24 bytes before or 1024 bytes behind it, or crash; reads outside are C06's and C07's to find. A caller's mem::forget is no leak of the library's.",
 "C15": "The 2 GiB container is reached once per quick run (twice in thorough), string limits a few times; key and count limits in most runs.",
}
GEN = "Seeded search: no violation on the runs explored with this seed; not exhaustive. Real yason, serde, serde_json, bincode and decimal-rs code; trusted: the simulator, the reference model and the oracles in /verif/sim. "
json_lines = "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P)
open(os.path.join(root, "properties.jsonl"), "w").write(json_lines)
TECH = {
 "C01": "deterministic simulation: allocator fault injection on every allocation, refinement against the fault-free run",
 "C13": "deterministic simulation: seeded scheduler over threads, per-client history equality",
 "C18": "deterministic simulation: bounded progress under faults, counted in simulated machine steps",
 "C19": "deterministic simulation: conservation of memory under faults, allocator with books, fences and quarantine",
 "C06": "deterministic simulation: simulated disk with crashes and torn writes, refinement against a reference model",
 "C09": "deterministic simulation: faulty link with retransmission, refinement against sent documents, bounded liveness",
}
checks = []
for p in P:
    if p["id"] in NA: continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
      "technique": TECH.get(p["id"], "deterministic simulation with fault injection, history checked against a reference model"),
      "level": "exploration", "level_note": GEN + NOTE.get(p["id"], "Simulated processes, media and callers; checked and shipped build profiles.")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the global allocator, caller-supplied buffers, writers, conversions and threads, clock_gettime/getrandom and the medium are the seams. bash replay.sh FILE replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
