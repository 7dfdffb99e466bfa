#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script: the statements are easier to
review and edit here than in one-line JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("T01", "Reading any bytes at all is safe and comes to an end",
 "Whatever bytes a frame is made of, stepping through it op by op and reading every id, reference, value, string and hash of every op it yields stays within those bytes, never aborts and never hangs. Reading ends either with the end of the frame or with an error; from then on the reader reports that it has no op, and it never yields another one. Every id, reference and value it did yield is well-formed: no word wider than 64 bits, no value beyond the type's range.",
 ["inputs"], "any byte string: random bytes, mutated and truncated well-formed frames, oversized words, numbers and spans, deep escapes, invalid UTF-8",
 "The tests read a few dozen well-formed frames and two malformed ones; the reader is a 5000-line generated state machine whose every transition on every byte matters.",
 ["ron/text-parser.cc", "ron/cp-parser.cc", "ron/text.cc", "ron/text.hpp", "ragel/text-grammar.rl"],
 [("state machine for frames", "ron/text-parser.cc TextFrame::Cursor::Next"), ("codepoint reader", "ron/cp-parser.cc"), ("number size limits", "ron/text.cc int_too_big, ParseInteger, ParseFloat")])

prop("T02", "What is written op by op is read back exactly",
 "Any sequence of ops (ids, references, integers, floats, strings, id values, chunk terminators) that is written to a frame reads back from that frame as the same sequence: the same ops in the same order with the same values of the same types. Chunk boundaries and their terminators are kept too; nothing is added, dropped, merged or reordered. A builder whose frame was taken starts anew: its next frame has the ops written since, and nothing else.",
 ["inputs", "histories"], "any op sequence a writer accepts, with runs that compress into spans, default and explicit ids and references, every value type and boundary value, empty ops, long strings",
 "The tests write about ten fixed sequences; the writer omits ids, references and whole ops depending on what came before, so correctness depends on every pair of neighbours.",
 ["ron/text.hpp", "ron/text-builder.cc", "ron/op.hpp", "ron/text-parser.cc"],
 [("id and reference defaults", "ron/text.hpp Builder::WriteSpec"), ("value serialization", "ron/text-builder.cc, ron/text.hpp Builder::WriteValues"), ("span compression", "ron/text.hpp Builder::ExtendSpan")])

prop("T03", "A frame reads as the grammar says; a malformed one is refused",
 "A frame written in any layout the grammar admits (whitespace, explicit or defaulted ids and references, quoted or bare values, escapes, spans, leading zeroes, explicit varieties and versions) reads as exactly the ops it denotes. A frame that breaks the grammar or exceeds a size limit at some point yields the ops that were completed before that point and then an error: it is never read as a shorter well-formed frame, and no op is made up from the broken part.",
 ["inputs"], "any op sequence in any admissible layout; any well-formed frame with one break of a known kind at any op (illegal byte, unterminated string, missing terminator, bad escape, oversized word or number, empty span, text after the end)",
 "The tests read a handful of layouts; there are dozens of layout choices per op and they interact (a default depends on the previous op, a bare id on the number before it).",
 ["ragel/text-grammar.rl", "ron/text-parser.cc", "ron/uuid.hpp"],
 [("grammar", "ragel/text-grammar.rl"), ("op defaults and spans", "ron/text-parser.cc Cursor::Next"), ("size limits", "ron/text.cc int_too_big, ron/text.hpp word_too_big")])

prop("T04", "Re-writing a frame preserves its ops and is a fixed point",
 "Copying a frame op by op into a new one, by any of the ways to do it (raw copy, copy of all with chunk boundaries, parsed copy, copy under a new id and reference), keeps every op and every value exactly. Copying the copy in the same way gives the same bytes, so re-serialization by intermediaries never makes a frame drift.",
 ["inputs", "histories"], "any well-formed frame in any layout, the position of the reader (fresh or positioned), one or several frames appended to the same output, every copying way",
 "The tests rewrite a few canonical frames; the copy takes values as raw bytes in one path and re-encodes them in another, so escapes, quotes, spans and number spellings have to survive both.",
 ["ron/text.hpp", "ron/text-builder.cc", "ron/frames.hpp", "ron/op.hpp"],
 [("raw copy", "ron/text-builder.cc WriteValues(const Cursor&)"), ("parsed copy", "ron/text.hpp WriteValues(const Cursor2&)"), ("copy of all ops", "ron/frames.hpp AppendAll, AppendFrame, Reserialize"), ("copy under a new id", "ron/op.hpp Op::Amend")])

prop("T05", "Span compression is transparent",
 "A run of chained ops compressed to a span, a repeat count or a spread string, reads as exactly the ops the run stood for: each with its own consecutive id, a reference to the op before it, and its own value. Skipping a chain, copying a part of a span, continuing a span from another source and splitting a log at any op inside a span give the same ops as doing it with the run written out in full.",
 ["inputs", "histories"], "any run length and value, any code points (escaped or not, multi-byte), any cut point, any way a run may be split between sources",
 "Two tests have one span each; an off-by-one at either end of a span, on the first character, or on a span that starts at a frame or chunk boundary needs a particular shape of neighbours.",
 ["ron/text.hpp", "ron/text-parser.cc", "ron/frames.hpp"],
 [("span expansion", "ron/text-parser.cc Cursor::Next span_size_"), ("span compression", "ron/text.hpp is_same_span, ExtendSpan, WriteTerm"), ("chain skipping", "ron/frames.hpp SkipChain")])

prop("T06", "Strings carry any Unicode text intact",
 "Any Unicode text without the zero code point survives writing and reading: the same code points come back as UTF-8, as UTF-16 and code point by code point, whatever mix of raw characters, backslash escapes and hex escapes spells it. The length a string value declares is its number of code points, and the UTF-8 and UTF-16 conversions agree with the Unicode standard for every code point.",
 ["inputs"], "any sequence of Unicode scalar values, in any spelling, at any length, as plain strings and as characters of a spread span; every single code point",
 "The tests use a few strings with Cyrillic and katakana; there are 1.1 million code points, four encoded lengths, a dozen escapes and surrogate pairs.",
 ["ron/encdec.hpp", "ron/utf8-parser.cc", "ron/cp-parser.cc", "ron/frames.hpp", "ron/op.hpp"],
 [("UTF-8", "ron/encdec.hpp utf8append, utf8esc_append, utf8read; ron/utf8-parser.cc"), ("UTF-16", "ron/encdec.hpp utf16append, utf16read"), ("escapes", "ron/cp-parser.cc, ron/text.hpp decode_esc, decode_hex_cp")])

prop("T07", "Numbers keep their exact value and their type",
 "Every 64-bit integer and every finite double written to a frame reads back as the bit-identical value of the same type, and any decimal spelling of an integer or a float in a frame reads as its correctly rounded value. An integer outside the 64-bit range or an overlong float is refused; it is never wrapped, clamped or truncated.",
 ["inputs"], "all int64 values with boundaries over-represented, all finite doubles including denormals and negative zero, all spellings with signs, leading zeroes and exponents, values one past the limits",
 "The tests read about a dozen numbers; the limits are decided by comparing decimal strings, and a whole float must still be told from an integer.",
 ["ron/text.cc", "ron/text-builder.cc", "ron/text-parser.cc"],
 [("integer parsing and limits", "ron/text.cc ParseInteger, int_too_big"), ("float parsing", "ron/text.cc ParseFloat"), ("number writing", "ron/text-builder.cc WriteInt, WriteFloat")])

prop("T08", "An id and its text form are in one-to-one correspondence",
 "Every 128-bit id has one canonical text, which reads back as the same id, standalone or inside a frame; any other admissible spelling (trailing zeroes, explicit variety or version) reads as the id it denotes. Text that is not an id in full reads as the error id, never as some other id. The order of ids is total, by value and then by origin, and id arithmetic, equality, hashing and text comparison agree with it; the letter case told of a word is that of its text.",
 ["inputs"], "all ids with every variety and version, values and origins with any leading or trailing zeroes; any spelling; any corrupted or truncated text; pairs and triples of ids for the order",
 "The tests convert about ten ids; 2^128 of them exist and the omission of zeroes, of the version and of the variety interact.",
 ["ron/uuid.cc", "ron/uuid.hpp", "ron/uuid-parser.cc", "ragel/uuid-grammar.rl"],
 [("text output", "ron/uuid.cc write_base64"), ("text input", "ron/uuid-parser.cc Uuid(Slice)"), ("order", "ron/uuid.hpp operator<"), ("base64 tables", "ron/uuid.cc ABC, ABC64")])

prop("T09", "Frame comparison decides sameness of ops, not of bytes",
 "Two frames compare as equal exactly when they hold the same ops in the same order with the same values, whatever the layout of each; comments are skipped wherever they occur. Any difference in an id, a reference, a value, its type, the number of values or the number of ops is reported, with the kind of the first difference.",
 ["inputs"], "pairs of frames with the same ops in two layouts, and pairs that differ in exactly one place at any position, with and without comments between the ops",
 "The comparison is what most of the tests rely on to decide; they use it on about twenty pairs and hardly ever on pairs that must differ.",
 ["ron/frames.hpp"],
 [("op comparison", "ron/frames.hpp CompareOps"), ("frame comparison", "ron/frames.hpp CompareWithCursors, CompareFrames")])

prop("T10", "Frames are told apart in a stream",
 "Any number of frames, each ended with the frame terminator and written one after another with any whitespace between them, split back into frames that read as the ones that were written. A frame ended explicitly reads the same as without the terminator, and reading never runs past the end of a frame into the next one.",
 ["inputs", "histories"], "any sequence of non-empty frames, the last one ended or not, with whitespace and with strings, numbers and values that look like the terminator",
 "One test splits two fixed frames.",
 ["ron/text.cc", "ron/text.hpp", "ron/text-parser.cc"],
 [("stream splitting", "ron/text.cc TextFrame::Split"), ("frame end", "ron/text.hpp Builder::EndFrame, ron/text-parser.cc")])

prop("R01", "Merging op sets is a union: any order, grouping or repetition",
 "Merging any number of id-ordered pieces of a last-write-wins object, a matrix or a yarn gives every op of every piece exactly once in id order, with references and values as they were. The result does not depend on the order of the inputs, on how the merges are grouped or on repeats of an input; merging with what is merged already changes nothing.",
 ["histories", "schedules"], "any set of ops spread over 1 to 10 overlapping pieces, in any delivery order, grouping and duplication, pieces compressed or not",
 "The tests merge two or three fixed frames; the merge is a heap over many sources, where a wrong sift or a missed duplicate shows only for certain sizes and interleavings.",
 ["rdt/merge.hpp", "rdt/lww.hpp", "rdt/mx.hpp", "rdt/rdt.hpp"],
 [("k-way merge heap", "rdt/merge.hpp MergeCursor"), ("reducers", "rdt/lww.hpp, rdt/mx.hpp Merge"), ("entry points", "rdt/rdt.hpp MergeFrames, MergeStrings, MergeCursors")])

prop("R02", "A last-write-wins object shows the newest value of every field",
 "For any object state and any further updates in any order, reading a field gives the value of the op with the greatest id that set it, if it is of the type asked for, and otherwise the stated absent value. Compaction of an object keeps the header and exactly the newest op of every field, unchanged and in id order; compaction never changes what a read gives, doing it twice changes nothing more, and it commutes with merging.",
 ["histories", "schedules"], "any history of field writes by several replicas, delivered as a state plus updates in any order, fields named by ids and by strings in any spelling, overwritten with values of other types",
 "One test reads two fields; the newest-wins rule has to hold for every order of delivery and every field-name spelling.",
 ["rdt/lww.hpp", "rdt/lww_obj.hpp"],
 [("field index", "rdt/lww_obj.hpp Update"), ("field reads", "rdt/lww_obj.hpp atom, uuid, number, string"), ("compaction", "rdt/lww.hpp GC, MergeGC, KeyOf")])

prop("R03", "Collaborative text and arrays converge to the same order",
 "Merging a causal tree with any set of chains and subtrees attached to it gives one sequence: every op exactly once, every parent before its descendants, every subtree contiguous, siblings newest first. All replicas that merged the same ops have the same sequence, whatever the order, the grouping and the duplication of the deliveries; a piece that has nothing to attach to is reported as a causality error, never dropped silently or misplaced.",
 ["histories", "schedules"], "any causal tree of inserts and deletes by several replicas, cut into pieces in any way (chains, subtrees, overlapping states), delivered in any order, with missing parents",
 "The tests merge about five fixed trees of a few ops; the position of an op depends on all its concurrent siblings and on the path to the root.",
 ["rdt/rga.hpp", "rdt/merge.hpp", "rdt/rdt.hpp"],
 [("tree merge", "rdt/rga.hpp RGArrayRDT::Merge"), ("heap, reversed order", "rdt/merge.hpp MergeCursor")])

prop("R04", "Deletes, undos and redos decide what is visible",
 "In any causal tree the visible elements are exactly the inserts whose deletions are all undone, where a run of k deletes (or undos) applied to an element reaches k elements up its causal line, undo cancels deletes the same way, and anything that hangs on a delete or an undo out of that pattern has no effect. The map of visibility has one entry per op, agrees on all replicas, and input that is no causal tree is refused.",
 ["histories", "inputs"], "any causal tree with deletes and undos attached anywhere, runs of any length, nested and repeated; frames that are not causal trees",
 "The tests scan six small fixed trees; the scan is a stack machine with five states whose bookkeeping depends on run lengths and on depth.",
 ["rdt/rga.hpp", "ron/inc_stack.hpp"],
 [("visibility scan", "rdt/rga.hpp ScanRGA"), ("id stack", "ron/inc_stack.hpp")])

prop("R05", "A max register settles on the greatest value everywhere",
 "Merging any states and updates of a max register gives its header and the single greatest value: numbers by magnitude and sign, strings by code points, ids by id order, values of different types by a fixed type order, and the newest op among equal values. The result is the same for any order, grouping and repetition of inputs, and however the values were spelled; no op is made up when there is no value.",
 ["histories", "schedules", "inputs"], "any values of any types from several replicas, equal values in different ops, different spellings, with and without headers, any order and grouping",
 "The tests merge three small integers.",
 ["rdt/max.hpp", "rdt/rdt.hpp"],
 [("value order", "rdt/max.hpp Less"), ("reduction", "rdt/max.hpp Merge")])

prop("R06", "Meta records merge to the latest record of every kind",
 "Merging meta frames gives one record per key in key order; among the records of one key the one with the greatest reference, that is the latest, survives. The result does not depend on the order, the grouping or the repetition of the inputs.",
 ["histories", "schedules"], "any sets of meta records over 1 to 8 inputs with many versions per key, any order and grouping",
 "The existing test merges two fixed records.",
 ["rdt/meta.hpp", "rdt/merge.hpp"],
 [("record order", "rdt/meta.hpp less_than"), ("duplicate removal", "rdt/merge.hpp MergeCursor::Next")])

prop("R07", "Each kind of object is merged by its own rule, or refused",
 "A merge applies the rule of the declared data type: logs concatenate in the order of the inputs with chunk boundaries kept, plain registers keep the last input, and the others reduce by their own law. When the type is taken from the inputs they must agree on it, or the merge is refused; a type without a rule is refused rather than merged by another rule; inputs that hold no readable op count as absent.",
 ["inputs", "configurations"], "every type with every kind of input list: none, one, many, some empty or unreadable, mixed types in any positions, pieces with and without headers",
 "The tests call the type-specific merge directly with one type each; the dispatch and the mixed cases are not covered.",
 ["rdt/rdt.hpp", "rdt/log.hpp", "ron/form.hpp"],
 [("dispatch", "rdt/rdt.hpp MasterRDT::Merge"), ("type agreement", "rdt/rdt.hpp GetForm"), ("entry points", "rdt/rdt.hpp MergeFrames, MergeStrings"), ("log", "rdt/log.hpp")])

prop("R08", "The log of an object reproduces its state, now and at any version",
 "Splitting a log into chains loses and reorders nothing: each chain is a maximal run of ops that refer to one another and their concatenation is the log. The state built from a log is the state the merge of the same ops gives, and the state as of any op of the log is exactly the state of the log up to and including that op, even if the op is inside a compressed run.",
 ["histories"], "any causally ordered log of an array or a last-write-wins object by several replicas, any version in it as the cutoff, compressed or not",
 "Two tests split one log and build one state with one cutoff.",
 ["rdt/rdt.hpp", "ron/frames.hpp"],
 [("chain splitting", "rdt/rdt.hpp SplitLogIntoChains"), ("state from log", "rdt/rdt.hpp ObjectLogIntoState, ObjectLogToState"), ("history cut", "rdt/rdt.hpp CutLog")])

prop("H01", "The hash of an op fixes the op and all its history, not its layout",
 "The hash of an op is a function of its id, its reference, its values and the hashes of the previous op and of the referenced op, and of nothing else: any spelling or coding of the same op gives the same hash, equal to an independently computed SHA-512/256 of the documented stream. Any change of any of those gives a different hash, so replicas can verify each other's history.",
 ["inputs", "histories"], "any op with any values in any layout (spans, escapes, nominal form), any previous and reference hashes, any single-field change",
 "The one hash test is for a single op and does not run reliably; layout independence needs pairs of spellings.",
 ["ron/hash.hpp", "ron/hash.cc", "ron/frames.hpp"],
 [("hashed stream", "ron/hash.hpp WriteOpHashable, Stream"), ("hash of an op", "ron/hash.hpp OpMerkleHash"), ("hash of a pair and of an id", "ron/hash.hpp MerklePairHash, SHA2(Uuid)")])

prop("H02", "Hash texts decode to the hash they encode; prefixes match",
 "A hash written as hexadecimal or as base64 reads back as the same bits with the same number of known bits, in full or cut to any whole number of digits; text that is no hash reads as an unknown hash. Two hashes match exactly when they agree on the bits both of them know, and a full base64 text is accepted as valid exactly when it is in the canonical form.",
 ["inputs"], "any 256-bit hash, any prefix length in either coding, any single flipped bit, any corrupted digit",
 "The tests use one hash, one prefix and run unreliably.",
 ["ron/hash.hpp", "ron/encdec.hpp"],
 [("decoding", "ron/hash.hpp ParseHex, ParseBase64; ron/encdec.hpp decode"), ("encoding", "ron/hash.hpp hex, base64; ron/encdec.hpp encode"), ("partial match", "ron/hash.hpp matches, valid")])

prop("H03", "Op metadata follows the yarn, the chain and the object of an op",
 "Walking a yarn op by op gives each op's metadata: the previous op in the yarn, the first op of its chain, the object and the type it belongs to (those of the op it refers to), and a hash that covers all of its history. The walk depends on the ops only, not on how the yarn is cut into frames or compressed; a saved metadata record reads back with the same id, object and type, and a record of another kind is refused.",
 ["histories"], "any yarn interleaving several objects and chains, references to own and to other yarns' ops, any layout; any saved record, records with missing or mistyped fields",
 "No test covers metadata walks beyond one inline example.",
 ["ron/opmeta.hpp", "ron/hash.hpp"],
 [("metadata step", "ron/opmeta.hpp OpMeta::Next"), ("root metadata", "ron/opmeta.hpp OpMeta constructor"), ("record", "ron/opmeta.hpp Save, Load")])

prop("S01", "Storage keys are faithful to id and type, and keep their order",
 "A key made of an event id and a data type gives back both; different pairs have different keys. The order of the stored bytes is the order of the keys: first by type, then by yarn, then by time, so a scan gives one yarn's records together and in time order. Every known data type maps to its name and back, and anything unknown maps to the stated defaults.",
 ["inputs"], "all event ids and all type codes, pairs of keys for the order, all ids and codes for the name tables",
 "No test reads a key back or compares the orders.",
 ["db/key.hpp", "db/key.cc", "ron/form.hpp", "db/const.hpp"],
 [("key packing", "db/key.hpp Key"), ("byte order", "db/key.hpp be"), ("type tables", "ron/form.hpp FORMS, UUID2FORM"), ("map tables", "db/const.hpp uuid2map")])

prop("S02", "The store gives the merge of everything written, whatever happened",
 "For any history of single and batched writes, reads, scans, closings and reopenings, a read of a key gives exactly the merge, by the rule of the key's type, of all the changes written to that key in their order, and an empty frame for a key never written. A batch is applied in full; when and how the database merges, flushes or compacts in between makes no difference.",
 ["histories", "configurations"], "histories of writes, batches, reads, flushes, compactions, reopenings over all types that have a rule, many keys and many writes per key",
 "The tests write two changes to one key and read it once; partial merges, compactions and reopenings never happen in them.",
 ["db/rocks_store.cc", "db/rocks_store.hpp", "rdt/rdt.hpp"],
 [("merge operator", "db/rocks_store.cc RDTMerge FullMergeV2, PartialMergeMulti"), ("writes and reads", "db/rocks_store.cc Write, Read"), ("opening", "db/rocks_store.cc Create, Open, OpenAll")])

prop("S03", "Branches are isolated from one another and outlive reopening",
 "Each branch of a database is a store of its own: what is written to one is never seen in another, and dropping one leaves the others as they were. Opening the database gives every branch that was created and not dropped, under its own id and with its own contents, also after a repair of the (undamaged) database; creating a branch that exists is refused.",
 ["histories"], "histories of branch creations, writes, drops, closings and reopenings with ids of all varieties",
 "One test creates one branch and reopens once.",
 ["db/rocks_store.cc", "db/rocks_store.hpp"],
 [("branch creation", "db/rocks_store.cc Create"), ("branch listing", "db/rocks_store.cc OpenAll"), ("drop", "db/rocks_store.cc Drop")])

prop("S04", "A scan of the store visits every key once, in order",
 "Seeking to a key lands on that key if it is there, otherwise on the nearest greater one, or on the nearest lesser one if asked to, and on the end when there is none; stepping from there visits every greater key exactly once in key order and then reports the end, and stepping past the end keeps reporting it. The value at each step is the value a read of that key gives; a scan sees the store as of the moment the scan was opened.",
 ["histories", "inputs"], "any contents, any present or absent key, both directions, writes made while a scan is open, keys with many unmerged changes",
 "The tests seek about six times in a store with two keys.",
 ["db/rocks_store.cc", "db/key.hpp"],
 [("iterator", "db/rocks_store.cc Iterator SeekTo, Next, key, value")])

prop("S05", "Acknowledged writes survive a crash; batches are all or nothing",
 "When a process that uses the store is killed at any moment, a reopened store has every write that was acknowledged before, and at most a continuation of them: for each key the merge of a prefix of its changes that includes all acknowledged ones, and every batch is there in full or not at all.",
 ["crash_points", "histories"], "any history of writes and batches, the process killed at any point of it, including in the middle of a write, then reopened, possibly several times",
 "No test kills a process.",
 ["db/rocks_store.cc"],
 [("write-ahead log via the database", "db/rocks_store.cc Write, init_options"), ("batch", "db/rocks_store.cc Write(const Records&)")])

prop("S06", "Closed stores and reserved keys are refused, never misused",
 "Every operation on a store that is closed or was never opened is refused with an error or reads as nothing, and changes nothing; opening a store twice, opening a database that is not there or asking for a mode that is not supported is refused and leaves the store as usable as it was. The end-of-keys mark never becomes a record, neither by a single write nor by a batch, and a batch that is refused has no effect at all.",
 ["histories", "fault_sequences"], "any sequence of operations on stores and iterators in any state: never opened, open, closed, after a failed opening, after a refused request",
 "The tests only use stores that are open.",
 ["db/rocks_store.cc"],
 [("state checks", "db/rocks_store.cc Open, Write, Read, Drop, Close"), ("iterator state checks", "db/rocks_store.cc Iterator")])

prop("S07", "A store may be used from several threads at once",
 "Threads write (changes and batches), read and scan at the same time through handles of one store, while the database flushes and compacts. Each read finds the merge of all the changes acknowledged before it began and of some of those started before it ended. A scan sees one state of the store, in key order: a batch is in it in full or not at all. In the end every key holds the merge of all its changes, and branches made meanwhile hold their own.",
 ["schedules", "histories"], "any keys of any type, any changes, any split of them between threads, flushes, compactions and new branches at any moment",
 "The tests use a store from one thread; yet the merge operator is called by the threads of the database and those of the user at once.",
 ["db/rocks_store.cc", "db/rocks_store.hpp", "rdt/rdt.hpp"],
 [("merge operator shared by all threads", "db/rocks_store.cc RDTMerge"), ("one atomic batch", "db/rocks_store.cc Write(const Records&)"), ("snapshot of a scan", "db/rocks_store.cc Iterator")])

prop("M01", "The in-memory store reads as the fold of the changes written, whatever is read or scanned in between",
 "For any keys and any sequence of changes an in-memory store gives for each key the merge, by the rules of the key's type, of the changes written to it, both by a read and by a scan; a single change may be read as written. A seek finds the key, else the next one, else (backwards) the previous one; a walk visits every key once, in order. Reads and scans never change what later reads give, not even when the changes do not merge yet.",
 ["histories"], "any sequence of writes, batches, reads, seeks and walks over keys of any types, also arrays with gaps",
 "The stable tests do not build this store.",
 ["db/mem_store.hpp"],
 [("merge on read", "db/mem_store.hpp Read, Merge"), ("scan", "db/mem_store.hpp Iterator::SeekTo, Next, value")])

prop("M02", "A base store joined with pending changes reads as one store",
 "Reading a key through the join of a base store and a store of pending changes gives the merge, by the rules of the key's type, of what both have for it; a scan of the join visits the union of their keys in order, once each, with the merged value, from any seek position in either direction. A single write through the join lands in the pending store only.",
 ["histories"], "any division of any changes between a base (a database or in memory) and a pending store, any seeks, walks and reads",
 "The stable tests do not build this store.",
 ["db/joined_store.hpp"],
 [("merge of both", "db/joined_store.hpp Read, Iterator::value"), ("scan", "db/joined_store.hpp Iterator::SeekTo, Next")])

prop("P01", "A replica takes a frame exactly when it is causally sound, all of it or nothing",
 "A branch of a replica accepts a frame of stamped events if each event comes after the last known event of its yarn, refers to an event the branch has (or creates an object of a known type, or begins a yarn), and is not of the impossible future; then the logs, states and yarn tips are those of the events taken. Otherwise, and also when the disk refuses the write or the frame has a malformed end, the frame is refused with an error and nothing of it is kept: no op, no name, no record. Queries answer with the state or the log of the object as of the events taken before.",
 ["histories", "fault_sequences"], "any history of frames of any number of yarns, chains, comments, names and queries in between, misfit events anywhere in a frame, a full disk, closed and reopened replicas",
 "The stable tests do not build the replica; its own scripts have a few fixed frames.",
 ["db/replica.cc", "db/replica.hpp", "ron/op.hpp"],
 [("acceptance", "db/replica.cc Commit::SaveChain, CheckEventSanity, FindOpMeta"), ("all or nothing", "db/replica.cc Receive, Commit::Save"), ("queries", "db/replica.cc QueryObject, QueryObjectLog, ReceiveMapQuery")])

prop("P02", "Branches that received the same events agree, whatever the order and the cuts of the frames",
 "Branches of a replica that received the same set of events, each event after those it depends on, but otherwise in any order and cut into frames in any way, hold the same state of every object, the same text of every array and the same set of events in every log; these are the fold of the events by the rules of the object's type.",
 ["histories"], "any sets of events of up to four yarns with concurrent edits, any causal order for each branch, any cuts into frames, reopening in between",
 "The stable tests do not build the replica; its scripts feed one branch.",
 ["db/replica.cc", "db/map/txt.hpp", "rdt/rga.hpp", "rdt/lww.hpp", "rdt/mx.hpp"],
 [("logs and states", "db/replica.cc Commit::SaveChain"), ("texts", "db/map/txt.hpp Read")])

prop("P03", "Branches are created, forked, dropped and reopened without touching each other",
 "A replica has exactly the branches that were created or forked and not dropped; each keeps its own events, tip and states whatever is done to the others. A fork starts with all that the original has. Creating a branch that exists, forking or dropping one that does not is refused and changes nothing. The branch made active stays so until another is made active or it is dropped, across closing and reopening, and after reopening each branch has the tip and contents it had.",
 ["histories"], "any sequence of creation, forking, dropping, activation, frames, closing and opening with up to four branches",
 "The stable tests do not build the replica.",
 ["db/replica.cc", "db/replica.hpp"],
 [("branches", "db/replica.cc CreateBranch, ForkBranch, DropStore"), ("opening", "db/replica.cc Open"), ("active", "db/replica.cc SetActiveStore")])

prop("P04", "A replica's clock never repeats or goes back, and is ahead of all it has seen",
 "Each timestamp a replica issues is greater than all it issued before and than every event it has received or seen, for any yarn, whatever the wall clock does (stops, jumps back) and across closing and reopening as far as branch tips tell; it is not behind the wall clock. What is no event, and what is of the end of time, is refused and does not move the clock.",
 ["histories", "schedules"], "any sequence of timestamps asked for, events seen and received, wall-clock jumps, branches and reopening",
 "The stable tests do not build the replica.",
 ["db/replica.cc", "ron/uuid.hpp"],
 [("clock", "db/replica.cc Now, See"), ("seen on opening", "db/replica.cc Open")])

prop("P05", "No frame at all can damage a replica",
 "Whatever bytes are fed to a replica, it answers with success or an error. A refused frame leaves the stored data byte for byte as it was. After an accepted one every record still merges and can be read, every log begins with all it had before, the answer is a well-formed frame; and the replica can always be opened again.",
 ["inputs", "histories"], "bytes at random, mutated and repeated frames, ops of any id, reference, values and chunk ends, queries of any type, after any history",
 "The stable tests do not build the replica; its scripts have well-formed frames only.",
 ["db/replica.cc", "db/replica.hpp", "db/map/txt.hpp", "ron/text-parser.rl"],
 [("dispatch", "db/replica.cc Receive, ReceiveQuery, ReceiveWrites"), ("all or nothing", "db/replica.cc Commit::Save")])

prop("P06", "A branch tells of every event where it belongs and what its object was then",
 "For every event a branch has, its record gives the object the event belongs to, the type of the object, a head of the chain the event is in and the event before it in the chain; for every yarn it gives the last event; an id that is no event of the branch has no record. The state of an object as of any event of it is the fold of the events of the object up to and including that event in the order the branch took them. This holds for what came in any frames, in forks, and after reopening.",
 ["histories"], "any history of frames, forks and reopening; every event and ids next to events, every version of every object",
 "The stable tests do not build the replica; its scripts ask for a few logs.",
 ["db/replica.cc", "db/replica.hpp", "ron/opmeta.hpp", "rdt/rdt.hpp"],
 [("records of events", "db/replica.cc FindOpMeta, FindChainHeadMeta, FindYarnTipMeta"), ("versions", "db/replica.hpp GetObjectVersion")])

prop("U01", "The compressed id stack behaves as a plain list",
 "For any sequence of pushes and pops the compressed stack of ids or numbers has the size, first and last elements and order of a plain list of the same values; walking it by any mix of single steps, jumps and whole-span skips visits the same values as the same walk over the list. Runs of consecutive values take one entry.",
 ["histories"], "any sequence of pushes and pops of consecutive and arbitrary values, any walk",
 "One test pushes a thousand consecutive numbers.",
 ["ron/inc_stack.hpp"],
 [("runs", "ron/inc_stack.hpp push_back, pop_back"), ("walks", "ron/inc_stack.hpp const_iterator")])

prop("U02", "Clock values follow real time; statuses keep their meaning",
 "The time part of an id made from a moment of real time grows with that moment, within the clock's resolution, and the present is never behind an earlier reading. Every named status is an id with a fixed readable text, which reads back as that status when it is sent in an op; all are distinct, success is the only one that is no error, and a comment keeps the code. Two statuses, named or made of any ids, are the same just if their ids are.",
 ["inputs"], "any pair of moments from 2010 to 2100 with any fraction of a second; all statuses and comments",
 "No test compares clock values or checks status texts.",
 ["ron/uuid.cc", "ron/status.hpp", "ron/status.cc"],
 [("clock", "ron/uuid.cc HybridTime, Now"), ("statuses", "ron/status.cc")])

prop("U03", "A slice is the bytes it was cut to, no more and no less",
 "A slice made, consumed, shortened, stepped or cut in any way reads as exactly the bytes it covers: its size, bytes, text, equality and hash depend on those bytes only, whatever is before and after them in memory, and no byte outside is ever touched. A frame made of a slice has exactly the ops that the slice spells.",
 ["inputs", "histories"], "any bytes, zero bytes included, any way to make a slice, any sequence of consumption, stepping, shortening and cuts inside it",
 "No test makes a slice that starts inside a buffer or ends before a zero byte.",
 ["ron/slice.hpp", "ron/text.hpp"],
 [("ranges", "ron/slice.hpp Range"), ("slices", "ron/slice.hpp Slice"), ("a frame of a slice", "ron/text.hpp TextFrame(Slice)")])

prop("C01", "Work in one thread does not show in another",
 "Independent work done at the same time in several threads gives in each the same results it gives alone: reading one shared frame, writing and copying frames, merging and reducing, mapping and indexing, naming and reading ids and clock values. There is no data race: what the threads only read is not written by any of them, and no call keeps its results or its scratch memory where another thread's call would find it.",
 ["schedules", "inputs"], "any split of any tasks between threads, any data, the frames and ids they read shared between them, any interleaving",
 "The tests have one thread; a static scratch buffer or a lazily filled member gives right answers until two calls overlap.",
 ["ron/uuid.cc", "ron/text.hpp", "rdt/rdt.hpp", "ron/frames.hpp", "rdt/ct.hpp"],
 [("clock values", "ron/uuid.cc HybridTime, Now"), ("reading of a frame", "ron/text.hpp TextFrame::Cursor"), ("reducers", "rdt/rdt.hpp MasterRDT"), ("hashing", "ron/hash.hpp, ron/hashes.hpp")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
